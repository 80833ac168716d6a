# Dense and sparse arguments give the same mathematical result
FLOOR["D17"] = 30
AB = {"a": (N, SYM("Q")), "b": (SYM("Q"), K), "val": ()}
DN, CSR, CSC = "ndarray", "csr_matrix", "csc_matrix"
for ta in (DN, CSR, CSC):
    for tb in (DN, CSR, CSC):
        for ao in (True, False):
            R("D17", "sputils.spdot", "def spec(a, b):\n    return {'ret': np.dot(a, b)}\n", sc={"array_out": ao}, shapes=AB, types={"a": ta, "b": tb}, name="%s with %s" % (ta, tb))
            if (ta == DN) == (tb == DN):
                R("D17", "sputils.spmultiply", "def spec(a, b):\n    return {'ret': np.multiply(a, b)}\n", sc={"array_out": ao}, shapes={"a": (N, K), "b": (N, K)}, types={"a": ta, "b": tb}, name="%s with %s" % (ta, tb))
            if CSC not in (ta, tb):
                R("D17", "sputils.sphstack", "def spec(a, b):\n    return {'ret': np.hstack((a, b))}\n", sc={"array_out": ao}, shapes={"a": (N, K), "b": (N, KE)}, types={"a": ta, "b": tb}, name="%s with %s" % (ta, tb))
for ta in (DN, CSR):
    for ao in (True, False):
        R("D17", "sputils.spbroadcast", "def spec(a, b):\n    return {'ret': %s}\n" % ("a*b" if ta == DN else "np.diag(b.flatten())@a"), sc={"array_out": ao}, shapes={"a": (N, K), "b": (N, N1)}, types={"a": ta, "b": DN}, name="%s" % ta)
for t in (DN, CSR, CSC):
    SQ = dict(shapes={"a": (N, N), "val": ()}, types={"a": t}, name=t)
    for f, s in (("spmin", "np.min(a)"), ("spmax", "np.max(a)"), ("spinv", "la.inv(a)"), ("splogdet", "la.slogdet(a)[1]"), ("spfill_diagonal", "a - np.diag(np.diag(a)) + val*np.eye(a.shape[0])"), ("spisfinite", "np.isfinite(np.sum(a))")):
        R("D17", "sputils." + f, "def spec(a, val):\n    return {'ret': %s}\n" % s, fresh=True, **SQ)
