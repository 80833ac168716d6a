# Impacts and reduced-form predictions
FLOOR["D11"] = 45
WP = {"w": P}
SM = dict(shapes={"rho": (), "coef": ()})
MU = '''
def mult(rho, adi):
    ati = 1/(1 - rho)
    return {"ret['ati']": ati, "ret['adi']": adi, "ret['aii']": ati - adi}
'''
R("D11", "sputils.spmultiplier", MU + "def spec(w, rho):\n    return mult(rho, 1)\n", sc={"method": "simple", **WP}, **SM)
R("D11", "sputils.spmultiplier", MU + "def spec(w, rho):\n    return mult(rho, np.trace(la.inv(np.eye(w.n) - rho*w.sparse))/w.n)\n", sc={"method": "full", **WP}, **SM)
for k in (1, 2, 3, 4):
    t = "".join(" + rho**%d*np.trace(%s)/w.n" % (i, "@".join(["w.sparse"] * i)) for i in range(2, k + 2))
    R("D11", "sputils.spmultiplier", MU + "def spec(w, rho):\n    d = mult(rho, 1%s)\n    d[\"ret['pow']\"] = %d\n    return d\n" % (t, k + 1), sc={"method": "power", **WP}, loops=k, name="%d terms" % k, **SM)
# the truncated series and the exact inverse
for pm in (False, True):
    for k in (1, 2, 3):
        for t, W in (("W", "w.sparse"), ("csr_matrix", "w")):
            R("D11", "utils.inverse_prod", """
def spec(w, data, scalar, threshold):
    v = data%s
    r = v
    for i in range(%d):
        v = scalar*(%s)
        r = r + v
    return {'ret': r, 'test[-1]': la.norm(v) > threshold}
""" % (".T" if pm else "", k, "v@%s" % W if pm else "%s@v" % W), sc={"post_multiply": pm, "inv_method": "power_exp", "threshold": P, **WP}, loops=k, shapes={"data": (N, N1), "scalar": (), **({"w": (N, N)} if t != "W" else {})}, types={"w": t}, name="%s, %d terms" % (t, k),
              assume=lambda c: False if c.op == "cmp" and c.a[0] in (">", "<") and any(x.op == "call" and x.a[0] == "numpy.linalg.norm" for x in subterms(c)) else None)
    for t, W in (("W", "w.sparse"), ("csr_matrix", "w")):
        M = "la.inv(np.eye(w.shape[0]) - scalar*%s)" % W if W == "w" else "la.inv(np.eye(w.n) - scalar*%s)" % W
        R("D11", "utils.inverse_prod", "def spec(w, data, scalar):\n    return {'ret': %s}\n" % ("data.T@" + M if pm else M + "@data"), sc={"post_multiply": pm, "inv_method": "true_inv", **WP}, shapes={"data": (N, N1), "scalar": (), **({"w": (N, N)} if t != "W" else {})}, types={"w": t}, name=t, fail=t != "W")
# reduced-form predictions
SA = dict(shapes={"rho": (), "y": (N, N1), "predy": (N, N1), "w_y": (N, N1)}, opaque=["utils.inverse_prod"])


def inside(ok):
    def f(c):
        if c.op == "not":
            v = f(c.a[0])
            return None if v is None else not v
        if c.op == "cmp" and any(x.op in ("param", "attr") for x in subterms(c)) and any(isconst(x) and cval(x) == 1 for x in c.a[1:]):
            k = [i for i in (1, 2) if not (isconst(c.a[i]) and cval(c.a[i]) == 1)]
            if k and c.a[0] in ("<", "<=", ">", ">="):
                return ok == ((c.a[0][0] == "<") == (k[0] == 1))
        return None
    return f


IP = "from spreg.utils import inverse_prod\n"
R("D11", "utils.sp_att", IP + "def spec(w, y, predy, w_y, rho):\n    p = inverse_prod(w, predy - rho*w_y, rho)\n    return {'ret[0]': p, 'ret[1]': y - p, 'ret[2]': None}\n", sc=WP, assume=inside(True), **SA)
R("D11", "utils.sp_att", "def spec(y):\n    return {'ret[0]': np.zeros(y.shape), 'ret[1]': np.zeros(y.shape)}\n", sc={"hard_bound": False, **WP}, assume=inside(False), name="outside", **SA)
for t, mod, dr, M in (("W", "slx", "np.zeros((n, 1))", "w.sparse"), ("ndarray", "kernel", "np.diag(w).reshape(-1, 1)", "w - np.diag(np.diag(w))"), ("W", "lag", "np.diag(A).reshape(-1, 1)", "A - np.diag(np.diag(A))"),
                      ("ndarray", "lag", "np.diag(A).reshape(-1, 1)", "A - np.diag(np.diag(A))"), ("ndarray", "slx", "np.zeros((n, 1))", "w"),
                      ("csr_matrix", "power", "np.zeros((n, 1))", "w.power(coef)"), ("csr_matrix", "exponential", "np.zeros((n, 1))", None)):
    src = "import pandas as pd\ndef spec(w, coef):\n    n = %s\n    A = la.inv(np.eye(n) - coef*%s)\n" % (("w.n", "w.sparse") if t == "W" else ("w.shape[0]", "w"))
    if M is None:
        src += "    M = w.copy()\n    M.data = np.exp(w.data*-coef)\n"
    else:
        src += "    M = %s\n" % M
    src += "    d = %s\n    v = np.hstack((d, np.sum(M, axis=1).reshape(-1, 1), np.sum(M, axis=0).reshape(-1, 1)))\n" % dr
    src += "    i = pd.DataFrame(np.arange(n, dtype='int32').reshape(-1, 1), columns=['ID'])\n    return {'ret': pd.concat([i, pd.DataFrame(v, columns=['Direct', 'EofNbrs', 'EonNbrs'], index=i.index)], axis=1)}\n"
    R("D11", "sputils.i_multipliers", src, sc={"model": mod, "id": None, **WP}, shapes={"coef": (), **({"w": (N, N)} if t != "W" else {})}, types={"w": t}, name=t)
# reduced-form predictions of the estimators (coefficient within the bounds)
PR = IP + "def spec(m, y, w):\n    p = inverse_prod(%s, m.predy - rho(m)*(%s@y), rho(m))\n    return {'predy_e': p, 'e_pred': y - p}\n"
OPI = ["utils.optim_moments", "utils.inverse_prod", "robust.robust_vm"]
for e, at_ in (("twosls_sp.GM_Lag", -1), ("error_sp.GM_Combo", -2), ("error_sp_het.GM_Combo_Het", -2), ("error_sp_hom.GM_Combo_Hom", -2), ("ml_lag.ML_Lag", -1), ("ml_lag.BaseML_Lag", -1)):
    for sl in (0, 1):
        for ye in ((False, True) if "ML" not in e else (False,)):
            sc = {"slx_lags": sl, **WP}
            if ye:
                sc.update(yend=P, q=P)
            if "Base" in e and sl:
                continue
            R("D11", e, "def rho(m):\n    return m.rho\n" + (PR if "ML" not in e else PR.replace("rho(m))\n    ret", "rho(m), threshold=epsilon)\n    ret").replace("y, w)", "y, w, epsilon)")) % ("w", "w.sparse"), sc=sc, opaque=OPI, assume=inside(True), cut=["rho", "predy"], name="inside")
# direct, indirect and total impacts
EF = "def spec(reg, variables, spmult):\n    i = variables.index\n    t = spmult['ati']*reg.betas[i]\n    d = spmult['adi']*reg.betas[i]\n"
R("D11", "sputils._sp_effects", EF + "    return {'ret[0]': t, 'ret[1]': d, 'ret[2]': spmult['aii']*reg.betas[i]}\n", sc={"slx_lags": 0})
