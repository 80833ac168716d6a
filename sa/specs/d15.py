# Regimes: designs and stability tests
FLOOR["D15"] = 180
REG = {"rows 3": ["b", "a", "b"], "rows 4": ["b", "a", "b", "c"], "rows 5": [2, 1, 2, 1, 3]}
DES = '''
def design(x, regimes):
    # one column per regime and regressor: the regressor on the observations of the regime, zero elsewhere
    rs = sorted(set(regimes))
    n, k = x.shape
    return np.array([[x[i, j] if regimes[i] == r else 0 for r in rs for j in range(k)] for i in range(n)])
def fixed(x, regimes, cols):
    on = [j for j in range(len(cols)) if cols[j]]
    off = [j for j in range(len(cols)) if not cols[j]]
    if not off:
        return design(x, regimes)
    if not on:
        return x
    return np.hstack((design(x[:, on], regimes), x[:, off]))
'''
for nm, rg in REG.items():
    for k in (1, 2, 3):
        R("D15", "regimes.x2xsp", DES + "def spec(x, regimes):\n    return {'ret': design(x, regimes)}\n", sc={"x": P, "regimes": rg, "regimes_set": sorted(set(rg))}, shapes={"x": (num(len(rg)), num(k))}, dims=True, name="%s, %d regressors" % (nm, k))
    for cols in ([True, True], [False, False], [True, False], [False, True], [True, False, True], [False, False, True]):
        R("D15", "regimes.regimeX_setup", DES + "def spec(x, regimes, cols2regi):\n    return {'ret': fixed(x, regimes, cols2regi)}\n", sc={"x": P, "regimes": rg, "cols2regi": cols, "regimes_set": sorted(set(rg))},
          shapes={"x": (num(len(rg)), num(len(cols)))}, dims=True, name=nm)
    R("D15", "regimes._get_regimes_set", "def spec(regimes):\n    return {'ret': %r}\n" % sorted(set(rg)), sc={"regimes": rg}, name=nm)
WALD = """
def wald(b, R, V):
    d = R@b
    return (d.T@la.inv(R@V@R.T)@d)[0][0]
"""
R("D15", "regimes.wald_test", "def spec(betas, r, q, vm):\n    d = r@betas - q\n    w = (d.T@la.inv(r@vm@r.T)@d)[0][0]\n    return {'ret[0]': w, 'ret[1]': stats.chi2.sf(w, r.shape[0])}\n",
  shapes={"betas": (K, N1), "r": (SYM("J"), K), "q": (SYM("J"), N1), "vm": (K, K)})
# the coefficients of regressor v over the regimes: exogenous ones regime by regime, then endogenous ones regime by regime, then the fixed ones
POS = """
def col(v, r, kr, kryd, nr):
    ke = kr - kryd
    return r*ke + v if v < ke else ke*nr + r*kryd + (v - ke)
def equal(v, kr, kf, kryd, nr):
    # the coefficient of the first regime equals that of every other regime
    return [[1 if c == col(v, 0, kr, kryd, nr) else (-1 if c == col(v, r, kr, kryd, nr) else 0) for c in range(kr*nr + kf)] for r in range(1, nr)]
"""
for nr, kr, kf, kryd in ((2, 1, 0, 0), (2, 2, 0, 0), (3, 2, 1, 0), (2, 3, 0, 1), (3, 3, 2, 1), (3, 2, 1, 1), (4, 4, 0, 2), (2, 5, 0, 3)):
    sc = {"kr": kr, "kf": kf, "kryd": kryd, "nr": nr}
    n = nr * kr + kf
    for v in range(kr):
        R("D15", "regimes.buildR1var", POS + "def spec(vari, kr, kf, kryd, nr):\n    return {'ret': np.array(equal(vari, kr, kf, kryd, nr))}\n", sc={"vari": v, **sc}, dims=True)
    R("D15", "regimes._chow_run", POS + WALD + """
def spec(kr, kf, kryd, nr, betas, vm):
    d, A = {}, []
    for v in range(kr):
        E = equal(v, kr, kf, kryd, nr)
        A = A + E
        w = wald(betas, np.array(E), vm)
        d['ret[1][%d,0]' % v] = w
        d['ret[1][%d,1]' % v] = stats.chi2.sf(w, nr - 1)
    w = wald(betas, np.array(A), vm)
    d['ret[0][0]'] = w
    d['ret[0][1]'] = stats.chi2.sf(w, kr*(nr - 1))
    return d
""", sc={**sc, "betas": P, "vm": P}, shapes={"betas": (num(n), N1), "vm": (num(n), num(n))}, dims=True, sym={"vm"})
# names and kinds of the columns, in the order of the columns
for rg in (["b", "a", "b"], [2.0, 1.0, 3.0]):
    for ci, cols in (("many", [True, True]), ("one", [False, True, False]), (False, [True, False]), ("many", [True, False, True]), (False, [True, True]), ("one", [False, False])):
        names = ["v%d" % i for i in range(len(cols) - (1 if ci else 0))]
        kinds = (["o"] if ci else []) + ["x"] * len(names)
        rs = [int(r) if isinstance(r, float) else r for r in sorted(set(rg))]
        full = (["CONSTANT"] if ci else []) + names
        on, off = [j for j in range(len(cols)) if cols[j]], [j for j in range(len(cols)) if not cols[j]]
        nn = ["%s_%s" % (r, full[j]) for r in rs for j in on] + ["_Global_" + full[j] for j in off]
        kk = [kinds[j] for r in rs for j in on] + [kinds[j] for j in off]
        rr = [str(r) for r in rs for j in on] + ["_Global"] * len(off)
        for rl in (False, True):
            R("D15", "regimes.set_name_x_regimes", "def spec():\n    return {'ret[0]': %r, 'ret[1]': %r%s}\n" % (nn, kk, ", 'ret[2]': %r" % rr if rl else ""),
              sc={"name_x": names, "constant_regi": ci, "cols2regi": cols, "regimes_set": rs, "xtype": kinds, "rlist": rl})
# observations scaled by the standard deviation of the residuals of their regime
for nm, rg in (("rows 4", ["b", "a", "b", "a"]), ("rows 6", [1, 2, 1, 1, 2, 2])):
    for k in (1, 2):
        for adj in (False, True):
            if adj and k*4 > len(rg):
                continue
            R("D15", "regimes._get_weighted_var", """
def spec(regimes, u, y, x):
    n, k = x.shape
    s = {}
    for r in sorted(set(regimes)):
        I = [i for i in range(n) if regimes[i] == r]
        v = 0
        for i in I:
            v = v + u[i, 0]**2
        s[r] = np.sqrt(v/(len(I) - %s))
    return {'ret[0]': np.array([[y[i, 0]/s[regimes[i]]] for i in range(n)]), 'ret[1]': np.array([[x[i, j]/s[regimes[i]] for j in range(k)] for i in range(n)])}
""" % ("k" if adj else "0"), sc={"regimes": rg, "regimes_set": sorted(set(rg)), "sig2n_k": adj, "u": P, "y": P, "x": P}, shapes={"x": (num(len(rg)), num(k)), "y": (num(len(rg)), N1), "u": (num(len(rg)), N1)}, dims=True, name="%s, %d regressors" % (nm, k), types={"x": "ndarray"})
# estimators with regimes: the designs, names and counts they work with
FR = '''
def names(nm, cols, rs, k):
    full = nm
    return ["%s_%s" % (r, full[j]) for r in rs for j in range(k) if cols[j]] + ["_Global_%s" % full[j] for j in range(k) if not cols[j]]
'''
RG6 = ["b", "a", "b", "a", "a", "b"]
for ci, cols in (("many", "all"), ("one", "all"), ("many", [True, False]), ("one", [False, True]), ("many", [False, False])):
    R("D15", "twosls_regimes.TSLS_Regimes", DES + FR + """
def spec(y, x, yend, q, regimes, name_x, name_yend, name_q):
    ci, cols = %r, %r
    full = np.hstack((np.ones((6, 1)), x))
    cx = [ci == "many"] + ([True] if cols == "all" else cols[:1])
    cy = [True] if cols == "all" else cols[1:]
    X, YE, Q = fixed(full, regimes, cx), fixed(yend, regimes, cy), design(q, regimes)
    rs = sorted(set(regimes))
    kr = len([c for c in cx + cy if c])
    return {'q': Q, 'z': np.hstack((X, YE)), 'h': np.hstack((X, Q)), 'kr': kr, 'kf': 3 - kr, 'kryd': 1 if cy[0] else 0, 'nr': 2,
            'name_x': names(["CONSTANT"] + name_x, cx, rs, 2), 'name_yend': names(name_yend, cy, rs, 1), 'name_q': names(name_q, [True, True], rs, 2)}
""" % (ci, cols), sc={"y": P, "x": P, "yend": P, "q": P, "regimes": RG6, "constant_regi": ci, "cols2regi": cols, "regime_err_sep": False, "name_x": ["v"], "name_yend": ["e"], "name_q": ["q0", "q1"], "summ": False, "vm": False},
      shapes={"y": (num(6), N1), "x": (num(6), N1), "yend": (num(6), N1), "q": (num(6), num(2))}, dims=True, opaque=["regimes._chow_run"])
# one estimation per regime: block r of every result is the estimate from the observations of regime r alone
R("D15", "twosls_regimes.TSLS_Regimes", """
from spreg.twosls import BaseTSLS
def one(y, x, yend, q, I):
    return BaseTSLS(y[I], np.hstack((np.ones((10, 1)), x))[I], yend[I], q[I], robust=None, sig2n_k=True)
def spec(y, x, yend, q, regimes):
    I = [[i for i in range(10) if regimes[i] == r] for r in sorted(set(regimes))]
    b, c = one(y, x, yend, q, I[0]), one(y, x, yend, q, I[1])
    V = np.zeros((6, 6))
    V[0:3, 0:3] = b.vm
    V[3:6, 3:6] = c.vm
    B = np.zeros((6, 1))
    B[0:3] = b.betas
    B[3:6] = c.betas
    U, F = np.zeros((10, 1)), np.zeros((10, 1))
    U[I[0]] = b.u
    U[I[1]] = c.u
    F[I[0]] = b.predy
    F[I[1]] = c.predy
    return {'betas': B, 'vm': V, 'u': U, 'predy': F, 'kr': 3, 'kf': 0, 'kryd': 0, 'nr': 2}
""", sc={"y": P, "x": P, "yend": P, "q": P, "regimes": ["b", "a", "b", "a", "a", "b", "a", "b", "a", "b"], "constant_regi": "many", "cols2regi": "all", "regime_err_sep": True, "name_x": ["v"], "name_yend": ["e"], "name_q": ["q0", "q1"], "summ": False, "vm": False, "cores": False, "robust": None, "sig2n_k": True},
      shapes={"y": (num(10), N1), "x": (num(10), N1), "yend": (num(10), N1), "q": (num(10), num(2))}, dims=True, opaque=["regimes._chow_run", "twosls.BaseTSLS"], attrs={"twosls.BaseTSLS." + k: v for k, v in (("betas", (num(3), N1)), ("vm", (num(3), num(3))), ("u", (num(5), N1)), ("predy", (num(5), N1)))})
# the weights of a regime: the subset of w on its observations, under the transformation of w
SUBW = """
from libpysal import weights
def subset(w, I):
    s = weights.set_operations.w_subset(w, [w.id_order[i] for i in I])
    s.transform = w.transform
    return s
"""
R("D15", "regimes.w_regime", SUBW + "def spec(w, regi_ids):\n    return {'ret[0]': subset(w, regi_ids)}\n", sc={"w": P, "regi_ids": [0, 2, 5], "regi_i": "a", "transform": True, "min_n": None}, types={"w": "W"}, name="transform")
R("D15", "regimes.w_regime", SUBW + "def spec(w, regi_ids):\n    return {'ret[0]': weights.set_operations.w_subset(w, [w.id_order[i] for i in regi_ids])}\n", sc={"w": P, "regi_ids": [0, 2, 5], "regi_i": "a", "transform": False, "min_n": None}, types={"w": "W"}, name="raw")
for nm, rg in REG.items():
    rs = sorted(set(rg))
    ids = [[i for i, v in enumerate(rg) if v == r] for r in rs]
    obs = ['"ret[%d][%r]": %s' % (j, r, ("subset(w, %r)", "%r")[j] % (i,)) for r, i in zip(rs, ids) for j in (0, 1)]
    R("D15", "regimes.w_regimes", SUBW + "def spec(w):\n    return {%s}\n" % ", ".join(obs), sc={"w": P, "regimes": rg, "regimes_set": rs, "transform": True, "get_ids": True, "min_n": None}, types={"w": "W"}, name=nm)
# cols2regi: one flag per regressor, the constant first when it is added
for cr in ("many", "one"):
    for c2 in ("all", [True, False], [False, True]):
        for add in (True, False):
            e = ([cr == "many"] if add else []) + ([True, True] if c2 == "all" else c2)
            R("D15", "regimes.check_cols2regi", "def spec():\n    return {'ret': %r}\n" % e, sc={"constant_regi": cr, "cols2regi": c2, "x": P, "yend": P, "add_cons": add}, shapes={"x": (N, N1), "yend": (N, N1)}, dims=True)
            R("D15", "regimes.check_cols2regi", "def spec():\n    return {'ret': %r}\n" % e, sc={"constant_regi": cr, "cols2regi": c2, "x": P, "yend": None, "add_cons": add}, shapes={"x": (N, num(2))}, dims=True, name="no yend")
