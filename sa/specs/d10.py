# Spatial lags and instruments
FLOOR["D10"] = 250
WL = {"w": (N, N)}
LG = """
def lg(W, x, a, b):
    # lags a..b of x, one after the other
    v, res = x, []
    for i in range(1, b + 1):
        v = W@v
        if i >= a:
            res.append(v)
    return np.hstack(res)
def pan(W, x):
    return SP.kron(SP.identity(x.shape[0]//W.shape[0]), W)
"""
WP = {"w": P}
for k in (1, 2, 3):
    R("D10", "utils.get_lags", LG + "def spec(w, x):\n    return {'ret': lg(w.sparse, x, 1, %d)}\n" % k, sc={"w_lags": k, "panel": False, **WP})
    R("D10", "utils.get_lags", LG + "def spec(w, x):\n    W = np.kron(np.eye(x.shape[0]//w.n), w.sparse)\n    return {'ret': lg(W, x, 1, %d)}\n" % k, sc={"w_lags": k, "panel": True, **WP}, shapes={"x": (SYM("NT"), K)})
    R("D10", "utils.get_lags_split", LG + "def spec(w, x):\n    return {'ret[0]': lg(w.sparse, x, 1, %d), 'ret[1]': lg(w.sparse, x, %d, 4)}\n" % (k, k + 1), sc={"max_lags": 4, "split_at": k, **WP})
SV = {"None": "yend is None", "given": None}
for wl in (1, 2, 3):
    for lq in (True, False):
        big = "np.hstack((x, q))" if lq else "x"
        for e, W in (("set_endog", "w.sparse"), ("set_endog_sparse", "w")):
            kw = dict(types={"w": "csr_matrix"}, shapes=WL) if W == "w" else {}
            R("D10", "utils." + e, LG + "def spec(w, y, x, yend, q):\n    return {'ret[0]': np.hstack((yend, %s@y)), 'ret[1]': np.hstack((q, lg(%s, %s, 1, %d)))}\n" % (W, W, big, wl), sc={"w_lags": wl, "lag_q": lq, "yend": P, "q": P, **WP}, **kw)
            R("D10", "utils." + e, LG + "def spec(w, y, x):\n    return {'ret[0]': %s@y, 'ret[1]': lg(%s, x, 1, %d)}\n" % (W, W, wl), sc={"w_lags": wl, "lag_q": lq, "yend": None, "q": None, **WP}, **kw)
    for sl in (1, 2):
        R("D10", "utils.set_endog", LG + "def spec(w, y, x):\n    return {'ret[0]': w.sparse@y, 'ret[1]': lg(w.sparse, x, %d, %d), 'ret[2]': lg(w.sparse, x, 1, %d)}\n" % (sl + 1, sl + wl, sl), sc={"w_lags": wl, "slx_lags": sl, "yend": None, "q": None, **WP})
        for lq in (True, False):
            R("D10", "utils.set_endog", LG + "def spec(w, y, x, yend, q):\n    v = lg(w.sparse, x, %d, %d)\n    return {'ret[0]': np.hstack((yend, w.sparse@y)), 'ret[1]': np.hstack((q, lg(w.sparse, %s, 1, %d))), 'ret[2]': lg(w.sparse, x, 1, %d)}\n" % (sl, sl, "np.hstack((v, q))" if lq else "v", wl, sl),
              sc={"w_lags": wl, "slx_lags": sl, "lag_q": lq, "yend": P, "q": P, **WP})
for sl in (1, 2, 3):
    for c in (True, False):
        R("D10", "user_output.flex_wx", LG + "def spec(w, x):\n    v = x[:, 1:] if %s else x\n    return {'ret[0]': np.hstack((x, lg(w.sparse, v, 1, %d)))}\n" % (c, sl), sc={"slx_lags": sl, "constant": c, **WP})
# a choice of the variables that are lagged
C3 = {"x": (N, num(3))}
for sv in ([True, False, True], [False, True, False], [False, False, True]):
    v = "x[:, %s]" % [i for i, b in enumerate(sv) if b]
    for sl in (1, 2):
        R("D10", "user_output.flex_wx", LG + "def spec(w, x):\n    return {'ret[0]': np.hstack((x, lg(w.sparse, %s, 1, %d)))}\n" % (v, sl), sc={"slx_lags": sl, "constant": False, "slx_vars": sv, "name_x": ["a", "b", "c"], **WP}, shapes=C3)
        R("D10", "utils.set_endog", LG + "def spec(w, y, x):\n    return {'ret[0]': w.sparse@y, 'ret[1]': lg(w.sparse, x, %d, %d), 'ret[2]': lg(w.sparse, %s, 1, %d)}\n" % (sl + 1, sl + 2, v, sl), sc={"w_lags": 2, "slx_lags": sl, "slx_vars": sv, "yend": None, "q": None, **WP}, shapes=C3)
# the regressors and instruments of the estimators
DES = LG + '''
def const(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))
def design(y, x, yend, q, w, wl, sl, lq, sv):
    W = w.sparse
    xs = x if sv is None else x[:, sv]
    X = const(x) if sl == 0 else np.hstack((const(x), lg(W, xs, 1, sl)))
    if yend is None:
        return X, W@y, lg(W, x, sl + 1, sl + wl)
    v = x if sl == 0 else lg(W, x, sl, sl)
    base = np.hstack((v, q)) if lq else v
    return X, np.hstack((yend, W@y)), np.hstack((q, lg(W, base, 1, wl)))
'''
RET = "    return {'x': X, 'yend': Y, 'q': Q, 'z': np.hstack((X, Y)), 'h': np.hstack((X, Q))}\n"
OPM = ["utils.optim_moments", "twosls.BaseTSLS", "utils.sp_att"]
FULL = ("twosls_sp.GM_Lag", "error_sp.GM_Combo", "error_sp_het.GM_Combo_Het", "error_sp_hom.GM_Combo_Hom")
for e in FULL:
    for wl, sl, lq, sv in ((1, 0, True, None), (2, 0, True, None), (1, 1, True, None), (2, 1, True, None), (2, 2, True, None), (1, 1, True, [False, True, True]), (1, 2, True, [True, False, True])):
        for ye in (False, True):
            for lq in (True, False) if ye and wl == 2 else (True,):
                sc = {"w_lags": wl, "slx_lags": sl, "lag_q": lq, "yend": P if ye else None, "q": P if ye else None, **WP}
                kw = {}
                if sv is not None:
                    sc.update(slx_vars=sv, name_x=["a", "b", "c"])
                    kw["shapes"] = C3
                args = "%d, %d, %r, %s" % (wl, sl, lq, None if sv is None else [i for i, b in enumerate(sv) if b])
                R("D10", e, DES + "def spec(y, x%s, w):\n    X, Y, Q = design(y, x, %s, w, %s)\n" % (", yend, q" if ye else "", "yend, q" if ye else "None, None", args) + (RET if e != FULL[1] else RET.replace("'q': Q, ", "").replace(", 'h': np.hstack((X, Q))", "")), sc=sc, opaque=["utils.optim_moments", "utils.sp_att", "robust.robust_vm"], **kw)
for e in ("ols.OLS", "ml_lag.ML_Lag", "ml_error.ML_Error", "error_sp.GM_Error", "error_sp_het.GM_Error_Het", "error_sp_hom.GM_Error_Hom", "twosls.TSLS", "error_sp.GM_Endog_Error", "error_sp_het.GM_Endog_Error_Het", "error_sp_hom.GM_Endog_Error_Hom"):
    for sl, sv in ((1, None), (2, None), (1, [False, True, True]), (2, [True, False, True])):
        ye = "TSLS" in e or "Endog" in e
        kw = {}
        sc = {"slx_lags": sl, **WP}
        if ye:
            sc.update(yend=P, q=P)
        if sv is not None:
            sc.update(slx_vars=sv, name_x=["a", "b", "c"])
            kw["shapes"] = C3
        v = "x" if sv is None else "x[:, %s]" % [i for i, b in enumerate(sv) if b]
        r = ", 'z': np.hstack((X, yend)), 'h': np.hstack((X, q))" if ye else ""
        r = r.split(", 'h'")[0] if e == "error_sp.GM_Endog_Error" else r
        R("D10", e, DES + "def spec(y, x%s, w):\n    X = np.hstack((const(x), lg(w.sparse, %s, 1, %d)))\n    return {'x': X%s}\n" % (", yend, q" if ye else "", v, sl, r), sc=sc, opaque=["utils.optim_moments"], **kw)
