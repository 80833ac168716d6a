# Result tables: one row per coefficient, in the order of the coefficients, with the name and the kind of its column
FLOOR["D01"] = 800
QUIET = {"spat_diag": False, "latex": False, "vm": False, "nonspat_diag": False, "white_test": False, "moran": False, "spat_impacts": None, "robust": None, "regimes": None, "diagnostics": False}


def table(entry, rows, sc=None, shapes=None, types=None, design=None, w=True, opaque=(), name=None, y=None, x=2, yend=0, q=0, **kw):
    """rows: (name, kind) of every coefficient"""
    s = {"y": P, "x": P, "w": P if w else None, "name_y": "y", "name_x": ["a", "b", "c"][:x], **QUIET, **(sc or {})}
    sh = {"y": (N, N1), "x": (N, num(x)), "w": None, **(shapes or {})}
    if yend:
        s.update({"yend": P, "q": P, "name_yend": ["e", "f"][:yend], "name_q": ["p", "q"][:q]})
        sh.update({"yend": (N, num(yend)), "q": (N, num(q))})
    obs = {"output['var_names']": [r[0] for r in rows], "output['var_type']": [r[1] for r in rows]}
    if design:  # the columns of the design, in the order of the names; further coefficients follow those of the design
        at, cols, k = design
        assert k <= len(rows)
        src = "def spec(%s):\n    d = %r\n    d[%r] = np.hstack((np.ones((x.shape[0], 1)), x%s))\n    return d\n" % (", ".join(["x", "w"] * w + ["x"] * (not w) + ["y"] + ["yend"] * bool(yend)), {**obs, "##" + at: k}, at, "".join(", " + c for c in cols))
    else:
        src = "def spec():\n    return %r\n" % {**obs, "#betas": len(rows)}
    R("D01", entry, src, sc=s, shapes=sh, types={"w": "W", **(types or {})} if w else types or {}, dims=True, opaque=["output.output", *opaque], name=name, **kw)


CONS = [("CONSTANT", "o")]
XS = [("a", "x"), ("b", "x")]
ES = [("e", "yend"), ("f", "yend")]
# Durbin terms: options and the names they add
SLX = [({"slx_lags": 0}, []), ({"slx_lags": 1}, ["W_a", "W_b"]), ({"slx_lags": 1, "slx_vars": [False, True]}, ["W_b"]), ({"slx_lags": 2}, ["W_a", "W_b", "W2_a", "W2_b"]), ({"slx_lags": 2, "slx_vars": [True, False]}, ["W_a", "W2_a"])]
RHO, LAM = [("W_y", "rho")], [("lambda", "lambda")]
for o, wx in SLX:
    wl, wk = [(n, "wx") for n in wx], [(n, "x") for n in wx]
    nm = " ".join("%s=%s" % p for p in sorted(o.items()))
    xc = "x" if "slx_vars" not in o else "x[:, %r]" % [i for i, v in enumerate(o["slx_vars"]) if v]
    wc = ["w.sparse@" * (i + 1) + xc for i in range(o["slx_lags"])]
    xk = len(CONS + XS + wl)
    none = {"yend": None, "q": None}
    table("ols.OLS", CONS + XS + wk, o, design=("x", wc, xk), name=nm)
    table("twosls.TSLS", CONS + XS + wk + ES, o, design=("z", wc + ["yend"], xk + 2), yend=2, q=2, name=nm)
    table("twosls_sp.GM_Lag", CONS + XS + wl + RHO, {**o, **none}, design=("z", wc + ["w.sparse@y"], xk + 1), name=nm)
    table("twosls_sp.GM_Lag", CONS + XS + wl + ES + RHO, {**o, "w_lags": 2}, design=("z", wc + ["yend", "w.sparse@y"], xk + 3), yend=2, q=2, name=nm)
    table("ml_lag.ML_Lag", CONS + XS + wl + RHO, o, design=("x", wc, xk), name=nm)
    table("ml_error.ML_Error", CONS + XS + wk + LAM, o, design=("x", wc, xk), name=nm)
    for sf, mod in (("", "error_sp"), ("_Het", "error_sp_het"), ("_Hom", "error_sp_hom")):
        table("%s.GM_Error%s" % (mod, sf), CONS + XS + wk + LAM, o, design=("x", wc, xk), name=nm)
        table("%s.GM_Endog_Error%s" % (mod, sf), CONS + XS + wk + ES + LAM, o, design=("z", wc + ["yend"], xk + 2), yend=2, q=2, name=nm)
        table("%s.GM_Combo%s" % (mod, sf), CONS + XS + wl + RHO + LAM, {**o, **none}, design=("z", wc + ["w.sparse@y"], xk + 1), name=nm)
        table("%s.GM_Combo%s" % (mod, sf), CONS + XS + wl + ES + RHO + LAM, {**o, "w_lags": 2}, design=("z", wc + ["yend", "w.sparse@y"], xk + 3), yend=2, q=2, name=nm)
table("probit.Probit", CONS + XS, {}, design=("x", [], 3))
# panels: in the wide format every variable has one column per period and one coefficient
NT = NF().mul(SYM("T"), N)
for cls, cons, tail in (("PooledOLS", CONS, []), ("PanelFE", [], []), ("PanelRE", CONS, []), ("GM_ErrorPooled", CONS, LAM), ("ML_ErrorPooled", CONS, LAM),
                        ("GM_ErrorRE", CONS, [("lambda", "lambda"), (" sigma2_v", " sigma2_v"), ("sigma2_1", "sigma2_1")]), ("ML_ErrorFE", [], LAM), ("ML_ErrorRE", CONS, [("lambda", "lambda"), ("sigma2_u", "sigma2_u")]),
                        ("ML_LagFE", [], [("W_y", "rho")]), ("ML_LagRE", CONS, [("W_y", "rho"), ("phi", "phi")])):
    for o, wx in SLX:
        rows = cons + XS + [(n, "wx") for n in wx] + tail
        nm = " ".join("%s=%s" % p for p in sorted(o.items()))
        for f, sc, sh in (("long", {}, {"y": (NT, N1), "x": (NT, num(2))}), ("wide", {"name_y": ["y70", "y80", "y90"], "name_x": ["a70", "a80", "a90", "b70", "b80", "b90"]}, {"y": (N, num(3)), "x": (N, num(6))})):
            obs = {"output['var_names']": [r[0] for r in rows], "output['var_type']": [r[1] for r in rows], **({} if cls == "ML_LagRE" else {"##x": len(rows) - len(tail)})}
            R("D01", "panel." + cls, "def spec():\n    return %r\n" % obs, sc={"y": P, "x": P, "w": P, "name_y": "y", "name_x": ["a", "b"], **QUIET, **o, **sc}, shapes={**sh, "w": None}, types={"w": "W"}, dims=True, opaque=["output.output"], name="%s %s" % (f, nm))
# regimes: the coefficients that vary come regime by regime, then those that are common; exogenous before endogenous
RG = ["b", "a", "b", "a", "a", "b", "a", "b", "a", "b", "a", "b", "a", "b"]
VAR = {"all": [True] * 9, "a only": [True, False], "b only": [False, True]}


def regi(rows, flags, rs=("a", "b")):
    return [("%s_%s" % (r, n), k) for r in rs for (n, k), f in zip(rows, flags) if f] + [("_Global_" + n, k) for (n, k), f in zip(rows, flags) if not f]


def rtable(entry, rows, sc, yend=0, q=0, name="", more=None, kinds=True):
    s = {"y": P, "x": P, "regimes": RG, "w": P, "name_y": "y", "name_x": ["a", "b"], "name_regimes": "g", **{k: v for k, v in QUIET.items() if k != "regimes"}, **sc}
    n = num(len(RG))
    sh = {"y": (n, N1), "x": (n, num(2)), "w": None}
    if yend:
        s.update({"yend": P, "q": P, "name_yend": ["e", "f"][:yend], "name_q": ["p", "q"][:q]})
        sh.update({"yend": (n, num(yend)), "q": (n, num(q))})
    obs = {"output['var_names']": [r[0] for r in rows], "output['var_type']": [r[1] for r in rows], **(more or {})}
    if not kinds:
        del obs["output['var_type']"]
    R("D01", entry, "def spec():\n    return %r\n" % obs, sc=s, shapes=sh, types={"w": "W"}, dims=True, opaque=["output.output", "regimes._chow_run"], name=name)


for cr in ("many", "one"):
    for fl, cols in VAR.items():
        f2 = cols[:2]
        o = {"constant_regi": cr, "cols2regi": "all" if fl == "all" else f2, "regime_err_sep": False}
        cv = [cr == "many"]
        nm = cr + " " + fl
        rtable("ols_regimes.OLS_Regimes", regi(CONS + XS, cv + f2), {**o, "w": None}, name=nm)
        rtable("ml_error_regimes.ML_Error_Regimes", regi(CONS + XS, cv + f2) + LAM, o, name=nm)
        for sf, mod in (("", "error_sp_regimes"), ("_Het", "error_sp_het_regimes"), ("_Hom", "error_sp_hom_regimes")):
            rtable("%s.GM_Error%s_Regimes" % (mod, sf), regi(CONS + XS, cv + f2) + LAM, o, name=nm)
        for o2, none in (({**o, "cols2regi": "all" if fl == "all" else f2 + f2}, False), (o, True)):
            ye = [] if none else ES
            cy = f2 if not none else []
            kw = {} if none else {"yend": 2, "q": 2}
            o2 = {**o2, **({"yend": None, "q": None} if none else {})}
            if not none:
                rtable("twosls_regimes.TSLS_Regimes", regi(CONS + XS, cv + f2) + regi(ye, cy), {**o2, "summ": False, "w": None}, name=nm, **kw)
                for sf, mod in (("", "error_sp_regimes"), ("_Het", "error_sp_het_regimes"), ("_Hom", "error_sp_hom_regimes")):
                    rtable("%s.GM_Endog_Error%s_Regimes" % (mod, sf), regi(CONS + XS, cv + f2) + regi(ye, cy) + LAM, {**o2, "add_lag": False}, name=nm, **kw)
            rtable("twosls_sp_regimes.GM_Lag_Regimes", regi(CONS + XS, cv + f2) + regi(ye + RHO, cy + [False]), {**o2, "regime_lag_sep": False, "slx_lags": 0}, name=nm, **kw)
            for sf, mod in (("", "error_sp_regimes"), ("_Het", "error_sp_het_regimes"), ("_Hom", "error_sp_hom_regimes")):
                rtable("%s.GM_Combo%s_Regimes" % (mod, sf), regi(CONS + XS, cv + f2) + regi(ye + RHO, cy + [False]) + LAM, {**o2, "regime_lag_sep": False, "slx_lags": 0}, name=nm, **kw)
        rtable("ml_lag_regimes.ML_Lag_Regimes", regi(CONS + XS, cv + f2) + regi(RHO, [False]), {**o, "regime_lag_sep": False, "slx_lags": 0}, name=nm)


def each(rows, rs=("a", "b")):
    return [("%s_%s" % (r, n), k) for r in rs for n, k in rows]


SEP = {"constant_regi": "many", "cols2regi": "all", "regime_err_sep": True, "cores": False}
WR = ["regimes.w_regime", "regimes.w_regimes"]
rtable("ols_regimes.OLS_Regimes", each(CONS + XS), {**SEP, "w": None}, name="separate")
rtable("ml_error_regimes.ML_Error_Regimes", each(CONS + XS + LAM), SEP, name="separate")
rtable("ml_lag_regimes.ML_Lag_Regimes", each(CONS + XS + RHO), {**SEP, "regime_lag_sep": True, "slx_lags": 0}, name="separate")
for none in (True, False):
    ye = [] if none else ES
    kw = {} if none else {"yend": 2, "q": 2}
    o = {**SEP, **({"yend": None, "q": None} if none else {})}
    rtable("twosls_sp_regimes.GM_Lag_Regimes", each(CONS + XS + ye + RHO), {**o, "regime_lag_sep": True, "slx_lags": 0}, name="separate", **kw)
    if not none:
        rtable("twosls_regimes.TSLS_Regimes", each(CONS + XS + ye), {**o, "summ": False, "w": None}, name="separate", **kw)
    for sf, mod in (("", "error_sp_regimes"), ("_Het", "error_sp_het_regimes"), ("_Hom", "error_sp_hom_regimes")):
        if none:
            rtable("%s.GM_Error%s_Regimes" % (mod, sf), each(CONS + XS + LAM), SEP, name="separate")
        else:
            rtable("%s.GM_Endog_Error%s_Regimes" % (mod, sf), each(CONS + XS + ye + LAM), {**o, "add_lag": False}, name="separate", **kw)
        rtable("%s.GM_Combo%s_Regimes" % (mod, sf), each(CONS + XS + ye + RHO + LAM), {**o, "regime_lag_sep": True, "slx_lags": 0}, name="separate", **kw)
# Durbin terms within regimes
for o, wx in SLX[1:]:
    nm = " ".join("%s=%s" % p for p in sorted(o.items()))
    for cr, fl in (("many", "all"), ("one", "a only")):
        if True:
            f2 = VAR[fl][:2]
            # the lags of a regressor: flags given for every column of the design
            fw = [True] * len(wx) if fl == "all" else [n.endswith("a") for n in wx]
            cv, xw, xl = [cr == "many"], [(n, "x") for n in wx], [(n, "wx") for n in wx]
            c = {**o, "constant_regi": cr, "regime_err_sep": False, "cols2regi": "all" if fl == "all" else f2 + fw}
            n2 = "%s %s %s" % (cr, fl, nm)
            rtable("ols_regimes.OLS_Regimes", regi(CONS + XS + xw, cv + f2 + fw), c, name=n2)
            rtable("ml_error_regimes.ML_Error_Regimes", regi(CONS + XS + xw, cv + f2 + fw) + LAM, c, name=n2)
            rtable("ml_lag_regimes.ML_Lag_Regimes", regi(CONS + XS + xl, cv + f2 + fw) + regi(RHO, [False]), {**c, "regime_lag_sep": False}, name=n2)
            rtable("twosls_sp_regimes.GM_Lag_Regimes", regi(CONS + XS + xl, cv + f2 + fw) + regi(RHO, [False]), {**c, "regime_lag_sep": False, "yend": None, "q": None}, name=n2)
            cy = {**c, "cols2regi": "all" if fl == "all" else f2 + fw + f2}
            rtable("twosls_regimes.TSLS_Regimes", regi(CONS + XS + xw, cv + f2 + fw) + regi(ES, f2), {**cy, "summ": False}, name=n2, yend=2, q=2)
            rtable("twosls_sp_regimes.GM_Lag_Regimes", regi(CONS + XS + xl, cv + f2 + fw) + regi(ES + RHO, f2 + [False]), {**cy, "regime_lag_sep": False}, name=n2, yend=2, q=2)
            for sf, mod in (("", "error_sp_regimes"), ("_Het", "error_sp_het_regimes"), ("_Hom", "error_sp_hom_regimes")):
                rtable("%s.GM_Error%s_Regimes" % (mod, sf), regi(CONS + XS + xw, cv + f2 + fw) + LAM, c, name=n2)
                "slx_vars" in o or rtable("%s.GM_Endog_Error%s_Regimes" % (mod, sf), regi(CONS + XS + xw, cv + f2 + fw) + regi(ES, f2) + LAM, {**cy, "add_lag": False}, name=n2, yend=2, q=2)
                "slx_vars" in o or rtable("%s.GM_Combo%s_Regimes" % (mod, sf), regi(CONS + XS + xl, cv + f2 + fw) + regi(RHO, [False]) + LAM, {**c, "regime_lag_sep": False, "yend": None, "q": None}, name=n2, kinds=False)
                "slx_vars" in o or rtable("%s.GM_Combo%s_Regimes" % (mod, sf), regi(CONS + XS + xl, cv + f2 + fw) + regi(ES + RHO, f2 + [False]) + LAM, {**cy, "regime_lag_sep": False}, name=n2, yend=2, q=2, kinds=False)
