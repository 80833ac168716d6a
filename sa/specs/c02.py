# Estimation by regimes: every regime's estimator sees the rows of that regime, and its results fill the positions of that regime
FLOOR["C02"] = 400
G = '''
import spreg.regimes as REGI
import spreg.utils as UT
from libpysal import weights
def rows(regimes):
    return [[i for i in range(len(regimes)) if regimes[i] == r] for r in sorted(set(regimes))]
def cons(x):
    return np.hstack((np.ones((x.shape[0], 1)), x))
def sub(w, I, r):
    return REGI.w_regime(w, I, r, transform=True)[0]
def fill(regimes, ms, kr, kv):
    I = rows(regimes)
    n, R = len(regimes), len(I)
    V, B = np.zeros((R*kv, R*kv)), np.zeros((R*kr, 1))
    U, F, E, S, D = np.zeros((n, 1)), np.zeros((n, 1)), np.zeros((n, 1)), np.zeros((n, 1)), np.zeros((n, 1))
    for i in range(R):
        V[i*kv:(i+1)*kv, i*kv:(i+1)*kv] = ms[i].vm
        B[i*kr:(i+1)*kr] = ms[i].betas
        U[I[i]] = ms[i].u
        F[I[i]] = ms[i].predy
        E[I[i]] = ms[i].e_filtered
    return {'betas': B, 'vm': V, 'u': U, 'predy': F, 'kr': kv, 'kf': 0, 'kryd': 0, 'nr': R%s}
'''
G_PLAIN, G_FILT = G % "", G % ", 'e_filtered': E"
RGS = {"two regimes": ["b", "a", "b", "a", "a", "b", "a", "b", "a", "b"], "three regimes": [3, 1, 2, 2, 1, 3, 1, 2, 3, 3, 1, 2]}


def multi(entry, base, make, kr, lib=G_FILT, sc=None, iv=False, types=None, more="", opaque=(), names=(), kv=None, extra=(), wr=("regimes.w_regime", "regimes.w_regimes"), ivn=None):
    kv = kv or kr
    mod, cls = base.split(".")
    for nm, rg in RGS.items():
        n, m = len(rg), len(rg) // len(set(rg))
        s = {"y": P, "x": P, "regimes": rg, "name_x": ["v"], "cores": False, "vm": False, "latex": False, **(sc or {})}
        if iv:
            s.update({"yend": P, "q": P, "name_yend": ["e"], "name_q": ["q0", "q1"]})
        src = lib + "from spreg.%s import %s\ndef spec(y, x, %sw, regimes%s):\n    I, X = rows(regimes), cons(x)\n    ms = [%s for I_, r in zip(I, sorted(set(regimes)))]\n    d = fill(regimes, ms, %d, %d)\n%s    return d\n" % (
            mod, cls, "yend, q, " if iv else "", "".join(", " + z for z in names), make, kr, kv, more + NAMES % (list(extra), *(ivn or (["e"], ["q0", "q1"])), 'd.update(iv)' if iv or ivn else ''))
        R("C02", entry, src, sc=s, shapes={"y": (num(n), N1), "x": (num(n), N1), "yend": (num(n), N1), "q": (num(n), num(2)), "w": None}, dims=True, name=nm,
          opaque=["regimes._chow_run", "output.output", base] + list(wr) + list(opaque), types=types or {},
          attrs={base + "." + k: v for k, v in (("betas", (num(kr), N1)), ("vm", (num(kv), num(kv))), ("u", (num(m), N1)), ("predy", (num(m), N1)), ("e_filtered", (num(m), N1)))})


NAMES = """    rs = sorted(set(regimes))
    lab = lambda l: ["%%s_%%s" %% (r, z) for r in rs for z in l]
    d['name_y'] = lab(["dep_var"])
    d['name_x'] = lab(["CONSTANT", "v"] + %s)
    ny, nq = %s, %s
    iv = {'name_yend': lab(ny), 'name_q': lab(nq), 'name_h': lab(["CONSTANT", "v"] + nq)}
    %s
"""
NW = {"w": None}
SEP = {"constant_regi": "many", "cols2regi": "all", "regime_err_sep": True}
multi("ols_regimes.OLS_Regimes", "ols.BaseOLS", "BaseOLS(y[I_], X[I_], robust=None, sig2n_k=sig2n_k)", 2, lib=G_PLAIN, sc={**NW, **SEP, "robust": None, "nonspat_diag": False, "white_test": False, "spat_diag": False}, names=["sig2n_k"])
multi("twosls_regimes.TSLS_Regimes", "twosls.BaseTSLS", "BaseTSLS(y[I_], X[I_], yend[I_], q[I_], robust=None, sig2n_k=sig2n_k)", 3, lib=G_PLAIN, iv=True, sc={**NW, **SEP, "robust": None, "summ": False, "spat_diag": False}, names=["sig2n_k"])
multi("ml_error_regimes.ML_Error_Regimes", "ml_error.BaseML_Error", "BaseML_Error(y=y[I_], x=X[I_], w=sub(w, I_, r), method=method, epsilon=epsilon)", 3, sc={**SEP, "w": P}, names=["method", "epsilon"], types={"w": "W"}, extra=["lambda"])
multi("error_sp_regimes.GM_Error_Regimes", "error_sp.BaseGM_Error", "BaseGM_Error(y[I_], X[I_], sub(w, I_, r).sparse)", 3, sc={**SEP, "w": P}, types={"w": "W"}, kv=2, extra=["lambda"])
multi("error_sp_regimes.GM_Endog_Error_Regimes", "error_sp.BaseGM_Endog_Error", "BaseGM_Endog_Error(y[I_], X[I_], yend[I_], q[I_], sub(w, I_, r).sparse)", 4, iv=True, sc={**SEP, "w": P, "add_lag": False}, types={"w": "W"}, kv=3)
multi("error_sp_het_regimes.GM_Error_Het_Regimes", "error_sp_het.BaseGM_Error_Het", "BaseGM_Error_Het(y[I_], X[I_], sub(w, I_, r).sparse, max_iter=max_iter, epsilon=epsilon, step1c=step1c, hard_bound=hard_bound)", 3, sc={**SEP, "w": P}, types={"w": "W"}, names=["max_iter", "epsilon", "step1c", "hard_bound"], extra=["lambda"])
multi("error_sp_het_regimes.GM_Endog_Error_Het_Regimes", "error_sp_het.BaseGM_Endog_Error_Het", "BaseGM_Endog_Error_Het(y[I_], X[I_], yend[I_], q[I_], sub(w, I_, r).sparse, max_iter=max_iter, epsilon=epsilon, step1c=step1c, inv_method=inv_method, hard_bound=hard_bound)", 4, iv=True, sc={**SEP, "w": P, "add_lag": False}, types={"w": "W"}, names=["max_iter", "epsilon", "step1c", "inv_method", "hard_bound"])
multi("error_sp_hom_regimes.GM_Error_Hom_Regimes", "error_sp_hom.BaseGM_Error_Hom", "BaseGM_Error_Hom(y[I_], X[I_], sub(w, I_, r).sparse, max_iter=max_iter, epsilon=epsilon, A1=A1, hard_bound=hard_bound)", 3, sc={**SEP, "w": P}, types={"w": "W"}, names=["max_iter", "epsilon", "A1", "hard_bound"], extra=["lambda"])
multi("error_sp_hom_regimes.GM_Endog_Error_Hom_Regimes", "error_sp_hom.BaseGM_Endog_Error_Hom", "BaseGM_Endog_Error_Hom(y[I_], X[I_], yend[I_], q[I_], sub(w, I_, r).sparse, max_iter=max_iter, epsilon=epsilon, A1=A1, hard_bound=hard_bound)", 4, iv=True, sc={**SEP, "w": P, "add_lag": False}, types={"w": "W"}, names=["max_iter", "epsilon", "A1", "hard_bound"])
G_LAG = G_PLAIN.replace("    return {'betas'", """    A, B2 = np.zeros((n, 1)), np.zeros((n, 1))
    for i in range(R):
        A[I[i]] = ms[i].predy_e
        B2[I[i]] = ms[i].e_pred
    return {'predy_e': A, 'e_pred': B2, 'betas'""") + """
def lagged(w, I):
    # the weights among the members of the regime, in the transformation of w
    s = weights.set_operations.w_subset(w, [w.id_order[i] for i in I], silence_warnings=True)
    s.transform = w.get_transform()
    return s
def combo(w, y, X, yend, q, w_lags, lag_q, make):
    ye, q = UT.set_endog(y, X[:, 1:], w, yend, q, w_lags, lag_q)
    m = make(y, X, ye, q, w)
    m.predy_e, m.e_pred, warn = UT.sp_att(w, m.y, m.predy, m.yend[:, -1].reshape(m.n, 1), m.betas[-2])
    return m
def gm_lag(w, y, X, yend, q, w_lags, lag_q, sig2n_k, hard_bound):
    from spreg.twosls import BaseTSLS
    ye, q = UT.set_endog_sparse(y, X[:, 1:], w.sparse, yend, q, w_lags, lag_q)
    m = BaseTSLS(y, X, ye, q, robust=None, sig2n_k=sig2n_k)
    m.predy_e, m.e_pred, warn = UT.sp_att(w, m.y, m.predy, m.yend[:, -1].reshape(m.n, 1), m.betas[-1], hard_bound=hard_bound)
    return m
"""
LSEP = {"constant_regi": "many", "cols2regi": "all", "regime_lag_sep": True, "w": P, "spat_diag": False, "spat_impacts": False}
LW = ["W_dep_var"]
IVN, IVY = (LW, ["W_v"]), (["e"] + LW, ["q0", "q1", "W_v", "W_q0", "W_q1"])
for two in (False, True):
    ye = "yend[I_], q[I_]" if two else "None, None"
    no = {} if two else {"yend": None, "q": None}
    multi("twosls_sp_regimes.GM_Lag_Regimes", "twosls.BaseTSLS", "gm_lag(lagged(w, I_), y[I_], X[I_], %s, w_lags, lag_q, sig2n_k, hard_bound)" % ye, 4 if two else 3, lib=G_LAG, iv=two, ivn=IVY if two else IVN,
          sc={**LSEP, "regime_err_sep": True, "robust": None, **no}, names=["w_lags", "lag_q", "sig2n_k", "hard_bound"], types={"w": "W"}, wr=(), opaque=["utils.sp_att", "utils.set_endog_sparse"])
    for mod, cls, args in (("error_sp", "GM_Combo", ""), ("error_sp_het", "GM_Combo_Het", ", max_iter=max_iter, epsilon=epsilon, step1c=step1c, inv_method=inv_method"),
                           ("error_sp_hom", "GM_Combo_Hom", ", max_iter=max_iter, epsilon=epsilon, A1=A1")):
        base = "%s.BaseGM_Endog_Error%s" % (mod, cls[8:])
        multi("%s_regimes.%s_Regimes" % (mod, cls), base, "combo(sub(w, I_, r), y[I_], X[I_], %s, w_lags, lag_q, lambda y, x, e, q, w: %s(y, x, e, q, w.sparse%s))" % (ye, base.split(".")[1], args), 5 if two else 4, kv=(4 if two else 3) if mod == "error_sp" else None,
              lib=G_LAG.replace("predy_e = A", "predy_e").replace(", 'e_pred': B2", "").replace("        B2[I[i]] = ms[i].e_pred\n", ""), iv=two, ivn=IVY if two else IVN,
              sc={**SEP, "regime_lag_sep": True, "w": P, **no}, names=["w_lags", "lag_q"] + [z.split("=")[1] for z in args.split(", ") if z], types={"w": "W"}, opaque=["utils.sp_att", "utils.set_endog"])
G_ML = G_LAG.replace("def gm_lag(w,", "def old(w,")
multi("ml_lag_regimes.ML_Lag_Regimes", "ml_lag.BaseML_Lag", "BaseML_Lag(y[I_], X[I_], lagged(w, I_), method=method, epsilon=epsilon)", 3, lib=G_ML, extra=LW,
      sc=LSEP, names=["method", "epsilon"], types={"w": "W"}, wr=())
