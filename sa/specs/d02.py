# Significance: standard errors, statistics and p-values of coefficients; tail probabilities of tests
FLOOR["D02"] = 40
ZT = """
def spec(m):
    t = m.betas[list(range(0, len(m.vm)))].reshape(len(m.vm),)/np.sqrt(m.vm.diagonal())
    return {"%s": [(x, %s*2) for x in t], "std_err": np.sqrt(np.diag(m.vm))}
"""
Z = ZT % ("z_stat", "stats.norm.sf(np.abs(x))")
TT = ZT % ("t_stat", "stats.t.sf(np.abs(x), m.n - m.k)")
WP = {"w": P}
for zs, f in ((False, "stats.t.sf(np.abs(x), reg.n - reg.k)"), (True, "stats.norm.sf(np.abs(x))")):
    R("D02", "diagnostics.t_stat", """
def spec(reg):
    t = reg.betas.reshape(-1)/np.sqrt(np.diag(reg.vm))
    return {"ret": [(x, 2*%s) for x in t]}
""" % f, sc={"z_stat": zs})
R("D02", "diagnostics_tsls.t_stat", """
def spec(reg):
    t = reg.betas[:len(reg.vm)].reshape(-1)/np.sqrt(np.diag(reg.vm))
    return {"ret": [(x, 2*stats.norm.sf(np.abs(x))) for x in t]}
""", sc={"z_stat": True}, shapes={"reg": None})
R("D02", "diagnostics.se_betas", "def spec(reg):\n    return {'ret': np.sqrt(np.diag(reg.vm))}\n")
R("D02", "ols.OLS", TT)
R("D02", "ols.OLS", TT, sc={"w": P, "slx_lags": 1})
R("D02", "twosls.TSLS", Z, sc={"q": P})
for e in ("twosls_sp.GM_Lag", "ml_lag.ML_Lag", "ml_error.ML_Error", "error_sp.GM_Error", "error_sp.GM_Endog_Error", "error_sp.GM_Combo",
          "error_sp_het.GM_Error_Het", "error_sp_het.GM_Endog_Error_Het", "error_sp_het.GM_Combo_Het",
          "error_sp_hom.GM_Error_Hom", "error_sp_hom.GM_Endog_Error_Hom", "error_sp_hom.GM_Combo_Hom"):
    R("D02", e, Z, sc=WP, cut={"betas": None, "vm": None})
R("D02", "probit.Probit", Z, cut={"betas": None, "vm": None})

def pv(entry, stat, p, formula, name=None, **kw):
    """the p-value is the stated tail probability of the statistic reported next to it"""
    args = ", ".join(dict.fromkeys(["m"] + kw.pop("args", [])))
    R("D02", entry, "def spec(%s):\n    s = m%s\n    return {\"%s\": %s}\n" % (args, stat, p, formula), name=name, **kw)

for t, df in (("lme", 1), ("lml", 1), ("rlme", 1), ("rlml", 1), ("sarma", 2)):
    pv("diagnostics_sp.LMtests", ".%s[0]" % t, "%s[1]" % t, "stats.chi2.sf(s, %d)" % df, sc={"tests": [t]})
pv("diagnostics_sp.MoranRes", ".zI", "p_norm", "2*stats.norm.sf(abs(s))", sc={"z": True})
pv("diagnostics_sp.AKtest", ".ak", "p", "stats.chi2.sf(s, 1)", sc={"case": "nosp"})
pv("diagnostics_sp.AKtest", ".ak", "p", "stats.chi2.sf(s, 1)", sc={"case": "gen"})
pv("diagnostics_sp.rlm_durlag", "[0]", "ret[1]", "stats.chi2.sf(s, 1)")
pv("diagnostics_sp.rlm_wx", "[0]", "ret[1]", "stats.chi2.sf(s, reg.k - 1)", args=["reg"])
pv("diagnostics_sp.lm_slxerr", "[0]", "ret[1]", "stats.chi2.sf(s, reg.k)", args=["reg"])
pv("diagnostics_sp.lm_wx", "[0]", "ret[1]", "stats.chi2.sf(s, reg.k - 1)", args=["reg"])
pv("diagnostics_sp.lm_spdurbin", "[0]", "ret[1]", "stats.chi2.sf(s, reg.k)", args=["reg"])
pv("diagnostics_sp.comfac_test", "[0]", "ret[1]", "stats.chi2.sf(s, beta.shape[0])", args=["beta"],
   shapes={"beta": (SYM("P"), N1), "gamma": (SYM("P"), N1), "rho": (), "vm": (SYM("V"), SYM("V"))})
pv("diagnostics.f_stat", "[0]", "ret[1]", "stats.f.sf(s, reg.k - 1, reg.n - reg.k)", args=["reg"], sc={"df": 0})
pv("diagnostics.jarque_bera", "['jb']", "ret['pvalue']", "stats.chi2.sf(s, 2)")
pv("diagnostics.breusch_pagan", "['bp']", "ret['pvalue']", "stats.chi2.sf(s, m['df'])")
pv("diagnostics.koenker_bassett", "['kb']", "ret['pvalue']", "stats.chi2.sf(s, m['df'])")
CI = mk("call", "@diagnostics.condition_index", (mk("param", "reg"),), ())
pv("diagnostics.white", "['wh']", "ret['pvalue']", "stats.chi2.sf(s, m['df'])", opaque=["diagnostics.condition_index"],
   facts=[(mk("cmp", "<", C(30), CI), False), (mk("cmp", ">", CI, C(30)), False)])
pv("diagnostics.likratiotest", "['likr']", "ret['p-value']", "stats.chi2.sf(s, m['df'])")
pv("diagnostics.dwh", "[0]", "ret[1]", "stats.f.sf(s, reg.yend.shape[1], reg.n - reg.z.shape[1] - reg.yend.shape[1])", args=["reg"])
pv("diagnostics_probit.probit_lrtest", "['likr']", "ret['p-value']", "stats.chi2.sf(s, m['df'])")
pv("diagnostics_probit.sp_tests", "[0][0]", "ret[0][1]", "stats.chi2.sf(s, 1)", sc={"regprob": P}, name="lm")
pv("diagnostics_probit.sp_tests", "[1][0]", "ret[1][1]", "2*stats.norm.sf(abs(s))", sc={"regprob": P}, name="moran")
pv("diagnostics_probit.sp_tests", "[2][0]", "ret[2][1]", "stats.chi2.sf(s, 1)", sc={"regprob": P}, name="ps")
pv("diagnostics_probit.moran_KP", "[0]", "ret[1]", "2*stats.norm.sf(abs(s))")
pv("regimes.wald_test", "[0]", "ret[1]", "stats.chi2.sf(s, r.shape[0])", args=["r"], shapes={"r": (SYM("RR"), SYM("V")), "vm": (SYM("V"), SYM("V")), "betas": (SYM("V"), N1), "q": (SYM("RR"), N1)})
pv("regimes.Wald", ".w", "pvalue", "stats.chi2.sf(s, r.shape[0])", args=["r"], shapes={"r": (SYM("RR"), K)})
pv("diagnostics_sur.sur_lrtest", "[0]", "ret[2]", "stats.chi2.sf(s, n_eq*(n_eq-1)/2)", args=["n_eq"], shapes={"n_eq": (), "n": ()})
pv("diagnostics_sur.sur_lmtest", "[0]", "ret[2]", "stats.chi2.sf(s, n_eq*(n_eq-1)/2)", args=["n_eq"], shapes={"n_eq": (), "n": ()})
pv("diagnostics_sur.surLMe", "[0]", "ret[2]", "stats.chi2.sf(s, n_eq)", args=["n_eq"], shapes={"n_eq": ()})
pv("diagnostics_sur.surLMlag", "[0]", "ret[2]", "stats.chi2.sf(s, n_eq)", args=["n_eq"], shapes={"n_eq": ()})
pv("diagnostics_sur.surLMe", "[0]", "ret[1]", "n_eq", args=["n_eq"], shapes={"n_eq": ()}, name="df")
pv("diagnostics_sur.surLMlag", "[0]", "ret[1]", "n_eq", args=["n_eq"], shapes={"n_eq": ()}, name="df")
pv("diagnostics_sur.lam_setp", "[1]", "ret[2]", "2*stats.norm.sf(abs(s))")
R("D02", "diagnostics_sur.lam_setp", "def spec(m, lam, vm):\n    se = np.sqrt(np.diag(vm)).reshape(-1, 1)\n    return {'ret[0]': se, 'ret[1]': lam/se}\n",
  shapes={"vm": (SYM("V"), SYM("V")), "lam": (SYM("V"), N1)})
for f in ("panel_LMlag", "panel_LMerror", "panel_rLMlag", "panel_rLMerror"):
    pv("diagnostics_panel." + f, "[0]", "ret[1]", "stats.chi2.sf(s, 1)")
