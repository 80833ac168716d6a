"""writes known_findings.jsonl: genuine defects recorded (known) or repaired (fixed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = []


def known(p, key, what):
    K.append({"property": p, "key": key, "status": "known", "what": what})


def fixed(p, commit, what):
    K.append({"property": p, "key": "", "status": "fixed", "commit": commit, "what": "fixed: property=%s %s %s" % (p, commit, what)})


for s in ("gets_gns", "gets_sdm", "stge_classic", "stge_kb", "stge_pre"):
    for o in ("robust", "sig2n_k"):
        known("B02", "spsearch.%s||%s|ignored" % (s, o), "spsearch.%s accepts %s but hands it to none of the models it fits" % (s, o))
for c in ("sur.SUR", "sur_error.SURerrorGM", "sur_lag.SURlagIV"):
    for r in ("", "+regimes"):
        known("B02", "%s|%s|vm|ignored" % (c, r), "%s (%s) accepts vm but never adds the variance matrix to the summary" % (c, r or "no regimes"))
known("B02", "twosls.TSLS|+regimes|nonspat_diag|ignored", "TSLS with regimes accepts nonspat_diag but TSLS_Regimes has no such diagnostics and nothing is said")

for e in ("ml_lag.BaseML_Lag", "ml_lag.ML_Lag", "ml_error.BaseML_Error", "ml_error.ML_Error"):
    for o in ("vm1", "vm"):
        known("D08", "%s|method=ord:symmetric neighbours|%s" % (e, o), "%s with method='ord' and symmetric neighbour sets computes tr(G'G) from the symmetrised matrix, so %s differs from method 'full' and 'LU' (the existing tests pin the values)" % (e, o))
for sc in ("", ",slx_lags=1"):
    for o in ("lam", "logll", "betas", "u", "predy", "sig2", "e_filtered", "vm"):
        known("D08", "ml_error_regimes.ML_Error_Regimes|method=full%s|%s" % (sc, o),
              "ML_Error_Regimes (one error process) filters X with the regime expansion of WX instead of W times the regime expansion of X, so %s is not the estimate of the stated likelihood (the existing tests pin the values)" % o)
for e, sc in (("error_sp_het.BaseGM_Endog_Error_Het", "inv_method=true_inv:"), ("error_sp_het.GM_Endog_Error_Het", "")):
    for side in ("above 0.9", "below -0.9"):
        for o in ("betas", "u", "predy", "e_filtered", "vm"):
            known("D09", "%s|%slast coefficient %s|%s" % (e, sc, side, o),
                  "%s, a model without a spatial lag, forces the coefficient of the last endogenous variable into [-0.9, 0.9] (meant for the spatial lag of the combo model), so %s is not the stated estimate (an existing test of the regimes version pins the values)" % (e.split(".")[1], o))

D14 = [
    (("panel_fe.BasePanel_FE_Lag", "panel_fe.BasePanel_FE_Error"), "", ("logll",), "the reported log likelihood leaves out the constant NT/2*log(NT) (panel.py reports it correctly; existing tests pin the values)"),
    (("panel.BaseML_LagRE",), "1 rounds 2 rounds", ("vm1", "vm"), "the information matrix of the random effects lag model is not symmetric (its entry for rho and phi is set once, with another sign and scale), so the variance is not the inverse information (existing tests pin the values)"),
    (("panel_re.BasePanel_RE_Lag",), "1 rounds 2 rounds", ("logll", "vm1", "vm"), "the information matrix of the random effects lag model is not symmetric and the reported log likelihood leaves out N/2*log(phi^2) (existing tests pin the values)"),
    (("diagnostics_panel.panel_LMlag",), "", ("ret",), "the denominator of the lag test multiplies the trace term by itself instead of by T (existing tests pin the value)"),
    (("panel.BaseML_ErrorRE",), "", ("lam", "phi", "logll", "vm"), "the likelihood transforms the data with the eigenvectors of W as if they were orthonormal, and the variance squares traces instead of tracing products (existing tests pin the values)"),
    (("panel_re.BasePanel_RE_Error",), "", ("lam", "phi", "logll", "betas", "u", "predy", "e_filtered", "vm"), "the likelihood and the generalized least squares step transform the data with the eigenvectors of W as if they were orthonormal, the error variance in the likelihood is not divided by NT, and the variance squares traces (existing tests pin the values)"),
    (("panel.BaseGM_ErrorRE.@_get_Tau", "sp_panels._get_Tau"), "", ("ret",), "in the weights of the moment conditions the entry tr(W'W) is divided by N twice and tr(W'WW'W) lacks the factor 2 (existing tests pin the values)"),
    (("panel.BaseGM_ErrorRE", "sp_panels.BaseGM_KKP"), "full_weights=True", ("betas", "u", "predy", "vm", "e_filtered"), "full_weights uses the wrong weights of _get_Tau (existing tests pin the values)"),
    (("panel.ML_LagFE",), "spat_impacts=None,vm=False", ("mu_i",), "the fixed effects leave out the spatial lag term rho*W*y (an existing test pins their mean)"),
]
for es, scs, outs, why in D14:
    for e in es:
        for sc in ([x for x in ("1 rounds", "2 rounds")] if "rounds" in scs else [scs]):
            for o in outs:
                known("D14", "%s|%s|%s" % (e, sc, o), "%s (%s): %s" % (e, o, why))

exec(open(os.path.join(V, "tools", "fixed.py")).read())
with open(os.path.join(V, "known_findings.jsonl"), "w") as f:
    for k in K:
        f.write(json.dumps(k) + "\n")
print(len(K))
