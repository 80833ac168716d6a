# Accounting identities: y = predy + u, predy = design @ betas, e_filtered = u - lambda W u
FLOOR["D03"] = 40
def acc(entry, design=None, betas="m.betas", filt=None, extra="", **kw):
    d = {"u": "m.y - m.predy", "y": "y"}
    src = "def spec(m, y%s):\n    " % ("".join(", " + k for k in ("w",) if filt or "W" in (design or "")))
    if filt or "W" in (design or ""):
        src += "W = w.sparse\n    "
    if design:
        d["predy"] = "(%s)@%s" % (design, betas)
    if filt:
        d["e_filtered"] = "m.u - %s*(W@m.u)" % filt
    src += "return {%s}\n" % ", ".join('"%s": %s' % (k, v) for k, v in d.items())
    kw.setdefault("opaque", ["utils.optim_moments"] if filt else ())
    cut = {"u": None, "predy": None} if filt else {}
    kw.setdefault("cut", cut)
    if ".Base" in entry and entry.startswith("error_sp"):
        src = src.replace("w.sparse", "w")  # base classes take the sparse matrix
    R("D03", entry, src, **kw)

WP = {"w": P}
for e in ("ols.BaseOLS", "ols.OLS"):
    acc(e, "m.x")
acc("twosls.BaseTSLS", "m.z", sc={"q": P, "h": None})
acc("twosls.TSLS", "m.z", sc={"q": P})
acc("twosls_sp.BaseGM_Lag", "m.z", sc={"w": P})
acc("twosls_sp.GM_Lag", "m.z", sc={"w": P})
acc("twosls_sp.GM_Lag", "m.z", sc={"w": P, "yend": P, "q": P})
acc("error_sp.BaseGM_Error", "m.x", "m.betas[:-1]", "m.betas[-1]")
acc("error_sp.GM_Error", "m.x", "m.betas[:-1]", "m.betas[-1]", sc=WP)
acc("error_sp.BaseGM_Endog_Error", "m.z", "m.betas[:-1]", "m.betas[-1]")
acc("error_sp.GM_Endog_Error", "m.z", "m.betas[:-1]", "m.betas[-1]", sc=WP)
acc("error_sp.GM_Combo", "m.z", "m.betas[:-1]", "m.betas[-1]", sc=WP)
for mod, sfx in (("error_sp_het", "_Het"), ("error_sp_hom", "_Hom")):
    for b in ("Base", ""):
        acc("%s.%sGM_Error%s" % (mod, b, sfx), "m.x", "m.betas[:-1]", "m.betas[-1]", sc=WP)
        acc("%s.%sGM_Endog_Error%s" % (mod, b, sfx), "m.z", "m.betas[:-1]", "m.betas[-1]", sc=WP)
        acc("%s.%sGM_Combo%s" % (mod, b, sfx), "m.z", "m.betas[:-1]", "m.betas[-1]", sc={"w": P} if not b else {"w": P, "yend": P, "q": P})
acc("ml_lag.BaseML_Lag", "np.hstack((m.x, W@y))", sc=WP)
acc("ml_lag.ML_Lag", "np.hstack((m.x, W@y))", sc=WP)
acc("ml_error.BaseML_Error", "m.x", "m.betas[:-1]", "m.lam", sc=WP)
acc("ml_error.ML_Error", "m.x", "m.betas[:-1]", "m.lam", sc=WP)
acc("nslx.BaseNSLX")
