"""B03 unsupported values of enumerated options are rejected.

Rule: for every option with a closed documented set of values, the entry is analysed with that option bound to a value outside
the set and everything else unknown or at its default. Every path must end in an exception (data generators: in the documented
None), or, for the options with a documented fallback, the result must carry a warning text that a supported value does not produce."""
from options import *

BAD = "no-such-value"
# option -> (entries it applies to, how it is rejected, other options needed to reach the use)
RAISE = {"robust", "A1", "constant_regi", "method", "inv_method", "optim", "scalem", "case", "form", "imethod"}
FALLBACK = {("estimator", "error_sp.GMM_Error"), ("estimator", "error_sp_regimes.GMM_Error_Regimes"), ("method", "panel.BaseML_ErrorPooled"), ("method", "panel.ML_ErrorPooled"),
            ("method", "sputils.spmultiplier")}
EXTRA = {"inv_method": {"step1c": True, "max_iter": 1}}
# helper functions and searches that only hand the value on
SKIP = {("robust", "user_output.check_spat_diag"), ("robust", "user_output.set_robust"), ("robust", "twosls_sp.BaseGM_Lag"), ("robust", "ols.BaseOLS"), ("robust", "twosls.BaseTSLS"),
        ("form", "sur_utils.sur_dictZ"),
        ("method", "dgp.make_x")}  # rejected inside the loop over columns; zero columns return an empty matrix
SKIPMOD = {"spsearch", "user_output", "regimes"}
# the endogenous regimes classes fix the handling of the constant and say so in a warning
CONST_WARN = {"ols_regimes.OLS_Endog_Regimes", "twosls_regimes.TSLS_Endog_Regimes", "twosls_sp_regimes.GM_Lag_Endog_Regimes"}


def scenario(eng, q, p, v):
    sub = defaults(eng, q)
    for z in default_node(eng, q):
        if z not in sub or (z in OPTIONAL_DATA and not z.startswith("name_") and z != "regimes"):
            sub[z] = mk("param", z)
    for k, x in EXTRA.get(p, {}).items():
        if k in default_node(eng, q):
            sub[k] = C(x)
    sub[p] = C(v)
    return sub


def texts(r, fn):
    t = r.val if fn else r.attr("warning")
    if t is None:
        return set()
    t = r.eng.reify(t, r.st) if t.op == "ref" else t
    out = set()
    for x in subterms(t):
        if x.op == "const" and isinstance(cval(x), str):
            out.add(cval(x))
        if x.op == "ref":
            h = r.st.heap.get(x.a[0])
            if h is not None and h.kind == "dict":
                for y in h.d.values():
                    out |= {cval(z) for z in subterms(y) if z.op == "const" and isinstance(cval(z), str)}
    return {s for s in out if len(s) > 12}


def only_none(v):
    if v is None or v is NONE:
        return True
    if v.op == "phi":
        return only_none(v.a[1]) and only_none(v.a[2])
    return v.op in ("raise", "bottom")


def check(eng, it):
    q, p, how, good = it
    r = run(eng, q, scenario(eng, q, p, BAD))
    if r.raised is not None:
        return None
    if how == "none":
        if only_none(r.val):
            return None
        return "returns a value"
    if how == "warn":
        fn = r.val is not None and not r.attrs()
        g = run(eng, q, scenario(eng, q, p, good))
        if g.raised is not None:
            return None
        return None if texts(r, fn) - texts(g, fn) else "returns a result without a warning about it"
    return "returns a result"


def jobs(eng):
    out = []
    for q in entries(eng):
        mod = q.split(".")[0]
        if mod in SKIPMOD or mod == "skater_reg":
            continue
        for p in default_node(eng, q):
            if (p, q) in SKIP:
                continue
            if (p, q) in FALLBACK or (p == "constant_regi" and q in CONST_WARN):
                out.append((q, p, "warn", {"estimator": "hom", "method": "LU" if mod == "panel" else "full", "constant_regi": "many"}[p]))
            elif mod == "dgp" and p in ("imethod", "method", "model"):
                out.append((q, p, "none", None))
            elif p in RAISE:
                out.append((q, p, "raise", None))
    return out


def positive():
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(
        "def bad(y, method='full'):\n    if method == 'full':\n        r = y\n    else:\n        r = y * 2\n    return r\n"
        "def good(y, method='full'):\n    if method in ['full', 'ord']:\n        r = y\n    else:\n        raise Exception(method)\n    return r\n"))
    return check(eng, ("zz.bad", "method", "raise", None)) is not None and check(eng, ("zz.good", "method", "raise", None)) is None


def main():
    rep = Report("B03", __doc__)
    eng = Engine(REPO)
    its = jobs(eng)
    per = {}
    for it, res, err, dt in run_all(check, its):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        per[it[1]] = per.get(it[1], 0) + 1
        if res:
            rep.add("%s|%s" % (it[0], it[1]), "entry %s with %s=%r %s" % (it[0], it[1], BAD, res))
    rep.cov = {"option_sites": len(its), "options": len(per), "per_option": per, "positive_example_fires": int(positive())}
    rep.samples = [list(map(str, i)) for i in its[:8]]
    return rep.finish("Unsupported-value analysis of %d option parameters of public entries." % len(its),
                      [("option_sites", 60), ("options", 9), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
