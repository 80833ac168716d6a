"""B05 a spatial autoregressive estimate outside (-1, 1) is flagged.

Rule: every estimator that reports reduced-form predictions with an estimated spatial lag coefficient is analysed once per cell
of the partition of the real line at -1 and 1 (the conditions of the source on that coefficient are decided for the cell, all
data unknown).  In the outer cells, boundaries included, each reported result (results of single regimes included) must carry a
warning text the inner cell does not produce; with hard_bound=True every path must end in an exception there, and only there."""
import spec
import stubs
from spec import *
from options import default_node, defaults
from c_c01 import flatten, RG, BASES

OPAQUE = ["regimes._chow_run", "regimes.w_regime", "regimes.w_regimes", "output.output", "utils.optim_moments", "utils.inverse_prod",
          "output._summary_impacts", "output._spat_diag_out", "output._spat_pseudo_r2", "output._summary_iteration", "regimes.Chow"] + BASES
OUTER, INNER = (1, -1, 1.5, -1.5, 1000), (0.5, -0.5, 0, 0.999, -0.999)
MODULES = ("twosls_sp", "twosls_sp_regimes", "error_sp", "error_sp_het", "error_sp_hom", "error_sp_regimes", "error_sp_het_regimes", "error_sp_hom_regimes")
NUMFN = {"numpy.abs": abs, "abs": abs, "numpy.absolute": abs, "math.fabs": abs, "numpy.fabs": abs, "float": float, "numpy.square": lambda x: x * x, "numpy.float64": float, "numpy.asarray": lambda x: x,
         "numpy.max": lambda x: x, "numpy.min": lambda x: x, "max": lambda x: x, "numpy.all": lambda x: x, "numpy.any": lambda x: x, "numpy.squeeze": lambda x: x, "numpy.ravel": lambda x: x, "numpy.sign": lambda x: (x > 0) - (x < 0)}
METH = {"item", "flatten", "ravel", "squeeze", "max", "min", "all", "any", "copy"}


def is_coef(t):
    """an element taken from the end of a vector: the coefficients of the spatial lag and the spatial error come last"""
    if t.op != "index":
        return False
    k = t.a[1]
    ks = k.a if k.op == "tuple" else (k,)
    if ks and all(isconst(x) and isinstance(cval(x), int) for x in ks) and cval(ks[0]) < 0:
        return not isconst(t.a[0])
    if len(ks) == 1 and k.op in ("bin", "num") and t.a[0].op != "attr":
        return True  # a computed position
    return is_coef(t.a[0]) and all(isconst(x) for x in ks)


class Cell:
    def __init__(self, v):
        self.v, self.hits = v, 0

    def num(self, t, eng, st):
        """value of an expression of the coefficient, or None"""
        if t.op == "const":
            # only the bounds: other thresholds (starting values, clipping) are no statement about the range
            x = cval(t)
            return (x, False) if isinstance(x, (int, float)) and not isinstance(x, bool) and x in (-1, 0, 1, 2) else None
        if is_coef(t):
            return self.v, True
        if t.op == "un" and t.a[0] in ("-", "+"):
            r = self.num(t.a[1], eng, st)
            return r and (-r[0] if t.a[0] == "-" else r[0], r[1])
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**"):
            a, b = self.num(t.a[1], eng, st), self.num(t.a[2], eng, st)
            if a is None or b is None:
                return None
            try:
                return {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y, "**": lambda x, y: x ** y}[t.a[0]](a[0], b[0]), a[1] or b[1]
            except Exception:
                return None
        if t.op == "call" and t.a[0] in NUMFN and len(t.a[1]) == 1 and not (len(t.a) > 2 and t.a[2]):
            r = self.num(t.a[1][0], eng, st)
            return r and (NUMFN[t.a[0]](r[0]), r[1])
        if t.op == "method" and t.a[0] in METH and not t.a[2]:
            return self.num(t.a[1], eng, st)
        if t.op == "method" and t.a[0] in ("__abs__",):
            r = self.num(t.a[1], eng, st)
            return r and (abs(r[0]), r[1])
        return None

    def decide(self, t, eng, st):
        if t.op != "cmp" or t.a[0] not in ("<", "<=", ">", ">=", "==", "!="):
            return None
        a, b = self.num(t.a[1], eng, st), self.num(t.a[2], eng, st)
        if a is None or b is None or not (a[1] or b[1]):
            return None
        self.hits += 1
        return {"<": a[0] < b[0], "<=": a[0] <= b[0], ">": a[0] > b[0], ">=": a[0] >= b[0], "==": a[0] == b[0], "!=": a[0] != b[0]}[t.a[0]]


BASE_ATOM = Engine._decide_atom


def atom(self, t, st, depth):
    c = getattr(self, "cell", None)
    if c is not None:
        r = c.decide(t, self, st)
        if r is not None:
            return r
    return BASE_ATOM(self, t, st, depth)


Engine._decide_atom = atom


def scenarios(eng, q):
    d, ps = defaults(eng, q), default_node(eng, q)
    base = {p: cval(v) for p, v in d.items()}
    base.update({"y": P, "x": P, "w": P, "name_x": ["v"]})
    for p in ("spat_diag", "spat_impacts", "nonspat_diag", "vm"):
        if p in ps:
            base[p] = False
    if "robust" in ps:
        base["robust"] = None
    if "cores" in ps:
        base["cores"] = False
    out = []
    none, iv = {"yend": None, "q": None}, {"yend": P, "q": P, "name_yend": ["e"], "name_q": ["q0", "q1"]}
    base.update({k: v for k, v in none.items() if k in ps})
    regs = [("", {})]
    if "regimes" in ps and "regime_err_sep" in ps:
        one = {"regimes": RG, "constant_regi": "many", "cols2regi": "all"}
        regs = [("regimes", {**one, "regime_err_sep": False, "regime_lag_sep": False}), ("separate regimes", {**one, "regime_err_sep": True, "regime_lag_sep": True}),
                ("separate lags, one constant", {**one, "constant_regi": "one", "regime_err_sep": False, "regime_lag_sep": True})]
        if ps["regimes"] is not None and q.split(".")[0] in ("twosls_sp", "error_sp"):
            regs.append(("", {"regimes": None}))
    ests = [("", {})]
    if q.split(".")[1].startswith("GMM_Error"):
        ests = [("%s wy" % e, {"estimator": e, "add_wy": True}) for e in ("het", "hom", "kp98")]
    for nr, r in regs:
        for ne, e in ests:
            for ni, i in (("", {}), ("yend", iv)):
                for ns, s in (("", {}), ("slx", {"slx_lags": 1})):
                    if e and (ni or ns) or (ns and ni):
                        continue
                    out.append((" ".join(x for x in (nr, ne, ni, ns) if x), {k: v for k, v in {**base, **r, **e, **i, **s}.items() if k in ps or e}))
    return out


def analyse(eng, q, sc, v, hard):
    sub = defaults(eng, q)
    ps = default_node(eng, q)
    for z in ps:
        sub.setdefault(z, mk("param", z))
    for k, x in sc.items():
        sub[k] = mk("param", k) if x is P else lit(x)
    if hard is not None:
        sub["hard_bound"] = C(hard)
    eng.ptypes = {**typed(sub), "w": "W"}
    eng.unroll, eng.loops = True, False
    n = num(len(sc["regimes"])) if isinstance(sc.get("regimes"), list) else None
    rel = Rel("B05", q, "", dims=True, shapes={k: (n, m) if n else None for k, m in (("y", N1), ("x", N1), ("yend", N1), ("q", num(2)))} | {"w": None})
    eng.shaper = shaper(eng, rel)
    old = eng.opaque_funcs
    eng.opaque_funcs = set(OPAQUE)
    eng.cell = Cell(v)
    given = [(mk("cmp", "is", mk("param", k), NONE), False) for k, x in sc.items() if x is P]
    try:
        r = eng.run(q, scenario=dict(sub), facts=[(mk("param", "w"), True)] + given)
        hits = eng.cell.hits
        if r.val is None:
            return None, hits, "%s" % (r.raised.etype if r.raised else "")
        out = {}
        flatten(eng, r.val, r.st, "result", out, {})
        return out, hits, ""
    finally:
        eng.cell = None
        eng.opaque_funcs = old
        eng.unroll, eng.shaper, eng.ptypes = False, None, {}


def texts(t):
    """texts that are surely or possibly part of a warning"""
    return set() if t is None else {cval(x) for x in subterms(t) if x.op == "const" and isinstance(cval(x), str) and len(cval(x)) > 12}


def work(eng, item):
    if eng.monitor_call is None:
        stubs.install(eng)
    q, i = item
    nm, sc = scenarios(eng, q)[i]
    hb = "hard_bound" in default_node(eng, q) and not ("kp98" in nm and "egimes" in nm)
    base, h0, why = analyse(eng, q, sc, INNER[0], False if hb else None)
    if base is None:
        return nm, 0, 0, [], "raises %s" % why
    objs = [k[:-4] for k in base if k.endswith(".rho") and k[:-4] + ".predy_e" in base]
    bad, n = [], 0
    if not objs:
        return nm, 0, 0, [], "no reduced-form predictions"
    for v in INNER[1:] + OUTER:
        r, h, why = analyse(eng, q, sc, v, False if hb else None)
        for o in objs:
            n += 1
            if r is None:
                bad.append(("%s|raises" % o, "raises %s for a coefficient of %s although hard_bound is not set" % (why, v)))
            elif v in OUTER and not texts(r.get(o + ".warning")) - texts(base.get(o + ".warning")):
                bad.append(("%s|no warning" % o, "%s carries no warning for a spatial autoregressive coefficient of %s" % (o, v)))
            elif v in INNER and texts(r.get(o + ".warning")) - texts(base.get(o + ".warning")):
                bad.append(("%s|warns inside" % o, "%s carries a warning for a coefficient of %s, inside the bounds" % (o, v)))
        if hb:
            n += 1
            r, h, why = analyse(eng, q, sc, v, True)
            if v in OUTER and r is not None:
                bad.append(("hard_bound", "completes for a spatial autoregressive coefficient of %s with hard_bound=True" % v))
            if v in INNER and r is None:
                bad.append(("hard_bound inside", "raises %s for a coefficient of %s, inside the bounds, with hard_bound=True" % (why, v)))
    return nm, len(objs), n, bad, ""


POS = """
import numpy as np
from spreg.utils import set_warn
class R:
    pass
def fit(y, m, ok, hard_bound=False):
    r = R()
    r.betas = m.betas
    r.rho = r.betas[-1]
    r.predy_e = y
    if (np.abs(r.rho) < 1) if ok else (r.rho < 1):
        r.warning = None
    else:
        if hard_bound:
            raise Exception("outside of the bounds")
        r.warning = "the coefficient is outside of the bounds"
    return r
"""


def positive():
    eng = Engine(REPO)
    stubs.install(eng)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(POS))
    got = []
    for ok in (True, False):
        base = analyse(eng, "zz.fit", {"ok": ok}, 0.5, False)[0]
        res = [analyse(eng, "zz.fit", {"ok": ok}, v, h)[0] for v in (1, -1) for h in (False, True)]
        got.append(all(res[i] is None for i in (1, 3)) and all(res[i] is not None and texts(res[i].get("result.warning")) - texts(base.get("result.warning")) for i in (0, 2)))
    return got == [True, False]


def main():
    rep = Report("B05", __doc__)
    eng = Engine(REPO)
    ents = [q for q in entries(eng) if q.split(".")[0] in MODULES and q.count(".") == 1 and not q.split(".")[1].startswith("Base")
            and any(z in q for z in ("Lag", "Combo", "GMM_Error")) and "Endog_Regimes" not in q]
    items = [(q, i) for q in ents for i in range(len(scenarios(eng, q)))]
    objs = checks = 0
    seen, notes = set(), {}
    for (q, i), res, err, dt in run_all(work, items):
        if err:
            rep.errors.append("%s %s %s" % (q, i, err))
            continue
        nm, o, n, bad, note = res
        if note:
            notes["%s (%s)" % (q, nm)] = note
        objs += o
        checks += n
        if o:
            seen.add(q)
        for k, txt in bad:
            rep.add("%s|%s" % (q, k), "%s (%s): %s" % (q, nm, txt))
        if len(rep.samples) < 6 and o:
            rep.samples.append("%s (%s): %d results, %d cells and bounds" % (q, nm, o, n))
    rep.cov = {"entries": len(ents), "entries_with_predictions": len(seen), "settings": len(items), "results": objs, "cells_checked": checks, "not_applicable": notes, "positive_example_fires": int(positive())}
    return rep.finish("%d estimators, %d settings, %d results in %d cells of the spatial coefficient." % (len(seen), len(items), objs, checks),
                      [("entries_with_predictions", 8), ("results", 40), ("cells_checked", 300), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
