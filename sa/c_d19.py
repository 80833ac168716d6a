"""D19 specification searches report the model their tests select.

Rule: every search function is analysed once per cell of the space of test outcomes (each test significant or not, ties of the
robust tests, every order of the p-values of the coefficients, each fitted model inside or outside the bounds); models and tests are
stand-ins whose p-values are those of the cell, data are unknown.  The label returned and the specification, data and names of the
model returned must be those of the decision table written down here from the documentation of the searches."""
import itertools
import spec
from spec import *
from engine import Heap, AbsRaise, Func
from options import defaults

PV = 0.01
LOW, HIGH = (0.001, 0.002), (0.5, 0.6)
MODELS = {"OLS": "ols.OLS", "GM_Lag": "twosls_sp.GM_Lag", "GMM_Error": "error_sp.GMM_Error"}
TAGS = {"OLS": ("OLS", 0), "SLX": ("OLS", 1), "LAG": ("GM_Lag", 0), "SDM": ("GM_Lag", 1), "ERROR": ("GMM_Error", 0, False), "SLX-ERR": ("GMM_Error", 1, False),
        "SARSAR": ("GMM_Error", 0, True), "GNS": ("GMM_Error", 1, True)}
NAMES = {v: k for k, v in TAGS.items()}
CLASSIC = {"LAGR": "LAG", "LAG_BR": "LAG", "LAG_NR": "LAG", "ERRORR": "ERROR", "ERROR_BR": "ERROR", "ERROR_NR": "ERROR"}
K = 2


def tup(*xs):
    return mk("tuple", *[x if isinstance(x, T) else C(x) for x in xs])


class Unknown(Exception):
    pass


NPF = {"max": max, "min": min, "amax": max, "amin": min, "nanmax": max, "nanmin": min, "argmax": lambda v: v.index(max(v)), "argmin": lambda v: v.index(min(v)), "len": len, "size": len,
       "all": all, "any": any, "sum": sum, "abs": abs, "array": lambda v: v, "asarray": lambda v: v, "list": list, "tuple": list, "float": float, "int": int, "bool": bool, "sorted": sorted,
       "flatten": lambda v: v, "ravel": lambda v: v, "tolist": lambda v: v, "argsort": lambda v: sorted(range(len(v)), key=lambda i: v[i]), "isnan": lambda v: False, "copy": lambda v: v, "item": lambda v: v}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "in": lambda a, b: a in b, "is": lambda a, b: a == b}


def lift(f, a, b):
    if isinstance(a, list) or isinstance(b, list):
        n = len(a if isinstance(a, list) else b)
        return [lift(f, a[i] if isinstance(a, list) else a, b[i] if isinstance(b, list) else b) for i in range(n)]
    return f(a, b)


def val(t):
    """concrete value of a term built from the p-values of the cell"""
    if t.op == "const":
        return cval(t)
    if t.op in ("tuple", "list"):
        return [val(x) for x in t.a]
    if t.op == "un" and t.a[0] == "-":
        return -val(t.a[1])
    if t.op == "not":
        return not val(t.a[0])
    if t.op == "and":
        return all(val(x) for x in t.a)
    if t.op == "or":
        return any(val(x) for x in t.a)
    if t.op == "bin" and t.a[0] in BIN:
        return lift(BIN[t.a[0]], val(t.a[1]), val(t.a[2]))
    if t.op == "cmp" and t.a[0] in CMP:
        a, b = val(t.a[1]), val(t.a[2])
        return CMP[t.a[0]](a, b) if t.a[0] in ("in", "is") else lift(CMP[t.a[0]], a, b)
    if t.op == "attr" and t.a[1] == "shape":
        if t.a[0].op == "param" and t.a[0].a[0] == "x":
            return [1000, K]
        v = val(t.a[0])
        return [len(v)] + ([len(v[0])] if v and isinstance(v[0], list) else [])
    if t.op == "attr" and t.a[1] == "size":
        return len(val(t.a[0]))
    if t.op == "attr" and t.a[1] == "T":
        v = val(t.a[0])
        return [list(r) for r in zip(*v)] if v and isinstance(v[0], list) else v
    if t.op == "index":
        v = val(t.a[0])
        return at(v, list(t.a[1].a) if t.a[1].op == "tuple" else [t.a[1]])
    if t.op == "call" and not (len(t.a) > 2 and t.a[2]) and t.a[0].rsplit(".", 1)[-1] in NPF and len(t.a[1]) == 1:
        return fn(t.a[0].rsplit(".", 1)[-1], val(t.a[1][0]))
    if t.op == "call" and t.a[0].rsplit(".", 1)[-1] in ("max", "min", "maximum", "minimum") and len(t.a[1]) == 2:
        return {"m": max}.get("", max if "max" in t.a[0].rsplit(".", 1)[-1] else min)(val(t.a[1][0]), val(t.a[1][1]))
    if t.op == "method" and t.a[0] in NPF and not t.a[2]:
        return fn(t.a[0], val(t.a[1]))
    raise Unknown(t.op)


def fn(f, v):
    try:
        return NPF[f](v)
    except Exception:
        raise Unknown(f)


def at(v, ks):
    k, rest = ks[0], ks[1:]
    if k.op == "slice":
        lo, hi, st = [None if x is NONE else val(x) for x in k.a]
        w = v[slice(lo, hi, st)]
        return [at(x, rest) for x in w] if rest else w
    i = val(k)
    if not isinstance(i, int):
        raise Unknown("index")
    try:
        w = v[i]
    except Exception:
        raise Unknown("index")
    return at(w, rest) if rest else w


class Cell:
    """p-values by model and test, and the models outside the bounds"""

    def __init__(self, p, bad=()):
        self.p, self.bad, self.made, self.unknown = p, set(bad), {}, 0

    def get(self, tag, what):
        return self.p.get((tag, what), self.p.get(what, HIGH[0]))


BASE_ATOM, BASE_INST, BASE_ATTR = Engine._decide_atom, Engine.instantiate, Engine.getattr


def atom(self, t, st, depth):
    if getattr(self, "search", None) is not None:
        try:
            r = val(t)
            if isinstance(r, bool):
                return r
        except Unknown:
            pass
    return BASE_ATOM(self, t, st, depth)


def instantiate(self, ct, args, kw, st, node):
    c = self.classes[ct.a[0]]
    s = getattr(self, "search", None)
    q = c.qual.split(".", 1)[-1]
    if s is None or q not in set(MODELS.values()) | {"diagnostics_sp.AKtest", "diagnostics_sp.LMtests"}:
        return BASE_INST(self, ct, args, kw, st, node)
    f = self.clsfind(c, "__init__")
    f = f[1] if isinstance(f[1], Func) else self.funcs[f[1].a[0]]
    env = self.bind(f, [NONE] + list(args), kw, st, node)
    for v in list(env.values()):
        h = st.heap.get(v.a[0]) if isinstance(v, T) and v.op == "ref" else None
        if h is not None and h.kind == "dict" and v is env.get(f.node.args.kwarg.arg if f.node.args.kwarg else None):
            for e in h.d:
                if isconst(e[0]):
                    env.setdefault(cval(e[0]), e[1])
    g = lambda n, d=None: (lambda v: cval(v) if isconst(v) else v)(self.simp(env[n], st)) if n in env else d
    name = q.split(".")[-1]
    r = self.fresh("O")
    if name in ("AKtest", "LMtests"):
        z = g("iv" if name == "AKtest" else "ols")
        tag = s.made.get(z.a[0]) if isinstance(z, T) and z.op == "ref" else None
        pr = lambda k: C(s.get(tag, k)) if tag else mk("attr", mk("param", "unknown"), k)
        if name == "AKtest":
            if g("case") != "gen":
                pr = lambda k: mk("attr", mk("param", "unknown"), k)
            d = {"p": pr("ak"), "ak": C(3.5), "mi": C(0.5)}
        else:
            d = {a: tup(3.5, pr(b)) for a, b in (("lme", "lm_error"), ("lml", "lm_lag"), ("rlme", "rlm_error"), ("rlml", "rlm_lag"), ("sarma", "lm_sarma"))}
        st.heap[r] = Heap("inst", cls=c, d=d, site=self.where(node))
        return mk("ref", r)
    key = [name, g("slx_lags", 0)] + ([bool(g("add_wy", False))] if name == "GMM_Error" else [])
    tag = NAMES.get(tuple(key), "?")
    rf = lambda n: self.reify(self.simp(env[n], st), st) if n in env else NONE
    same = {n: rf(n) for n in ("y", "x", "w", "name_y", "name_x", "name_w", "name_ds", "latex")}
    other = {n: rf(n) for n in env if n in ("yend", "q", "regimes", "slx_vars", "lag_q", "estimator", "robust", "w_lags")}
    if any(same[n] is not mk("param", n) for n in "yxw") or tag in ("LAG", "SDM", "SARSAR", "GNS") and rf("w_lags") is not mk("param", "w_lags"):
        tag = "?"
    if name != "OLS" and tag in s.bad:
        if g("hard_bound", False) is not True:
            tag = "?"
        else:
            raise AbsRaise("Exception")
    s.made[r] = tag
    lab = lambda n, k: mk("attr", mk("param", "model"), n)
    nx = ["CONSTANT", "v1", "v2"] + (["W_v1", "W_v2"] if key[1] else [])
    nz = same["name_x"]
    if nz.op in ("list", "tuple") and len(nz.a) == K:
        nx = ["CONSTANT"] + list(nz.a) + (["W_v1", "W_v2"] if key[1] else [])
    d = {"name_y": C("dep_var") if not (same["name_y"].op == "param") else same["name_y"], "name_x": tup(*nx), "summary": C("SUMMARY " + tag), "model_tag": C(tag), "given": mk("tuple", *[mk("field", n, same[n]) for n in sorted(same)]),
         "other": mk("tuple", *[mk("field", n, other[n]) for n in sorted(other)])}
    if name == "OLS":
        if g("spat_diag", False) is True:
            for k in ("lm_error", "lm_lag", "rlm_error", "rlm_lag", "lm_sarma", "lm_wx", "rlm_wx", "rlm_durlag", "lm_spdurbin", "lm_slxerr"):
                d[k] = tup(3.5, s.get(tag, k))
        co = K * (1 + key[1])
        d["t_stat"] = tup(*[tup(2.5, 0.3)] * (co + 1))
    else:
        z = s.get(tag, "z")
        if not isinstance(z, tuple):
            z = (HIGH[0],) * (K * key[1] + 1 + (key[-1] is True))
        d["z_stat"] = tup(*([tup(2.5, 0.9)] * (K + 1) + [tup(2.5, x) for x in z]))
        if tag == "SDM":
            d["cfh_test"] = tup(3.5, s.get(tag, "cfh"))
    st.heap[r] = Heap("inst", cls=c, d=d, site=self.where(node))
    return mk("ref", r)


Engine._decide_atom, Engine.instantiate = atom, instantiate


# ---------------------------------------------------------------- decision tables
sig = lambda x: x < PV


def lm_path(e, l, re, rl, ak, bad_lag):
    """(label of the classic search, model) from the LM tests of the error and the lag and their robust forms"""
    if not sig(l) and not sig(e):
        return "OLS", "OLS"
    if not sig(e):
        return "LAG", "LAG"
    if not sig(l):
        return "ERROR", "ERROR"
    if sig(rl) and not sig(re):
        return "LAGR", "LAG"
    if sig(re) and not sig(rl):
        return "ERRORR", "ERROR"
    if sig(rl):
        if not bad_lag and sig(ak):
            return "SARSAR", "SARSAR"
        return ("LAG_BR", "LAG") if rl <= re else ("ERROR_BR", "ERROR")
    return ("LAG_NR", "LAG") if rl <= re else ("ERROR_NR", "ERROR")


def lm_cells():
    for e, l in itertools.product((LOW[0], HIGH[0]), repeat=2):
        for re, rl in ((a, b) for a in LOW + HIGH for b in LOW + HIGH):
            aks = (LOW[0], HIGH[0]) if sig(e) and sig(l) and sig(re) and sig(rl) else (HIGH[0],)
            for ak in aks:
                yield e, l, re, rl, ak


def classic():
    for e, l, re, rl, ak in lm_cells():
        p = {"lm_error": e, "lm_lag": l, "rlm_error": re, "rlm_lag": rl, "ak": ak}
        for bad in ((), ("LAG",), ("ERROR",), ("SARSAR",)):
            lab, m = lm_path(e, l, re, rl, ak, "LAG" in bad)
            yield p, bad, lab, None if m in bad else m


def kb():
    for j, wx, dl in itertools.product((LOW[0], HIGH[0]), repeat=3):
        m = "OLS" if not sig(j) else "SDM" if sig(wx) and sig(dl) else "LAG" if sig(dl) else "SLX" if sig(wx) else "OLS"
        for bad in ((), ("LAG",), ("SDM",)):
            yield {"lm_spdurbin": j, "rlm_wx": wx, "rlm_durlag": dl}, bad, m, None if m in bad else m


UP = {"OLS": "SLX", "LAG": "SDM", "ERROR": "SLX-ERR", "SARSAR": "GNS"}


def pre():
    for wx, rwx in itertools.product((LOW[0], HIGH[0]), repeat=2):
        slx = sig(wx) and sig(rwx)
        for e, l, re, rl, ak in lm_cells():
            o, fl = ("SLX", "OLS") if slx else ("OLS", "SLX")
            p = {"lm_wx": wx, "rlm_wx": rwx, "ak": ak}
            for z in ("OLS", "SLX"):
                # the other model must not be consulted: its tests say the opposite
                for k, v in (("lm_error", e), ("lm_lag", l), ("rlm_error", re), ("rlm_lag", rl)):
                    p[z, k] = v if z == o else (HIGH[0] if sig(v) else LOW[0])
            lag = "SDM" if slx else "LAG"
            for bad in ((), (lag,), ("SLX-ERR" if slx else "ERROR",), ("GNS" if slx else "SARSAR",)):
                m = lm_path(e, l, re, rl, ak, lag in bad)[1]
                m = UP[m] if slx else m
                yield p, bad, m, None if m in bad else m


def zs(n):
    """p-values of n coefficients: all significant, none, and each of them the least significant"""
    out = [tuple(LOW[i % 2] for i in range(n)), tuple(HIGH[i % 2] for i in range(n))]
    for i in range(n):
        for base in (LOW, (LOW[0], HIGH[0])):
            out.append(tuple(0.7 if j == i else base[j % 2] for j in range(n)))
    return list(dict.fromkeys(out))


def state(z, names):
    """'all', 'none', or the name of the least significant coefficient"""
    return "all" if max(z) < PV else "none" if min(z) >= PV else names[z.index(max(z))]


def gns():
    for z in zs(K + 2):
        s = state(z, ["wx"] * K + ["wy", "lam"])
        p = {("GNS", "z"): z}
        if s in ("all", "none"):
            m = "GNS" if s == "all" else "OLS"
            yield p, (), m, m
            yield p, ("GNS",), "EXCEPTION", None
            continue
        sub = {"lam": "SDM", "wy": "SLX-ERR", "wx": "SARSAR"}[s]
        for z2 in zs({"SDM": K + 1, "SLX-ERR": K + 1, "SARSAR": 2}[sub]):
            s2 = state(z2, {"SDM": ["wx"] * K + ["wy"], "SLX-ERR": ["wx"] * K + ["lam"], "SARSAR": ["wy", "lam"]}[sub])
            for cf in (LOW[0], HIGH[0]) if sub == "SDM" and s2 == "all" else (LOW[0],):
                q = {**p, (sub, "z"): z2, ("SDM", "cfh"): cf}
                m = {"all": sub if sig(cf) else "ERROR", "none": "OLS", **{"SDM": {"wy": "SLX", "wx": "LAG"}, "SLX-ERR": {"lam": "SLX", "wx": "ERROR"}, "SARSAR": {"lam": "LAG", "wy": "ERROR"}}[sub]}[s2]
                yield q, (), m, m
                yield q, (sub,), "EXCEPTION", None
                if m in ("LAG", "ERROR"):
                    yield q, (m,), m, None


def sdm():
    for z in zs(K + 1):
        s = state(z, ["wx"] * K + ["wy"])
        for a, b in itertools.product((LOW[0], HIGH[0]), repeat=2):
            p = {("SDM", "z"): z}
            if s == "all":
                p.update({("SDM", "cfh"): a, ("SDM", "ak"): b})
                m = "ERROR" if not sig(a) else "GNS" if sig(b) else "SDM"
            elif s == "none":
                p.update({("OLS", "lm_error"): a, ("SLX", "lm_error"): b})
                m = "ERROR" if sig(a) else "OLS"
            elif s == "wy":
                p.update({("SLX", "lm_error"): a, ("OLS", "lm_error"): b})
                m = "SLX-ERR" if sig(a) else "SLX"
            else:
                p.update({("LAG", "ak"): a, ("SDM", "ak"): b})
                m = "SARSAR" if sig(a) else "LAG"
            yield p, (), m, m
            yield p, ("SDM",), "EXCEPTION", None
            if s == "wx":
                yield p, ("LAG",), "EXCEPTION", None
            if m in ("ERROR", "GNS", "SARSAR", "SLX-ERR"):
                yield p, (m,), m, None


TABLE = {"stge_classic": classic, "stge_kb": kb, "stge_pre": pre, "gets_gns": gns, "gets_sdm": sdm}


def analyse(eng, q, p, bad, fin, named):
    sub = defaults(eng, q)
    for z in ("y", "x", "w", "w_lags", "name_w", "name_ds", "latex"):
        sub[z] = mk("param", z)
    if named:
        sub["name_y"], sub["name_x"] = mk("param", "name_y"), mk("list", C("v1"), C("v2"))
    sub["p_value"], sub["finmod"], sub["mprint"] = C(PV), C(fin), C(False)
    eng.search = Cell(p, bad)
    eng.no_implicit = True
    eng.ptypes = {}
    try:
        r = eng.run(q, scenario=sub, facts=[(mk("param", "name_y"), True)])
        if r.val is None:
            return ("raises", r.raised.etype if r.raised else ""), None
        v = eng.simp(r.val, r.st)
        if v.op != "tuple" or len(v.a) != 2:
            return ("returns", v.op), None
        lab, m = eng.simp(v.a[0], r.st), eng.simp(v.a[1], r.st)
        lab = cval(lab) if isconst(lab) else None
        if m.op == "ref" and r.st.heap[m.a[0]].kind == "inst":
            m = r.st.heap[m.a[0]].d
        elif isconst(m):
            m = cval(m)
        else:
            lab = None
        return (lab, m), r
    finally:
        eng.search, eng.no_implicit = None, False


def same_value(a, b):
    try:
        return val(a) == val(b)
    except Unknown:
        return False


def work(eng, item):
    q, part = item
    cells = list(TABLE[q.split(".")[-1]]())
    n = und = 0
    bad = []
    for i, (p, out, lab, m) in enumerate(cells):
        if i % PARTS != part:
            continue
        for fin, named in ((True, True), (True, False), (False, True)):
            if not fin and i % 3:
                continue
            (got, model), r = analyse(eng, q, p, out, fin, named)
            n += 1
            how = "with %s%s" % (", ".join("%s=%s" % ("/".join(k) if isinstance(k, tuple) else k, v) for k, v in sorted(p.items(), key=str)), ", outside the bounds: %s" % ", ".join(out) if out else "")
            if r is None:
                bad.append(("%s" % got, "%s %s %s" % (got, model, how)))
                continue
            if got is None:
                und += 1
                continue
            g = got.upper().split(" -- ")[0].split(":")[0].strip()
            if g != lab:
                bad.append(("label|%s" % lab, "returns the label %r instead of %s %s" % (got, lab, how)))
                continue
            if not fin:
                if isinstance(model, dict):
                    bad.append(("finmod", "returns a model although finmod=False %s" % how))
                continue
            if m is None:
                if isinstance(model, dict):
                    bad.append(("bounds|%s" % lab, "returns a model %s" % how))
                elif "xception" not in got:
                    bad.append(("bounds label|%s" % lab, "does not mention in %r that the model is outside the bounds %s" % (got, how)))
                continue
            if not isinstance(model, dict):
                bad.append(("model|%s" % lab, "returns no model %s" % how))
                continue
            tag = cval(model["model_tag"])
            if tag != m:
                bad.append(("model|%s" % lab, "returns the model %s instead of %s %s" % (tag, m, how)))
            for f in model["given"].a:
                k, v = f.a
                want = {"name_y": mk("param", "name_y") if named else C("dep_var"), "name_x": tup("v1", "v2")}.get(k, mk("param", k))
                if not named and k in ("name_y", "name_x") and v in (NONE, C(False)):
                    continue
                if v.op == "list":
                    v = mk("tuple", *v.a)
                if v is not want and not same_value(v, want):
                    bad.append(("%s|%s" % (k, lab), "fits the model %s with another %s than given %s" % (tag, k, how)))
            for f in model["other"].a:
                k, v = f.a
                if k == "w_lags" and m in ("LAG", "SDM", "SARSAR", "GNS") and v is not mk("param", k) or k in ("yend", "q", "regimes") and v is not NONE:
                    bad.append(("%s|%s" % (k, lab), "fits the model %s with another %s than given %s" % (tag, k, how)))
    seen = {}
    for k, t in bad:
        seen.setdefault(k, t)
    return len([1 for i in range(len(cells)) if i % PARTS == part]), n, und, list(seen.items())


PARTS = 4
POS = """
from . import ols as OLS
from . import twosls_sp as STSLS
def search(y, x, w, w_lags=2, name_y=False, name_x=False, name_w=False, name_ds=False, latex=False, p_value=0.01, finmod=True, mprint=True, wrong=False):
    m = OLS.OLS(y, x, w=w, spat_diag=True, name_y=name_y, name_x=name_x, name_w=name_w, name_ds=name_ds, latex=latex)
    p = [m.lm_lag[1], m.lm_error[1]]
    if (p[1] if wrong else p[0]) < p_value:
        return 'LAG', STSLS.GM_Lag(y, x, w=w, w_lags=w_lags, name_y=name_y, name_x=name_x, name_w=name_w, name_ds=name_ds, latex=latex)
    return 'OLS', m
"""


def positive():
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(POS))
    got = []
    for wrong in (False, True):
        (lab, m), r = analyse(eng, "zz.search", {"lm_lag": LOW[0], "lm_error": HIGH[0]}, (), True, True) if not wrong else (("x", None), None)
        got.append(lab == "LAG" and cval(m["model_tag"]) == "LAG" if not wrong else None)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(POS.replace("wrong=False", "wrong=True")))
    (lab, m), r = analyse(eng, "zz.search", {"lm_lag": LOW[0], "lm_error": HIGH[0]}, (), True, True)
    return got[0] is True and lab == "OLS"


def main():
    rep = Report("D19", __doc__)
    items = [("spsearch." + f, i) for f in TABLE for i in range(PARTS)]
    cells = runs = und = 0
    by = {}
    for (q, i), res, err, dt in run_all(work, items):
        if err:
            rep.errors.append("%s %s %s" % (q, i, err))
            continue
        c, n, u, bad = res
        cells, runs, und = cells + c, runs + n, und + u
        by[q] = by.get(q, 0) + n
        for k, t in bad:
            rep.add("%s|%s" % (q, k), "%s %s" % (q, t))
    rep.samples += ["%s: %d analyses" % x for x in sorted(by.items())]
    rep.cov = {"searches": len(by), "cells": cells, "analyses": runs, "undecided": und, "positive_example_fires": int(positive())}
    return rep.finish("%d searches, %d cells of test outcomes, %d analyses, %d undecided." % (len(by), cells, runs, und),
                      [("searches", 5), ("cells", 1500), ("positive_example_fires", 1)] + ([("decided", 1)] if und * 10 > runs else []))


if __name__ == "__main__":
    sys.exit(main())
