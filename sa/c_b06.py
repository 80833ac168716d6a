"""B06 data given as pandas objects are treated like arrays with the same values and names.

Rule: every estimator that documents pandas input is analysed twice per route: once with arrays and the names given, once with stand-ins of
the pandas classes around the same arrays that carry these names (columns, name), no names given. Every attribute of the two
results, recursively, must be the same value term."""
import ast
import signal
import c_b01 as b1
from c_b01 import *
from c_c01 import flatten, compare_runs, same_value, TRI
from options import domain

STAND = '''
class Series:
    def __init__(self, data, name):
        self.data, self.name, self.shape, self.values = data, name, (data.shape[0],), Flat(data, name)
    def to_numpy(self):
        return Flat(self.data, self.name)
    def copy(self):
        return Series(self.data, self.name)
class Labels:
    def __init__(self, names):
        self.names = names
    def to_list(self):
        return list(self.names)
    def tolist(self):
        return list(self.names)
class DataFrame:
    def __init__(self, data, names):
        self.data, self.columns, self.shape, self.values = data, Labels(names), data.shape, data
    def to_numpy(self):
        return self.data
    def copy(self):
        return DataFrame(self.data, self.columns.names)
class Flat:
    def __init__(self, data, name):
        self.data, self.shape, self.ndim, self.dtype = data, (data.shape[0],), 1, data.dtype
    def reshape(self, *shape):
        return self.data
    def sum(self):
        return self.data.sum()
class RegSeries:
    def __init__(self, data, name):
        self.data, self.name = data, name
    def tolist(self):
        return list(self.data)
    def to_list(self):
        return list(self.data)
class RegArray:
    def __init__(self, data):
        self.data = data
    def tolist(self):
        return list(self.data)
'''
CLS = {"Series": {"Series"}, "DataFrame": {"DataFrame"}, "RegSeries": {"Series"}, "RegArray": {"ndarray"}, "Flat": {"ndarray"}}
NAMES = {"y": "dep", "x": ["xa", "xb"], "yend": ["ea"], "q": ["qa", "qb"], "regimes": "reg"}
WIDE = {"y": ["dep0", "dep1"], "x": ["xa0", "xa1", "xb0", "xb1"]}
# style: which stand-in for which argument
STYLES = {
    "series": {"y": "Series", "x": "DataFrame", "yend": "Series", "q": "DataFrame", "regimes": "RegSeries"},
    "column": {"y": "Series", "x": "Series", "yend": "Series", "q": "DataFrame", "regimes": "RegSeries"},
    "wide": {"y": "DataFrame", "x": "DataFrame"},
    "flat": {"y": "Flat", "yend": "Flat", "regimes": "RegArray"},
    "frames": {"y": "DataFrame", "x": "DataFrame", "yend": "DataFrame", "q": "DataFrame", "regimes": "RegArray"},
}


BASE_VAL = World._val


def val(self, t, eng, st):
    if t.op == "ref" and st is not None:
        h = st.heap.get(t.a[0])
        if h is not None and h.kind == "inst" and h.cls is not None and h.cls.qual.endswith("zz.Flat"):
            return Arr(*[self.val(x, eng, st) for x in h.d["shape"].a])
    return BASE_VAL(self, t, eng, st)


World._val = val


def documented(eng, q):
    """arguments documented as pandas objects"""
    m, c = q.split(".")
    k = eng.classes[eng.module(eng.pkg + "." + m).env[c].a[0]]
    d = ast.get_docstring(k.node) or ""
    return "pandas" in d.split("Attributes")[0]


def src(eng, q, style, sc):
    m, c = q.split(".")
    ps = default_node(eng, q)
    arr, pan = [], []
    for k, v in sc.items():
        if k in STYLES[style] and v is not None:
            kind = STYLES[style][k]
            nm = WIDE[k] if style == "wide" else NAMES[k][:1] if style == "column" and k == "x" else NAMES[k]
            if kind == "DataFrame" and isinstance(nm, str):
                nm = [nm]
            if kind == "Series" and isinstance(nm, list):
                nm = nm[0]
            val = repr(v) if k == "regimes" else k
            pan.append("%s=%s(%s%s)" % (k, kind, val, "" if kind == "RegArray" else ", %r" % (nm,)))
            arr.append("%s=%s" % (k, val))
            if ("name_" + k in ps or k == "regimes") and kind != "RegArray":
                arr.append("name_%s=%r" % (k, nm[0] if k == "y" and isinstance(nm, list) and style != "wide" else [nm] if k in ("x", "yend", "q") and isinstance(nm, str) else nm))
                if kind == "Flat":
                    pan.append("name_%s=%r" % (k, NAMES[k]))
        else:
            t = ["%s=%s" % (k, k if v is P else repr(v))] + ["name_%s=%r" % (k, NAMES[k]) for z in [k] if z in NAMES and v is not None and ("name_" + z in ps or z == "regimes")]
            arr += t
            pan += t
    args = [k for k, v in sc.items() if v is P]
    return STAND + "from spreg.%s import %s\ndef h_a(%s):\n    return %s(%s)\ndef h_p(%s):\n    return %s(%s)\n" % (m, c, ", ".join(args), c, ", ".join(arr), ", ".join(args), c, ", ".join(pan))


def full(eng, fn, sc, world):
    old = eng.opaque_funcs
    eng.opaque_funcs = set(OPAQUE)
    eng.unroll, eng.loops, eng.world = True, False, World(world, False)
    rel = Rel("B06", fn, "", dims=True, shapes={k: v.shape if isinstance(v, Arr) else None for k, v in world.items()})
    eng.ptypes, eng.stand_ins = {"w": "W"}, {z + k: v for z in ("zz.", "spreg.zz.", "") for k, v in CLS.items()}
    try:
        r = eng.run("zz." + fn)
        if r.val is None:
            return None, "raises %s %s" % (r.raised.etype if r.raised else "", repr(r.raised.payload)[:80] if r.raised else "")
        out = {}
        flatten(eng, r.val, r.st, "result", out, {})
        pm, nm = {}, {}
        return {k: nocopy(plain(v, pm), nm) for k, v in out.items()}, ""
    finally:
        eng.world, eng.opaque_funcs, eng.unroll, eng.ptypes = None, old, False, {}
        eng.stand_ins = {}


def job(eng, item):
    q, i, style = item
    nm, sc = scenarios(eng, q)[i]
    signal.signal(signal.SIGALRM, b1.alarm)
    scratch(eng, src(eng, q, style, sc))
    world = {k: GOOD[k] for k in sc if sc[k] is P}
    if style == "column":
        world["x"] = Arr(NROW, 1)
    if style == "wide":
        world.update(y=Arr(NROW, 2), x=Arr(NROW, 4))
    out = []
    for fn in ("h_a", "h_p"):
        signal.alarm(60)
        try:
            out.append(full(eng, fn, sc, world))
        except b1.Late:
            out.append((None, "takes too long"))
        finally:
            signal.alarm(0)
    (a, wa), (b, wb) = out
    if a is None or b is None:
        return nm, None, 0, 0, wa, wb
    for k in compare_runs(a, b)[0][:12]:
        if k[0] in a and k[0] in b:
            signal.alarm(5)
            try:
                if same_value(eng, a[k[0]], b[k[0]]):
                    b[k[0]] = a[k[0]]
            except b1.Late:
                pass  # values of data are rarely rearranged here: reported as they are
            finally:
                signal.alarm(0)
    bad, n, und = compare_runs(a, b)
    return nm, [(k, t.replace("cores=False", "arrays").replace("cores=True", "other")) for k, t in bad[:6]], n, und, "", ""


# panels take an array with two dimensions; the deprecated GM_KKP takes data frames and a list of regimes
def routes(eng, q):
    out = []
    for i, (nm, sc) in enumerate(scenarios(eng, q)):
        for s in STYLES:
            if q.split(".")[0] in PANELS and s == "flat" or q == "sp_panels.GM_KKP" and (s in ("series", "column") or sc.get("regimes")):
                continue
            if s == "wide" and q.split(".")[0] not in PANELS:
                continue
            out.append((q, i, s))
    return out


def main():
    rep = Report("B06", __doc__)
    eng = Engine(REPO)
    qs = [q for q in entry_list(eng) if documented(eng, q)]
    items = [r for q in qs for r in routes(eng, q)]
    comp = und = n = raised = 0
    seen = set()
    for it, res, err, dt in run_all(job, items):
        q, i, style = it
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        nm, bad, c, u, wa, wb = res
        if bad is None:
            if "too long" in wa + wb:
                rep.undecided.append("%s [%s] %s" % (q, nm, style))
            elif wa == wb:
                raised += 1  # this route needs an argument the setting does not give
            else:
                rep.add("%s|raises" % q, "%s [%s] with %s %s; with arrays it %s" % (q, nm, SAY[style], wb or "completes", wa or "completes"))
            continue
        n += 1
        comp += c
        und += u
        seen.add(q)
        for k, t in bad:
            rep.add("%s|%s" % (q, k), "%s [%s] with %s: %s differs. %s" % (q, nm, SAY[style], k, t))
        if len(rep.samples) < 6:
            rep.samples.append("%s [%s] with %s: %d values" % (q, nm, SAY[style], c))
    rep.cov = {"estimators": len(seen), "routes": n, "values_compared": comp, "not_comparable": und, "routes_needing_more_arguments": raised, "positive_example_fires": int(positive())}
    return rep.finish("%d estimators on %d routes: %d values compared, %d not comparable." % (len(seen), n, comp, und), [("estimators", 35), ("routes", 200), ("values_compared", 8000), ("positive_example_fires", 1)])


SAY = {"wide": "data frames with a column per period", "series": "Series and data frames", "column": "a Series for each variable", "frames": "data frames", "flat": "one-dimensional arrays"}
POS = """
import pandas as pd
class E:
    def __init__(self, y, x, name_y=None, name_x=None):
        if isinstance(y, pd.Series):
            name_y = y.name
            y = y.to_numpy()
        if isinstance(x, pd.DataFrame):
            x = x.to_numpy()
        self.b = x * y
        self.name_y, self.name_x = name_y, name_x
"""


def positive():
    """an estimator that forgets the names of the columns"""
    eng = Engine(REPO)
    scratch(eng, STAND + POS + "def h_a(y, x):\n    return E(y, x, 'dep', ['xa', 'xb'])\ndef h_p(y, x):\n    return E(Series(y, 'dep'), DataFrame(x, ['xa', 'xb']))\n")
    w = {k: GOOD[k] for k in ("y", "x")}
    a, b = full(eng, "h_a", {}, w)[0], full(eng, "h_p", {}, w)[0]
    return {k.split("[")[0] for k, t in compare_runs(a, b)[0]} == {"result.name_x"}


if __name__ == "__main__":
    sys.exit(main())
