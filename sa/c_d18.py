"""D18 lazily computed results do not depend on the order of access.

Rule: for every class with properties and every pair of them, reading one must give the same value term whether the other was
read before or not, whether it was read before itself, and whether the store of computed values exists already or not; a
property that can be assigned must afterwards return the assigned value.  Diagnostics that share a store of intermediate
results, and diagnostics computed one after the other on the same fitted model, are compared in the same way."""
import spec
import stubs
from spec import *


def holders(eng):
    out = []
    for mn in sorted(eng.modules):
        if mn == eng.pkg:
            continue
        m = eng.module(mn)
        for c in eng.classes.values():
            if c.mod is m and c.props:
                out.append(c)
    return sorted(out, key=lambda c: c.qual)


def all_props(eng, c):
    out = {}
    for b in c.mro[::-1] if c.mro else [c]:
        b = b if hasattr(b, "props") else eng.classes.get(b)
        if b is not None:
            for k, v in b.props.items():
                out[k] = "set" in v
    return out


def fields(eng, c):
    """attribute names read off any object in the modules of the class: given to the object as unknown data"""
    out, meth = set(), set()
    for b in c.mro or [c]:
        b = b if hasattr(b, "props") else eng.classes.get(b)
        if b is None:
            continue
        meth |= set(b.ns) | set(b.props)
        for x in ast.walk(b.mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id not in b.mod.env:
                out.add(x.attr)
    return sorted(z for z in out - meth - {"_cache"} if not z.startswith("__"))


def wrap(eng, src):
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(src))


def obj(eng, c, cache):
    fs = fields(eng, c)
    mod, name = c.qual.split(".")[-2:]
    s = "from spreg.%s import %s\nclass O(%s):\n    def __init__(self, D):\n        pass\n" % (mod, name, name)
    s += "".join("        self.%s = D.%s\n" % (f, f) for f in fs)
    if cache:
        s += "        self._cache = {}\n"
    return s


def value(eng, fn, facts=()):
    r = eng.run("zz." + fn, facts=list(facts))
    if r.val is None or r.raised is not None and r.val is None:
        return None, "raises %s" % (r.raised.etype if r.raised else "")
    memo = {}
    return plain(eng.reify(r.val, r.st), memo), ""


def same(eng, a, b):
    if a is b:
        return True
    if any(x.op in ("ref", "fresh", "opaque") for t in (a, b) for x in subterms(t)):
        return None
    try:
        v = decide(eng, Rel("D18", "", ""), type("R", (), {"st": None}), a, b, {})[0]
        return True if v == "eq" else (False if v == "diff" else None)
    except Exception:
        return None


def compare(eng, src, mk0, last, before, where, facts=()):
    s = src + "def h_0(A, w):\n    %s\n    return %s\n" % (mk0, last)
    names = list(before)
    for i, nm in enumerate(names):
        s += "def h_%d(A, w):\n    %s\n    %s\n    return %s\n" % (i + 1, mk0, before[nm], last)
    wrap(eng, s)
    ref, why = value(eng, "h_0", facts)
    if ref is None:
        return [], 0, 0, why
    bad, n, und = [], 0, 0
    for i, nm in enumerate(names):
        v, why = value(eng, "h_%d" % (i + 1), facts)
        n += 1
        if v is None:
            # the earlier reading itself may not be defined here
            wrap(eng, src + "def h_x(A, w):\n    %s\n    %s\n    return 0\n" % (mk0, before[nm]))
            if value(eng, "h_x", facts)[0] is None:
                n -= 1
            else:
                bad.append((where + "|" + nm, "%s %s when %s came before it" % (where, why, nm)))
            wrap(eng, s)
            continue
        e = same(eng, ref, v)
        if e is None:
            und += 1
        elif not e:
            bad.append((where + "|" + nm, "%s differs when %s came before it: %s instead of %s" % (where, nm, show(v)[:300], show(ref)[:300])))
    return bad, n, und, ""


def prop_work(eng, qual):
    c = [k for k in eng.classes.values() if k.qual == qual][0]
    ps = all_props(eng, c)
    out = []
    for cache in (False, True):
        src = obj(eng, c, cache)
        for p in sorted(ps):
            b = {"reading " + q: "z = o.%s" % q for q in sorted(ps)}
            b["reading everything"] = "; ".join("z_%s = o.%s" % (q, q) for q in sorted(ps, reverse=True) if q != p)
            out.append(compare(eng, src, "o = O(A)", "o." + p, b, "%s.%s" % (qual, p)))
            for q in sorted(ps):
                # what was assigned is what is read
                if ps[p]:
                    s = src + "def h_0(A, w):\n    o = O(A)\n    o.%s = A.v\n    z = o.%s\n    return o.%s\n" % (p, q, p)
                    wrap(eng, s)
                    v, why = value(eng, "h_0")
                    want = mk("attr", mk("param", "A"), "v")
                    if v is None:
                        continue
                    e = same(eng, want, v)
                    out.append(([] if e is not False else [("%s.%s|assigned" % (qual, p), "%s.%s returns %s after a value was assigned and %s was read" % (qual, p, show(v)[:200], q))], 1, int(e is None), ""))
    return out


LM = ["lme", "lml", "rlme", "rlml", "sarma", "lmwx", "rlmwx", "lmspdurbin", "rlmdurlag", "lmslxerr"]
CACHED = ["lmErr", "lmLag", "rlmErr", "rlmLag", "lmSarma"]
OLS_D = ["t_stat(o)", "f_stat(o)", "r2(o)", "ar2(o)", "se_betas(o)", "log_likelihood(o)", "akaike(o)", "schwarz(o)", "jarque_bera(o)", "breusch_pagan(o)", "white(o)", "koenker_bassett(o)", "condition_index(o)", "vif(o)"]
SP_D = ["lmErr(o, w, c)", "lmLag(o, w, c)", "rlmErr(o, w, c)", "rlmLag(o, w, c)", "lmSarma(o, w, c)", "get_mI(o, w, c)", "akTest(o, w, c)", "lm_wx(o, w)", "lm_spdurbin(o, w)"]
TS_D = ["t_stat(o)", "t_stat(o, z_stat=True)", "pr2_aspatial(o)", "D.se_betas(o)", "D.log_likelihood(o)", "D.akaike(o)"]


def diag_work(eng, kind):
    out = []
    if kind == "spatial tests":
        src = "from spreg.diagnostics_sp import *\nfrom spreg.diagnostics_sp import spDcache, lmErr, lmLag, rlmErr, rlmLag, lmSarma, lm_wx, lm_spdurbin, get_mI, akTest\nfrom spreg.ols import BaseOLS\n"
        mk0 = "o = BaseOLS(A.y, A.x); o.output = A.output; c = spDcache(o, w)"
        for d in SP_D:
            out.append(compare(eng, src, mk0, d, {b: "z = " + b for b in SP_D}, "diagnostics_sp." + d))
    elif kind == "tests on request":
        src = "from spreg.diagnostics_sp import LMtests\nfrom spreg.ols import BaseOLS\n"
        for t in LM:
            ref = "LMtests(o, w, tests=[%r]).%s" % (t, t)
            s = src + "def h_0(A, w):\n    o = BaseOLS(A.y, A.x)\n    o.output = A.output\n    return %s\n" % ref
            alts = [("the others", [z for z in LM if z != t] + [t]), ("the others after it", [t] + [z for z in LM if z != t])]
            for i, (nm, l) in enumerate(alts):
                s += "def h_%d(A, w):\n    o = BaseOLS(A.y, A.x)\n    o.output = A.output\n    return LMtests(o, w, tests=%r).%s\n" % (i + 1, l, t)
            s += "def h_3(A, w):\n    o = BaseOLS(A.y, A.x)\n    o.output = A.output\n    z = LMtests(o, w)\n    return %s\n" % ref
            wrap(eng, s)
            vals = [value(eng, "h_%d" % i)[0] for i in range(4)]
            if vals[0] is None:
                out.append(([], 0, 0, "LMtests %s raises" % t))
                continue
            es = [same(eng, vals[0], v) if v is not None else False for v in vals[1:]]
            out.append(([("LMtests|%s" % t, "LMtests(tests=[%r]) differs from the same test requested with others" % t)] if False in es else [], len(es), es.count(None), ""))
    else:
        mod, base, make, fs = {"least squares": ("diagnostics", "ols", "BaseOLS(A.y, A.x)", OLS_D),
                               "two-stage least squares": ("diagnostics_tsls", "twosls", "BaseTSLS(A.y, A.x, A.yend, A.q)", TS_D)}[kind]
        src = "from spreg.%s import *\nfrom spreg.%s import %s\nimport numpy as np\nimport spreg.diagnostics as D\n" % (mod, base, make.split("(")[0])
        pr = ["o.utu", "o.sig2n", "o.sig2n_k", "o.vm", "o.mean_y", "o.std_y"]
        for d in fs + pr:
            b = {"reading " + z if z.startswith("o.") else z: "z = " + z for z in fs + pr}
            out.append(compare(eng, src, "o = " + make, d, b, "%s: %s" % (kind, d)))
    return out


def work(eng, item):
    if eng.monitor_call is None:
        stubs.install(eng)
    k, a = item
    return prop_work(eng, a) if k == "class" else diag_work(eng, a)


POS = """
class Bad(object):
    @property
    def a(self):
        if "a" not in self._cache:
            self._cache["a"] = self.y * 2
        return self._cache["a"]
    @property
    def b(self):
        if "a" not in self._cache:
            self._cache["a"] = self.y * 3
        return self._cache["a"]
"""


def positive():
    eng = Engine(REPO)
    stubs.install(eng)
    src = POS + "class O(Bad):\n    def __init__(self, D):\n        self.y = D.y\n        self._cache = {}\n"
    bad = compare(eng, src, "o = O(A)", "o.a", {"b": "z = o.b", "a": "z = o.a"}, "")[0]
    return [k for k, t in bad] == ["|b"]


def main():
    rep = Report("D18", __doc__)
    eng = Engine(REPO)
    hs = holders(eng)
    items = [("class", c.qual) for c in hs] + [("diagnostics", k) for k in ("spatial tests", "tests on request", "least squares", "two-stage least squares")]
    n = und = 0
    skipped = []
    for it, res, err, dt in run_all(work, items):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        m = 0
        for bad, k, u, why in res:
            m += k
            und += u
            if why:
                skipped.append("%s %s" % (it[1], why))
            for key, txt in bad:
                rep.add(key, txt)
        n += m
        rep.samples.append("%s: %d comparisons" % (it[1], m))
    rep.cov = {"classes_with_properties": len(hs), "properties": sum(len(all_props(eng, c)) for c in hs), "histories_compared": n, "not_comparable": und, "skipped": len(skipped), "positive_example_fires": int(positive())}
    rep.samples = sorted(rep.samples)[:12]
    return rep.finish("%d classes with computed properties and 4 families of diagnostics: %d histories compared, %d not comparable." % (len(hs), n, und),
                      [("classes_with_properties", 4), ("properties", 12), ("histories_compared", 250), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
