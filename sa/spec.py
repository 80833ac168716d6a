"""Relation checks: the value an entry computes for a result, against a reference formula, as canonical value terms.

A relation is a reference snippet (Python source, analysed by the same abstract interpreter and never executed) evaluated on the
same symbolic arguments, and on the symbolic result object m where the formula is stated in terms of other results.  The two
value terms are brought to normal form (nf.py) and compared."""
import ast
import re
from options import *
from engine import Func, State
from nf import NF, compare, show_nf, num, N1

SYM = lambda s: mk("sym", s)
N, K, KE, KQ, H = SYM("N"), SYM("K"), SYM("KE"), SYM("KQ"), SYM("H")
P = "__param__"
RELS = []
FLOOR = {}  # pid -> least number of observables that must be decided (about half of the current tree)

PRE = "import numpy as np\nimport numpy.linalg as la\nfrom scipy import stats\nimport scipy.sparse as SP\nfrom math import pi\n"

# shapes of parameters and of attributes of parameter objects
SHAPES = {"y": (N, N1), "x": (N, K), "yend": (N, KE), "q": (N, KQ), "u": (N, N1), "z": (N, SYM("KZ")), "h": (N, H), "w": None, "X": (N, K), "Y": (N, N1),
          "predy": (N, N1), "betas": (K, N1)}
at = lambda o, n: mk("attr", o, n)
bi = lambda o, a, b: mk("bin", o, a, b)
tr = lambda x: mk("attr", x, "T")
inv = lambda x: mk("call", "numpy.linalg.inv", (x,), ())
# aliases: attributes of a fitted model that are functions of its other attributes
ATTRS = {"u": (N, N1), "y": (N, N1), "x": (N, K), "predy": (N, N1), "betas": (K, N1), "vm": (K, K), "z": (N, SYM("KZ")), "h": (N, H),
         "yend": (N, KE), "q": (N, KQ), "n": N, "k": K, "sparse": (N, N), "e_pred": (N, N1), "predy_e": (N, N1), "sig2": (), "mean_y": (), "std_y": (),
         "u_naive": (N, N1), "xb": (N, N1), "logl": (), "logll": (), "rho": (), "lam": (), "r2": (), "ssr": (), "kstar": SYM("KSTAR"),
         "s0": (), "s1": (), "s2": (), "varb": (SYM("KZ"), SYM("KZ")), "zthhthi": (SYM("KZ"), H),
         "xtx": lambda o: bi("@", tr(at(o, "x")), at(o, "x")), "xtxi": lambda o: inv(bi("@", tr(at(o, "x")), at(o, "x"))),
         "utu": lambda o: bi("@", tr(at(o, "u")), at(o, "u")),
         "sig2n": lambda o: bi("/", bi("@", tr(at(o, "u")), at(o, "u")), at(o, "n")),
         "sig2n_k": lambda o: bi("/", bi("@", tr(at(o, "u")), at(o, "u")), bi("-", at(o, "n"), at(o, "k"))),
         "trcWtW_WW": lambda o: mk("call", "numpy.trace", (bi("+", bi("@", tr(at(o, "sparse")), at(o, "sparse")), bi("@", at(o, "sparse"), at(o, "sparse"))),), ())}
SYMMETRIC = {"vm", "varb"}
NODE = ast.parse("x", mode="eval").body


class Rel:
    def __init__(self, pid, entry, src, sc=None, facts=None, shapes=None, attrs=None, opaque=(), name=None, types=None, cut=(), fail=False, sym=(), assume=None, soft=(), loops=False, fresh=False, dims=False):
        self.pid, self.entry, self.src, self.sc, self.facts = pid, entry, src, sc or {}, facts or []
        self.shapes, self.attrs, self.opaque = shapes or {}, attrs or {}, tuple(opaque)
        self.types = types or {}
        self.name, self.fail = name, fail
        self.dims = dims  # numbers of rows and columns that are known are used as constants
        self.fresh = fresh  # the formula refers to the arguments as they were before the call
        self.loops = loops  # True: a while loop goes on while its test is not decided; k: k times
        self.soft = tuple(soft)  # functions with relations of their own, first kept uninterpreted
        self.assume = assume  # truth of conditions on run-time values: term -> True / False / None
        self.sym = set(sym)  # symmetric matrix parameters
        self.cut = dict(cut) if isinstance(cut, dict) else {c: None for c in cut}  # results of m replaced by atoms (with their shapes)

    def key(self):
        return self.entry + "".join(",%s=%s" % (k, v) for k, v in sorted(self.sc.items()) if v is not P and not isinstance(v, T)) + "".join(",%d equations" % (len(v.a) // 2) for k, v in self.sc.items() if isinstance(v, T) and v.op == "mkdict")[:12] + (":" + self.name if self.name else "")


def R(pid, entry, src, **kw):
    RELS.append(Rel(pid, entry, src, **kw))


def eqs(name, n):
    """a dictionary with one array per equation (parameters name0, name1, ...)"""
    return mk("mkdict", *[z for i in range(n) for z in (C(i), mk("param", name + str(i)))])


def lit(v):
    if isinstance(v, T):
        return v
    if isinstance(v, list):
        return mk("list", *[lit(x) for x in v])
    return C(v)


def out(eng, r, key):
    """value of one observable: 'attr', 'ret', 'ret[0]', "ret['k']", "attr[0]"; '#attr' is the number of rows, '##attr' that of columns """
    if key[0] == "#":
        v = out(eng, r, key.lstrip("#"))
        return None if v is None else v if v is MISSING else mk("index", mk("attr", eng.reify(v, r.st), "shape"), C(len(key) - len(key.lstrip("#")) - 1))
    base = key.split("[", 1)[0]
    v = r.val if base == "ret" else r.attr(base)
    for k in re.findall(r"\[([^\]]*)\]", key):
        if v is None:
            return None
        eng.stack.append(Func(ast.parse("pass"), eng.modules["spreg.utils"], "<out>"))
        try:
            v = eng.getitem(v, key_term(k), r.st, NODE)
        finally:
            eng.stack.pop()
    return v


def key_term(k):
    """'0', "'name'" or ':,0' as a term"""
    if ("," in k or ":" in k) and k[0] not in "'\"":
        return mk("tuple", *[mk("slice", NONE, NONE, NONE) if p.strip() == ":" else C(int(p)) for p in k.split(",")])
    return C(ast.literal_eval(k))


def plain(t, memo):
    """the value on the run where no try block fails and parameter objects have the attributes that are tested for"""
    if t in memo:
        return memo[t]
    if t.op == "phi" and memo.get("assume") and memo["assume"](t.a[0]) is not None:
        r = plain(t.a[1 if memo["assume"](t.a[0]) else 2], memo)
    elif t.op == "phi" and t.a[0].op == "exc":
        r = plain(t.a[1 if memo.get("fail") else 2], memo)
    elif t.op == "phi" and t.a[0].op == "not" and t.a[0].a[0].op == "exc":
        r = plain(t.a[2 if memo.get("fail") else 1], memo)
    elif t.op == "last" and t.a[0].op == "method" and t.a[0].a[0] == "unique" and not any(x.op == "elem" and x.a[0] is t.a[0] for x in subterms(t.a[1])):
        r = plain(t.a[1], memo)  # the loop over the equations of a result runs at least once
    elif t.op == "call" and t.a[0] == "hasattr" and isconst(t.a[1][1]) and cval(t.a[1][1]) in memo.get("has", ATTRS):
        r = TRUE
    else:
        r = rebuild(t, lambda x: plain(x, memo))
        if r.op == "phi":
            r = phi(*r.a)
        if r.op == "bin" and r.a[0] in ("&", "|") and all(isconst(x) and isinstance(cval(x), bool) for x in r.a[1:]):
            r = C(cval(r.a[1]) & cval(r.a[2]) if r.a[0] == "&" else cval(r.a[1]) | cval(r.a[2]))
    memo[t] = r
    return r


def decls(eng, rel, roots):
    """declare shapes on every param / param-attribute term that occurs"""
    d = {}
    sh = dict(SHAPES)
    sh.update(rel.shapes)
    at = dict(ATTRS)
    at.update(rel.attrs)
    d.update({mk("opq", "@" + k.rsplit(".", 1)[0], k.rsplit(".", 1)[1]): v for k, v in rel.attrs.items() if k.count(".") == 2})
    todo = list(roots)
    for k, ty in rel.types.items():
        if ty in ("W", "Kernel") and sh.get(k) is None:
            todo.append(mk("attr", mk("param", k), "sparse"))
    while todo:
        t = todo.pop()
        for x in subterms(t):
            if x in d:
                continue
            if x.op == "param" and sh.get(x.a[0]) is not None:
                d[x] = sh[x.a[0]]
            elif x.op == "call" and x.a[0] == "@w_utils.symmetrize" and x.a[1][0].op == "param":
                d[x] = (N, N)
            elif x.op == "attr" and x.a[1] == "sparse" and x.a[0].op == "attr" and x.a[0].a[0].op == "param":
                d[x] = (N, N)
            elif x.op == "attr" and x.a[0].op == "param":
                o = x.a[0]
                s = at.get(o.a[0] + "." + x.a[1], at.get(x.a[1]))
                if s is not None and not (o.a[0] in sh and sh[o.a[0]] is not None):
                    d[x] = s(o) if callable(s) else s
                    if callable(s):
                        todo.append(d[x])
    return d


def shaper(eng, rel):
    z = NF(eng, State(), {})
    memo = {}

    def f(t, value=False):
        """the shape of a value, or the integer it equals"""
        if value:
            f(t)
            v = z.nf(t) if memo[t] == () else None
            return int(v.a[0]) if v is not None and v.op == "num" and v.a[0].denominator == 1 else None
        if t not in memo:
            memo[t] = None
            z.steps = 0
            d = decls(eng, rel, [t])
            d = {k: v for k, v in d.items() if k not in z.decl}
            if d:
                z.decl.update(d)
                z.smemo.clear()
            try:
                memo[t] = z.shape(z.nf(t))
            except RuntimeError:
                pass
        return memo[t]
    return f


def subst(t, memo):
    if t in memo:
        return memo[t]
    r = rebuild(t, lambda x: subst(x, memo))
    memo[t] = r
    return r


def decide(eng, rel, r, a, e, shp):
    """verdict on one pair of terms; 'eq' in either of two normal forms, 'diff' only when both are complete and differ"""
    z = NF(eng, r.st, {**decls(eng, rel, [a, e]), **shp})
    z.sym = {x for x in z.decl if x.op == "attr" and x.a[1] in SYMMETRIC or x.op == "param" and x.a[0] in rel.sym}
    try:
        v, txt = compare(z.nf(a), z.nf(e), z)
    except RuntimeError as ex:
        return "und", str(ex)
    if v != "eq":
        # the same comparison with block matrices multiplied out
        z2 = NF(eng, r.st, z.decl)
        z2.sym, z2.expand = z.sym, True
        try:
            v2, txt2 = compare(z2.nf(a), z2.nf(e), z2)
            if v2 == "eq":
                v = "eq"
            elif os.environ.get("SA_EXPAND"):
                txt = txt2
            elif v2 == "und":
                v = "und"
        except RuntimeError:
            v, txt = "und", "budget " + txt
    if v != "eq" and rel.dims:
        # the same comparison element by element
        z3 = NF(eng, r.st, z.decl)
        z3.sym, z3.small = z.sym, True
        try:
            na, ne = z3.nf(a), z3.nf(e)
            v3, txt3 = compare(na, ne, z3)
            if v3 != "eq":
                d = z3.dense(na)
                if d is not None and len(d) * len(d[0]) > 1 and d == z3.dense(ne):
                    v3 = "eq"
            if v3 == "eq":
                v = "eq"
            elif v3 == "und":
                v = "und"
            if os.environ.get("SA_SMALL"):
                txt = txt3
        except RuntimeError:
            v, txt = "und", "budget " + txt
    return v, txt


def evaluate(eng, rel):
    """-> list of (key, verdict, text) """
    res = evaluate1(eng, rel, rel.soft)
    if rel.soft and any(x[1] not in ("eq", "known") for x in res):
        # the helpers may be used differently: multiply them out
        full = {x[0]: x for x in evaluate1(eng, rel, (), {x[0] for x in res if x[1] not in ("eq", "known")})}
        res = [x if x[1] in ("eq", "known") else merged(x, full.get(x[0])) for x in res]
    return [x[:3] for x in res]


def merged(soft, full):
    if full is None or full[1] != "und":
        return full or soft
    # too large to multiply out: the first comparison stands when both sides use the same helpers
    return soft if len(soft) > 3 and soft[3] else full


def evaluate1(eng, rel, soft, only=None):
    q = rel.entry
    sub = defaults(eng, q)
    for z in default_node(eng, q):
        if z not in sub:
            sub[z] = mk("param", z)
    for k, v in rel.sc.items():
        sub[k] = mk("param", k) if v is P else lit(v)
    eng.ptypes = typed(sub)
    eng.ptypes.update(rel.types)
    old = eng.opaque_funcs
    eng.unroll = True
    eng.loops = rel.loops
    eng.shaper = shaper(eng, rel) if rel.dims else None
    eng.opaque_funcs = set(old or ()) | set(rel.opaque) | set(soft)
    try:
        objs = [(mk("param", k), True) for k, ty in eng.ptypes.items() if ty in ("W", "Kernel")]  # a given weights object is true
        given = [(mk("cmp", "is", mk("param", k), NONE), False) for k, v in rel.sc.items() if v is P]
        eng.tests = []
        r = eng.run(q, scenario=dict(sub), facts=rel.facts + objs + given)
        tests = eng.tests
        if r.raised is not None or r.val is None:
            return [("*", "raised", str(r.raised.etype if r.raised is not None else None))]
        m = type(eng.modules["spreg.utils"])("spreg.zzspec", "zzspec", ast.parse(PRE + rel.src))
        eng.modules["spreg.zzspec"] = m
        mm = eng.module("spreg.zzspec")
        f = mm.env["spec"]
        fn = eng.funcs[f.a[0]].node
        args = []
        for a in fn.args.args:
            args.append(r.val if a.arg == "m" else sub.get(a.arg, mk("param", a.arg)))
        eng.stack.append(Func(ast.parse("pass"), mm, "<spec>"))
        saved, eng.exits = eng.exits, []
        try:
            est = r.st
            args = [eng.built(a, est) for a in args]
            if rel.fresh:
                est = r.st.clone()
                est.over = {}
            sv = eng.call(f, args, {}, est, fn)
        finally:
            eng.exits = saved
            eng.stack.pop()
        exp = items_of(eng, sv, est)
        cuts = []
        for c, shp in rel.cut.items():
            v = out(eng, r, c)
            if v is None or v is MISSING:
                raise Broken("cut %s" % c)
            v = eng.reify(v, r.st)
            if v.op not in ("param", "const"):
                cuts.append((v, mk("param", "cut:" + c), shp if shp is not None else ATTRS[c]))
        res = []
        deviant = {k[:-1]: e for k, e in exp if k.endswith("~")}  # the formula of a recorded finding
        for k, e in exp:
            if k.endswith("~") or only is not None and k not in only and "*" not in only:
                continue
            try:
                a = out(eng, r, k) if not k.startswith("test[") else tests[int(k[5:-1])] if -len(tests) <= int(k[5:-1]) < len(tests) else None
            except AbsRaise as ex:
                a = None
            if a is None and k.startswith("test["):
                res.append((k, "und", "the iteration is not a while loop"))
                continue
            if a is None or a is MISSING:
                res.append((k, "absent", "the result has no %s" % k))
                continue
            memo = {"fail": rel.fail, "assume": rel.assume}
            a0 = eng.reify(a, r.st)
            a = plain(a0, memo)
            e = plain(eng.reify(e, est), memo)
            a = project(a, e)
            v, txt = against(eng, rel, r, a, a0, e, cuts, memo)
            if v != "eq" and k in deviant and against(eng, rel, r, a, a0, plain(eng.reify(deviant[k], est), memo), cuts, memo)[0] == "eq":
                v = "known"
            res.append((k, v, txt, helpers(a, soft) == helpers(e, soft)))
        return res
    finally:
        eng.ptypes = {}
        eng.unroll = False
        eng.loops = False
        eng.shaper = None
        eng.opaque_funcs = old


def project(a, e):
    """a without those fields of objects handed to helpers that the specification does not have (its formulas give the same results without them)"""
    names = {}
    for x in subterms(e):
        if x.op == "call" and isinstance(x.a[0], str) and x.a[0][:1] == "@":
            for y in x.a[1]:
                if isinstance(y, T) and y.op == "inst*":
                    names.setdefault(x.a[0], set()).update(f.a[0] for f in y.a)
    if not names:
        return a
    memo = {}

    def go(t):
        if t not in memo:
            r = rebuild(t, go)
            if r.op == "call" and r.a[0] in names:
                r = mk("call", r.a[0], tuple(mk("inst*", *[f for f in y.a if f.a[0] in names[r.a[0]]]) if isinstance(y, T) and y.op == "inst*" else y for y in r.a[1]), r.a[2])
            memo[t] = r
        return memo[t]
    return go(a)


def helpers(t, soft):
    return {x.a[0] for x in subterms(t) if x.op == "call" and x.a[0][1:] in soft and x.a[0][0] == "@"}


def against(eng, rel, r, a, a0, e, cuts, memo):
    v, txt = "und", ""
    if cuts:
        m1 = {plain(x, memo): at for x, at, shp in cuts if x is not a0}
        m2 = dict(m1)
        v, txt = decide(eng, rel, r, subst(a, m1), subst(e, m2), {at: shp for x, at, shp in cuts})
    return (v, txt) if v == "eq" else decide(eng, rel, r, a, e, {})


def items_of(eng, v, st):
    h = st.heap.get(v.a[0]) if v.op == "ref" else None
    if h is not None and h.kind == "dict" and h.rest is None and all(it is None for k, x, it in h.d):
        return [(cval(k), x) for k, x, it in h.d]
    raise Broken("spec does not return a plain dict: %s" % show(v)[:200])
