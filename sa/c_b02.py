"""B02 accepted options are honoured by every route.

R1 (hand-over)  when an estimator hands its work to another estimator on the same object, or to one worker object per regime that
                becomes part of the result, every parameter both sides know must reach the target: its value there depends on the
                parameter, or the path has already fixed it, or another argument carries it. Open keyword arguments are handed on.
R2 (swap)       a parameter is never handed over under the name of another parameter that both sides also have.
R3 (influence)  on every route (regimes, estimator, separate error or lag, added lag, endogenous variables) every parameter the
                estimator accepts influences the result: a stored attribute, a warning, an exception or the path taken."""
from options import *

SKIPMOD = {"spsearch", "skater_reg", "panel_fe", "panel_re", "utils", "regimes", "sputils", "sp_panels", "diagnostics", "diagnostics_sp",
           "diagnostics_sur", "diagnostics_panel", "diagnostics_probit", "diagnostics_tsls"}
# documented as without effect, or exempt by design: (entry or target class regex, parameter)
EXEMPT = [
    (r"", "regime_lag_sep"),                    # documented "Always False, kept for consistency"
    (r"_Endog_Regimes$", "constant_regi"),      # the clustered classes fix these and say so in a warning
    (r"_Endog_Regimes$", "cols2regi"),
    (r"_Endog_Regimes$", "regime_err_sep"),
    (r"GMM_Error$", "spat_diag"),               # documented as ignored
    (r"", "conv_flag"), (r"", "verbose"), (r"", "mprint"),
    (r"^(sur|sur_error|sur_lag)\.", "df"),      # dictionaries already hold the names
    (r"\.BaseGM_", "slx_lags"), (r"\.BaseGM_", "w_lags"), (r"\.BaseGM_", "lag_q"), (r"BaseML_Lag$", "slx_lags"),  # base classes are told what the caller did
    (r"GM_Endog_Error\w*_Regimes$", "add_lag"),  # plumbing of the combo classes, used with regime_err_sep only
    (r"", "mtol"), (r"", "epsilon"),            # loop tolerances: the loop condition is opaque to the analysis
    (r"GM_ErrorRE$", "name_regimes"),
    (r"", "cores"),                             # scheduling only (C01)
]
FALLBACK = "Using default arguments instead"


GIVEN = "<given>"


def exempt(q, p):
    return any(p == x and re.search(r, q) for r, x in EXEMPT)


def leavesof(t, st, seen=None):
    """entry parameters a value depends on, through lists, dictionaries and arrays"""
    seen = set() if seen is None else seen
    out, todo, done = set(), [t], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in done:
            if isinstance(t, (tuple, list)):
                todo.extend(t)
            elif isinstance(t, dict):
                todo.extend(t.values())
            continue
        done.add(t)
        if t.op == "param":
            out.add(t.a[0])
        if t.op == "ref" and t.a[0] not in seen:
            seen.add(t.a[0])
            h = st.heap.get(t.a[0])
            if h is not None and h.kind != "inst":
                todo.append(h.d.values() if isinstance(h.d, dict) else h.d)
                if isinstance(h.d, dict):
                    todo.extend(h.d.values())
                if getattr(h, "rest", None) is not None:
                    todo.append(h.rest)
        todo.extend(t.a)
    return out


def walk(r):
    """(parameters the result depends on, heap references it contains)"""
    st, out, refs = r.st, set(), set()
    todo, done = [], set()
    if r.val is not None:
        todo.append(r.val)
    for e in r.exits or []:
        v = getattr(e, "val", None)
        if v is not None:
            todo.append(v)
        todo.extend(getattr(e.state, "facts", {}))
    if st is not None:
        todo.extend(st.facts)
    while todo:
        t = todo.pop()
        if isinstance(t, (tuple, list)):
            todo.extend(t)
            continue
        if not isinstance(t, T) or t in done:
            continue
        done.add(t)
        if t.op == "param":
            out.add(t.a[0])
        if t.op == "ref" and st is not None:
            h = st.heap.get(t.a[0])
            if h is not None and t.a[0] not in refs:
                refs.add(t.a[0])
                todo.extend(h.d.values() if isinstance(h.d, dict) else (h.d if isinstance(h.d, (tuple, list)) else [h.d]))
                if getattr(h, "rest", None) is not None:
                    todo.append(h.rest)
        todo.extend(t.a)
    return out, refs


def routes(eng, q):
    dn = default_node(eng, q)
    axes = [("", {})]

    def cross(vals):
        return [(n + m, {**a, **b}) for n, a in axes for m, b in vals]
    if "regimes" in dn and dn["regimes"] is not None:
        axes = cross([("", {"regimes": None}), ("+regimes", {"regimes": GIVEN})])
    name = q.split(".")[1]
    if name in ("GMM_Error", "GMM_Error_Regimes"):
        axes = cross([("+" + v, {"estimator": v}) for v in ("het", "hom", "kp98")])
        axes = cross([("", {"yend": None, "q": None}), ("+yend", {"yend": GIVEN, "q": GIVEN})])
        axes = cross([("", {"add_wy": False}), ("+wy", {"add_wy": True})])
    if "regime_err_sep" in dn and not name.startswith("Base"):
        axes = cross([("", {"regime_err_sep": False}), ("+sep", {"regime_err_sep": True})])
    if "regime_lag_sep" in dn and not name.startswith("Base") and name not in ("GMM_Error_Regimes",):
        axes = [(n + m, {**a, **b}) for n, a in axes for m, b in
                ([("", {"regime_lag_sep": False})] + ([("+lagsep", {"regime_lag_sep": True})] if a.get("regime_err_sep") is True else []))]
    return axes


def kind(eng, cls):
    """public estimator, Base estimator, or something else"""
    short = cls.mod.name.split(".")[-1]
    if short in SKIPMOD:
        return None
    if cls.name.startswith("Base"):
        return "base"
    al = eng.module(cls.mod.name).all
    return "public" if al is None or cls.name in al else None


def check(eng, it):
    q, label, fix = it
    fix = {p: mk("param", p) if v == GIVEN else C(v) for p, v in fix.items()}  # terms do not travel between processes
    calls = []

    def mon(e, fn, args, kw, st, node):
        if fn.name != "__init__" or fn.cls is None or kind(e, fn.cls) is None:
            return None
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = dict(zip(names, args))
        b.update(kw)
        self_ = b.pop(names[0], None)
        if any(f.mod.name.split(".")[-1].startswith(("diagnostics", "skater")) for f in e.stack):
            return None
        star = b.pop("**", None) is not None
        calls.append((fn, names[1:] + [x.arg for x in a.kwonlyargs], a.kwarg is not None, {k: (v, leavesof(v, st)) for k, v in b.items()}, star, self_,
                      dict(st.facts), e.stack[-1].qual if e.stack else "", getattr(node, "lineno", 0), tuple(g.qual for g in e.stack), warned(e, st)))
        return None

    def warned(e, st):
        s = calls0[0] if calls0 else None
        if s is None or s.op != "ref":
            return False
        h = st.heap.get(s.a[0])
        w = h.d.get("warning") if h is not None and isinstance(h.d, dict) else None
        return w is not None and any(x.op == "const" and isinstance(cval(x), str) and FALLBACK in cval(x) for x in subterms(w))

    calls0 = []
    P = [p for p in default_node(eng, q)]
    sub = {p: mk("param", p) for p in P}
    sub.update(fix)
    kwentry = fnode(eng, q).args.kwarg is not None
    if kwentry:
        sub["**"] = mk("param", "**")
    orig = eng.monitor_call

    def mon0(e, fn, args, kw, st, node):
        if not calls0 and fn.name == "__init__" and args:
            calls0.append(args[0])
        return mon(e, fn, args, kw, st, node)
    eng.monitor_call = mon0
    given = [p for p in fix if fix[p].op == "param"]
    eng.ptypes = typed(fix)
    try:
        r = eng.run(q, scenario=sub, facts=[(mk("cmp", "is", mk("param", p), NONE), False) for p in given])
    finally:
        eng.ptypes = {}
        eng.monitor_call = orig
    res = []
    if r.raised is not None:
        return {"raised": 1, "viol": [], "handovers": 0, "params": 0}
    D, refs = walk(r)
    absent = {"name_" + p for p in fix if fix[p] is NONE}
    sym = [p for p in P if p not in fix or fix[p].op == "param"]
    ncalls = 0
    for fn, names, tkw, b, star, self_, facts, caller, line, stack, fb in (calls if not q.startswith("spsearch.") else []):
        me = self_ is not None and calls0 and self_ is calls0[0]
        if not me and not (self_ is not None and self_.op == "ref" and self_.a[0] in refs):
            continue
        if caller == "" or (me and len(stack) <= 0):
            continue
        if fn.cls.name == q.split(".")[1] and len(stack) <= 1 and me:
            continue
        ncalls += 1
        fixed = set()
        for c in facts:
            l = {x.a[0] for x in subterms(c) if x.op == "param"}
            if len(l) == 1:
                fixed |= l
        tname = fn.mod.name.split(".")[-1] + "." + fn.cls.name
        for p in names:
            if p not in sym or exempt(q, p) or exempt(tname, p) or fb:
                continue
            if p in b and p in b[p][1]:
                continue
            if p in b and b[p][0].op == "param" and b[p][0].a[0] in sym and b[p][0].a[0] in names and b[p][0].a[0] != p:
                res.append((caller, tname, p, "swapped", "receives %s" % b[p][0].a[0], line))
                continue
            if p in absent or p in fixed or any(p in l for k, (v, l) in b.items() if k != p):
                continue
            partial = kind(eng, fn.cls) == "base" or ("summ" in b and b["summ"][0] is C(False))
            if (not me or partial) and p in D:
                continue  # the caller itself applies the option to the result
            res.append((caller, tname, p, "dropped" if p not in b else "replaced", "" if p not in b else "by " + show(b[p][0])[:60], line))
        if me and kwentry and not star and not fb and kind(eng, fn.cls) == "public" and len(stack) == 1 and (tkw or set(names) - set(P)):
            res.append((caller, tname, "**kwargs", "dropped", "", line))
    for p in sym:
        if p not in D and not exempt(q, p) and p not in absent:
            res.append((q, label, p, "ignored", "", 0))
    return {"raised": 0, "viol": res, "handovers": ncalls, "params": len(sym)}


def jobs(eng):
    out = []
    for q in entries(eng):
        m, n = q.split(".")[:2]
        if m == "spsearch":
            out.append((q, "", {}))
            continue
        if m in SKIPMOD or len(q.split(".")) > 2:
            continue
        if eng.module(eng.pkg + "." + m).env[n].op != "class" or fnode(eng, q) is None:
            continue
        for label, fix in routes(eng, q):
            out.append((q, label, fix))
    return out


POS = """
class Target:
    def __init__(self, y, x, vm=False, robust=None):
        self.y = y
        self.x = x
        self.v = (vm, robust)
class Bad(Target):
    def __init__(self, y, x, vm=False, robust=None, spat_diag=False):
        Target.__init__(self, y=y, x=x, robust=robust)
class Swap(Target):
    def __init__(self, y, x, vm=False, robust=None):
        Target.__init__(self, y=y, x=x, vm=robust, robust=vm)
class Good(Target):
    def __init__(self, y, x, vm=False, robust=None):
        Target.__init__(self, y, x, robust=robust, vm=vm)
"""


def positive():
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(POS))
    a = check(eng, ("zz.Bad", "", {}))["viol"]
    b = check(eng, ("zz.Swap", "", {}))["viol"]
    c = check(eng, ("zz.Good", "", {}))["viol"]
    return {x[3] for x in a} == {"dropped", "ignored"} and {x[2] for x in a} == {"vm", "spat_diag"} and {x[3] for x in b} == {"swapped"} and not c


def main():
    rep = Report("B02", __doc__)
    eng = Engine(REPO)
    its = jobs(eng)
    hand = par = raised = 0
    found, ign, total = {}, {}, {}
    for it, res, err, dt in run_all(check, its):
        if err:
            rep.errors.append("%s %s" % (it[:2], err))
            continue
        hand += res["handovers"]
        par += res["params"]
        raised += res["raised"]
        if not res["raised"]:
            total.setdefault(it[0], set()).add(it[1])
        for caller, target, p, how, extra, line in res["viol"]:
            if how == "ignored":
                ign.setdefault((it[0], p), set()).add(it[1])
            else:
                found.setdefault((caller, target, p, how), (extra, line, it))
    for (caller, target, p, how), (extra, line, it) in sorted(found.items(), key=str):
        rep.add("%s|%s|%s|%s" % (caller, target, p, how), "in %s (line %s) parameter %s of %s is %s when the work is handed to %s %s" % (caller, line, p, it[0], how, target, extra))
    for (q, p), ls in sorted(ign.items()):
        for l in sorted(ls):
            rep.add("%s|%s|%s|ignored" % (q, l, p), "entry %s on route '%s' accepts %s but nothing in the result depends on it" % (q, l or "plain", p))
    rep.cov = {"entries": len(total), "routes": len(its), "routes_that_only_raise": raised, "handovers": hand, "parameter_route_pairs": par, "positive_example_fires": int(positive())}
    rep.samples = [[i[0], i[1]] for i in its[:10]]
    return rep.finish("Hand-over and influence analysis of %d estimators on %d routes." % (len(total), len(its)),
                      [("entries", 60), ("routes", 110), ("handovers", 150), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
