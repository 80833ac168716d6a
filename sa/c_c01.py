"""C01 the cores option changes only where regimes are estimated, not what is reported.

Rule: each estimator with a cores option is analysed with separately estimated regimes twice per option setting, once with
cores=False and once with cores=True.  In the second run a task given to a process pool works on a copy of everything it is
given and only a copy of what it returns comes back.  Every attribute of the two results (recursively, results of single
regimes included) must be the same value term.  What is given to a pool must be a function of a module (workers find it by
name), and the cores option itself must reach no value of the result."""
import spec
import stubs
from spec import *
from options import domain, default_node, defaults

RG = ["b", "a", "b", "a", "a", "b", "a", "b", "a", "b"]
TRI = [3, 1, 2, 2, 1, 3, 1, 2, 3, 3, 1, 2]
NARROW = {"constant_regi", "cols2regi", "regime_err_sep", "regime_lag_sep", "cores", "summ", "add_lag"}
BASES = ["ols.BaseOLS", "twosls.BaseTSLS", "ml_lag.BaseML_Lag", "ml_error.BaseML_Error", "error_sp.BaseGM_Error", "error_sp.BaseGM_Endog_Error",
         "error_sp_het.BaseGM_Error_Het", "error_sp_het.BaseGM_Endog_Error_Het", "error_sp_hom.BaseGM_Error_Hom", "error_sp_hom.BaseGM_Endog_Error_Hom"]
OPAQUE = ["regimes._chow_run", "regimes.w_regime", "output.output", "utils.set_endog", "utils.set_endog_sparse", "utils.sp_att"]


def scenarios(eng, q):
    """option settings with separate estimation: the base one, and each option at each other value"""
    d = defaults(eng, q)
    ps = default_node(eng, q)
    base = {p: cval(v) for p, v in d.items()}
    base.update({"constant_regi": "many", "cols2regi": "all", "regimes": RG, "name_x": ["v"], "y": P, "x": P})
    for p in ("regime_err_sep", "regime_lag_sep"):
        if p in ps:
            base[p] = True
    lag = "lag" in q.lower() and "ML" in q
    if "robust" in ps:
        base["robust"] = None
    for p in ("spat_diag", "spat_impacts", "nonspat_diag", "white_test", "vm"):
        if p in ps:
            base[p] = False
    if "w" in ps:
        base["w"] = P
    if "regime_lag_sep" in ps and "Combo" not in q and "Lag" not in q:
        base["regime_lag_sep"] = False
    if "add_lag" in ps:
        base["add_lag"] = False
    iv = "yend" in ps
    out = [("", base)]
    if iv:
        need = ps["yend"] is None
        ivs = {"yend": P, "q": P, "name_yend": ["e"], "name_q": ["q0", "q1"]}
        if need:
            base.update(ivs)
        else:
            base.update({"yend": None, "q": None})
            out.append(("yend given", {**base, **ivs}))
    for p in sorted(ps):
        if p in NARROW:
            continue
        for v in domain(eng, q, p):
            if p == "robust" and v == "hac":
                continue  # switches separate estimation off
            if base.get(p) != v or type(base.get(p)) is not type(v):
                out.append(("%s=%r" % (p, v), {**base, p: v}))
    if "slx_lags" in ps and "spat_diag" in ps:
        out.append(("slx_lags=1, spat_diag=True", {**base, "slx_lags": 1, "spat_diag": True}))
    out.append(("three regimes", {**base, "regimes": TRI}))
    out.append(("regimes as given by a variable", {**base, "regimes": P}))
    return [(n, s) for n, s in out if all(k in ps for k in s)]


def flatten(eng, v, st, path, out, seen):
    v = eng.simp(v, st) if isinstance(v, T) else v
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        if v in seen:
            out[path] = mk("same", C(seen[v]))
            return
        if h.kind == "inst":
            seen[v] = path
            out[path] = mk("class", h.cls.qual if h.cls else "?")
            for k, x in h.d.items():
                flatten(eng, x, st, path + "." + k, out, seen)
            return
        if h.kind == "dict" and h.rest is None and all(it is None and isconst(k) for k, x, it in h.d):
            seen[v] = path
            out[path] = mk("keys", *[k for k, x, it in h.d])
            for k, x, it in h.d:
                flatten(eng, x, st, "%s[%r]" % (path, cval(k)), out, seen)
            return
        if h.kind == "list" and len(h.d) < 40:
            out[path] = mk("entries", C(len(h.d)))
            for i, x in enumerate(h.d):
                flatten(eng, x, st, "%s[%d]" % (path, i), out, seen)
            return
    out[path] = eng.reify(v, st)
    for k in [k for k in st.over if k[0] is v and len(k) == 2 and v.op == "call"]:
        flatten(eng, st.over[k], st, path + "." + str(k[1]), out, seen)


def analyse(eng, q, sc, cores):
    sub = defaults(eng, q)
    for z in default_node(eng, q):
        sub.setdefault(z, mk("param", z))
    for k, v in sc.items():
        sub[k] = mk("param", k) if v is P else lit(v)
    sub["cores"] = C(cores)
    eng.ptypes = {**typed(sub), "w": "W"}
    eng.unroll, eng.loops, eng.processes = True, False, 1
    n = num(len(sc["regimes"])) if isinstance(sc["regimes"], list) else None
    rel = Rel("C01", q, "", dims=True, shapes={k: (n, m) if n else None for k, m in (("y", N1), ("x", N1), ("yend", N1), ("q", num(2)))} | {"w": None})
    eng.shaper = shaper(eng, rel)
    old = eng.opaque_funcs
    eng.opaque_funcs = set(OPAQUE) | set(BASES)
    objs = [(mk("param", "w"), True)]
    given = [(mk("cmp", "is", mk("param", k), NONE), False) for k, v in sc.items() if v is P]
    eng.escaped = []
    try:
        r = eng.run(q, scenario=dict(sub), facts=objs + given)
        if r.val is None:
            return None, "raises %s" % (r.raised.etype if r.raised else "",), 0, []
        out = {}
        memo = {}
        flatten(eng, r.val, r.st, "result", out, {})
        return {k: plain(v, memo) for k, v in out.items()}, "", eng.processes - 1, [e for e in eng.escaped if isinstance(e[1], str)]
    finally:
        eng.opaque_funcs = old
        eng.unroll, eng.shaper, eng.processes, eng.ptypes = False, None, 0, {}


def unknown(t):
    """refers to a cell of one run"""
    return any(x.op in ("ref", "fresh", "opaque") for x in subterms(t))


def work(eng, item):
    q, i = item
    if eng.monitor_call is None:
        stubs.install(eng)
    nm, sc = scenarios(eng, q)[i]
    a, wa, _, _ = analyse(eng, q, sc, False)
    b, wb, n, esc = analyse(eng, q, sc, True)
    if a is not None and b is not None:
        for k in compare_runs(a, b)[0][:40]:
            if k[0] in a and k[0] in b and same_value(eng, a[k[0]], b[k[0]]):
                b[k[0]] = a[k[0]]
        return nm, compare_runs(a, b), wa, wb, n, [(f, why) for f, why in esc]
    return nm, (a is None, b is None), wa, wb, n, []


def alike(x, y, ids, memo):
    """equal up to the numbers that identify the loops of one run"""
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(alike(p, q, ids, memo) for p, q in zip(x, y))
    if not (isinstance(x, T) and isinstance(y, T)):
        return x == y
    k = (x, y)
    if k not in memo:
        if x.op != y.op or len(x.a) != len(y.a):
            memo[k] = False
        elif x.op == "whileof":
            memo[k] = ids.setdefault(x, y) is y and alike(x.a[1:], y.a[1:], ids, memo)
        else:
            memo[k] = True
            memo[k] = all(alike(p, q, ids, memo) for p, q in zip(x.a, y.a))
    return memo[k]


def compare_runs(a, b):
    """[(path, text)], number compared, number not comparable"""
    bad, n, und, ids, memo = [], 0, 0, {}, {}
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        n += 1
        if x is not None and y is not None and alike(x, y, ids, memo):
            continue
        if x is None or y is None:
            bad.append((k, "only set with cores=%s" % (x is None)))
        elif unknown(x) or unknown(y):
            und += 1
        else:
            bad.append((k, "cores=False: %s; cores=True: %s" % (show(x)[:400], show(y)[:400])))
    return bad, n, und


def run(q, i):
    eng = Engine(REPO)
    return work(eng, (q, i))


def same_value(eng, x, y):
    """a rearranged expression of the same value"""
    try:
        return decide(eng, Rel("C01", "", ""), type("R", (), {"st": None}), x, y, {})[0] == "eq"
    except Exception:
        return False


POS = """
import multiprocessing as mp
from spreg.utils import set_warn
def _work(y, r, names):
    names.append(r)
    return [y*2, len(names)]
def bad(y, cores):
    names, p, out = [], {}, []
    for r in (1, 2):
        if cores:
            pool = mp.Pool(None)
            p[r] = pool.apply_async(_work, args=(y, r, names))
        else:
            p[r] = _work(y, r, names)
    return [p[r].get() if cores else p[r] for r in (1, 2)]
def good(y, cores):
    p, out = {}, []
    for r in (1, 2):
        if cores:
            pool = mp.Pool(None)
            p[r] = pool.apply_async(_work, args=(y, r, []))
        else:
            p[r] = _work(y, r, [])
    return [p[r].get() if cores else p[r] for r in (1, 2)]
"""


def positive():
    """a task that changes what it is given is told from one that does not"""
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(POS))
    out = []
    for f in ("bad", "good"):
        rs = []
        for c in (False, True):
            eng.unroll, eng.processes, eng.escaped = True, 1, []
            r = eng.run("zz." + f, scenario={"cores": C(c)})
            d = {}
            flatten(eng, r.val, r.st, "result", d, {})
            rs.append(d)
        out.append(bool(compare_runs(*rs)[0]))
    return out == [True, False]


def main():
    rep = Report("C01", __doc__)
    eng = Engine(REPO)
    ents = [q for q in entries(eng) if "cores" in default_node(eng, q) and q.count(".") == 1]
    items = [(q, i) for q in ents for i in range(len(scenarios(eng, q)))]
    comp = und = par = both_raise = 0
    seen = set()
    for (q, i), res, err, dt in run_all(work, items):
        if err:
            rep.errors.append("%s %s %s" % (q, i, err))
            continue
        nm, cmp, wa, wb, n, esc = res
        if len(cmp) == 2:
            if cmp[0] != cmp[1]:
                rep.add("%s|raises" % q, "%s with separate regimes (%s): cores=False %s, cores=True %s" % (q, nm, wa or "completes", wb or "completes"))
            else:
                both_raise += 1
            continue
        if n:
            par += 1
            seen.add(q)
        bad, c, u = cmp
        comp += c
        und += u
        for f, why in esc:
            rep.add("%s|task %s" % (q, f), "%s (%s) gives a process pool %s, %s" % (q, nm, f, why))
        for k, txt in bad[:6]:
            rep.add("%s|%s" % (q, k), "%s with separate regimes (%s): %s differs. %s" % (q, nm, k, txt))
        if len(rep.samples) < 6 and n:
            rep.samples.append("%s (%s): %d values of the result compared, %d tasks" % (q, nm, c, n))
    rep.cov = {"entries": len(ents), "entries_with_tasks": len(seen), "settings": len(items), "settings_with_tasks": par, "values_compared": comp, "not_comparable": und, "settings_that_raise": both_raise, "positive_example_fires": int(positive())}
    return rep.finish("%d estimators, %d option settings run both ways: %d values compared, %d not comparable." % (len(ents), len(items), comp, und),
                      [("entries_with_tasks", 12), ("settings_with_tasks", 60), ("values_compared", 3000), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
