"""B04 no option combination ends in an internal programming error.

Rule: (1) no call reachable from a public entry uses an undefined name, a removed method, or an argument list the callee
does not accept; (2) for every use of a variable, attribute or entry that some branch leaves unset, the documented option
values that lead there are read off the branch conditions, and the entry is re-analysed with exactly those options: it is
a violation when then every path of the entry ends in that accidental error."""
import ast
from options import *

KINDS = ("unbound", "missing_attr", "undefined", "arity", "py2_method", "unpack", "none_attr", "none_index", "not_callable", "no_setter", "attr_raise", "missing_key")
ALWAYS = ("undefined", "py2_method")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
# internal step functions of the clustering class, meaningful only between fit() and the next step
EXEMPT_ENTRY = {"skater_reg.Skater_reg.find_cut", "skater_reg.Skater_reg.score_spreg", "skater_reg.Skater_reg.score_stats", "skater_reg.Skater_reg.make_cut"}
EXEMPT_ALWAYS = set()


def detail(x):
    d = x.data
    if isinstance(d, tuple):
        return ",".join(str(z) for z in d if isinstance(z, str))
    return str(d) if isinstance(d, str) else ""


def enc(sub):
    return tuple(sorted((p, ("c", cval(v)) if isconst(v) else ("p", None)) for p, v in sub.items()))


def dec(e):
    return {p: (C(v) if k == "c" else mk("param", p)) for p, (k, v) in e}


def plain_function(eng, qual):
    """the callee is a module level function: its resolution does not depend on the class of self"""
    f = [z for z in eng.funcs.values() if z.qual == qual]
    return bool(f) and all(z.cls is None for z in f)


# calls without the data they are about (one of two alternatives is required)
NO_BARE = {"diagnostics_probit.sp_tests", "probit.sp_tests"}


def wellformed(q, s):
    """the scenario supplies the data the entry documents as needed"""
    n = q.split(".")[1]
    if n.startswith("Base") and any(s.get(p) is NONE for p in ("w", "yend", "q")):
        return False  # the computational classes take the data prepared by the public ones
    if q in NO_BARE and all(s.get(p) is NONE for p in ("regprob", "obj_list")):
        return False
    return True


def candidates(eng, q):
    eng.ptypes = {}
    r = eng.run(q)
    always, cand = {}, {}
    n = 0
    per = {}
    for x in r.events:
        if x.kind not in KINDS:
            continue
        n += 1
        key = (loc(x.where), x.kind, detail(x))
        if x.kind in ALWAYS or (x.kind == "arity" and isinstance(x.data, tuple) and (plain_function(eng, x.data[0]) or x.data[0].endswith("__init__"))):
            always.setdefault(key, (x.where, x.stack))
            continue
        if per.get(key, 0) >= 4:
            continue
        per[key] = per.get(key, 0) + 1
        facts = list(x.facts.items())
        conds = [z for z in (x.data if isinstance(x.data, tuple) else ()) if isinstance(z, T)]
        for c in conds:
            if c is not TRUE and c.op in ("not", "and", "or", "cmp", "param", "call"):
                facts.append((c, True))
        s = solve(eng, q, facts)
        if s is None or not wellformed(q, s):
            continue
        cand.setdefault(key, []).append((enc(s), x.where, x.stack))
    return {"n": n, "always": always, "cand": cand, "raised": None}


def confirm(eng, item):
    q, e = item
    r = run(eng, q, dec(e))
    last = [(loc(x.where), x.kind, detail(x), x.where, x.stack) for x in r.events if x.kind in KINDS]
    return internal(r), (r.raised.etype if r.raised else None), last[-3:]


def positive():
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(
        "import numpy as np\ndef h(a, b):\n    return a\n"
        "def bad(y, x, spat_diag=False):\n    if y.shape[0] < 3:\n        raise Exception('short')\n    if spat_diag:\n        r = 1\n    return r\n"
        "def bad2(y, x):\n    return h(y)\n"
        "def good(y, x, spat_diag=False):\n    if spat_diag:\n        r = 1\n    if spat_diag:\n        return r\n"))
    out = []
    for k in ("bad", "bad2", "good"):
        c = candidates(eng, "zz." + k)
        hit = bool(c["always"]) or any(confirm(eng, ("zz." + k, s))[0] for v in c["cand"].values() for s, _, _ in v)
        out.append(hit)
    return out == [True, True, False]


def main():
    rep = Report("B04", __doc__)
    eng = Engine(REPO)
    es = [q for q in entries(eng) if q not in EXEMPT_ENTRY]
    n = 0
    todo = {}
    sites = {}
    for it, res, err, dt in run_all(candidates, es):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        n += res["n"]
        for k, (wh, stack) in res["always"].items():
            if k[0] in EXEMPT_ALWAYS:
                continue
            rep.add("%s|%s|%s" % k, "entry %s: %s %s (%s line %d)" % (it, k[1], k[2], wh[0], wh[2]), stack)
        for k, v in res["cand"].items():
            for e, wh, stack in v[: (4 if THOROUGH else 2)]:
                sites.setdefault(k, []).append((dt, it, e))
    for k, v in sites.items():
        v.sort(key=lambda z: (z[0], z[1]))
        seen = set()
        for dt, it, e in v:
            if it in seen and not THOROUGH:
                continue
            seen.add(it)
            todo.setdefault((it, e), []).append(k)
            if len(seen) >= (6 if THOROUGH else 2):
                break
    # every entry once with its defaults and all optional data supplied, and once with the bare defaults
    for q in es:
        if q.split(".")[-1] in ("stge_pre", "stge_kb", "Panel_FE_Lag", "Panel_FE_Error", "stge_classic") and not THOROUGH:
            continue
        base = defaults(eng, q)
        lo, hi = {}, {}
        for p in default_node(eng, q):
            lo[p] = base.get(p, mk("param", p))
            hi[p] = mk("param", p) if p in OPTIONAL_DATA and not p.startswith("name_") and p != "regimes" else lo[p]
        if fnode(eng, q) is not None and fnode(eng, q).args.vararg:
            continue
        for s in ((lo, hi) if wellformed(q, lo) else (hi,)):
            todo.setdefault((q, enc(s)), [])
    confirmed = 0
    for (q, e), res, err, dt in run_all(confirm, list(todo)):
        if err:
            rep.errors.append("%s %s" % (q, err))
            continue
        bad, et, last = res
        if not bad:
            continue
        confirmed += 1
        ks = last[-1] if last else (q, "error", "", ("?", q, 0), ())
        opts = {p: v[1] for p, v in e if v[0] == "c" and C(v[1]) is not defaults(eng, q).get(p)}
        rep.add("%s|%s|%s" % ks[:3], "entry %s with %s always ends in %s: %s %s (%s line %d)" % (q, opts or "default options", et, ks[1], ks[2], ks[3][0], ks[3][2]), ks[4])
    rep.cov = {"entries": len(es), "uses_examined": n, "candidate_sites": len(sites), "option_scenarios_analysed": len(todo), "scenarios_always_failing": confirmed,
               "positive_example_fires": int(positive())}
    rep.samples = es[:8]
    return rep.finish("Definedness analysis of %d public entries: %d uses that some branch leaves undefined, grouped in %d sites; %d option scenarios re-analysed." % (len(es), n, len(sites), len(todo)),
                      [("entries", 190), ("uses_examined", 300), ("option_scenarios_analysed", 250), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
