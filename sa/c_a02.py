"""A02 calls and imports leave no process-wide state behind.

Rule: no operation reachable from a public entry, and no module-level statement, may store to an attribute of a module,
class or function object, rebind a module-level variable, mutate a module-level object or a default-argument object,
or call a library function whose effect is process wide (global random state, print options, warning filters, error
state, environment, working directory, files)."""
import ast
from common import *

GLOBAL_FX = {"random.seed", "random.setstate", "numpy.set_printoptions", "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize",
             "numpy.set_string_function", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
             "pandas.set_option", "pandas.reset_option", "os.putenv", "os.unsetenv", "os.chdir", "os.umask", "os.mkdir", "os.makedirs",
             "os.remove", "os.unlink", "os.rename", "os.replace", "shutil.rmtree", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile",
             "locale.setlocale", "multiprocessing.set_start_method", "gc.disable", "gc.enable", "gc.set_threshold",
             "logging.basicConfig", "logging.disable", "numpy.save", "numpy.savez", "numpy.savetxt", "signal.signal", "atexit.register",
             "setattr_", "socket.setdefaulttimeout", "numba.set_num_threads", "builtins.setattr", "numpy.matlib.seed", "importlib.reload"}
RNG_OK = {"default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64", "get_state"}
RNG_STATE = {"seed", "set_state"}
BASES = {"os.environ", "sys.path", "sys.modules", "warnings.filters", "numpy.random"}


def fx(name, args):
    if not isinstance(name, str):
        return None
    if name in GLOBAL_FX:
        return name
    p = name.split(".")
    if p[:2] == ["numpy", "random"] and len(p) == 3 and p[2] not in RNG_OK:
        return name  # the global generator is (re)seeded or advanced
    if p[0] == "random" and len(p) == 2 and p[1] not in ("Random", "SystemRandom", "getstate"):
        return name
    if any(name.startswith(b + ".") for b in ("os.environ", "sys.path", "sys.modules", "warnings.filters")) and p[-1] in (
            "update", "setdefault", "pop", "append", "insert", "extend", "clear", "remove", "popitem"):
        return name
    if name == "open" and len(args) > 1 and isconst(args[1]) and isinstance(cval(args[1]), str) and set(cval(args[1])) & set("wax+"):
        return name
    if name == "setattr" and args and args[0].op in ("ext", "mod", "class", "func"):
        return name
    return None


def mutable_defaults(eng, q):
    p = q.split(".")
    t = eng.module(eng.pkg + "." + p[0]).env[p[1]]
    if t.op == "class":
        f = eng.clsfind(eng.classes[t.a[0]], p[2] if len(p) > 2 else "__init__")
        if not f:
            return set()
        t = f[1]
    a = eng.funcs[t.a[0]].node.args
    pos = a.posonlyargs + a.args
    out = set()
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            out.add(x.arg)
    return out


def scan(events, mdef=()):
    n = 0
    out = {}
    for x in events:
        if x.kind == "extstore":
            n += 1
            out.setdefault((loc(x.where), "store:%s.%s" % (x.data[0], x.data[1])), ("an attribute of %s is assigned" % (x.data[0],), x.where, x.stack))
        elif x.kind == "global":
            n += 1
            out.setdefault((loc(x.where), "global:" + ",".join(map(str, x.data))), ("module variables %s are rebound by a global statement" % (x.data,), x.where, x.stack))
        elif x.kind == "mutate":
            n += 1
            for z in x.data[2]:
                if z.startswith(("default:", "global:")) or z in mdef:
                    out.setdefault((loc(x.where), "mutate:%s:%s" % (z, x.data[1].split("(")[0])), ("%s is modified in place by %s" % (z, x.data[1]), x.where, x.stack))
            t = x.data[0]
            base = t
            while base.op in ("index", "attr"):
                base = base.a[0]
            if base.op in ("ext", "mod", "class", "func") or (base.op == "fresh" and str(base.a[0]).startswith("clsattr.")):
                out.setdefault((loc(x.where), "mutate:%s" % show(base)), ("%s is modified in place by %s" % (show(t), x.data[1]), x.where, x.stack))
        elif x.kind == "ext":
            n += 1
            nm = fx(x.data[0], x.data[1])
            if nm:
                out.setdefault((loc(x.where), "call:" + nm), ("%s changes process-wide state" % nm, x.where, x.stack))
    return n, out


def work(eng, q):
    eng.ptypes = {}
    r = eng.run(q)
    return scan(r.events, mutable_defaults(eng, q))


def positive():
    eng = Engine(REPO)
    M = type(eng.modules["spreg.utils"])
    eng.modules["spreg.zz"] = M("spreg.zz", "zz", ast.parse(
        "import numpy as np\nfrom scipy import stats\nstats.foo = 1\nCACHE = {}\nclass K:\n    memo = {}\n"
        "def bad(x, acc=[]):\n    np.random.seed(1)\n    acc.append(x)\n    CACHE['a'] = x\n    np.set_printoptions(suppress=True)\n    K.last = x\n    np.linalg.inv = x\n"
        "def good(x, acc=[]):\n    rng = np.random.default_rng(1)\n    acc = acc + [x]\n    c = dict(CACHE)\n    c['a'] = x\n    return rng.normal(size=3), acc, c\n"))
    _, a = scan(eng.run("zz.bad").events, mutable_defaults(eng, "zz.bad"))
    _, b = scan(eng.run("zz.good").events, mutable_defaults(eng, "zz.good"))
    _, c = scan(eng.modules["spreg.zz"].events)
    k = {x[1] for x in a}
    return len(k) >= 6 and not b and len(c) == 1, (k, b, c)


def main():
    rep = Report("A02", __doc__)
    eng = Engine(REPO)
    es = entries(eng)
    tot = nmod = 0
    for mn in sorted(eng.modules):
        m = eng.module(mn)
        nmod += 1
        n, out = scan(m.events)
        tot += n
        for (where, how), (t, wh, stack) in out.items():
            if how.startswith("mutate:global:") or how.startswith("mutate:fresh"):
                continue  # a module filling its own tables while it is imported
            rep.add("%s|%s" % (where, how), "import of %s: %s (line %d)" % (mn, t, wh[2]))
    for it, res, err, dt in run_all(work, es):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        tot += res[0]
        for (where, how), (t, wh, stack) in res[1].items():
            rep.add("%s|%s" % (where, how), "entry %s: %s (%s line %d)" % (it, t, wh[0], wh[2]), stack)
    ok, dbg = positive()
    rep.cov = {"entries": len(es), "modules_imported": nmod, "operations_classified": tot, "positive_example_fires": int(ok)}
    rep.samples = es[:8]
    return rep.finish("Effect analysis of %d public entries and %d module bodies: %d stores, in-place operations and library calls classified; "
                      "violations are those with an effect outside the call's own objects." % (len(es), nmod, tot),
                      [("entries", 200), ("modules_imported", 40), ("operations_classified", 8000), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
