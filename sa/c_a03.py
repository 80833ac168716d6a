"""A03 estimation is silent unless output was asked for.

Rule: every write to standard output reachable from a public entry must be control dependent on a truthy test of one of
the entry's own output flags."""
import ast
from common import *

FLAGS = {"verbose", "super_verbose", "mprint", "conv_flag"}
# documented purpose is printing: (entry, parameter whose presence asks for it)
PRINTERS = {("diagnostics_probit.sp_tests", "obj_list")}
SKIP = ("dgp",)  # data generators, not estimators or diagnostics: they report argument errors on the console by design


def asks(cond, val, q):
    """does this path condition say an output flag is on"""
    flag = lambda t: t.op == "param" and (t.a[0] in FLAGS or (q, t.a[0]) in PRINTERS)
    if val and flag(cond):
        return True
    if cond.op == "cmp" and len(cond.a) == 3 and flag(cond.a[1]):
        return (cond.a[0] in ("==", ">") and val) or (cond.a[0] == "is" and cond.a[2] is NONE and not val) or (cond.a[0] == "is" and cond.a[2] is TRUE and val)
    if cond.op == "cmp" and len(cond.a) == 3 and flag(cond.a[2]):
        return cond.a[0] in ("==", "<") and val
    if cond.op == "and" and val:
        return any(asks(c, True, q) for c in cond.a)
    if cond.op == "or" and val:
        return all(asks(c, True, q) for c in cond.a)
    if cond.op == "or" and not val:
        return any(asks(c, False, q) for c in cond.a)
    if cond.op == "not":
        return asks(cond.a[0], not val, q)
    if cond.op == "phi":
        return False
    return False


def scan(r, q):
    out, n = {}, 0
    for x in r.events:
        isout = x.kind == "print"
        if x.kind == "ext" and isinstance(x.data[0], str) and x.data[0] in ("sys.stdout.write", "pprint.pprint", "sys.stdout.writelines", "logging.warn_", "os.write"):
            isout = True
        if not isout:
            continue
        n += 1
        if any(asks(c, v, q) for c, v in x.facts.items()):
            continue
        out.setdefault(loc(x.where), (show(x.data[0] if isinstance(x.data[0], T) else C("output"), 2)[:60], x.where, x.stack))
    return n, out


def work(eng, q):
    eng.ptypes = {}
    return scan(eng.run(q), q)


def positive():
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(
        "import sys\ndef bad(y, x, verbose=False):\n    if not verbose:\n        print(y)\n    sys.stdout.write('a')\n"
        "def bad2(y, x, verbose=False):\n    if x is None:\n        print(y)\n"
        "def h(v, t):\n    if v:\n        print(t)\n"
        "def good(y, x, verbose=False, mprint=True):\n    h(verbose, y)\n    if mprint and x is not None:\n        print(y)\n"))
    a, b, c = (scan(eng.run("zz." + k), "zz." + k) for k in ("bad", "bad2", "good"))
    return a[0] == 2 and a[1] and b[1] and not c[1] and c[0] == 2


def main():
    rep = Report("A03", __doc__)
    eng = Engine(REPO)
    es = entries(eng, skip=SKIP)
    tot = 0
    for it, res, err, dt in run_all(work, es):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        tot += res[0]
        for where, (t, wh, stack) in res[1].items():
            rep.add("%s" % where, "entry %s writes %s to standard output with no output flag set (%s line %d)" % (it, t, wh[0], wh[2]), stack)
    rep.cov = {"entries": len(es), "output_statements_on_paths": tot, "positive_example_fires": int(bool(positive()))}
    rep.samples = es[:8]
    return rep.finish("Control-dependence analysis of every standard-output write reachable from %d public entries (%d reached); each must depend on an output flag." % (len(es), tot),
                      [("entries", 190), ("output_statements_on_paths", 15), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
