"""Relation checks of the computational properties (usage: c_rel.py PID).

Rule: for every listed entry and documented option setting, the value term the entry computes for an observable result, in
the normal form of matrix algebra, equals the value term of the reference formula.  A pair that is fully understood and
differs, a result that is missing, and an entry that always raises are violations; a pair with a construct outside the
normal form is undecided and only reported in the evidence."""
import glob
import spec
import stubs
from spec import *

TITLE = {}


def load(pid):
    spec.RELS[:] = []
    src = os.path.join(HERE, "specs", pid.lower() + ".py")
    exec(compile(open(src).read(), src, "exec"), spec.__dict__)
    return [r for r in spec.RELS if r.pid == pid]


_rels = None


def work(eng, item):
    q, i = item
    if eng.monitor_call is None:
        stubs.install(eng)
    return evaluate(eng, _rels[i])


def positive():
    """the comparison tells a wrong formula from a rearranged right one"""
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", ast.parse(
        "import numpy as np\nimport numpy.linalg as la\n"
        "def bad(y, x):\n    e = y - np.dot(x, la.inv(np.dot(x.T, x)) @ np.dot(x.T, y))\n    return np.sum(e*e)/(x.shape[0]-x.shape[1]-1)\n"
        "def good(y, x):\n    xt = x.T\n    b = la.solve(xt @ x, xt @ y)\n    df = len(y)-x.shape[1]\n    r = y - x @ b\n    return (r.T @ r)/df\n"))
    src = "def spec(y, x):\n    u = y - x@(la.inv(x.T@x)@(x.T@y))\n    return {'ret': (u.T@u)/(x.shape[0]-x.shape[1])}\n"
    return [evaluate(eng, Rel("", "zz." + k, src))[0][1] for k in ("bad", "good")] == ["diff", "eq"]


def main(pid):
    global _rels
    _rels = load(pid)
    rep = Report(pid, __doc__)
    n = {"eq": 0, "und": 0, "diff": 0, "absent": 0, "raised": 0, "known": 0}
    for (q, i), res, err, dt in run_all(work, [(r.entry or "ols.OLS", i) for i, r in enumerate(_rels)]):
        rel = _rels[i]
        if err:
            rep.errors.append("%s %s" % (rel.key(), err))
            continue
        for k, v, txt in res:
            n[v] += 1
            if v == "eq":
                if len(rep.samples) < 8:
                    rep.samples.append("%s -> %s" % (rel.key(), k))
            elif v == "und":
                rep.undecided.append("%s -> %s" % (rel.key(), k))
            else:
                what = {"diff": "is not the stated formula: ", "known": "is not the stated formula: ", "absent": "", "raised": "the entry always raises: "}[v] + txt[:1500]
                rep.add("%s|%s|%s" % (rel.entry, rel.key()[len(rel.entry):].strip(",:"), k) + ("" if v == "known" else "|" + v), "%s, result %s %s" % (rel.key(), k, what))
    rep.cov = {"relations": len(_rels), "observables": sum(n.values()), "decided_equal": n["eq"], "undecided": n["und"],
               "entries": len({r.entry for r in _rels}), "positive_example_fires": int(positive())}
    rep.max_errors = max(2, len(_rels) // 4)
    return rep.finish("%d reference formulas for %d entries and option settings: %d observables equal, %d undecided." % (len(_rels), rep.cov["entries"], n["eq"], n["und"]),
                      [("decided_equal", int(spec.FLOOR.get(pid, 1))), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
