"""Driver shared by all checks: entry enumeration, parallel runs, findings, evidence."""
import concurrent.futures as cf
import concurrent.futures.process
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("SA_REPO", "/repo")
sys.setrecursionlimit(20000)

from engine import Engine, Giveup, AbsRaise  # noqa: E402
from terms import *  # noqa: E402,F401,F403

COST = {"GMM_Error": 13, "stge_classic": 17, "stge_kb": 17, "stge_pre": 12, "Panel_FE_Lag": 23, "Panel_FE_Error": 23,
        "Panel_RE_Lag": 9, "Panel_RE_Error": 9, "stsls_classic": 3}


METHOD_MODULES = ("skater_reg",)


class Broken(Exception):
    """the analysis lost an anchor: error exit, no verdict"""


def entries(eng, skip=()):
    """every public entry: names exported by a module's __all__ plus the Base* classes"""
    out = []
    for mn in sorted(eng.modules):
        if mn == eng.pkg or mn.split(".")[-1] in ("summary_output",):
            continue
        m = eng.module(mn)
        short = mn.split(".")[-1]
        if short in skip:
            continue
        if m.all is not None:
            names = [n for n in m.all if n in m.env]
        else:
            names = [n for n, v in m.env.items() if not n.startswith("_") and v.op in ("func", "class")]
        names += [k for k, v in m.env.items() if k.startswith("Base") and v.op == "class"
                  and eng.classes[v.a[0]].mod is m and k not in names]
        for n in names:
            if m.env[n].op in ("func", "class"):
                t = m.env[n]
                o = eng.classes[t.a[0]].mod if t.op == "class" else eng.funcs[t.a[0]].mod
                if o is m:
                    out.append(short + "." + n)
                    if t.op == "class" and not n.startswith("Base"):
                        c = eng.classes[t.a[0]]
                        for f in c.node.body:
                            if f.__class__.__name__ == "FunctionDef" and not f.name.startswith("_") and not f.decorator_list \
                                    and f.args.args and f.args.args[0].arg == "self" and short in METHOD_MODULES:
                                out.append(short + "." + n + "." + f.name)
    return out


def params_of(eng, q):
    p = q.split(".")
    t = eng.module(eng.pkg + "." + p[0]).env[p[1]]
    if t.op == "class":
        f = eng.clsfind(eng.classes[t.a[0]], p[2] if len(p) > 2 else "__init__")
        if not f:
            return []
        a = eng.funcs[f[1].a[0]].node.args
        return [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
    a = eng.funcs[t.a[0]].node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


_eng = None


def _engine():
    global _eng
    if _eng is None:
        _eng = Engine(REPO)
    return _eng


def _work(a):
    fn, item = a
    t0 = time.time()
    try:
        return item, fn(_engine(), item), None, time.time() - t0
    except Broken as e:
        return item, None, "broken: %s" % e, time.time() - t0
    except Exception as e:
        return item, None, "%s: %s @ %s" % (type(e).__name__, e, [(f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:]]), time.time() - t0


def run_all(fn, items, procs=None):
    """apply fn(engine, item) to all items in worker processes; yields (item, result, error, secs)"""
    global _eng
    _eng = Engine(REPO)
    for mn in _eng.modules:
        _eng.module(mn)
    items = list(items)
    key = lambda it: -COST.get((it[0] if isinstance(it, tuple) else it).split(".")[-1], 0.5)
    items.sort(key=key)
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1 or len(items) <= 1:
        return [_work((fn, it)) for it in items]
    out, left = [], list(range(len(items)))
    try:
        with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as pool:
            fs = {pool.submit(_work, (fn, items[i])): i for i in left}
            for f in cf.as_completed(fs):
                out.append(f.result())
                left.remove(fs[f])
        return out
    except cf.process.BrokenProcessPool:
        pass
    # a worker process died: the rest one process per item, so that only the item at fault is lost
    def solo(i):
        try:
            with cf.ProcessPoolExecutor(1, mp_context=mp.get_context("fork")) as pool:
                return pool.submit(_work, (fn, items[i])).result()
        except cf.process.BrokenProcessPool:
            return items[i], None, "the analysis process died", 0.0
    with cf.ThreadPoolExecutor(procs) as ex:
        return out + list(ex.map(solo, left))


def loc(where):
    """module.function construct name of a finding (stable under line moves)"""
    return "%s:%s" % (where[0].split(".")[-1], where[1].split(".", 1)[-1] if where[1].startswith("spreg.") else where[1])


class Report:
    def __init__(self, pid, rule, level="other", level_expl=""):
        self.pid, self.rule = pid, rule
        self.level = level
        self.t0 = time.time()
        self.findings = {}  # key -> text
        self.cov = {}
        self.samples = []
        self.assume = []
        self.errors = []
        self.undecided = []
        self.max_errors = 8  # entries the engine could not finish: reported, no verdict beyond that

    def add(self, key, text, path=()):
        self.findings.setdefault(key, (text, tuple(path)))

    def known(self):
        p = os.path.join(VERIF, "known_findings.jsonl")
        out = {}
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l:
                    d = json.loads(l)
                    if d["property"] == self.pid and d.get("status") == "known":
                        out[d["key"]] = d
        return out

    def finish(self, explanation, floors=()):
        """floors: [(coverage counter, minimum)]"""
        known = self.known()
        viol = []
        hit = set()
        for k in sorted(self.findings):
            if k in known:
                hit.add(k)
            else:
                viol.append(k)
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[k]["what"]))
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        cov = dict(self.cov)
        cov["explanation"] = explanation
        cov["rule"] = self.rule
        cov["samples"] = self.samples[:8]
        cov["known_findings_seen"] = sorted(hit)
        cov["undecided"] = sorted(set(self.undecided))[:200]
        cov["analysis_errors"] = self.errors[:20]
        cov["undecided_count"] = len(set(self.undecided))
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for k in viol:
            t, p = self.findings[k]
            print("%s: %s" % (k, t))
            for x in p:
                print("    " + str(x))
        if viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violations.txt")
            with open(rp, "w") as f:
                for k in viol:
                    t, p = self.findings[k]
                    f.write("%s: %s\n" % (k, t) + "".join("    %s\n" % x for x in p))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        for e in self.errors[:10]:
            print("ANALYSIS-ERROR " + e, file=sys.stderr)
        bad = [(c, self.cov.get(c, 0), m) for c, m in floors if self.cov.get(c, 0) < m]
        for b in bad:
            print("ANALYSIS-BROKEN %s: %d instances, expected at least %d" % b, file=sys.stderr)
        if bad or len(self.errors) > self.max_errors:
            return 2
        print("ok property=%s %s" % (self.pid, {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0
