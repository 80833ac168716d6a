"""A01 caller's objects are never modified.

Rule: in the alias/effect analysis of every public entry, no in-place operation (item/attribute store, augmented
assignment on a mutable, mutating method, out=) may reach storage rooted in a parameter of the entry.  An attribute
store is tolerated only when the abstract final state shows the attribute back at its initial value."""
from common import *

TYPED = dict(w="W", W="W", gwk="Kernel", wk="Kernel", y="ndarray", x="ndarray", yend="ndarray", q="ndarray")

# documented in-place helpers: the named parameter is the output
EXEMPT = {
    ("user_output.check_endog", "arrays"), ("user_output.check_endog", "names"),  # works on lists its callers build
    ("user_output.set_name_multi", "multireg"),  # fills the names of the per-regime results
    ("robust.hac_multi", "reg"), ("utils.RegressionProps_basic", "reg"), ("utils.set_warn", "reg"),
    ("regimes.check_const_regi", "reg"),
    ("sputils.spfill_diagonal", "a"),  # named after numpy.fill_diagonal
    ("regimes.set_name_x_regimes", "name_x"), ("regimes.Regimes_Frame", "names"),  # internal frame: callers pass copies
}
SCALARS = {"n_clusters"}  # documented numbers: augmented assignment rebinds


def scan(r, q):
    out = {}
    n = 0
    for x in r.events:
        if x.kind != "mutate":
            continue
        n += 1
        t, how, roots, attr, value = x.data
        for z in sorted(roots):
            if z.startswith(("default:", "global:")) or (q, z) in EXEMPT or z in SCALARS:
                continue
            out.setdefault((z, loc(x.where), how.split("(")[0]), (show(t, 3)[:80], x.where, x.stack, attr))
    return n, out


def work(eng, q):
    eng.ptypes = {}
    r = eng.run(q)
    n, out = scan(r, q)
    restored = 0
    if any(v[3] for v in out.values()):
        eng.ptypes = TYPED
        try:
            r2 = eng.run(q)
        finally:
            eng.ptypes = {}
        for k in list(out):
            a = out[k][3]
            if not a:
                continue
            p = mk("param", k[0])
            fin = [v for (t, nm), v in r2.st.over.items() if t is p and nm == a]
            if fin and all(v is mk("attr", p, a) for v in fin):
                restored += 1
                del out[k]
    return {"muts": n, "hits": out, "restored": restored, "params": len(params_of(eng, q))}


def positive():
    """the rule must fire on a known mutating function"""
    eng = Engine(REPO)
    eng.modules["spreg.zz"] = type(eng.modules["spreg.utils"])("spreg.zz", "zz", __import__("ast").parse(
        "import numpy as np\ndef bad(y, x, d):\n    z = np.asarray(x)[:, 1:]\n    z[0] = 1\n    d.update(a=1)\n    y.T.shape = (1, 2)\n"
        "def good(y, x, d):\n    z = x.copy()\n    z[0] = 1\n    d = dict(d)\n    d.update(a=1)\n"))
    _, a = scan(eng.run("zz.bad"), "zz.bad")
    _, b = scan(eng.run("zz.good"), "zz.good")
    return {k[0] for k in a} == {"x", "d", "y"} and not b


def main():
    rep = Report("A01", __doc__)
    eng = Engine(REPO)
    es = entries(eng)
    tot = params = rest = 0
    for it, res, err, dt in run_all(work, es):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        tot += res["muts"]
        params += res["params"]
        rest += res["restored"]
        for (z, where, how), (t, wh, stack, attr) in res["hits"].items():
            key = "%s|%s|%s" % (where, how, z)
            rep.add(key, "entry %s: parameter '%s' is modified in place by '%s' on %s (%s line %d)" % (it, z, how, t, wh[0], wh[2]), stack)
    rep.cov = {"entries": len(es), "parameters": params, "inplace_operations_classified": tot, "restored_stores": rest,
               "positive_example_fires": int(positive())}
    rep.samples = es[:8]
    return rep.finish("Interprocedural alias/effect analysis of %d public entries (%d parameters): %d in-place operations classified by the storage they reach; "
                      "violations are operations reaching caller storage." % (len(es), params, tot),
                      [("entries", 200), ("inplace_operations_classified", 1500), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
