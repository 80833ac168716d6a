"""Documented option values of the public entries (from the docstrings), and scenario construction."""
import ast
from common import *

BOOL = [False, True]
DOM = {
    "robust": [None, "white", "hac"], "A1": ["hom_sc", "hom", "het"], "estimator": ["het", "hom", "kp98"], "case": ["nosp", "gen"],
    "constant_regi": ["many", "one"], "slx_lags": [0, 1, 2], "w_lags": [1, 2], "max_iter": [1, 2], "inv_method": ["power_exp", "true_inv"],
    "optim": ["newton", "ncg", "bfgs"], "scalem": ["phimean", "xmean"], "spat_impacts": ["simple", "full", "power", "all", None, "list"],
    "slx_vars": ["all"], "cols2regi": ["all"], "var_flag": [1, 0], "conv_flag": [0, 1], "islands": ["increase", "ignore"],
    "model_family": ["spreg", "statsmodels"], "imethod": ["power_exp", "true_inv"], "form": ["spreg", "plm"],
    "q_lags": [0, 1], "which": ["all", "LMJ", "LM1", "LM2", "LMC_spatial", "LMC_RE"],
}
for _p in ("vm", "latex", "spat_diag", "nonspat_diag", "moran", "white_test", "vif", "add_wy", "add_lag", "lag_q", "sig2n_k", "step1c", "hard_bound",
           "regime_err_sep", "regime_lag_sep", "cores", "full_weights", "iter", "verbose", "surlm", "mprint", "pinv", "z_stat", "sp_lag", "trace", "summ", "add_constant",
           "force_all", "short_intro", "bstart", "save_a1a2", "scalarKP", "no_mi"):
    DOM[_p] = BOOL
METHOD = {"ml_lag": ["full", "LU", "ord"], "ml_error": ["full", "LU", "ord"], "ml_lag_regimes": ["full", "LU", "ord"], "ml_error_regimes": ["full", "LU", "ord"],
          "panel": ["LU"]}
OPTIONAL_DATA = {"w": "W", "gwk": "Kernel", "yend": "ndarray", "q": "ndarray", "regimes": "list", "h": "ndarray", "z": "ndarray", "name_x": "list", "name_y": "str",
                 "name_yend": "list", "name_q": "list", "name_w": "str", "name_ds": "str", "name_gwk": "str", "name_regimes": "str", "n_clusters": "int",
                 "regimes_att": "dict", "obj_list": "list", "regprob": "object", "rng": "object", "name_coords": "list", "trace_w2": "ndarray"}
TYPES = dict(w="W", W="W", gwk="Kernel", wk="Kernel", y="ndarray", x="ndarray", yend="ndarray", q="ndarray", X="ndarray", Y="ndarray", z="ndarray", h="ndarray",
             bigy="dict", bigX="dict", bigyend="dict", bigq="dict", regimes="list", name_x="list", name_yend="list", name_q="list", name_y="str", name_w="str",
             name_ds="str", name_regimes="str", name_gwk="str", coords="ndarray")


def fnode(eng, q):
    p = q.split(".")
    t = eng.module(eng.pkg + "." + p[0]).env[p[1]]
    if t.op == "class":
        f = eng.clsfind(eng.classes[t.a[0]], p[2] if len(p) > 2 else "__init__")
        if not f:
            return None
        t = f[1]
    return eng.funcs[t.a[0]].node


def default_node(eng, q):
    """{param: ast default or None}"""
    n = fnode(eng, q)
    if n is None:
        return {}
    a = n.args
    pos = a.posonlyargs + a.args
    out = {x.arg: None for x in pos + a.kwonlyargs}
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
        out[x.arg] = d
    out.pop("self", None)
    return out


def defaults(eng, q):
    """scenario with every option at its default (literal defaults only; required parameters stay symbolic)"""
    sc = {}
    for p, d in default_node(eng, q).items():
        if d is None:
            continue
        try:
            v = ast.literal_eval(d)
        except Exception:
            continue
        if isinstance(v, (list, dict, set)):
            continue
        sc[p] = C(v)
    return sc


def domain(eng, q, p):
    """documented values of an option, [] when it is data"""
    mod = q.split(".")[0]
    if p == "method" and mod in METHOD:
        return METHOD[mod]
    if p == "method":
        return []
    d = default_node(eng, q).get(p)
    if d is None:
        return []
    dom = list(DOM.get(p, []))
    try:
        v = ast.literal_eval(d)
        if not isinstance(v, (list, dict, set)) and v not in dom and (dom or isinstance(v, bool)):
            dom.insert(0, v)
    except Exception:
        pass
    return dom


def ev(t, sub):
    """fold a condition under {param: T}; None when it depends on anything else"""
    o = t.op
    if o == "const":
        return t
    if o == "param":
        return sub.get(t.a[0])
    if o == "not":
        x = truth(t.a[0], sub)
        return None if x is None else C(not x)
    if o in ("and", "or"):
        xs = [truth(x, sub) for x in t.a]
        if o == "and":
            return C(False) if False in xs else (C(True) if None not in xs else None)
        return C(True) if True in xs else (C(False) if None not in xs else None)
    if o == "cmp":
        a, b = ev(t.a[1], sub), ev(t.a[2], sub)
        if t.a[0] in ("in",) and t.a[2].op in ("list", "tuple") and a is not None and isconst(a):
            if all(isconst(z) for z in t.a[2].a):
                return C(cval(a) in [cval(z) for z in t.a[2].a])
            return None
        if a is None or b is None:
            return None
        if not isconst(a) or not isconst(b):
            if t.a[0] == "is" and NONE in (a, b):
                return C(False)
            if t.a[0] == "==" and (isconst(a) or isconst(b)):
                return C(False)
            return None
        x, y = cval(a), cval(b)
        try:
            return C({"==": lambda: x == y, "is": lambda: x is y or (x == y and type(x) is type(y)), "<": lambda: x < y, ">": lambda: x > y, "in": lambda: x in y}[t.a[0]]())
        except Exception:
            return None
    if o == "method" and t.a[0] in ("lower", "upper") and not t.a[2]:
        a = ev(t.a[1], sub)
        if a is not None and isconst(a) and isinstance(cval(a), str):
            return C(getattr(cval(a), t.a[0])())
        return None
    if o == "call" and t.a[0] == "isinstance":
        a = ev(t.a[1][0], sub)
        if a is not None and isconst(a):
            ty = show(t.a[1][1])
            return C(type(cval(a)).__name__ in ty.replace("(", " ").replace(")", " ").replace(",", " ").split())
        return None
    if o == "phi":
        c = truth(t.a[0], sub)
        return None if c is None else ev(t.a[1] if c else t.a[2], sub)
    return None


def truth(t, sub):
    v = ev(t, sub)
    if v is None:
        return None
    if isconst(v):
        return bool(cval(v))
    if v.op == "param":
        return True
    return None


def leaves(t):
    return {x.a[0] for x in subterms(t) if x.op == "param"}


def solve(eng, q, facts):
    """option values under which the option-level path facts hold: {param: T} or None if the documented values cannot satisfy them"""
    dn = default_node(eng, q)
    base = defaults(eng, q)
    opts = {}
    for p in dn:
        vals = [C(v) for v in domain(eng, q, p)]
        if p in base and base[p] not in vals:
            vals.insert(0, base[p])
        elif p in base:
            vals.remove(base[p])
            vals.insert(0, base[p])
        if p in OPTIONAL_DATA and p in base:
            vals = vals + [mk("param", p)] if mk("param", p) not in vals else vals
        if p not in base:
            vals = [mk("param", p)]
        opts[p] = vals
    atoms = [(c, v, leaves(c)) for c, v in facts]
    # constraint search: parameters in atoms only, small domains
    rel = [(c, v, l) for c, v, l in atoms if l and all(p in opts for p in l)]
    names = sorted({p for _, _, l in rel for p in l}, key=lambda p: -sum(1 for _, _, l in rel if p in l))
    sub = {p: vs[0] for p, vs in opts.items()}
    budget = [20000]

    def ok(part):
        for c, v, l in rel:
            if l <= set(part):
                t = truth(c, part)
                if t is not None and t != v:
                    return False
        return True

    def rec(i, part):
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if i == len(names):
            return dict(part)
        for v in opts[names[i]]:
            part[names[i]] = v
            if ok(part):
                r = rec(i + 1, part)
                if r is not None:
                    return r
            del part[names[i]]
        return None

    r = rec(0, {})
    if r is None:
        return None
    sub.update(r)
    return sub


def typed(sub):
    """run-time types of the data parameters left symbolic in a scenario"""
    return {p: TYPES[p] for p in sub if p in TYPES and sub[p].op == "param"}


INTERNAL = {"NameError", "UnboundLocalError", "AttributeError", "KeyError", "TypeError", "IndexError"}


def internal(r):
    """the run ends, on every path, in an accidental error"""
    return r.raised is not None and r.raised.etype in INTERNAL and not (r.raised.payload.op == "explicit")


def run(eng, q, sub):
    eng.ptypes = typed(sub)
    try:
        return eng.run(q, scenario={k: v for k, v in sub.items()})
    finally:
        eng.ptypes = {}
