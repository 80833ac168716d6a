"""B01 inputs are validated before estimation.

Rule: every user-facing estimator is analysed once per kind of ill-formed input (one argument of the wrong length, type, number of
columns or content, weights of another size, regimes of another length), the properties of that input decided and all data unknown.
Every path must then end in an exception raised by a check,
before a computational class is entered; for well-formed input some path must reach one, and the checks hand the data through
unchanged."""
import spec
from spec import *
from engine import Heap, AbsRaise, Func
from fractions import Fraction
from options import default_node, defaults, entries
from c_c01 import BASES
import ast
import signal
import stubs
from c_d18 import plain, same

NROW = 20
OPAQUE = ["regimes._chow_run", "regimes.w_regime", "regimes.w_regimes", "output.output", "utils.optim_moments", "utils.inverse_prod", "output._nonspat_top", "output._nonspat_mid",
          "output._summary_impacts", "output._spat_diag_out", "output._spat_pseudo_r2", "output._summary_iteration", "regimes.Chow", "probit.BaseProbit", "panel_fe.BasePanel"] + BASES


class Unknown(Exception):
    pass


class Arr:
    def __init__(self, *shape, kind="num", finite=True, sparse=False, const=False):
        self.shape, self.kind, self.finite, self.sparse, self.const = shape, kind, finite, sparse, const

    def like(self, *shape):
        return Arr(*shape, kind=self.kind, finite=self.finite, sparse=self.sparse, const=self.const)


class Diag(list):
    """entries of the diagonal of a weights matrix"""


class Wgt:
    def __init__(self, n, cls="W", diag=0, other=0.5):
        self.n, self.cls, self.other = n, cls, other
        # a tuple gives the first and the remaining entries of the diagonal
        self.diag = [diag[0]] + [diag[1]] * (n - 1) if isinstance(diag, tuple) else [diag] * n


class Oth:
    """a value of another type"""

    def __init__(self, cls, n=0):
        self.cls, self.n = cls, n


TYPES_OF = {"Arr": {"ndarray"}, "sparse": {"csr_matrix", "spmatrix", "sparray"}, "W": {"W"}, "Kernel": {"W", "Kernel"}}


def is_a(v, names):
    if isinstance(v, Arr):
        return bool(({"csr_matrix", "spmatrix"} if v.sparse else {"ndarray"}) & names)
    if isinstance(v, Wgt):
        return bool(({"W", "Kernel"} if v.cls == "Kernel" else {"W"}) & names)
    if isinstance(v, Oth):
        return v.cls in names
    if v is None:
        return "NoneType" in names
    if isinstance(v, (list, tuple, str, int, float, bool, dict)):
        return type(v).__name__ in names or isinstance(v, bool) and "int" in names
    raise Unknown


def short(t):
    """names of the classes of an isinstance test"""
    if t.op in ("tuple", "list"):
        out = set()
        for x in t.a:
            out |= short(x)
        return out
    if t.op in ("ext", "class", "builtin", "global", "name", "mod"):
        return {str(t.a[0]).rsplit(".", 1)[-1]}
    raise Unknown


class World:
    def __init__(self, vals, stop=False):
        self.vals, self.stop = vals, stop
        self.memo, self.busy = {}, False

    def val(self, t, eng, st):
        """the memo holds for one decision: the state does not change within it"""
        if t in self.memo:
            r = self.memo[t]
            if r is Unknown:
                raise Unknown
            return r
        self.memo[t] = Unknown  # under evaluation
        self.memo[t] = r = self._val(t, eng, st)
        return r

    def _val(self, t, eng, st):
        v = lambda x: self.val(x, eng, st)
        o = t.op
        if o == "const":
            return cval(t)
        if o == "num":
            return t.a[0]
        if o == "param":
            if t.a[0] in self.vals:
                return self.vals[t.a[0]]
            raise Unknown
        if o in ("tuple", "list"):
            return self.items(t.a, eng, st)
        if o == "ref":
            h = st.heap.get(t.a[0]) if st is not None else None
            if h is not None and h.kind in ("list",):
                return self.items(h.d, eng, st)
            if h is not None and h.kind == "arr" and isinstance(h.d, T):
                return v(h.d)
            raise Unknown
        if o == "phi":
            c = eng.decide(t.a[0], st) if st is not None else None
            if c is None:
                raise Unknown
            return v(t.a[1] if c else t.a[2])
        if o == "not":
            return not v(t.a[0])
        if o == "un" and t.a[0] == "-":
            return -self.number(v(t.a[1]))
        if o == "bin":
            a, b = v(t.a[1]), v(t.a[2])
            return self.arith(t.a[0], a, b)
        if o == "cmp":
            a, b = v(t.a[1]), v(t.a[2])
            op = t.a[0]
            if op == "is":
                if a is None or b is None:
                    return a is b
                raise Unknown
            if op in ("==", "!=") and (a is None or b is None):
                return (a is b) == (op == "==")
            if isinstance(a, Consts) or isinstance(b, Consts):
                return a if isinstance(a, Consts) else b
            if isinstance(a, Diag) and isinstance(b, (int, float)):
                return Diag({"<": x < b, "<=": x <= b, ">": x > b, ">=": x >= b, "==": x == b, "!=": x != b}[op] for x in a)
            ok = (int, float, str, bool, tuple, list, Fraction)
            if isinstance(a, ok) and isinstance(b, ok):
                a, b = (tuple(x) if isinstance(x, list) else x for x in (a, b))
                try:
                    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b, "in": lambda: a in b}[op]()
                except Exception:
                    raise Unknown
            raise Unknown
        if o == "attr":
            a, n = v(t.a[0]), t.a[1]
            if isinstance(a, Arr):
                if n == "shape":
                    return tuple(a.shape)
                if n == "ndim":
                    return len(a.shape)
                if n == "dtype":
                    return ("dtype", a.kind)
                if n == "size":
                    r = 1
                    for s in a.shape:
                        r *= s
                    return r
                if n == "data" and a.sparse:
                    return a.like(a.shape[0] * a.shape[1])
                if n == "T":
                    return a.like(*a.shape[::-1])
                if n in ("values",):
                    return a
            if isinstance(a, Wgt):
                if n == "n":
                    return a.n
                if n == "id_order":
                    return list(range(a.n))
                if n == "weights":
                    return {i: [a.diag[i], a.other] for i in range(a.n)}
                if n == "sparse":
                    return ("sparse", a)
            if isinstance(a, tuple) and len(a) == 2 and a[0] == "type" and n == "__name__":
                return a[1]
            if isinstance(a, tuple) and a and a[0] == "sparse" and isinstance(a[1], Wgt) and n == "shape":
                return (a[1].n, a[1].n)
            raise Unknown
        if o == "index":
            a = v(t.a[0])
            if isinstance(a, (tuple, list, str)):
                if t.a[1].op == "slice":
                    return a[slice(*[None if x is NONE else v(x) for x in t.a[1].a])]
                k = v(t.a[1])
                try:
                    return a[k]
                except Exception:
                    raise Unknown
            if isinstance(a, dict):
                k = v(t.a[1])
                if k in a:
                    return a[k]
                if all(x == a[0] for x in a.values()):
                    return a[0]
            raise Unknown
        if o == "elem":
            a = v(t.a[0])
            if isinstance(a, list) and a:
                return a[0]
            raise Unknown
        if o == "call":
            return self.call(t, eng, st, v)
        if o == "method":
            a, n, args = v(t.a[1]), t.a[0], [x for x in t.a[2]] if isinstance(t.a[2], tuple) else []
            if isinstance(a, Arr):
                if n in ("copy", "astype", "toarray", "to_numpy"):
                    return a
                if n == "reshape":
                    sh = [v(x) for x in args]
                    sh = list(sh[0]) if len(sh) == 1 and isinstance(sh[0], (tuple, list)) else sh
                    tot = 1
                    for s in a.shape:
                        tot *= s
                    p = 1
                    for s in sh:
                        p *= s if s != -1 else 1
                    if -1 in sh:
                        sh = [tot // p if s == -1 else s for s in sh]
                        p = tot
                    if p != tot:
                        raise Unknown
                    return a.like(*sh)
                if n in ("flatten", "ravel"):
                    return a.like(a.shape[0] * (a.shape[1] if len(a.shape) > 1 else 1))
                if n == "sum":
                    return ("sum", a)
                if n in ("all", "any"):
                    raise Unknown
            if isinstance(a, Fin) and n in ("all", "any"):
                return bool(a)
            if isinstance(a, tuple) and a and a[0] == "sparse" and n == "diagonal":
                return Diag(a[1].diag)
            if isinstance(a, Diag) and n in ("min", "max", "sum", "any", "all"):
                return {"min": min, "max": max, "sum": sum, "any": any, "all": all}[n](a)
            if isinstance(a, Consts) and n in ("any", "all", "sum"):
                return bool(a) if n != "all" else False
            if isinstance(a, str) and n in ("lower", "upper", "strip"):
                return getattr(a, n)()
            if isinstance(a, list) and n in ("copy",):
                return list(a)
            raise Unknown
        raise Unknown

    def items(self, xs, eng, st):
        out = []
        for x in xs:
            if x.op == "conde":
                c = eng.decide(x.a[0], st)
                if c is None:
                    raise Unknown
                out += self.items((x.a[1] if c else x.a[2]).a, eng, st)
            elif x.op in ("rep", "splice"):
                raise Unknown
            else:
                out.append(self.val(x, eng, st))
        return out

    def number(self, a):
        if isinstance(a, (int, float, Fraction)):
            return a
        raise Unknown

    def arith(self, op, a, b):
        if op == "@" and isinstance(a, tuple) and a and a[0] == "sparse" and isinstance(b, Arr):
            return b
        if isinstance(a, tuple) and a and a[0] == "range" or isinstance(a, Consts):
            return a
        a, b = self.number(a), self.number(b)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b, "%": lambda: a % b}[op]()
        except (KeyError, ZeroDivisionError):
            raise Unknown

    def call(self, t, eng, st, v):
        f, args = t.a[0], t.a[1]
        kw = t.a[2] if len(t.a) > 2 else ()
        s = f.rsplit(".", 1)[-1] if isinstance(f, str) else ""
        if s == "isinstance":
            return is_a(v(args[0]), short(args[1]))
        if s in ("len",):
            a = v(args[0])
            if isinstance(a, Arr):
                return a.shape[0]
            if isinstance(a, Oth):
                return a.n
            if isinstance(a, (tuple, list, str, set, dict)):
                return len(a)
            raise Unknown
        if s == "set" and len(args) == 1:
            a = v(args[0])
            if isinstance(a, (list, tuple)):
                try:
                    return sorted(set(a), key=str)
                except TypeError:
                    raise Unknown
            raise Unknown
        if s == "type":
            a = v(args[0])
            if isinstance(a, Arr):
                return ("type", "csr_matrix" if a.sparse else "ndarray")
            raise Unknown
        if s in ("copy", "asarray", "array", "ascontiguousarray", "asanyarray", "deepcopy", "atleast_2d"):
            a = v(args[0])
            if isinstance(a, Arr):
                return a
            raise Unknown
        if s == "issparse":
            a = v(args[0])
            return isinstance(a, Arr) and a.sparse
        if s == "issubdtype":
            a, b = v(args[0]), short(args[1])
            if isinstance(a, tuple) and a and a[0] == "dtype":
                return bool({"num": {"number", "floating", "float64"}, "bool": {"bool_", "bool"}, "object": {"object_", "object", "str_"}}[a[1]] & b)
            raise Unknown
        if s in ("isfinite",):
            a = v(args[0])
            if isinstance(a, tuple) and a and a[0] == "sum":
                return a[1].finite
            if isinstance(a, Arr):
                return Fin(a.finite)
            raise Unknown
        if s in ("isnan", "isinf"):
            a = v(args[0])
            if isinstance(a, tuple) and a and a[0] == "sum":
                return not a[1].finite
            if isinstance(a, Arr):
                return Fin(not a.finite)
            raise Unknown
        if s == "ptp":
            a = v(args[0])
            if isinstance(a, Arr):
                return Consts(a.const)
        if s in ("any", "all", "sum", "min", "max", "amin", "amax", "count_nonzero", "diagonal"):
            a = v(args[0])
            if isinstance(a, Diag) and s != "diagonal":
                return {"min": min, "amin": min, "max": max, "amax": max, "sum": sum, "any": any, "all": all, "count_nonzero": lambda l: sum(map(bool, l))}[s](a)
            if s not in ("any", "all", "sum"):
                raise Unknown
            if isinstance(a, Consts):
                return bool(a) if s == "any" else int(bool(a))
            if isinstance(a, Fin):
                return bool(a)
            if isinstance(a, Arr) and s == "sum":
                return ("sum", a)
            raise Unknown
        if s in ("hstack", "sphstack", "concatenate") and len(args) == 1:
            xs = v(args[0])
            if isinstance(xs, (tuple, list)) and all(isinstance(x, Arr) and len(x.shape) == 2 for x in xs):
                return Arr(xs[0].shape[0], sum(x.shape[1] for x in xs), sparse=False)
            raise Unknown
        if s == "lag_spatial":
            a = v(args[1])
            if isinstance(a, Arr):
                return a
            raise Unknown
        if s in ("dot", "spdot") and len(args) == 2:
            a, b = v(args[0]), v(args[1])
            if isinstance(a, tuple) and a and a[0] == "sparse" and isinstance(b, Arr):
                return b
            raise Unknown
        if s in ("ones", "zeros"):
            a = v(args[0])
            return Arr(*(a if isinstance(a, (tuple, list)) else (a,)))
        if s in ("float", "int", "abs", "round", "sorted", "list", "tuple", "min", "max") and len(args) == 1 and not kw:
            a = v(args[0])
            if isinstance(a, (int, float, str, bool, list, tuple, Fraction)):
                try:
                    return {"float": float, "int": int, "abs": abs, "round": round, "sorted": sorted, "list": list, "tuple": tuple, "min": min, "max": max}[s](a)
                except Exception:
                    raise Unknown
        raise Unknown


class Consts:
    """constant columns: whether there is one"""

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b


class Fin(Consts):
    """an array of truth values that are all the same"""


class Reached(Exception):
    """the analysis has come to the estimation"""


BASE_ATOM, BASE_CALL = Engine._decide_atom, Engine.call_func


def call_func(self, ft, args, kw, st, node):
    if getattr(self, "world", None) is not None and self.world.stop:
        q = self.funcs[ft.a[0]].qual
        if q.endswith(".__init__") and (q.split(".")[-2].startswith("Base") or self.world.stop == "frame" and q.startswith("regimes.Regimes_Frame")):
            raise Reached
        if q in ("regimes.regimeX_setup", "regimes.set_name_x_regimes", "regimes._get_weighted_var"):
            raise Reached
    return BASE_CALL(self, ft, args, kw, st, node)


Engine.call_func = call_func
def atom(self, t, st, depth):
    w = getattr(self, "world", None)
    if w is not None:
        top = not w.busy
        if top:
            w.busy, w.memo = True, {}
        try:
            r = w.val(t, self, st)
            if isinstance(r, (bool, int, float, str, list, tuple)) and not isinstance(r, tuple) or r is None:
                return bool(r)
        except (Unknown, RecursionError):
            pass
        finally:
            if top:
                w.busy = False
    return BASE_ATOM(self, t, st, depth)


Engine._decide_atom = atom

GOOD = {"y": Arr(NROW, 1), "x": Arr(NROW, 2), "yend": Arr(NROW, 1), "q": Arr(NROW, 2), "w": Wgt(NROW), "gwk": Wgt(NROW, "Kernel", 1)}


def analyse(eng, q, sc, world, stop=False):
    sub = defaults(eng, q)
    for z in default_node(eng, q):
        sub.setdefault(z, mk("param", z))
    for k, x in sc.items():
        sub[k] = mk("param", k) if x is P else lit(x)
    old = eng.opaque_funcs
    eng.opaque_funcs = set(OPAQUE)
    eng.unroll, eng.loops, eng.world = True, False, World(world, stop)
    eng.ptypes = {}
    try:
        r = eng.run(q, scenario=dict(sub))
        return r
    except Reached:
        return None
    finally:
        eng.world, eng.opaque_funcs, eng.unroll = None, old, False


RG = ["a", "b"] * (NROW // 2)
PANELS = ("panel", "panel_fe", "panel_re", "sp_panels")
KINDS = {
    "y shorter": {"y": Arr(NROW - 1, 1)}, "y with two columns": {"y": Arr(NROW, 2)}, "y not an array": {"y": Oth("str", NROW)}, "y with missing values": {"y": Arr(NROW, 1, finite=False)},
    "y of booleans": {"y": Arr(NROW, 1, kind="bool")}, "y of objects": {"y": Arr(NROW, 1, kind="object")},
    "y longer": {"y": Arr(NROW + 1, 1)}, "x shorter": {"x": Arr(NROW - 1, 2)}, "x longer": {"x": Arr(NROW + 1, 2)}, "x not an array": {"x": Oth("list", NROW)}, "x with missing values": {"x": Arr(NROW, 2, finite=False)}, "x of objects": {"x": Arr(NROW, 2, kind="object")},
    "x of booleans": {"x": Arr(NROW, 2, kind="bool")}, "x with more columns than rows": {"x": Arr(NROW, NROW + 1)}, "x with three dimensions": {"x": Arr(NROW, 2, 2)},
    "yend shorter": {"yend": Arr(NROW - 1, 1)}, "yend longer": {"yend": Arr(NROW + 1, 1)}, "yend not an array": {"yend": Oth("list", NROW)}, "yend with missing values": {"yend": Arr(NROW, 1, finite=False)}, "yend of objects": {"yend": Arr(NROW, 1, kind="object")},
    "q shorter": {"q": Arr(NROW - 1, 2)}, "q longer": {"q": Arr(NROW + 1, 2)}, "q not an array": {"q": Oth("list", NROW)}, "q with missing values": {"q": Arr(NROW, 2, finite=False)}, "q of objects": {"q": Arr(NROW, 2, kind="object")},
    "w of another size": {"w": Wgt(NROW - 1)}, "w of a larger size": {"w": Wgt(NROW + 1)}, "w missing": {"w": None}, "w with a diagonal": {"w": Wgt(NROW, diag=1)}, "w with a negative diagonal": {"w": Wgt(NROW, diag=-1)},
    "w with one entry on the diagonal": {"w": Wgt(NROW, diag=(0.5, 0))}, "w with one negative entry on the diagonal": {"w": Wgt(NROW, diag=(-0.5, 0))}, "w with entries of both signs on the diagonal": {"w": Wgt(NROW, diag=(-19, 1))}, "w of kernel weights": {"w": Wgt(NROW, "Kernel", 0)},
    "HAC without kernel weights": {"robust": "hac", "gwk": None}, "HAC with contiguity weights": {"robust": "hac", "gwk": Wgt(NROW, "W", 1)}, "HAC with a kernel diagonal below one": {"robust": "hac", "gwk": Wgt(NROW, "Kernel", 0)},
    "HAC with a kernel diagonal above one": {"robust": "hac", "gwk": Wgt(NROW, "Kernel", 2)},
    "HAC with one kernel diagonal entry below one": {"robust": "hac", "gwk": Wgt(NROW, "Kernel", (0.5, 1))}, "HAC with one kernel diagonal entry above one": {"robust": "hac", "gwk": Wgt(NROW, "Kernel", (1.5, 1))},
    "kernel weights with two lags": {"w": Wgt(NROW, "Kernel", 0), "slx_lags": 2},
    "regimes too short": {"regimes": RG[:-1]}, "regimes too long": {"regimes": RG + ["a"]}, "a single regime": {"regimes": ["a"] * NROW}, "too many regimes": {"regimes": list(range(NROW))}, "regimes not a list": {"regimes": "ab" * (NROW // 2)},
}


# kernel weights are accepted for the lags of the explanatory variables of these models
NONSPATIAL = {"ols", "ols_regimes", "twosls", "twosls_regimes", "probit"}
ALLOW_KERNEL = {"ols", "ols_regimes", "twosls", "twosls_regimes"}


def entry_list(eng):
    out = []
    for q in entries(eng):
        m, c = q.split(".")[:2]
        ps = default_node(eng, q)
        if c[0].isupper() and not c.startswith("Base") and "Endog_Regimes" not in c and q.count(".") == 1 and {"y", "x"} <= set(ps) and m != "nslx":
            out.append(q)
    return out


def scenarios(eng, q):
    ps, d = default_node(eng, q), defaults(eng, q)
    sc = {k: P for k in ("y", "x", "w") if k in ps}
    out = []
    iv = {k: P for k in ("yend", "q") if k in ps}
    base = [("", sc)]
    if iv:
        base = ([("", sc)] if ps["yend"] is not None else []) + [("endogenous", {**sc, **iv})]
    if "slx_lags" in ps and "w" in ps and ps["w"] is not None and cval(d["w"]) is None:
        base = [(n, {**s, "w": None}) for n, s in base] + [((n + " w").strip(), s) for n, s in base] + [((n + " slx").strip(), {**s, "slx_lags": 1}) for n, s in base] + [((n + " spat_diag").strip(), {**s, "spat_diag": True}) for n, s in base if "spat_diag" in ps]
    for n, s in base:
        if "regimes" in ps and ps["regimes"] is None:
            out += [((n + " common").strip(), {**s, "regimes": RG, "regime_err_sep": False}), ((n + " separate").strip(), {**s, "regimes": RG, "regime_err_sep": True})]
            if "regime_lag_sep" in ps:
                out[-1][1]["regime_lag_sep"] = True
        elif "regimes" in ps:
            out += [(n, s), ((n + " regimes").strip(), {**s, "regimes": RG})]
        else:
            out.append((n, s))
    return [(n, {k: v for k, v in s.items() if k in ps}) for n, s in out]


class Late(BaseException):
    pass


def alarm(*a):
    raise Late


def job(eng, item):
    signal.signal(signal.SIGALRM, alarm)
    q, i = item
    nm, sc = scenarios(eng, q)[i]
    vals = {k: GOOD[k] for k in sc if sc[k] is P}
    res = {}
    for kind in [None] + list(KINDS):
        s, v = dict(sc), dict(vals)
        if kind is not None:
            ch = KINDS[kind]
            if kind == "w of kernel weights" and s.get("slx_lags") == 1 and q.split(".")[0] in ALLOW_KERNEL:
                continue
            if kind == "w missing" and "w" in nm.split() and q.split(".")[0] in NONSPATIAL:
                continue
            if any(k not in default_node(eng, q) or (k in ("yend", "q", "w", "regimes") and sc.get(k) is None) for k in ch):
                continue
            for k, x in ch.items():
                if isinstance(x, (Arr, Wgt, Oth)):
                    s[k], v[k] = P, x
                else:
                    s[k] = x
                    v.pop(k, None)
        signal.alarm(20)
        try:
            r = analyse(eng, q, s, v, "base" if kind is not None and "regimes" in KINDS[kind] else "frame")
        except Late:
            res[kind] = "time"
            continue
        finally:
            signal.alarm(0)
        if kind is None and r is not None and r.raised is not None:
            return nm, {None: repr(r.raised.payload)[:120]}
        res[kind] = None if r is None or r.raised is None else (r.raised.etype, r.raised.payload.op == "explicit" if isinstance(r.raised.payload, T) else False, repr(r.raised.payload)[:90])
    return nm, res


POS = """
import numpy as np
class BaseBad:
    def __init__(self, y, x):
        self.betas = y * x
class Bad(BaseBad):
    def __init__(self, y, x, yend=None, q=None):
        if not isinstance(y, np.ndarray) or not isinstance(x, np.ndarray):
            raise Exception("arrays are required")
        rows = []
        for a in [y, x]:
            rows.append(a.shape[0])
        if len(set(rows)) > 1:
            raise Exception("not all of the same length")
        BaseBad.__init__(self, y, x)
"""


PASS = [("check_arrays", {"arrays": ("y", "x", "yend")}), ("check_y", {"y": "y", "n": NROW, "name_y": "crime"}), ("check_y", {"y": "y", "n": NROW, "name_y": None}),
        ("check_constant", {"x": "x", "name_x": ["a", "b"], "just_rem": False}), ("check_constant", {"x": "x", "name_x": None, "just_rem": False}),
        ("check_constant", {"x": "x", "name_x": ["a", "b"], "just_rem": True}), ("check_endog", {"arrays": ["yend", "q"], "names": [["a"], ["b", "c"]]}), ("check_endog", {"arrays": ["yend", None], "names": [None, None]}),
        ("check_weights", {"w": "w", "y": "y", "w_required": True, "time": False, "slx_lags": 0, "allow_wk": False}), ("check_weights", {"w": None, "y": "y", "w_required": False, "time": False, "slx_lags": 0, "allow_wk": False}),
        ("check_weights", {"w": "w", "y": "y", "w_required": True, "time": False, "slx_lags": 2, "allow_wk": False}),
        ("check_numeric_bool", {"array": "x"}), ("check_robust", {"robust": None, "wk": None}), ("check_robust", {"robust": "white", "wk": None}), ("check_robust", {"robust": "HAC", "wk": "gwk"}),
        ("check_reg_list", {"regimes": RG, "name_regimes": "r", "n": NROW}), ("check_regimes", {"reg_set": ["a", "b"], "N": NROW, "K": 3})]


def nocopy(t, memo=None):
    memo = {} if memo is None else memo
    if t not in memo:
        r = rebuild(t, lambda x: nocopy(x, memo))
        memo[t] = r.a[1][0] if r.op == "call" and r.a[0] in ("copy.copy", "copy.deepcopy") and len(r.a[1]) == 1 else r
    return memo[t]


def through(eng, item):
    """well-formed input goes through an input check unchanged"""
    f, args = item
    arr = {z: GOOD[z] for z in ("y", "x", "yend", "q", "w", "gwk")}

    def term(x):
        if isinstance(x, str) and x in arr:
            return "D." + x
        if isinstance(x, list):
            return "[%s]" % ", ".join(term(z) for z in x)
        return repr(x)
    vals = []
    eng.modules.setdefault("spreg.zzstub", type(eng.modules["spreg.utils"])("spreg.zzstub", "zzstub", ast.parse(stubs.SRC)))
    for mod in ("spreg.user_output", "spreg.zzstub"):
        a = ", ".join(term(z) for z in args["arrays"]) if f == "check_arrays" else ", ".join("%s=%s" % (k, term(z)) for k, z in args.items())
        src = "from %s import %s\ndef h(y, x, yend, q, w, gwk):\n    return %s(%s)\n" % (mod, f, f, a.replace("D.", ""))
        scratch(eng, src)
        r = analyse(eng, "zz.h", {z: P for z in arr}, arr)
        if r.raised is not None and r.val is None:
            return "raises %s %s" % (r.raised.etype, repr(r.raised.payload)[:80])
        vals.append(nocopy(plain(eng.reify(r.val, r.st), {})))
    e = same(eng, *vals)
    return e if e is None else "" if e else "returns %s instead of %s" % (str(vals[0])[:120], str(vals[1])[:120])


def scratch(eng, src):
    M = type(eng.modules["spreg.utils"])
    eng.modules["spreg.zz"] = M("spreg.zz", "zz", ast.parse(src))
    return "zz"


def positive():
    """an estimator that checks the lengths of y and x only"""
    eng = Engine(REPO)
    sub = scratch(eng, POS)
    got = {}
    for k in ("y shorter", "x not an array", "yend shorter"):
        vals = {z: GOOD[z] for z in ("y", "x", "yend", "q")}
        vals.update(KINDS[k])
        got[k] = analyse(eng, sub + ".Bad", {z: P for z in vals}, vals)
    return [k for k in got if got[k].raised is None] == ["yend shorter"]
# wide panels have one column of y per period; the deprecated GM_KKP is documented for numeric data and checks regimes by their length only
EXEMPT = {"panel": ("y with two columns",), "GM_KKP": ("y of booleans", "y of objects", "a single regime", "too many regimes", "regimes not a list")}


def exempt(q, kind):
    m, c = q.split(".")
    return m in PANELS and kind in EXEMPT["panel"] or c == "GM_KKP" and kind in EXEMPT["GM_KKP"]


def work(eng, item):
    k, a = item
    return through(eng, PASS[a]) if k == "pass" else job(eng, a)


def main():
    rep = Report("B01", __doc__)
    eng = Engine(REPO)
    qs = entry_list(eng)
    items = [("estimator", (q, i)) for q in qs for i in range(len(scenarios(eng, q)))] + [("pass", i) for i in range(len(PASS))]
    n = ns = good = und = 0
    per, dropped = {}, []
    for it, res, err, dt in run_all(work, items):
        if err:
            rep.errors.append("%s %s" % (it, err))
            continue
        if it[0] == "pass":
            f = PASS[it[1]]
            if res:
                rep.add("%s|well-formed input" % f[0], "%s on well-formed input (%s) %s" % (f[0], ", ".join(f[1]), res))
            good += res == ""
            und += res is None
            continue
        q = it[1][0]
        nm, r = res
        if r.get(None):
            # this route needs an argument the setting does not give: rejected as a whole
            dropped.append("%s [%s] %s" % (q, nm, r[None]))
            continue
        ns += 1
        for kind, v in r.items():
            if kind is None or exempt(q, kind):
                continue
            if v == "time":
                und += 1
                rep.undecided.append("%s [%s] %s" % (q, nm, kind))
                continue
            n += 1
            per[q] = per.get(q, 0) + 1
            if v is None:
                rep.add("%s|%s" % (q, kind), "%s [%s] begins its estimation with %s" % (q, nm, kind))
            elif not v[1] and (kind, q.split(".")[0] in PANELS) != ("w missing", True):
                rep.add("%s|%s" % (q, kind), "%s [%s] with %s is not rejected by a check, it fails with %s" % (q, nm, kind, v[0]))
    rep.samples = ["%s: %d rejections" % x for x in sorted(per.items())[::6]]
    rep.cov = {"estimators": len(per), "routes": ns, "rejections_shown": n, "routes_needing_more_arguments": len(dropped), "checks_on_well_formed_input": good, "not_comparable": und, "positive_example_fires": int(positive())}
    return rep.finish("%d estimators on %d routes: %d combinations of a route and a kind of ill-formed input end in an exception before estimation; %d uses of the input checks hand well-formed input through." % (len(per), ns, n, good),
                      [("estimators", 35), ("routes", 80), ("rejections_shown", 1500), ("checks_on_well_formed_input", 10), ("positive_example_fires", 1)])


if __name__ == "__main__":
    sys.exit(main())
