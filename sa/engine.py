"""Interprocedural, context-sensitive dataflow over the spreg sources.

Abstract interpretation of the syntax tree into hash-consed value terms
(terms.py).  Control-flow joins produce gated phi terms, loops are widened to
`loop`/`rep` summaries, calls into spreg are analysed in their calling context,
calls to anything else stay uninterpreted.  Nothing of spreg is imported or run.
"""
import ast
import glob
import os
import sys

from terms import *

sys.setrecursionlimit(200000)

MAX_UNROLL = 24
MAX_DEPTH = 28


class Giveup(Exception):
    pass


class AbsRaise(Exception):
    """the current expression definitely raises"""

    def __init__(self, etype, payload=NONE):
        self.etype = etype
        self.payload = payload


class Heap:
    """abstract heap cells (immutable records, replaced on write)"""

    __slots__ = ("kind", "cls", "d", "rest", "alias", "site")

    def __init__(self, kind, cls=None, d=None, rest=None, alias=None, site=None):
        self.kind = kind  # inst | list | dict | arr | set
        self.cls = cls
        self.d = d  # inst: {attr: T}; list: tuple of entries; dict: tuple of (k, v, iter|None); arr: T
        self.rest = rest  # dict: opaque base
        self.alias = alias  # T whose storage this cell stands for, or None
        self.site = site

    def copy(self, d):
        return Heap(self.kind, self.cls, d, self.rest, self.alias, self.site)


class State:
    __slots__ = ("env", "heap", "facts", "over", "cfacts")

    def __init__(self, env=None, heap=None, facts=None, over=None, cfacts=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.over = over if over is not None else {}
        self.cfacts = cfacts if cfacts is not None else []

    def clone(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), dict(self.over), list(self.cfacts))

    def take(self, o):
        self.env, self.heap, self.facts, self.over, self.cfacts = o.env, o.heap, o.facts, o.over, o.cfacts

    def take_shared(self, o):
        self.heap, self.facts, self.over, self.cfacts = o.heap, o.facts, o.over, o.cfacts


class Exit:
    __slots__ = ("cond", "kind", "state", "val", "node")

    def __init__(self, cond, kind, state, val, node=None):
        self.cond, self.kind, self.state, self.val, self.node = cond, kind, state, val, node


class Func:
    def __init__(self, node, mod, qual, closure=None, cls=None):
        self.node, self.mod, self.qual, self.closure, self.cls = node, mod, qual, closure, cls
        self.up = None
        self.defaults = None
        self.name = getattr(node, "name", "<lambda>")


class Cls:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.qual = mod.name + "." + name
        self.ns = {}  # name -> T
        self.props = {}  # name -> {'get': Func, 'set': Func}
        self.bases = []
        self.mro = None


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.events = []
        self.state = 0  # 0 unloaded, 1 loading, 2 loaded
        self.all = None


class Event:
    __slots__ = ("kind", "data", "where", "stack", "facts")

    def __init__(self, kind, data, where, stack, facts):
        self.kind, self.data, self.where, self.stack, self.facts = kind, data, where, stack, facts

    def __repr__(self):
        return "<%s %s @%s %s>" % (self.kind, self.data, self.where, "/".join(self.stack))


EXC_PARENT = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "TypeError": "Exception", "ValueError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "NotImplementedError": "Exception", "AssertionError": "Exception",
}
BUILTIN_EXC = set(EXC_PARENT) | {"Exception", "BaseException", "RuntimeError", "UserWarning", "Warning", "RuntimeWarning",
                                 "ZeroDivisionError", "StopIteration", "ArithmeticError", "SyntaxError", "OSError", "DeprecationWarning", "FutureWarning"}

FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
NEGC = {"!=": "==", "is not": "is", "not in": "in"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BUILTINS = set(dir(__import__("builtins")))
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}
DICT_MUT = {"update", "setdefault", "popitem"}
ARR_MUT = {"fill", "resize", "itemset", "partition", "setdiag", "setfield", "eliminate_zeros", "sum_duplicates",
           "sort_indices", "put", "byteswap", "add", "discard", "set_transform", "set_index_inplace", "set_printoptions"}
ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like",
         "numpy.full", "numpy.full_like"}
NP_MUT0 = {"numpy.fill_diagonal", "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask",
           "numpy.random.shuffle", "random.shuffle", "heapq.heapify", "heapq.heappush", "numpy.ndarray.sort"}


OPTIM = {"scipy.optimize.minimize": ["fun", "x0", "args", "method", "jac", "hess"],
         "scipy.optimize.minimize_scalar": ["fun", "bracket", "bounds", "args", "method"],
         "scipy.optimize.fmin": ["func", "x0", "args"], "scipy.optimize.fmin_bfgs": ["func", "x0", "fprime", "args"],
         "scipy.optimize.fmin_l_bfgs_b": ["func", "x0", "fprime", "args"], "scipy.optimize.fmin_ncg": ["func", "x0", "fprime", "fhess_p", "fhess", "args"],
         "scipy.optimize.fminbound": ["func", "x1", "x2", "args"], "scipy.optimize.root_scalar": ["func", "args"],
         "scipy.optimize.least_squares": ["fun", "x0", "jac_", "bounds", "method"]}


class Engine:
    def __init__(self, root, pkg="spreg"):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.events = []
        self.stack = []
        self.nid = 0
        self.hooks = {}
        self.stats = {"calls": 0, "stmts": 0, "ext": 0, "loops": 0}
        self.opaque_funcs = set()
        self.stand_ins = {}  # class of the analysed program -> names of the library classes it stands for
        self.no_implicit = False
        self.ptypes = {}
        self.visited = set()
        self.monitor_call = None
        self.track_reads = False
        self.unroll = False
        self.tests = []  # the undecided tests of while loops whose outcome was assumed, in order
        self.shaper = None  # term -> its shape, for values with a known number of rows or columns
        self.loops = False  # undecided tests of while loops count as true (relation checks with a bounded number of iterations)
        self.processes = 0  # 1: tasks given to a process pool work on a copy of what they are given (counts them)
        self.exits = []
        self.keep = {}
        for p in sorted(glob.glob(os.path.join(root, pkg, "*.py"))):
            b = os.path.basename(p)[:-3]
            name = pkg if b == "__init__" else pkg + "." + b
            with open(p, encoding="utf8") as f:
                src = f.read()
            self.modules[name] = Module(name, p, ast.parse(src, p))

    # ------------------------------------------------------------------ utils
    def fresh(self, kind="r"):
        self.nid += 1
        return "%s%d" % (kind, self.nid)

    def where(self, node):
        f = self.stack[-1] if self.stack else None
        return (f.mod.name if f else "?", f.qual if f else "<module>", getattr(node, "lineno", 0))

    def event(self, kind, data, node, st):
        self.events.append(Event(kind, data, self.where(node), tuple(f.qual for f in self.stack), dict(st.facts)))

    # ---------------------------------------------------------------- modules
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            return None
        if m.state == 0:
            m.state = 1
            self.load(m)
            m.state = 2
        return m

    def load(self, m):
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                m.env[s.name] = self.mkfunc(s, m, s.name)
            elif isinstance(s, ast.ClassDef):
                m.env[s.name] = self.mkclass(s, m)
        st = State(env=m.env)
        f = Func(m.tree, m, "<module>")
        self.stack.append(f)
        saved = self.exits, self.events
        self.exits, self.events = [], []
        try:
            self.loadblock(m.tree.body, st, m)
        finally:
            self.stack.pop()
            m.events = self.events
            self.exits, self.events = saved
        m.heap = st.heap

    def loadblock(self, body, st, m):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if s not in m.tree.body:
                    m.env[s.name] = self.mkfunc(s, m, s.name) if isinstance(s, ast.FunctionDef) else self.mkclass(s, m)
                if isinstance(s, ast.FunctionDef) and s.decorator_list:
                    pass
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imp(s, st, m)
            elif isinstance(s, ast.Try):
                self.loadblock(s.body, st, m)
                # handlers of import guards: names not already defined
                for h in s.handlers:
                    st2 = State(env={}, heap=st.heap)
                    keep = dict(m.env)
                    self.loadblock([x for x in h.body if isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom))], st2, m)
                    for k, v in st2.env.items():
                        m.env.setdefault(k, v)
                    m.env.update(keep)
            elif isinstance(s, ast.If):
                t = ast.unparse(s.test)
                if "__name__" in t:
                    continue
                self.loadblock(s.body, st, m)
            elif isinstance(s, ast.With):
                continue
            elif isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.For, ast.While, ast.Delete)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                try:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == "__all__":
                        try:
                            m.all = ast.literal_eval(s.value)
                        except Exception:
                            m.all = None
                        continue
                    self.stmt(s, st)
                except (AbsRaise, Giveup):
                    pass

    def imp(self, s, st, m):
        if isinstance(s, ast.Import):
            for al in s.names:
                if al.asname:
                    st.env[al.asname] = self.extmod(al.name)
                else:
                    st.env[al.name.split(".")[0]] = self.extmod(al.name.split(".")[0])
            return
        base = s.module or ""
        if s.level:
            base = self.pkg + ("." + base if base else "")
        for al in s.names:
            if al.name == "*":
                mod = self.module(base)
                if mod is not None:
                    names = mod.all if mod.all is not None else [k for k in mod.env if not k.startswith("_")]
                    for k in names:
                        if k in mod.env:
                            st.env[k] = mod.env[k]
                continue
            st.env[al.asname or al.name] = self.fromimport(base, al.name)

    def fromimport(self, base, name):
        mod = self.module(base)
        if mod is not None:
            if base + "." + name in self.modules and not (mod.state == 2 and name in mod.env and mod.env[name].op != "mod"):
                return self.extmod(base + "." + name)
            if name in mod.env:
                return mod.env[name]
            if mod.state == 1:
                # circular: pre-scan
                for x in mod.tree.body:
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        self_st = State(env={})
                        try:
                            self.imp(x, self_st, mod)
                        except RecursionError:
                            continue
                        if name in self_st.env:
                            return self_st.env[name]
            return mk("ext", base + "." + name)
        return self.extmod(base + "." + name)

    def extmod(self, name):
        if name in self.modules:
            return mk("mod", name)
        return mk("ext", canon(name))

    def mkfunc(self, node, mod, qual, closure=None, cls=None, st=None):
        f = Func(node, mod, mod.name.split(".")[-1] + "." + qual, closure, cls)
        f.up = self.stack[-1] if closure is not None and self.stack else None
        fid = "%s@%d" % (f.qual, getattr(node, "lineno", 0)) if closure is None else self.fresh("f")
        self.funcs[fid] = f
        f.decos = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        return mk("func", fid)

    def mkclass(self, node, mod, st=None):
        c = Cls(node.name, mod, node)
        self.classes[c.qual] = c
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                t = self.mkfunc(s, mod, node.name + "." + s.name, cls=c)
                decos = self.funcs[t.a[0]].decos
                if "property" in decos:
                    c.props.setdefault(s.name, {})["get"] = t
                elif any(d.endswith(".setter") for d in decos):
                    c.props.setdefault(s.name, {})["set"] = t
                else:
                    c.ns[s.name] = t
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Name) and v.id in c.ns:
                            c.ns[tg.id] = c.ns[v.id]
                        else:
                            try:
                                c.ns[tg.id] = C(ast.literal_eval(v)) if not isinstance(v, (ast.Dict, ast.List)) else mk("fresh", "clsattr." + tg.id)
                            except Exception:
                                c.ns[tg.id] = mk("fresh", "clsattr." + tg.id)
        return mk("class", c.qual)

    def mro(self, c):
        if c.mro is not None:
            return c.mro
        bases = []
        for b in c.node.bases:
            v = self.modeval(b, c.mod)
            if v is not None and v.op == "class":
                bases.append(self.classes[v.a[0]])
        c.bases = bases
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [c]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in q[1:] for q in seqs):
                    h = s[0]
                    break
            else:
                h = next(s[0] for s in seqs if s)
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
        c.mro = out
        return out

    def modeval(self, node, mod):
        self.module(mod.name)
        if isinstance(node, ast.Name):
            return mod.env.get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.modeval(node.value, mod)
            if b is not None and b.op == "mod":
                return self.module(b.a[0]).env.get(node.attr)
        return None

    def clsfind(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return ("prop", k.props[name], k)
            if name in k.ns:
                return ("ns", k.ns[name], k)
        return None

    # ------------------------------------------------------------- conditions
    def canon(self, t):
        """condition term -> (atom, polarity)"""
        pol = True
        while True:
            if t.op == "not":
                t = t.a[0]
                pol = not pol
            elif t.op == "cmp" and t.a[0] in NEGC:
                t = mk("cmp", NEGC[t.a[0]], t.a[1], t.a[2])
                pol = not pol
            elif t.op == "cmp" and t.a[0] == ">=":
                t = mk("cmp", "<", t.a[1], t.a[2])
                pol = not pol
            elif t.op == "cmp" and t.a[0] == "<=":
                t = mk("cmp", ">", t.a[1], t.a[2])
                pol = not pol
            else:
                break
        if t.op == "cmp" and t.a[0] == ">":
            t = mk("cmp", "<", t.a[2], t.a[1])
        if t.op == "cmp" and t.a[0] == "==":
            if t.a[2] is NONE:
                t = mk("cmp", "is", t.a[1], NONE)
            elif t.a[1] is NONE:
                t = mk("cmp", "is", t.a[2], NONE)
            elif isconst(t.a[1]) and not isconst(t.a[2]):
                t = mk("cmp", "==", t.a[2], t.a[1])
        if t.op == "cmp" and t.a[0] == "is" and t.a[1] is NONE:
            t = mk("cmp", "is", t.a[2], NONE)
        if t.op == "call" and t.a[0] == "bool" and len(t.a[1]) == 1:
            return self.canon(t.a[1][0]) if pol else (lambda r: (r[0], not r[1]))(self.canon(t.a[1][0]))
        return t, pol

    def decide(self, t, st, depth=0):
        """truth value of a condition term under the facts, or None"""
        facts = st.facts
        o = t.op
        if o == "const":
            try:
                return bool(cval(t))
            except Exception:
                return None
        if t in facts:
            return facts[t]
        if o == "not":
            r = self.decide(t.a[0], st, depth)
            return None if r is None else not r
        if o == "and":
            rs = [self.decide(x, st, depth) for x in t.a]
            if False in rs:
                return False
            if all(r is True for r in rs):
                return True
            return None
        if o == "or":
            rs = [self.decide(x, st, depth) for x in t.a]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        if o == "phi":
            c = self.decide(t.a[0], st, depth)
            if c is not None:
                return self.decide(t.a[1] if c else t.a[2], st, depth)
            if depth < 4:
                a = self.decide(t.a[1], st, depth + 1)
                b = self.decide(t.a[2], st, depth + 1)
                if a is not None and a == b:
                    return a
            return None
        at, pol = self.canon(t)
        if at is not t:
            if at in facts:
                r = facts[at]
            else:
                r = self._decide_atom(at, st, depth)
            return None if r is None else (r == pol)
        return self._decide_atom(t, st, depth)

    def _decide_atom(self, t, st, depth):
        o = t.op
        if o == "cmp":
            op, x, y = t.a
            if x.op == "phi" or y.op == "phi":
                x2 = self.simp(x, st)
                y2 = self.simp(y, st)
                if x2 is not x or y2 is not y:
                    return self.decide(mk("cmp", op, x2, y2), st, depth)
                for z, w in ((x, 1), (y, 2)):
                    if z.op == "phi" and depth < 6:
                        r1 = self.decide(self.cmp(op, z.a[1], y) if w == 1 else self.cmp(op, x, z.a[1]), st, depth + 1)
                        if r1 is None:
                            return None
                        r2 = self.decide(self.cmp(op, z.a[2], y) if w == 1 else self.cmp(op, x, z.a[2]), st, depth + 1)
                        return r1 if r1 == r2 else None
            if isconst(x) and isconst(y):
                r = self.cmp(op, x, y)
                return cval(r) if isconst(r) else None
            if op == "is":
                if y is NONE:
                    k = self.nonekind(x, st)
                    if k is not None:
                        return k
                    if st.facts.get(x) is True:
                        return False
                    for f, v in st.facts.items():
                        if v and f.op == "cmp" and f.a[0] in ("==",) and f.a[1] is x and isconst(f.a[2]) and f.a[2] is not NONE:
                            return False
                        if v and f.op == "call" and f.a[0] == "isinstance" and f.a[1][0] is x:
                            return False
                return True if x is y else None
            if op == "==":
                if x is y:
                    return True
                if isconst(y):
                    if self.nonekind(x, st) is True:
                        return y is NONE
                    if st.facts.get(mk("cmp", "is", x, NONE)) is True:
                        return False
                    for f, v in st.facts.items():
                        if v and f.op == "cmp" and f.a[0] == "==" and f.a[1] is x and isconst(f.a[2]):
                            return cval(f.a[2]) == cval(y)
                        if v and f.op == "call" and f.a[0] == "isinstance" and f.a[1][0] is x and isinstance(cval(y), (str, bool)):
                            cl = f.a[1][1]
                            nm = [z.a[0] for z in ([cl] if cl.op != "tuple" else cl.a) if z.op == "ext"]
                            if nm and not any(n.split(".")[-1] in ("str", "bool", "int", "object") for n in nm):
                                return False
                    tv = st.facts.get(x)
                    if tv is not None and isinstance(cval(y), bool) and cval(y) != tv:
                        return False
                    if tv is False and isinstance(cval(y), str) and cval(y):
                        return False
                    if x.op in ("ref", "list", "tuple", "func", "class") and isinstance(cval(y), (str, bool, int, float)):
                        if x.op != "ref" or st.heap.get(x.a[0]) is None or st.heap[x.a[0]].kind in ("list", "dict", "inst", "set"):
                            return False
            if op == "in":
                if y.op in ("tuple", "list"):
                    rs = [self.decide(self.cmp("==", x, z), st, depth + 1) for z in y.a if z.op not in ("rep", "splice", "conde")]
                    if True in rs:
                        return True
                    if len(rs) == len(y.a) and all(r is False for r in rs):
                        return False
            return None
        if o == "ref":
            h = st.heap.get(t.a[0])
            if h is not None:
                if h.kind == "inst":
                    return True
                if h.kind in ("list", "set"):
                    if not h.d:
                        return False
                    if any(isinstance(e, T) and e.op not in ("rep", "splice", "conde") for e in h.d):
                        return True
                if h.kind == "dict" and h.rest is None:
                    if not h.d:
                        return False
                    if any(e[2] is None for e in h.d):
                        return True
            return None
        if o in ("func", "class", "ext", "bound", "mod"):
            return True
        if o in ("tuple", "list"):
            if not t.a:
                return False
            if any(e.op not in ("rep", "splice", "conde") for e in t.a):
                return True
            return None
        if self.nonekind(t, st) is True:
            return False
        f = st.facts
        if f.get(mk("cmp", "is", t, NONE)) is True:
            return False
        for k, v in f.items():
            if v and k.op == "cmp" and k.a[0] == "==" and k.a[1] is t and isconst(k.a[2]):
                return bool(cval(k.a[2]))
        return None

    def vtype(self, t, st=None, d=0):
        """run-time type name of a value, from declared parameter types (self.ptypes)"""
        if d > 30:
            return None
        o = t.op
        r = lambda x: self.vtype(x, st, d + 1)
        if o == "param":
            return self.ptypes.get(t.a[0])
        if not self.ptypes:
            return None
        if o == "const":
            return {"NoneType": "NoneType"}.get(type(cval(t)).__name__, type(cval(t)).__name__)
        if o == "ref" and st is not None:
            h = st.heap.get(t.a[0])
            if h is not None:
                return {"list": "list", "dict": "dict", "set": "set", "arr": "ndarray"}.get(h.kind)
            return None
        if o == "phi":
            if st is not None:
                c = self.decide(t.a[0], st)
                if c is not None:
                    return r(t.a[1] if c else t.a[2])
            a = r(t.a[1])
            return a if a is not None and a == r(t.a[2]) else None
        if o == "attr":
            if t.a[0].op == "param" and t.a[0].a[0] + "." + t.a[1] in self.ptypes:
                return self.ptypes[t.a[0].a[0] + "." + t.a[1]]
            b = r(t.a[0])
            if t.a[1] == "sparse" and b in ("W", "Kernel"):
                return "csr_matrix"
            if t.a[1] == "T":
                return {"ndarray": "ndarray", "csr_matrix": "csc_matrix", "csc_matrix": "csr_matrix"}.get(b)
            if t.a[1] == "transform":
                return "str"
            if t.a[1] in ("n", "k"):
                return "int"
            return None
        if o == "store":
            return r(t.a[0])
        if o in ("list", "rep"):
            return "list"
        if o == "index":
            b = r(t.a[0])
            if b == "ndarray" and (t.a[1].op == "slice" or (t.a[1].op == "tuple" and any(x.op == "slice" for x in t.a[1].a))):
                return "ndarray"
            if b == "ndarray" and t.a[1].op in ("list", "cmp", "call"):
                return "ndarray"
            return None
        if o == "bin":
            a, b = r(t.a[1]), r(t.a[2])
            sp = ("csr_matrix", "csc_matrix")
            if t.a[0] in ("+", "-", "*", "/", "**", "@"):
                if "ndarray" in (a, b) and t.a[0] != "@":
                    return "ndarray"
                if a in sp and b in sp:
                    return "csr_matrix"
                if t.a[0] == "@" and {a, b} <= {"ndarray"} | set(sp) and None not in (a, b):
                    return "ndarray"
                if a in sp and b in ("int", "float") or b in sp and a in ("int", "float"):
                    return "csr_matrix"
            return None
        if o == "un":
            return r(t.a[1])
        if o == "method":
            b = r(t.a[1])
            n = t.a[0]
            if n == "dot" and len(t.a[2]) == 1:
                c = r(t.a[2][0])
                if b is None or c is None:
                    return None
                if b.startswith("cs") and c.startswith("cs"):
                    return "csr_matrix"
                return "ndarray"
            if n in ("toarray", "to_numpy"):
                return "ndarray"
            if b == "ndarray" and n in ND_SAME:
                return "ndarray"
            return None
        if o == "call" and isinstance(t.a[0], str):
            p = t.a[0].split(".")
            if p[0] == "numpy" and len(p) == 2 and p[1] in ND_FUNCS:
                return "ndarray"
            if t.a[0] in ("numpy.linalg.inv", "numpy.linalg.pinv"):
                return "ndarray"
            if p[0] == "scipy" and p[-1] in ("csr_matrix", "csc_matrix"):
                return p[-1]
            if p[-1] == "lag_spatial" and len(t.a[1]) == 2:
                return r(t.a[1][1])
            if t.a[0] in ("len", "int"):
                return "int"
            if t.a[0] == "float":
                return "float"
            if t.a[0] == "str":
                return "str"
        return None

    def nonekind(self, t, st):
        """is the value None?  True/False/None(unknown)"""
        o = t.op
        if o == "const":
            return t is NONE
        if o in ("bin", "un", "tuple", "list", "func", "class", "bound", "cmp", "and", "or", "not", "fstr", "lambda", "store", "dict", "arr", "sum", "inst", "ext", "mod", "slice"):
            if o in ("and", "or"):
                return None
            return False
        if o == "ref":
            return False
        if o == "call" and isinstance(t.a[0], str):
            n = t.a[0]
            if n.startswith(("numpy.", "scipy.", "pandas.", "libpysal.")) or n in ("len", "range", "list", "dict", "set", "tuple", "str", "int", "float", "abs", "sum", "sorted", "zip", "enumerate", "round"):
                return False
        if o == "phi":
            c = self.decide(t.a[0], st)
            if c is not None:
                return self.nonekind(t.a[1] if c else t.a[2], st)
            a, b = self.nonekind(t.a[1], st), self.nonekind(t.a[2], st)
            return a if a == b else None
        if o == "elem" or o == "method":
            if o == "method" and t.a[0] in ("reshape", "copy", "dot", "sum", "astype", "tolist", "toarray", "todense", "join", "upper", "lower", "format", "strip", "diagonal", "mean"):
                return False
        return None

    def assume(self, st, t, val):
        """add a fact; False if contradictory"""
        o = t.op
        if o == "not":
            return self.assume(st, t.a[0], not val)
        r = self.decide(t, st)
        if r is not None:
            return r == val
        if o == "and" and val:
            return all(self.assume(st, x, True) for x in t.a)
        if o == "or" and not val:
            return all(self.assume(st, x, False) for x in t.a)
        if o in ("and", "or"):
            # unit propagation
            und = [x for x in t.a if self.decide(x, st) is None]
            if len(und) == 1:
                return self.assume(st, und[0], val)
            st.facts[t] = val
            st.cfacts.append((t, val))
            return True
        if o == "phi":
            a, b = self.decide(t.a[1], st), self.decide(t.a[2], st)
            st.facts[t] = val
            st.cfacts.append((t, val))
            if a is not None and a != val:
                return self.assume(st, t.a[0], False) and self.assume(st, t.a[2], val)
            if b is not None and b != val:
                return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], val)
            return True
        at, pol = self.canon(t)
        if at.op in ("and", "or", "phi"):
            return self.assume(st, at, val == pol)
        v = val == pol
        st.facts[at] = v
        if at.op == "cmp" and at.a[0] == "in" and v is False and at.a[2].op in ("tuple", "list") and all(isconst(z) for z in at.a[2].a):
            for z in at.a[2].a:
                self.assume(st, mk("cmp", "==", at.a[1], z), False)
        if at.op == "cmp" and at.a[0] == "in" and v is True and at.a[2].op in ("tuple", "list") and len(at.a[2].a) and all(isconst(z) for z in at.a[2].a):
            self.assume(st, mk("or", *[mk("cmp", "==", at.a[1], z) for z in at.a[2].a]), True)
        if at.op == "cmp" and at.a[1].op == "phi" and at.a[0] in ("==", "is"):
            p = at.a[1]
            a = self.decide(self.cmp(at.a[0], p.a[1], at.a[2]), st)
            b = self.decide(self.cmp(at.a[0], p.a[2], at.a[2]), st)
            if a is not None and a != v:
                if not self.assume(st, p.a[0], False):
                    return False
                if not self.assume(st, self.cmp(at.a[0], p.a[2], at.a[2]), v):
                    return False
            elif b is not None and b != v:
                if not self.assume(st, p.a[0], True):
                    return False
                if not self.assume(st, self.cmp(at.a[0], p.a[1], at.a[2]), v):
                    return False
        # propagate compound facts
        for ct, cv in list(st.cfacts):
            if ct.op == "or" and cv:
                und = [x for x in ct.a if self.decide_nof(x, st, ct) is not False]
                if any(self.decide_nof(x, st, ct) is True for x in und):
                    continue
                if not und:
                    return False
                if len(und) == 1:
                    st.cfacts.remove((ct, cv))
                    if not self.assume(st, und[0], True):
                        return False
            elif ct.op == "and" and not cv:
                und = [x for x in ct.a if self.decide_nof(x, st, ct) is not True]
                if any(self.decide_nof(x, st, ct) is False for x in und):
                    continue
                if not und:
                    return False
                if len(und) == 1:
                    st.cfacts.remove((ct, cv))
                    if not self.assume(st, und[0], False):
                        return False
        return True

    def decide_nof(self, x, st, ct):
        return self.decide(x, st)

    def simp(self, t, st):
        """resolve top-level phis under the facts"""
        n = 0
        while t.op == "phi" and n < 60:
            c = self.decide(t.a[0], st)
            if c is None:
                break
            t = t.a[1] if c else t.a[2]
            n += 1
        return t

    def truth(self, t, st):
        return self.decide(t, st)

    def cmp(self, op, x, y):
        if isconst(x) and isconst(y):
            a, b = cval(x), cval(y)
            try:
                r = {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                     ">": lambda: a > b, ">=": lambda: a >= b, "is": lambda: (a is b) or (a == b and type(a) is type(b)),
                     "is not": lambda: not ((a is b) or (a == b and type(a) is type(b))),
                     "in": lambda: a in b, "not in": lambda: a not in b}[op]()
                return C(bool(r))
            except Exception:
                pass
        if op in ("==", "is") and x is y and x.op not in ("phi",):
            return TRUE
        if op == "in" and y.op in ("tuple", "list", "set") and all(isconst(z) for z in y.a) and isconst(x):
            return C(any(cval(z) == cval(x) and type(cval(z)) is type(cval(x)) for z in y.a))
        if op == "not in" and y.op in ("tuple", "list", "set") and all(isconst(z) for z in y.a) and isconst(x):
            return C(not any(cval(z) == cval(x) and type(cval(z)) is type(cval(x)) for z in y.a))
        if op in ("==", "!=") and x.op == y.op == "set" and all(isconst(z) for z in x.a + y.a):
            return C(({cval(z) for z in x.a} == {cval(z) for z in y.a}) == (op == "=="))
        if op in ("==", "!=") and x.op == y.op and x.op in ("tuple", "list") and all(isconst(z) for z in x.a + y.a):
            return C(([cval(z) for z in x.a] == [cval(z) for z in y.a]) == (op == "=="))
        if op in ("is", "is not") and y is NONE:
            if x.op in ("list", "tuple", "ref", "func", "class", "ext", "mod", "bound", "bin"):
                return C(op == "is not")
        return mk("cmp", op, x, y)

    # ----------------------------------------------------------------- merges
    def merge_states(self, c, a, b):
        """state after a join: a if c else b (env, heap, overrides)"""
        out = State()
        pairs = {}
        out.env = self.merge_maps(c, a.env, b.env, UNBOUND)
        if a.heap is b.heap:
            out.heap = a.heap
        else:
            h = dict(a.heap)
            for k, vb in b.heap.items():
                va = h.get(k)
                if va is None:
                    h[k] = vb
                elif va is not vb:
                    h[k] = self.merge_heap(c, va, vb)
            out.heap = h
        out.over = self.merge_over(c, a.over, b.over)
        fa, fb = a.facts, b.facts
        out.facts = fa if fa is fb else {k: v for k, v in fa.items() if fb.get(k) == v and k in fb}
        out.cfacts = [x for x in a.cfacts if x in b.cfacts]
        return out

    def revalue(self, t, new, st):
        """an array known only by its value was changed in place: readers see the new value"""
        if self.unroll and t.op in ("bin", "method", "call", "phi", "index", "attr", "param", "un"):
            st.over = dict(st.over)
            st.over[(t, "#val")] = new

    def merge_over(self, c, a, b):
        if a == b:
            return a
        out = {}
        for k in set(a) | set(b):
            d = mk("attr", *k) if k[1] != "#val" else k[0]
            out[k] = phi(c, a.get(k, d), b.get(k, d))
        return out

    def merge_maps(self, c, a, b, miss):
        if a is b:
            return a
        out = {}
        for k, v in a.items():
            w = b.get(k, miss)
            out[k] = v if v is w else phi(c, v, w)
        for k, w in b.items():
            if k not in out:
                out[k] = phi(c, miss, w)
        return out

    def merge_heap(self, c, a, b):
        if a.kind != b.kind:
            return a
        if a.kind == "inst":
            h = a.copy(self.merge_maps(c, a.d, b.d, MISSING))
            if a.cls is not b.cls:
                h.cls = b.cls  # the entry class; scenarios split the dispatch
            return h
        if a.kind == "arr":
            return a.copy(phi(c, a.d, b.d))
        if a.kind in ("list", "set"):
            return a.copy(merge_lists(c, a.d, b.d))
        if a.kind == "dict":
            if a.d == b.d and a.rest is b.rest:
                return a
            ks = []
            da = {}
            db = {}
            for dd, src in ((da, a.d), (db, b.d)):
                for k, v, it in src:
                    dd[k] = (v, it)
                    if k not in ks:
                        ks.append(k)
            out = []
            for k in ks:
                va, vb = da.get(k), db.get(k)
                va = va[0] if va else self.restget(a, k)
                vb = vb[0] if vb else self.restget(b, k)
                it = (da.get(k) or db.get(k))[1]
                out.append((k, phi(c, va, vb), it))
            h = a.copy(tuple(out))
            h.rest = a.rest if a.rest is b.rest else phi(c, a.rest or mk("dict"), b.rest or mk("dict"))
            return h
        return a

    def restget(self, h, k):
        if h.rest is None:
            return MISSING
        return mk("index", h.rest, k)

    # ------------------------------------------------------------------ reify
    def reify(self, t, st, depth=0):
        """heap-free term for an operand of an uninterpreted operation"""
        o = t.op
        if depth > 12:
            return t
        if o == "ref":
            h = st.heap.get(t.a[0])
            if h is None:
                return t
            if h.kind == "list":
                return mk("list", *[self.reify(e, st, depth + 1) for e in h.d])
            if h.kind == "set":
                return mk("set", *[self.reify(e, st, depth + 1) for e in h.d])
            if h.kind == "arr":
                return self.reify(h.d, st, depth + 1)
            if h.kind == "dict":
                ent = [mk("ent", self.reify(k, st, depth + 1), self.reify(v, st, depth + 1), self.reify(it, st, depth + 1) if it is not None else NONE)
                       for k, v, it in h.d]
                return mk("dict", h.rest if h.rest is not None else NONE, *ent)
            return t
        if o in ("tuple", "list", "rep", "splice", "conde", "slice", "async"):
            return mk(o, *[self.reify(x, st, depth + 1) if isinstance(x, T) else x for x in t.a])
        if o == "phi":
            a, b = self.reify(t.a[1], st, depth + 1), self.reify(t.a[2], st, depth + 1)
            return phi(t.a[0], a, b)
        if o == "func":
            return self.reify_func(t, st)
        if o == "bound":
            return self.reify_func(t, st)
        return t

    def bind_callbacks(self, name, args, kw, st):
        """scipy.optimize callbacks are called as f(x, *args): close them over args"""
        sig = OPTIM[name]
        vals = dict(zip(sig, args))
        vals.update({k: v for k, v in kw.items() if k in sig})
        extra = vals.get("args", mk("tuple"))
        extra = self.simp(extra, st)
        if extra.op == "ref":
            extra = self.reify(extra, st)
        if extra.op not in ("tuple", "list"):
            if extra.op in ("phi", "call", "method", "param", "index", "attr") and extra.op != "attr":
                return args, kw
            extra = mk("tuple", extra)
        if any(x.op in ("star", "splice", "rep", "conde") for x in extra.a):
            return args, kw
        args, kw = list(args), dict(kw)
        for nm in ("fun", "jac", "hess", "fprime", "func"):
            if nm not in vals:
                continue
            t = self.simp(vals[nm], st)
            if t.op in ("func", "bound"):
                v = self.reify_func(t, st, list(extra.a))
                if v is t:
                    return args, kw
                if nm in kw:
                    kw[nm] = v
                else:
                    args[sig.index(nm)] = v
            elif t.op == "phi":
                return args, kw
        if "args" in kw:
            kw.pop("args")
        elif len(args) > sig.index("args"):
            args[sig.index("args")] = mk("tuple")
        return args, kw

    def reify_func(self, t, st, bound=None):
        f = self.funcs.get(t.a[0]) if t.op == "func" else (self.funcs.get(t.a[0].a[0]) if t.a[0].op == "func" else None)
        if f is None or len(self.stack) > MAX_DEPTH - 3:
            return t
        if any(g is f for g in self.stack):
            return t
        args = f.node.args
        n = len(args.args) - (1 if t.op == "bound" else 0)
        if args.vararg or args.kwarg:
            return t
        depth = len(self.stack)
        nd = len(args.defaults)
        nb = len(bound) if bound else 0
        if nb > n:
            self.event("arity", (f.qual, "called back with %d extra arguments" % nb), f.node, st)
            return t
        bv = [mk("bvar", sum(1 for g in self.stack if getattr(g, "_lam", False)), i) for i in range(n - nb if bound is not None else n)]
        if bound is not None:
            nr = n - nd
            bv = (bv[: max(1, nr - nb)] + list(bound)) if len(bv) >= 1 else list(bound)
            nd = 0
        st2 = State(env=st.env, heap=dict(st.heap), facts=dict(st.facts), over=dict(st.over), cfacts=list(st.cfacts))
        saved = self.exits
        self.exits = []
        f._lam = True
        try:
            # only the required parameters are bound by an optimiser's x plus args
            v = self.call(t, bv, {}, st2, f.node)
            v = self.reify(v, st2)
        except AbsRaise:
            v = mk("raises")
        finally:
            f._lam = False
            self.exits = saved
        return mk("lambda", n - nb, v)

    # --------------------------------------------------------------- statements
    def block(self, stmts, st):
        """returns (fall_state or None, [Exit]) ; st is consumed"""
        exits = []
        for s in stmts:
            saved = self.exits
            self.exits = []
            try:
                fall = self.stmt(s, st)
            except AbsRaise as e:
                self.exits.append(Exit(TRUE, "raise", st, (e.etype, e.payload), s))
                fall = None
            finally:
                new = self.exits
                self.exits = saved
            exits.extend(new)
            if fall is None:
                return None, exits
            st = fall
        return st, exits

    def stmt(self, s, st):
        self.stats["stmts"] += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Giveup("stmt " + type(s).__name__)
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        self.event("global", tuple(s.names), s, st)
        return st

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        self.imp(s, st, self.stack[-1].mod)
        return st

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        t = self.mkfunc(s, self.stack[-1].mod, self.stack[-1].qual.split(".", 1)[-1] + "." + s.name, closure=st.env)
        f = self.funcs[t.a[0]]
        self.evdefaults(f, st)
        st.env[s.name] = t
        return st

    def s_ClassDef(self, s, st):
        t = self.mkclass(s, self.stack[-1].mod, st)
        for k, v in self.classes[t.a[0]].ns.items():
            if v.op == "func":
                self.funcs[v.a[0]].closure = st.env
        st.env[s.name] = t
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.exits.append(Exit(TRUE, "ret", st, v, s))
        return None

    def s_Raise(self, s, st):
        et, payload = "Exception", NONE
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                fn = e.func
                for a in e.args:
                    payload = self.ev(a, st)
            else:
                fn = e
            et = ast.unparse(fn).split(".")[-1]
            if et not in BUILTIN_EXC and isinstance(fn, ast.Name) and fn.id not in st.env and fn.id not in self.stack[-1].mod.env:
                et = "NameError"
                self.event("undefined", fn.id, s, st)
        if et != "NameError" or s.exc is None or payload is not NONE:
            payload = mk("explicit", payload)
        self.exits.append(Exit(TRUE, "raise", st, (et, payload), s))
        return None

    def s_Break(self, s, st):
        self.exits.append(Exit(TRUE, "brk", st, NONE, s))
        return None

    def s_Continue(self, s, st):
        self.exits.append(Exit(TRUE, "cont", st, NONE, s))
        return None

    def s_Assert(self, s, st):
        t = self.ev(s.test, st)
        self.cond_raise(self.neg(t), "AssertionError", st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.mutate(b, st, s, "del item")
                for r in self.refs(b, st):
                    h = st.heap.get(r.a[0])
                    if h.kind == "dict":
                        st.heap[r.a[0]] = h.copy(tuple(e for e in h.d if e[0] is not k))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                for r in self.refs(b, st):
                    h = st.heap.get(r.a[0])
                    if h.kind == "inst":
                        d = dict(h.d)
                        d.pop(t.attr, None)
                        st.heap[r.a[0]] = h.copy(d)
                if b.op != "ref":
                    self.mutate(b, st, s, "del ." + t.attr)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        if self.unroll and (v, "#val") in st.over and not isinstance(s.value, (ast.Name, ast.Attribute)):
            st.over = {k: x for k, x in st.over.items() if k != (v, "#val")}  # a new array with the old value
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        tgt = s.target
        load = ast.copy_location(_as_load(tgt), tgt)
        if isinstance(tgt, ast.Subscript):
            bs = self.ev(tgt.value, st)
            ix = self.ev(tgt.slice, st)
            cur = self.getitem(bs, ix, st, s)
        else:
            cur = self.ev(load, st)
        v = self.ev(s.value, st)
        op = OPS[type(s.op)]
        cur = self.simp(cur, st)
        # in-place on mutable
        handled = False
        if cur.op == "ref" and st.heap.get(cur.a[0]) is not None:
            h = st.heap[cur.a[0]]
            if h.kind == "list" and op == "+":
                self.mutate(cur, st, s, "list +=")
                st.heap[cur.a[0]] = h.copy(h.d + self.entries(v, st))
                return st
            if h.kind == "arr":
                self.mutate(cur, st, s, "array %s=" % op)
                st.heap[cur.a[0]] = h.copy(self.binop(op, h.d, v, st, s))
                return st
        if not self.immutable(cur, v, op, st):
            self.mutate(cur, st, s, "in-place %s=" % op, value=v)
        nv = self.binop(op, cur, v, st, s)
        if cur.op != "ref" and not isinstance(tgt, ast.Subscript) and nv is not cur and self.isarray(cur) and self.shares(tgt, s):
            self.rewrite_holders(cur, nv, st)
        if isinstance(tgt, ast.Subscript):
            self.setitem(tgt, bs, ix, nv, st, s)
        else:
            self.assign(tgt, nv, st, s)
        return st

    ARRAY_FUNCS = {"dot", "inv", "hstack", "vstack", "zeros", "ones", "array", "matmul", "eye", "identity", "spdot", "sphstack", "spbroadcast", "lag_spatial", "diag", "reshape", "sqrt", "exp"}

    def isarray(self, t, d=0):
        """an array for certain (numbers are not changed in place)"""
        o = t.op
        if d > 30:
            return False
        if o == "bin":
            return t.a[0] == "@" or self.isarray(t.a[1], d + 1) or self.isarray(t.a[2], d + 1)
        if o == "phi":
            return self.isarray(t.a[1], d + 1) and self.isarray(t.a[2], d + 1)
        if o == "attr":
            return t.a[1] == "T" or t.a[1] in ("x", "y", "u", "betas", "vm", "z", "h", "q", "yend", "predy", "xtx", "xtxi") and t.a[0].op in ("param", "attr")
        if o == "method":
            return t.a[0] in ("reshape", "flatten", "copy", "toarray", "dot", "diagonal", "transpose") and t.a[0] != "dot"
        if o == "call" and isinstance(t.a[0], str):
            n = t.a[0].rsplit(".", 1)[-1]
            if n == "dot":
                return any(x.op == "attr" and x.a[1] == "T" for x in t.a[1][:1]) or any(self.isarray(x, d + 1) for x in t.a[1][:2] if x.op == "call")
            if n in ("sqrt", "exp"):
                return any(self.isarray(x, d + 1) for x in t.a[1][:1])
            return n in self.ARRAY_FUNCS
        return False

    def shares(self, tgt, s, depth=0):
        """does the name or attribute carry an object taken as it is from an attribute or a store (not a new array)?"""
        node = self.stack[-1].node
        d = ast.dump(_as_load(tgt))
        line = (s.lineno, s.col_offset)
        last = None
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and (n.lineno, n.col_offset) < line:
                for t in n.targets:
                    if isinstance(t, (ast.Name, ast.Attribute)) and ast.dump(_as_load(t)) == d:
                        if last is None or (last.lineno, last.col_offset) < (n.lineno, n.col_offset):
                            last = n
        if last is None or depth > 4:
            return False
        v = last.value
        if isinstance(v, ast.Attribute):
            return v.attr not in ("T", "real", "flat", "shape", "n", "k") and isinstance(v.value, (ast.Name, ast.Attribute))
        if isinstance(v, ast.Subscript):
            return isinstance(v.slice, ast.Constant) and isinstance(v.slice.value, str)
        if isinstance(v, ast.Name):
            return self.shares(v, last, depth + 1)
        return False

    def rewrite_holders(self, old, new, st):
        """an array taken from the objects was changed in place: what holds it holds the new value"""
        for r in list(st.heap):
            h = st.heap[r]
            if h.kind == "inst" and any(x is old for x in h.d.values()):
                st.heap[r] = h.copy({k: new if x is old else x for k, x in h.d.items()})
            elif h.kind == "dict" and any(x is old for k, x, it in h.d):
                st.heap[r] = h.copy(tuple((k, new if x is old else x, it) for k, x, it in h.d))

    SCALARS = {"n", "k", "kstar", "kx", "kf", "ke", "sig2", "sig2n", "sig2n_k", "t", "n_eq", "iteration", "lam", "rho", "utu", "logll", "warning", "title", "aic", "schwarz"}

    def immutable(self, cur, v, op, st):
        def imm(t, d=0):
            if t.op == "const":
                return not isinstance(cval(t), (list, dict))
            if t.op in ("fstr", "cmp", "not", "and", "or", "tuple"):
                return True
            if t.op == "call" and t.a[0] in ("len", "str", "int", "float", "sum", "round", "abs", "max", "min", "numpy.sum", "numpy.trace", "numpy.mean", "numpy.log", "numpy.linalg.det", "bool", "numpy.dot"):
                return True
            if t.op == "method" and t.a[0] in ("item", "join", "format", "sum", "mean", "trace", "lower", "upper", "replace", "strip", "ljust", "rjust", "center", "sum"):
                return True
            if t.op == "attr" and t.a[1] in self.SCALARS:
                return True
            if t.op == "bin" and d < 40:
                if t.a[0] == "%" and t.a[1].op == "const" and isinstance(cval(t.a[1]), str):
                    return True
                return imm(t.a[1], d + 1) or (imm(t.a[2], d + 1) and False) or not self.roots(t)
            if t.op == "phi" and d < 40:
                return imm(t.a[1], d + 1) and imm(t.a[2], d + 1)
            if t.op == "index" and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
                return True
            return False

        if imm(cur):
            return True
        if op == "+" and isstr(v):
            return True
        return False

    def s_If(self, s, st):
        t = self.ev(s.test, st)
        return self.branch(t, s, st, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x))

    def branch(self, t, s, st, fa, fb):
        d = self.decide(t, st)
        if d is True:
            f, ex = fa(st)
            self.exits.extend(ex)
            return f
        if d is False:
            f, ex = fb(st)
            self.exits.extend(ex)
            return f
        sa, sb = st.clone(), st
        oka = self.assume(sa, t, True)
        okb = self.assume(sb, t, False)
        at, pol = self.canon(t)
        if oka:
            fall_a, ea = fa(sa)
        if okb:
            fall_b, eb = fb(sb)
        if not oka and not okb:
            oka, okb = False, True
        if not oka:
            self.exits.extend(eb)
            return fall_b
        if not okb:
            self.exits.extend(ea)
            return fall_a
        c = at if pol else mk("not", at)
        nc = mk("not", at) if pol else at
        for e in ea:
            e.cond = self.conj(c, e.cond)
        for e in eb:
            e.cond = self.conj(nc, e.cond)
        self.exits.extend(ea)
        self.exits.extend(eb)
        if fall_a is None:
            return fall_b
        if fall_b is None:
            return fall_a
        return self.merge_states(at, fall_a, fall_b) if pol else self.merge_states(at, fall_b, fall_a)

    def conj(self, a, b):
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if b.op == "and":
            return mk("and", a, *b.a)
        return mk("and", a, b)

    def neg(self, t):
        if t.op == "not":
            return t.a[0]
        if t.op == "const":
            return C(not cval(t))
        return mk("not", t)

    def cond_raise(self, cond, etype, st, node):
        d = self.decide(cond, st)
        if d is False:
            return
        if d is True:
            raise AbsRaise(etype)
        e = st.clone()
        self.assume(e, cond, True)
        self.exits.append(Exit(cond, "raise", e, (etype, NONE), node))
        self.assume(st, cond, False)

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("method", "__enter__", self.reify(v, st), (), ()), st, s)
        f, ex = self.block(s.body, st)
        self.exits.extend(ex)
        return f

    def s_Try(self, s, st):
        st0 = st.clone()
        self.keep_ext = self.stats["ext"]
        fall, exits = self.block(s.body, st)
        opaque = self.stats["ext"] > self.keep_ext or any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)) for b in s.body for n in ast.walk(b))
        out = []
        caught = {i: [] for i in range(len(s.handlers))}
        for e in exits:
            if e.kind == "raise":
                for i, h in enumerate(s.handlers):
                    if self.matches(h, e.val[0]):
                        caught[i].append(e)
                        break
                else:
                    out.append(e)
            else:
                out.append(e)
        # implicit exceptions of uninterpreted operations
        definite = any(e.cond is TRUE and e.kind == "raise" for e in exits)
        result = fall
        if fall is not None and s.orelse:
            result, ex = self.block(s.orelse, fall)
            out.extend(ex)
        imp = None
        if self.shaper and fall is not None and all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isconst(fall.env.get(b.targets[0].id, NONE)) and not any(isinstance(n, ast.Call) for n in ast.walk(b)) for b in s.body):
            opaque = False  # sums of known numbers of rows and columns
        if opaque and not self.no_implicit and not (fall is None and definite and all(e.kind == "raise" for e in exits)):
            if fall is not None and definite is False and self.uninterpreted(s.body, st0):
                imp = s.handlers[0] if s.handlers else None
            elif fall is None and self.uninterpreted(s.body, st0) and not definite:
                imp = s.handlers[0] if s.handlers else None
        handlers = []
        for i, h in enumerate(s.handlers):
            es = caught[i]
            hst = None
            cond = None
            if es:
                hst, cond = es[-1].state, es[-1].cond
                for e in reversed(es[:-1]):
                    m = self.merge_states(e.cond, e.state, hst)
                    hst = m
                    cond = mk("or", e.cond, cond) if cond is not TRUE and e.cond is not TRUE else TRUE
            elif imp is not None and (h is imp or True):
                c = mk("exc", self.stack[-1].qual, self.excord(s), i)
                hst = self.merge_states(mk("excat", self.stack[-1].qual, self.excord(s), i), fall.clone() if fall is not None else st0.clone(), st0.clone())
                hst.facts = dict(st0.facts)
                hst.cfacts = list(st0.cfacts)
                cond = c
            if hst is not None:
                handlers.append((h, hst.clone(), cond))  # joined states may share their maps with the fall-through state
        # gate conditions of the caught exits in order
        cur = result
        outs = []
        for h, hst, cond in handlers:
            if h.name:
                hst.env[h.name] = mk("fresh", "exc")
            self.event("handler", (ast.unparse(h.type) if h.type else "bare", cond), h, hst)
            f, ex = self.block(h.body, hst)
            for e in ex:
                e.cond = self.conj(cond, e.cond)
            outs.extend(ex)
            if f is not None:
                if cur is None or cond is TRUE:
                    if cur is None:
                        cur = f
                    else:
                        cur = f
                else:
                    cur = self.merge_states(cond, f, cur)
        self.exits.extend(outs)
        self.exits.extend(out)
        if s.finalbody:
            if cur is not None:
                cur, ex = self.block(s.finalbody, cur)
                self.exits.extend(ex)
        return cur

    def excord(self, s):
        f = self.stack[-1]
        tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try)]
        return tries.index(s) if s in tries else 0

    def uninterpreted(self, body, st):
        """could the body raise implicitly? interpreted-only bodies (cache lookups) cannot"""
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Call):
                    return True
                if isinstance(n, ast.BinOp):
                    return True
                if isinstance(n, ast.Subscript):
                    try:
                        v = self.peek(n.value, st)
                    except Exception:
                        return True
                    if v is None or v.op != "ref":
                        return True
                if isinstance(n, ast.Attribute):
                    v = self.peek(n.value, st)
                    if v is None or v.op not in ("ref", "ext", "mod"):
                        return True
        return False

    def peek(self, node, st):
        """value of a pure access path without events"""
        if isinstance(node, ast.Name):
            return st.env.get(node.id) or self.stack[-1].mod.env.get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.peek(node.value, st)
            if b is not None and b.op == "ref":
                h = st.heap.get(b.a[0])
                if h is not None and h.kind == "inst":
                    if node.attr in h.d:
                        return h.d[node.attr]
                    return b  # definite AttributeError is interpreted exactly
        return None

    def matches(self, h, et):
        if h.type is None:
            return True
        names = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        e = et
        while e:
            if e in names:
                return True
            e = EXC_PARENT.get(e, "Exception" if e not in ("Exception", "BaseException") else None)
        return "BaseException" in names

    # -------------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        return self.loop_over(it, s, st, s.target, s.body, s.orelse)

    def iteritems(self, it, st):
        """finite, fully known iteration sequence, or None"""
        it = self.simp(it, st)
        ents = None
        if it.op == "phi":
            a, b = self.iteritems(it.a[1], st), self.iteritems(it.a[2], st)
            return a if a is not None and b is not None and len(a) == len(b) and all(x is y for x, y in zip(a, b)) else None
        if self.unroll and it.op in ("index", "call") and norange(it):
            return []
        if self.unroll and isconst(it) and isinstance(cval(it), str) and len(cval(it)) <= 40:
            return [C(x) for x in cval(it)]
        if it.op == "call" and it.a[0] == "numpy.array":
            l = constarr(it)
            if isinstance(l, list) and not any(isinstance(x, list) for x in l):
                return [C(x) for x in l]
        if it.op == "ref":
            h = st.heap.get(it.a[0])
            if h is None:
                return None
            if h.kind in ("list", "set"):
                ents = list(h.d)
            elif h.kind == "dict" and h.rest is None and all(e[2] is None for e in h.d):
                ents = [e[0] for e in h.d]
            else:
                return None
        elif it.op in ("tuple", "list"):
            ents = list(it.a)
        elif it.op == "const" and isinstance(cval(it), str) and len(cval(it)) <= 1:
            ents = [C(c) for c in cval(it)]
        elif it.op == "call" and it.a[0] in ("range", "numpy.arange") and it.a[1] and not it.a[2]:
            ends = [self.number(x) for x in it.a[1]]
            if not all(isconst(x) for x in ends):
                return None
            try:
                r = range(*[cval(x) for x in ends])
            except TypeError:
                return None
            if len(r) > MAX_UNROLL:
                return None
            ents = [C(i) for i in r]
        elif it.op == "call" and it.a[0] == "enumerate":
            sub = self.iteritems(it.a[1][0], st)
            if sub is None:
                return None
            ents = [mk("tuple", C(i), x) for i, x in enumerate(sub)]
        elif it.op == "call" and it.a[0] == "zip":
            subs = [self.iteritems(x, st) for x in it.a[1]]
            if any(x is None for x in subs):
                return None
            ents = [mk("tuple", *x) for x in zip(*subs)]
        elif it.op == "call" and it.a[0] in ("list", "tuple", "iter") and len(it.a[1]) == 1:
            return self.iteritems(it.a[1][0], st)
        if ents is None or len(ents) > MAX_UNROLL:
            return None
        if any(e.op in ("rep", "splice", "conde") for e in ents):
            return None
        return ents

    def elem_of(self, it, st):
        """(canonical iterable term, generic element term)"""
        it = self.simp(it, st)
        if it.op == "ref":
            h = st.heap.get(it.a[0])
            if h is not None and h.kind in ("list", "set"):
                if len(h.d) == 1 and h.d[0].op == "rep" and len(h.d[0].a) == 2:
                    return h.d[0].a[0], h.d[0].a[1]
                if len(h.d) == 1 and h.d[0].op == "splice":
                    return self.elem_of(h.d[0].a[0], st)
            if h is not None and h.kind == "dict":
                if h.rest is None and len(h.d) == 1 and h.d[0][2] is not None:
                    return h.d[0][2], h.d[0][0]
                if h.rest is not None and not h.d:
                    return h.rest, mk("elem", h.rest)
            r = self.reify(it, st)
            return r, mk("elem", r)
        if it.op == "list" and len(it.a) == 1 and it.a[0].op == "rep" and len(it.a[0].a) == 2:
            return it.a[0].a
        if it.op == "call":
            if it.a[0] == "enumerate" and it.a[1]:
                b, e = self.elem_of(it.a[1][0], st)
                return b, mk("tuple", mk("pos", b), e)
            if it.a[0] == "zip":
                es = [self.elem_of(x, st) for x in it.a[1]]
                return mk("zip", *[e[0] for e in es]), mk("tuple", *[e[1] for e in es])
            if it.a[0] in ("list", "tuple", "iter", "sorted", "set", "reversed") and len(it.a[1]) == 1 and not it.a[2]:
                b, e = self.elem_of(it.a[1][0], st)
                return (b, e) if it.a[0] in ("list", "tuple", "iter") else (mk("call", it.a[0], (b,), ()), e if it.a[0] != "x" else e)
            if it.a[0] == "range" and len(it.a[1]) == 2 and it.a[1][0] is C(0):
                it = mk("call", "range", (it.a[1][1],), ())
        if it.op == "method" and it.a[0] in ("keys",) and not it.a[2]:
            return it.a[1], mk("elem", it.a[1])
        if it.op == "method" and it.a[0] in ("items",) and not it.a[2]:
            return it.a[1], mk("tuple", mk("elem", it.a[1]), mk("index", it.a[1], mk("elem", it.a[1])))
        if it.op == "method" and it.a[0] in ("values",) and not it.a[2]:
            return it.a[1], mk("index", it.a[1], mk("elem", it.a[1]))
        it = self.reify(it, st)
        return it, mk("elem", it)

    def loop_over(self, it, s, st, target, body, orelse):
        items = self.iteritems(it, st)
        if items is not None:
            pend = []
            for x in items:
                if target is not None:
                    self.assign(target, x, st, s)
                f, ex = self.block(body, st)
                brk = [e for e in ex if e.kind == "brk"]
                cont = [e for e in ex if e.kind == "cont"]
                self.exits.extend(e for e in ex if e.kind in ("ret", "raise"))
                for e in reversed(cont):
                    f = e.state if f is None else self.merge_states(e.cond, e.state, f)
                if brk:
                    if f is None and len(brk) == 1:
                        pend.append((brk[0].cond, brk[0].state))
                        f = None
                    else:
                        for e in brk:
                            pend.append((e.cond, e.state))
                if f is None:
                    st = None
                    break
                st = f
            for c, b in reversed(pend):
                st = b if st is None else self.merge_states(c, b, st)
            if st is not None and orelse:
                f, ex = self.block(orelse, st)
                self.exits.extend(ex)
                st = f
            return st
        base, elem = self.elem_of(it, st)
        self.stats["loops"] += 1
        return self.widen(s, st, base, elem, target, body, orelse, None)

    def s_While(self, s, st):
        self.stats["loops"] += 1
        for i in range(max(4, self.loops + 1) if self.unroll else 0):
            # iterations whose test is decided (relation checks only)
            test = self.ev(s.test, st)
            v = self.decide(test, st)
            if v is None and self.loops:
                v = self.loops is True or i < self.loops
                self.tests.append(self.reify(test, st))
            if v is None:
                break
            if v is False:
                if s.orelse:
                    f, ex = self.block(s.orelse, st)
                    self.exits.extend(ex)
                    st = f
                return st
            body = st.clone()
            saved, self.exits = self.exits, []
            f, ex = self.block(s.body, body)
            mine, self.exits = self.exits, saved
            ex = mine + ex
            if f is None or any(e.kind in ("brk", "cont") for e in ex):
                break
            self.exits.extend(ex)
            st = f
        base = mk("whileof", self.fresh("w"))
        return self.widen(s, st, base, None, None, s.body, s.orelse, s.test)

    def widen(self, s, st, base, elem, target, body, orelse, test):
        ev0 = len(self.events)
        pre = st
        # pass 1: discover what the body changes
        p1 = pre.clone()
        changed = self.loop_pass(s, p1, base, elem, target, body, test, discard=True)
        muts = {}
        heapch = {}
        for rnd in range(3):
            if changed is None:
                break
            grew = False
            for k, v in changed[0].items():
                if pre.env.get(k) is not v and k not in muts:
                    muts[k] = mk("mu", base, k, pre.env.get(k, UNBOUND))
                    grew = True
            for k, h in changed[1].items():
                o = pre.heap.get(k)
                if o is not None and o is not h and heap_differs(o, h):
                    hc = heapch.setdefault(k, {})
                    g = self.heap_changes(k, o, h, base, hc)
                    grew = grew or g
            if not grew:
                break
            p2 = self.loop_entry(pre, muts, heapch)
            changed = self.loop_pass(s, p2, base, elem, target, body, test, discard=True)
        del self.events[ev0:]
        # final pass with events
        p3 = self.loop_entry(pre, muts, heapch)
        fin = self.loop_pass(s, p3, base, elem, target, body, test, discard=False)
        if fin is None:
            # body never completes normally
            out = pre.clone()
        else:
            env, heap, facts, over, tcond = fin
            out = pre.clone()
            for k, v in env.items():
                if k in muts:
                    init = pre.env.get(k, UNBOUND)
                    out.env[k] = self.loop_value(base, k, init, muts[k], v)
                elif pre.env.get(k) is not v:
                    out.env[k] = v
            for k, h in heap.items():
                o = pre.heap.get(k)
                if o is None:
                    out.heap[k] = h
                elif k in heapch:
                    out.heap[k] = self.heap_exit(k, o, h, base, heapch[k])
            out.over = over
            if test is not None:
                t = fin[4]
                if t is not None:
                    pass
        for e in getattr(self, "_brk", []):
            pass
        if orelse and out is not None:
            f, ex = self.block(orelse, out)
            self.exits.extend(ex)
            out = f
        return out

    def loop_entry(self, pre, muts, heapch):
        p = pre.clone()
        for k, m in muts.items():
            p.env[k] = m
        for k, hc in heapch.items():
            o = pre.heap[k]
            if o.kind == "inst":
                d = dict(o.d)
                d.update(hc)
                p.heap[k] = o.copy(d)
            elif o.kind == "arr":
                p.heap[k] = o.copy(hc["arr"])
            elif o.kind in ("list", "set"):
                p.heap[k] = o.copy(o.d + (mk("splice", hc["list"]),))
            elif o.kind == "dict":
                pass
        return p

    def heap_changes(self, rid, o, h, base, hc):
        grew = False
        if o.kind == "inst":
            for a, v in h.d.items():
                if o.d.get(a) is not v and a not in hc:
                    hc[a] = mk("mu", base, "." + a, o.d.get(a, MISSING))
                    grew = True
        elif o.kind == "arr":
            if "arr" not in hc:
                hc["arr"] = mk("mu", base, "[]", o.d)
                grew = True
        elif o.kind in ("list", "set"):
            if "list" not in hc:
                hc["list"] = mk("mu", base, "list" + rid, mk("list"))
                grew = True
        return grew

    def loop_value(self, base, k, init, mu, nxt):
        if nxt is mu:
            return init
        uses = any(x is mu for x in subterms(nxt))
        if not uses:
            if init is UNBOUND:
                return mk("last", base, nxt)
            return mk("last", base, nxt)
        if nxt.op == "bin" and nxt.a[0] == "+" and init is not UNBOUND:
            for i, j in ((1, 2), (2, 1)):
                if nxt.a[i] is mu and not any(x is mu for x in subterms(nxt.a[j])):
                    s = mk("sum", base, nxt.a[j])
                    return s if init is C(0) else mk("bin", "+", init, s)
        return mk("loop", base, k, init, nxt)

    def heap_exit(self, rid, o, h, base, hc):
        if o.kind == "inst":
            d = dict(h.d)
            for a, mu in hc.items():
                init = o.d.get(a, MISSING)
                v = d.get(a, MISSING)
                d[a] = self.loop_value(base, "." + a, init if init is not MISSING else UNBOUND, mu, v)
            return h.copy(d)
        if o.kind == "arr":
            return h.copy(self.loop_value(base, "[]", o.d, hc["arr"], h.d))
        if o.kind in ("list", "set"):
            pre = o.d
            body = h.d
            sp = mk("splice", hc["list"])
            if body[: len(pre)] == pre and len(body) > len(pre) and body[len(pre)] is sp:
                new = body[len(pre) + 1:]
                if not new:
                    return o
                return o.copy(pre + (mk("rep", base, *new),))
            if body and sp in body:
                # e.g. insert at front or conditional
                return o.copy((mk("splice", mk("loop", base, "list", mk("list", *pre), mk("list", *body))),))
            return o.copy((mk("splice", mk("loop", base, "list", mk("list", *pre), mk("list", *body))),))
        if o.kind == "dict":
            out = []
            old = {e[0]: e for e in o.d}
            for k, v, it in h.d:
                if k in old and old[k][1] is v:
                    out.append((k, v, old[k][2]))
                elif any(x.op in ("elem", "pos") for x in subterms(k)):
                    out.append((k, v, base if it is None else it))
                else:
                    out.append((k, v, it))
            return h.copy(tuple(out))
        return h

    def loop_pass(self, s, st, base, elem, target, body, test, discard):
        saved = self.exits
        self.exits = []
        t = None
        try:
            if test is not None:
                t = self.ev(test, st)
                if self.decide(t, st) is None:
                    self.assume(st, t, True)
            elif target is not None:
                self.assign(target, elem, st, s)
            f, ex = self.block(body, st)
        except AbsRaise as e:
            f, ex = None, [Exit(TRUE, "raise", st, (e.etype, e.payload), s)]
        finally:
            mine = self.exits
            self.exits = saved
        ex = mine + ex
        for e in reversed([e for e in ex if e.kind in ("cont", "brk")]):
            c = e.cond
            f = e.state if f is None else self.merge_states(c, e.state, f)
        if not discard:
            for e in ex:
                if e.kind in ("ret", "raise"):
                    c = e.cond
                    if c is TRUE:
                        c = mk("iterates", base)
                    else:
                        c = mk("exists", base, c)
                    e.cond = c
                    self.exits.append(e)
        if f is None:
            return None
        return f.env, f.heap, f.facts, f.over, t

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.simp(v, st)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                for i, e in enumerate(t.elts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, mk("index", self.reify(v, st), C(i)), st, node)
                return
            items = self.iteritems(v, st) if v.op in ("ref", "tuple", "list") else None
            if items is not None:
                if len(items) != n:
                    self.event("unpack", (len(items), n), node, st)
                    raise AbsRaise("ValueError")
            else:
                items = [self.getitem(v, C(i), st, node, unpack=True) for i in range(n)]
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            if t.attr == "data" and b.op == "call" and str(b.a[0]).startswith("scipy.sparse.") and isinstance(t.value, ast.Name):
                st.env[t.value.id] = mk("setdata", b, self.reify(v, st))  # the stored values of a sparse matrix made here
                return
            if t.attr == "transform" and b.op == "call" and str(b.a[0]).startswith("libpysal."):
                self.reassign(t.value, mk("call", "@transformed", (b, self.reify(v, st)), ()), st, node)  # spatial weights made here
                return
            self.setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.setitem(t, b, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)
        else:
            raise Giveup("target")

    def arms(self, t, st, cond=TRUE, depth=0):
        """(cond, leaf) arms of a phi tree consistent with the facts"""
        t = self.simp(t, st)
        if t.op == "phi" and depth < 12:
            c = t.a[0]
            sa = State({}, {}, dict(st.facts), {}, list(st.cfacts))
            sb = State({}, {}, dict(st.facts), {}, list(st.cfacts))
            sa.heap = sb.heap = st.heap
            out = []
            if self.assume(sa, c, True):
                out += self.arms(t.a[1], sa, self.conj(cond, c), depth + 1)
            if self.assume(sb, c, False):
                out += self.arms(t.a[2], sb, self.conj(cond, self.neg(c)), depth + 1)
            return out
        return [(cond, t)]

    def refs(self, t, st):
        return [x for c, x in self.arms(t, st) if x.op == "ref" and x.a[0] in st.heap]

    def setattr(self, b, name, v, st, node):
        arms = self.arms(b, st)
        for c, x in arms:
            if x.op == "ref" and st.heap.get(x.a[0]) is not None:
                h = st.heap[x.a[0]]
                if h.kind == "inst":
                    if name == "__class__":
                        if v.op == "class":
                            nh = h.copy(h.d)
                            nh.cls = self.classes[v.a[0]]
                            st.heap[x.a[0]] = nh
                            self.event("reclass", (h.cls.qual, v.a[0]), node, st)
                        continue
                    f = self.clsfind(h.cls, name) if h.cls else None
                    if f and f[0] == "prop":
                        if "set" in f[1]:
                            self.call(mk("bound", f[1]["set"], x), [v], {}, st, node)
                        else:
                            self.event("no_setter", (h.cls.qual, name), node, st)
                            raise AbsRaise("AttributeError")
                        continue
                    if h.alias is not None:
                        self.mutate(x, st, node, "." + name + " =")
                    d = dict(h.d)
                    d[name] = v if c is TRUE else phi(c, v, d.get(name, MISSING))
                    st.heap[x.a[0]] = h.copy(d)
                else:
                    self.mutate(x, st, node, "." + name + " =")
            elif x.op in ("ext", "mod"):
                self.event("extstore", (x.a[0], name), node, st)
            elif x.op == "class":
                self.event("extstore", (x.a[0], name), node, st)
            elif x.op in ("func",):
                self.event("extstore", (self.funcs[x.a[0]].qual, name), node, st)
            elif x is NONE:
                self.event("none_attr", name, node, st)
                if len(arms) == 1:
                    raise AbsRaise("AttributeError")
            else:
                self.mutate(x, st, node, "." + name + " =", attr=name, value=v)
                st.over = dict(st.over)
                k = (x, name)
                st.over[k] = v if c is TRUE else phi(c, v, st.over.get(k, mk("attr", x, name)))

    def setitem(self, tnode, b, k, v, st, node):
        if isinstance(tnode.value, ast.Attribute) and tnode.value.attr in ("loc", "iloc", "at", "iat") and b.op == "attr":
            # rows of a data frame
            ks = [self.reify(x, st) for x in (k.a if k.op == "tuple" else (k,))]
            key = mk("tuple", C("@" + tnode.value.attr), *ks)
            o = self.ev(tnode.value.value, st)
            self.mutate(o, st, node, "item store")
            arms = self.arms(o, st)
            for c, x in arms:
                if x.op == "ref" and st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind == "arr":
                    h = st.heap[x.a[0]]
                    nd = mk("store", self.reify(h.d, st), key, self.reify(v, st))
                    st.heap[x.a[0]] = h.copy(nd if c is TRUE else phi(c, nd, h.d))
                elif len(arms) == 1 and x.op != "ref":
                    self.reassign(tnode.value.value, mk("store", x, key, self.reify(v, st)), st, node)
            return
        arms = self.arms(b, st)
        newb = None
        for c, x in arms:
            if x.op == "ref" and st.heap.get(x.a[0]) is not None:
                h = st.heap[x.a[0]]
                if h.alias is not None:
                    self.mutate(x, st, node, "item store")
                if h.kind == "dict":
                    self.dict_store(x, h, k, v, c, st)
                elif h.kind == "list":
                    plainl = all(e.op not in ("rep", "splice", "conde") for e in h.d)
                    if isconst(k) and isinstance(cval(k), int) and plainl and -len(h.d) <= cval(k) < len(h.d):
                        l = list(h.d)
                        l[cval(k)] = v if c is TRUE else phi(c, v, l[cval(k)])
                        st.heap[x.a[0]] = h.copy(tuple(l))
                    elif c is TRUE and plainl and k.op == "slice" and all(isconst(z) and (z is NONE or isinstance(cval(z), int)) for z in k.a) and self.iteritems(v, st) is not None:
                        l = list(h.d)
                        l[slice(*[cval(z) for z in k.a])] = self.iteritems(v, st)
                        st.heap[x.a[0]] = h.copy(tuple(l))
                    else:
                        st.heap[x.a[0]] = h.copy((mk("splice", mk("store", self.reify(x, st), self.reify(k, st), self.reify(v, st))),))
                elif h.kind == "arr":
                    nd = mk("store", self.reify(h.d, st), self.reify(k, st), self.reify(v, st))
                    st.heap[x.a[0]] = h.copy(nd if c is TRUE else phi(c, nd, h.d))
                elif h.kind == "inst":
                    st.heap[x.a[0]] = h
            else:
                self.mutate(x, st, node, "item store")
                if x.op == "tuple":
                    raise AbsRaise("TypeError")
                nb = mk("store", self.reify(x, st), self.reify(k, st), self.reify(v, st))
                if len(arms) == 1:
                    newb = nb
        if newb is not None:
            tv = tnode.value
            if isinstance(tv, (ast.Name, ast.Attribute)) and arms[0][1].op != "ref":
                if self.shares(tv, node) or isinstance(tv, ast.Attribute) and self.isprop(tv, st):
                    self.rewrite_holders(arms[0][1], newb, st)
            self.reassign(tv, newb, st, node)

    def isprop(self, node, st):
        b = self.peek(node.value, st)
        h = st.heap.get(b.a[0]) if b is not None and b.op == "ref" else None
        return h is not None and h.kind == "inst" and h.cls is not None and (self.clsfind(h.cls, node.attr) or ("",))[0] == "prop"

    def reassign(self, node, v, st, where):
        """functional update of the container expression"""
        if isinstance(node, ast.Name):
            if node.id in st.env:
                st.env[node.id] = v
        elif isinstance(node, ast.Attribute):
            b = self.ev(node.value, st)
            for c, x in self.arms(b, st):
                if x.op == "ref" and st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind == "inst":
                    h = st.heap[x.a[0]]
                    if h.cls and (self.clsfind(h.cls, node.attr) or ("",))[0] == "prop":
                        continue
                    d = dict(h.d)
                    d[node.attr] = v if c is TRUE else phi(c, v, d.get(node.attr, MISSING))
                    st.heap[x.a[0]] = h.copy(d)
                elif x.op not in ("ext", "mod", "class", "func"):
                    st.over = dict(st.over)
                    st.over[(x, node.attr)] = v
        elif isinstance(node, ast.Subscript):
            b = self.ev(node.value, st)
            k = self.ev(node.slice, st)
            for c, x in self.arms(b, st):
                if x.op == "ref" and st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind == "dict":
                    self.dict_store(x, st.heap[x.a[0]], k, v, c, st)
                elif x.op == "ref" and st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind == "list":
                    h = st.heap[x.a[0]]
                    if isconst(k) and isinstance(cval(k), int) and all(e.op not in ("rep", "splice", "conde") for e in h.d) and -len(h.d) <= cval(k) < len(h.d):
                        l = list(h.d)
                        l[cval(k)] = v
                        st.heap[x.a[0]] = h.copy(tuple(l))

    def dict_store(self, x, h, k, v, c, st):
        k = self.reify(k, st)
        out = []
        done = False
        for kk, vv, it in h.d:
            if kk is k:
                out.append((kk, v if c is TRUE else phi(c, v, vv), it))
                done = True
            else:
                out.append((kk, vv, it))
        if not done:
            out.append((k, v if c is TRUE else phi(c, v, self.restget(h, k)), None))
        st.heap[x.a[0]] = h.copy(tuple(out))

    def listish(self, v, st):
        v = self.simp(v, st)
        if v.op == "ref":
            h = st.heap.get(v.a[0])
            return h is not None and h.kind == "list"
        if v.op == "phi":
            return self.listish(v.a[1], st) or self.listish(v.a[2], st)
        return v.op in ("list", "rep", "conde") or (v.op == "call" and v.a[0] in ("list", "sorted"))

    def mutate(self, t, st, node, how, attr=None, value=None):
        ll = how in self.LISTHOW or (how == "in-place +=" and value is not None and self.listish(value, st))
        rs = self.roots(t, st, listlike=ll)
        self.event("mutate", (t, how, frozenset(rs), attr, value), node, st)

    # --------------------------------------------------------------- aliasing
    VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "swapaxes", "transpose", "diagonal", "to_numpy", "get",
                    "values", "items", "keys", "__enter__", "setdefault", "pop"}
    VIEW_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.atleast_2d", "numpy.atleast_1d", "numpy.reshape", "numpy.ravel",
                  "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.ascontiguousarray", "numpy.diagonal",
                  "numpy.asfortranarray", "getattr", "numpy.expand_dims", "numpy.broadcast_to", "numpy.real", "iter", "next", "zip", "enumerate", "reversed", "numpy.split", "numpy.array_split", "numpy.asmatrix"}
    SHALLOW = {"list", "dict", "tuple", "set", "sorted", "copy.copy"}

    LISTHOW = {".append()", ".insert()", ".extend()", ".remove()", ".pop()", "list +="}

    def roots(self, t, st=None, listlike=False):
        """entry parameters whose storage the value may share.  listlike: the mutation proves the value is a list,
        so slicing on the access path copied it (array slices are views)"""
        out = set()
        seen = set()
        stack = [(t, 0)]  # (value, depth): storage of the value itself (0) or of its elements (>0)
        up = lambda d: min(d + 1, 3)
        while stack:
            x, d = stack.pop()
            if (x.id, d) in seen:
                continue
            seen.add((x.id, d))
            o = x.op
            if o == "param":
                out.add(x.a[0])
            elif o == "default":
                out.add("default:" + str(x.a[0]))
            elif o == "glob":
                out.add("global:" + str(x.a[0]))
            elif o == "attr":
                if x.a[1] in ("shape", "n", "size", "ndim", "dtype", "k"):
                    continue
                stack.append((x.a[0], d if x.a[1] in ("T", "flat", "real") else up(d)))
            elif o == "index":
                if self.copying_index(x.a[1]):
                    continue
                if x.a[1].op == "slice" and (listlike or self.namelist(x.a[0])):
                    continue
                sl = x.a[1].op == "slice" or (x.a[1].op == "tuple" and any(y.op == "slice" for y in x.a[1].a))
                stack.append((x.a[0], d if sl else up(d)))
            elif o == "elem":
                stack.append((x.a[0], up(d)))
            elif o == "phi":
                stack.append((x.a[1], d))
                stack.append((x.a[2], d))
            elif o in ("store",):
                stack.append((x.a[0], d))
                if d > 0:
                    stack.append((x.a[2], d - 1))
            elif o == "last":
                stack.append((x.a[1], d))
            elif o == "loop":
                stack.append((x.a[2], d))
                stack.append((x.a[3], d))
            elif o == "mu":
                stack.append((x.a[2], d))
            elif o in ("list", "tuple", "dict"):
                if d > 0:
                    for y in children(x):
                        stack.append((y, d - 1))
            elif o in ("rep", "conde", "ent"):
                for y in (x.a[1:] if o in ("rep", "conde") else x.a[1:2]):
                    stack.append((y, up(d) if o == "conde" else d))
            elif o == "splice":
                stack.append((x.a[0], up(d)))
            elif o == "method":
                if x.a[0] in self.VIEW_METHODS:
                    stack.append((x.a[1], up(d) if x.a[0] in ("get", "pop", "setdefault") else d))
                    if x.a[0] == "get" and len(x.a[2]) > 1:
                        stack.append((x.a[2][1], d))
                elif x.a[0] == "copy" and d > 0 and self.dictlike(x.a[1]):
                    stack.append((x.a[1], d))
            elif o == "call" and isinstance(x.a[0], str):
                if x.a[0] in self.VIEW_FUNCS:
                    for y in x.a[1][:1] if x.a[0] != "zip" else x.a[1]:
                        stack.append((y, up(d) if x.a[0] in ("getattr", "next") else d))
                elif x.a[0] in self.SHALLOW and d > 0:
                    for y in x.a[1][:1]:
                        stack.append((y, d))
                elif x.a[0] == "numpy.array" and ("copy", FALSE) in x.a[2]:
                    stack.append((x.a[1][0], d))
            elif o == "ref" and st is not None:
                h = st.heap.get(x.a[0])
                if h is not None:
                    if h.alias is not None:
                        stack.append((h.alias, d))
                    if d > 0:
                        if h.kind in ("list", "set"):
                            for y in h.d:
                                stack.append((y, d - 1))
                        elif h.kind == "dict":
                            for e in h.d:
                                stack.append((e[1], d - 1))
                            if h.rest is not None:
                                stack.append((h.rest, d))
        return out

    def namelist(self, t):
        """documented lists of strings (name_x, name_q, ...): slicing copies"""
        while t.op in ("index", "phi"):
            if t.op == "phi":
                return self.namelist(t.a[1]) or self.namelist(t.a[2])
            t = t.a[0]
        return t.op == "param" and t.a[0].startswith("name_")

    def dictlike(self, t):
        if t.op == "param":
            n = t.a[0]
            return n.startswith(("big", "dict", "name_big")) or n.endswith("dict")
        if t.op == "phi":
            return self.dictlike(t.a[1]) or self.dictlike(t.a[2])
        return False

    def copying_index(self, k):
        """numpy advanced indexing copies; basic indexing and container access alias"""
        o = k.op
        if o in ("cmp", "list", "rep"):
            return True
        if o == "const" or o == "slice":
            return False
        if o == "tuple":
            return any(self.copying_index(x) for x in k.a)
        if o == "un" and k.a[0] == "~":
            return True
        if o == "bin" and k.a[0] in ("&", "|"):
            return True
        if o == "call" and isinstance(k.a[0], str) and (k.a[0].startswith("numpy.") or k.a[0] in ("list",)):
            return True
        if o == "index":  # regi_ids[r]: a list of row numbers
            return k.a[0].op in ("dict", "call", "method", "list")
        if o == "phi":
            return self.copying_index(k.a[1]) and self.copying_index(k.a[2])
        if o == "ref":
            return True
        return False

    # -------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Giveup("expr " + type(n).__name__)
        return m(n, st)

    def e_Constant(self, n, st):
        return C(n.value) if not isinstance(n.value, complex) else mk("call", "complex", (C(n.value.imag),), ())

    def e_Name(self, n, st):
        env = st.env
        if n.id in env:
            v = self.simp(env[n.id], st)
            if v is UNBOUND:
                self.event("unbound", (n.id, True, TRUE), n, st)
                raise AbsRaise("UnboundLocalError")
            if v.op == "phi" and self.may_be(v, UNBOUND, st):
                c = self.cond_of(v, UNBOUND, st)
                self.event("unbound", (n.id, False, c), n, st)
                # continue on the bound arms
                v = self.strip(v, UNBOUND, st)
                env[n.id] = v
            while self.unroll and (v, "#val") in st.over:
                v = st.over[(v, "#val")]
            return v
        f = self.stack[-1]
        g = f
        while g is not None:
            clos = g.closure
            if clos is not None and n.id in clos:
                return clos[n.id]
            g = g.up
        if n.id in getattr(f, "locals", ()):  # assigned later in this function only
            self.event("unbound", (n.id, True, TRUE), n, st)
            raise AbsRaise("UnboundLocalError")
        menv = f.mod.env
        if n.id in menv:
            v = menv[n.id]
            if v.op == "ref" and v.a[0] in getattr(f.mod, "heap", {}) and v.a[0] not in st.heap:
                h = f.mod.heap[v.a[0]]
                if h.alias is None:
                    h.alias = mk("glob", f.mod.name + "." + n.id)
                st.heap[v.a[0]] = h
            return v
        if n.id in BUILTINS:
            return mk("ext", n.id)
        self.event("undefined", n.id, n, st)
        raise AbsRaise("NameError")

    def may_be(self, v, what, st):
        return any(x is what for c, x in self.arms(v, st))

    def cond_of(self, v, what, st):
        cs = [c for c, x in self.arms(v, st) if x is what]
        return cs[0] if len(cs) == 1 else mk("or", *cs)

    def strip(self, v, what, st, depth=0):
        if v.op == "phi" and depth < 40:
            a, b = self.strip(v.a[1], what, st, depth + 1), self.strip(v.a[2], what, st, depth + 1)
            if a is what:
                return b
            if b is what:
                return a
            return phi(v.a[0], a, b)
        return v

    def e_Tuple(self, n, st):
        return mk("tuple", *self.elts(n.elts, st))

    def elts(self, es, st):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                out.extend(self.entries(v, st))
            else:
                out.append(self.ev(e, st))
        return out

    def newlist(self, items, st, node=None, kind="list", alias=None):
        r = self.fresh("L")
        st.heap[r] = Heap(kind, d=tuple(items), alias=alias, site=getattr(node, "lineno", 0))
        return mk("ref", r)

    def newdict(self, ents, st, rest=None, alias=None):
        r = self.fresh("D")
        st.heap[r] = Heap("dict", d=tuple(ents), rest=rest, alias=alias)
        return mk("ref", r)

    def e_List(self, n, st):
        return self.newlist(self.elts(n.elts, st), st, n)

    def e_Set(self, n, st):
        return self.newlist(self.elts(n.elts, st), st, n, kind="set")

    def e_Dict(self, n, st):
        ents = []
        rest = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                b = self.ev(v, st)
                if b.op == "ref" and st.heap.get(b.a[0]) is not None and st.heap[b.a[0]].kind == "dict":
                    h = st.heap[b.a[0]]
                    ents.extend(h.d)
                    rest = rest or h.rest
                else:
                    rest = self.reify(b, st)
                continue
            kk = self.reify(self.ev(k, st), st)
            ents.append((kk, self.ev(v, st), None))
        return self.newdict(ents, st, rest)

    def entries(self, v, st):
        """list entries of a value spliced into a list"""
        v = self.simp(v, st)
        if v.op == "ref" and st.heap.get(v.a[0]) is not None:
            h = st.heap[v.a[0]]
            if h.kind in ("list", "set"):
                return h.d
        if v.op in ("tuple", "list"):
            return v.a
        if v.op == "phi":
            a, b = self.entries(v.a[1], st), self.entries(v.a[2], st)
            return merge_lists(v.a[0], a, b)
        r = self.reify(v, st)
        l = constarr(r) if r.op in ("const", "list", "call", "index", "method") else None
        if isinstance(l, list) and all(isinstance(x, (str, int, float, bool)) for x in l):
            return tuple(C(x) for x in l)
        return (mk("splice", r),)

    def e_BoolOp(self, n, st):
        op = "and" if isinstance(n.op, ast.And) else "or"
        vals = []
        tmp = st
        cond = TRUE
        for i, e in enumerate(n.values):
            if i == 0:
                v = self.ev(e, st)
            else:
                # evaluated only under the previous operands
                sub = st.clone()
                sub.env = st.env
                ok = True
                for w in vals:
                    ok = ok and self.assume(sub, w, op == "and")
                if not ok:
                    break
                n0 = len(self.exits)
                v = self.ev(e, sub)
                for x in self.exits[n0:]:
                    for w in reversed(vals):
                        x.cond = self.conj(w if op == "and" else self.neg(w), x.cond)
                st.heap.update(sub.heap)
            d = self.decide(v, st)
            if op == "and":
                if d is False:
                    vals.append(v)
                    break
                if d is True and i < len(n.values) - 1:
                    continue
            else:
                if d is True:
                    vals.append(v)
                    break
                if d is False and i < len(n.values) - 1:
                    continue
            vals.append(v)
        if not vals:
            return TRUE if op == "and" else FALSE
        if len(vals) == 1:
            return vals[0]
        return mk(op, *vals)

    def e_UnaryOp(self, n, st):
        v = self.simp(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.Not):
            d = self.decide(v, st)
            if d is not None:
                return C(not d)
            return self.neg(v)
        o = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(n.op)]
        if isconst(v) and isinstance(cval(v), (int, float)):
            return C({"-": lambda x: -x, "+": lambda x: +x, "~": lambda x: ~x if isinstance(x, int) else x}[o](cval(v)))
        v = self.reify(v, st)
        return mk("un", o, v) if o != "+" else v

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(OPS[type(n.op)], a, b, st, n)

    def islist(self, t, st):
        return (t.op == "ref" and st.heap.get(t.a[0]) is not None and st.heap[t.a[0]].kind == "list") or t.op == "list"

    def binop(self, op, a, b, st, node):
        a, b = self.simp(a, st), self.simp(b, st)
        if op == "-" and a.op == b.op == "ref" and all(st.heap.get(x.a[0]) is not None and st.heap[x.a[0]].kind == "set" and all(isconst(z) for z in st.heap[x.a[0]].d) for x in (a, b)):
            drop = {cval(z) for z in st.heap[b.a[0]].d}
            return self.newlist([z for z in st.heap[a.a[0]].d if cval(z) not in drop], st, node, kind="set")
        if op == "%" and isconst(a) and isinstance(cval(a), str) and b.op == "tuple" and all(isconst(e) for e in b.a):
            try:
                return C(cval(a) % tuple(cval(e) for e in b.a))
            except (TypeError, ValueError):
                raise AbsRaise("TypeError")
        if isconst(a) and isconst(b):
            x, y = cval(a), cval(b)
            if op in ("&", "|", "^") and isinstance(x, bool) and isinstance(y, bool):
                return C(x & y if op == "&" else x | y if op == "|" else x ^ y)
            if isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)) or (op == "%" and isinstance(x, str)):
                try:
                    if not (op == "**" and abs(y) > 64):
                        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "//": lambda: x // y,
                             "%": lambda: x % y, "**": lambda: x ** y}[op]()
                        if isinstance(r, (int, float, str)) and not (isinstance(r, str) and len(r) > 500):
                            return C(r)
                except TypeError:
                    raise AbsRaise("TypeError")
                except Exception:
                    pass
        if op == "+":
            for u in (a, b):
                if any(self.islist(x, st) for c, x in self.arms(u, st)):
                    if isconst(a) or isconst(b):
                        break
                    return self.newlist(self.entries(a, st) + self.entries(b, st), st, node)
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.a + b.a))
        if op == "*":
            for u, w in ((a, b), (b, a)):
                if self.islist(u, st):
                    ents = self.entries(u, st)
                    if isconst(w) and isinstance(cval(w), int) and cval(w) <= MAX_UNROLL:
                        return self.newlist(ents * cval(w), st, node)
                    return self.newlist([mk("rep", mk("call", "range", (self.reify(w, st),), ()), *ents)] if ents else [], st, node)
        ra, rb = self.reify(a, st), self.reify(b, st)
        return mk("bin", op, ra, rb)

    def e_Compare(self, n, st):
        l = self.simp(self.ev(n.left, st), st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            rv = self.simp(self.ev(r, st), st)
            o = CMP[type(op)]
            x, y = self.reify(l, st), self.reify(rv, st)
            if o in ("==", "!=") and (y is NONE or x is NONE):
                self.event("none_eq", (x if y is NONE else y,), n, st)
            if o in ("in", "not in") and rv.op == "ref" and st.heap.get(rv.a[0]) is not None and st.heap[rv.a[0]].kind == "dict":
                h = st.heap[rv.a[0]]
                hit = [e for e in h.d if e[0] is x]
                if hit and hit[0][1] is not MISSING and not self.may_be(hit[0][1], MISSING, st):
                    out.append(C(o == "in"))
                    l = rv
                    continue
                if h.rest is None and all(e[2] is None and isconst(e[0]) for e in h.d) and isconst(x) and not hit:
                    out.append(C(o != "in"))
                    l = rv
                    continue
            c = self.cmp(o, x, y)
            out.append(c)
            l = rv
        if len(out) == 1:
            return out[0]
        return mk("and", *out)

    def e_IfExp(self, n, st):
        t = self.ev(n.test, st)
        d = self.decide(t, st)
        if d is True:
            return self.ev(n.body, st)
        if d is False:
            return self.ev(n.orelse, st)
        sa, sb = st.clone(), st.clone()
        sa.env = dict(st.env)
        oka, okb = self.assume(sa, t, True), self.assume(sb, t, False)
        at, pol = self.canon(t)
        n0 = len(self.exits)
        a = self.ev(n.body, sa) if oka else None
        for x in self.exits[n0:]:
            x.cond = self.conj(t, x.cond)
        n0 = len(self.exits)
        b = self.ev(n.orelse, sb) if okb else None
        for x in self.exits[n0:]:
            x.cond = self.conj(self.neg(t), x.cond)
        if a is None:
            st.take(sb)
            return b
        if b is None:
            st.take(sa)
            return a
        m = self.merge_states(at, sa, sb) if pol else self.merge_states(at, sb, sa)
        st.take(m)
        return phi(at, a, b) if pol else phi(at, b, a)

    def e_Lambda(self, n, st):
        t = self.mkfunc(n, self.stack[-1].mod, self.stack[-1].qual.split(".", 1)[-1] + ".<lambda>", closure=st.env)
        f = self.funcs[t.a[0]]
        self.evdefaults(f, st)
        return t

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.reify(self.ev(v.value, st), st))
            else:
                parts.append(C(v.value))
        if all(isconst(x) and type(cval(x)) in (str, int, bool, type(None)) for x in parts) and not any(
                isinstance(v, ast.FormattedValue) and (v.format_spec is not None or v.conversion != -1) for v in n.values):
            return C("".join(str(cval(x)) for x in parts))
        return mk("fstr", *parts)

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Slice(self, n, st):
        f = lambda x: NONE if x is None else self.reify(self.ev(x, st), st)
        return mk("slice", f(n.lower), f(n.upper), f(n.step))

    # comprehensions
    def comp(self, n, st, build):
        """entries tuple produced by the generators"""
        saved_env = st.env
        st.env = dict(saved_env)
        try:
            return self.comp_gen(n.generators, 0, st, build)
        finally:
            st.env = saved_env

    def comp_gen(self, gens, i, st, build):
        if i == len(gens):
            return (build(st),)
        g = gens[i]
        it = self.ev(g.iter, st)
        items = self.iteritems(it, st)
        out = []
        seq = items
        base = None
        if seq is None:
            base, elem = self.elem_of(it, st)
            seq = [elem]
        for x in seq:
            self.assign(g.target, x, st, g.target)
            cond = TRUE
            dead = False
            sub = st.clone() if g.ifs else st
            for c in g.ifs:
                t = self.ev(c, sub)
                d = self.decide(t, sub)
                if d is False:
                    dead = True
                    break
                if d is None:
                    cond = self.conj(cond, t)
                    self.assume(sub, t, True)
            if dead:
                continue
            n0 = len(self.exits)
            e = self.comp_gen(gens, i + 1, sub, build)
            for ex in self.exits[n0:]:
                if base is not None:
                    ex.cond = mk("exists", base, ex.cond)
            if g.ifs:
                st.heap = sub.heap
            if cond is not TRUE:
                e = (mk("conde", cond, mk("list", *e), mk("list")),)
            if base is not None:
                e = (mk("rep", base, *e),)
            out.extend(e)
        return tuple(out)

    def e_ListComp(self, n, st):
        return self.newlist(self.comp(n, st, lambda s: self.ev(n.elt, s)), st, n)

    def e_GeneratorExp(self, n, st):
        return self.newlist(self.comp(n, st, lambda s: self.ev(n.elt, s)), st, n)

    def e_SetComp(self, n, st):
        return self.newlist(self.comp(n, st, lambda s: self.ev(n.elt, s)), st, n, kind="set")

    def e_DictComp(self, n, st):
        ents = self.comp(n, st, lambda s: mk("tuple", self.ev(n.key, s), self.ev(n.value, s)))
        return self.newdict(self.dict_entries(ents, st), st)

    def dict_entries(self, ents, st):
        out = []
        for e in ents:
            if e.op == "rep":
                for x in e.a[1:]:
                    if x.op == "tuple" and len(x.a) == 2:
                        out.append((self.reify(x.a[0], st), x.a[1], e.a[0]))
            elif e.op == "tuple" and len(e.a) == 2:
                out.append((self.reify(e.a[0], st), e.a[1], None))
        return out

    # attributes
    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, name, st, node):
        b = self.simp(b, st)
        o = b.op
        if o == "phi":
            arms = self.arms(b, st)
            if len(arms) == 1:
                return self.getattr(arms[0][1], name, st, node)
            if any(x.op in ("ref", "class", "ext", "mod", "func", "bound") or x is NONE for c, x in arms):
                out = None
                leaves = []
                for c, x in arms:
                    if x is NONE:
                        self.event("none_attr", (name, c), node, st)
                        continue
                    n0 = len(self.exits)
                    sub = st.clone()
                    sub.env = st.env
                    if not self.assume(sub, c, True):
                        continue
                    try:
                        v = self.getattr(x, name, sub, node)
                    except AbsRaise:
                        self.event("attr_raise", (name, c), node, st)
                        continue
                    for e in self.exits[n0:]:
                        e.cond = self.conj(c, e.cond)
                    for hk, hv in sub.heap.items():
                        if hk not in st.heap:
                            st.heap[hk] = hv
                        elif st.heap[hk] is not hv:
                            st.heap[hk] = self.merge_heap(c, hv, st.heap[hk])
                    leaves.append((c, v))
                if not leaves:
                    raise AbsRaise("AttributeError")
                out = leaves[-1][1]
                for c, v in reversed(leaves[:-1]):
                    out = phi(c, v, out)
                return out
            return mk("attr", b, name)
        if o == "ref":
            h = st.heap.get(b.a[0])
            if h is None:
                return mk("attr", b, name)
            if h.kind == "inst":
                f = self.clsfind(h.cls, name) if h.cls else None
                if f and f[0] == "prop":
                    return self.call(mk("bound", f[1]["get"], b), [], {}, st, node)
                if name in h.d:
                    v = self.simp(h.d[name], st)
                    if v is MISSING:
                        return self.no_attr(h, name, st, node, TRUE)
                    if v.op == "phi" and self.may_be(v, MISSING, st):
                        c = self.cond_of(v, MISSING, st)
                        self.no_attr(h, name, st, node, c)
                        v = self.strip(v, MISSING, st)
                    return v
                if f:
                    v = f[1]
                    if v.op == "func" and "staticmethod" not in self.funcs[v.a[0]].decos:
                        return mk("bound", v, b)
                    return v
                if name == "__class__":
                    return mk("class", h.cls.qual)
                if name == "__dict__":
                    return mk("call", "vars", (b,), ())
                if getattr(h, "rest", None) is not None:
                    return mk("attr", b, name)
                return self.no_attr(h, name, st, node, TRUE)
            if h.kind == "arr":
                if name == "shape":
                    return self.dims(self.reify(b, st))
                if name in ("T", "size", "ndim", "dtype") or name in ("loc", "iloc", "at", "iat", "index", "columns", "values", "empty", "str", "axes") and frame(h.d):
                    return mk("attr", self.reify(b, st), name)
                return mk("bound", mk("meth", name), b)
            return mk("bound", mk("meth", name), b)
        if o == "mod":
            m = self.module(b.a[0])
            if name in m.env:
                return m.env[name]
            if b.a[0] + "." + name in self.modules:
                return mk("mod", b.a[0] + "." + name)
            if m.state == 2:
                self.event("undefined", b.a[0] + "." + name, node, st)
                raise AbsRaise("AttributeError")
            return mk("ext", b.a[0] + "." + name)
        if o == "ext":
            if name == "__name__":
                return C(b.a[0].split(".")[-1])
            return self.extmod(b.a[0] + "." + name)
        if o == "class":
            if name == "__name__":
                return C(self.classes[b.a[0]].name)
            f = self.clsfind(self.classes[b.a[0]], name)
            if f and f[0] == "ns":
                return f[1]
            if f and f[0] == "prop":
                return mk("fresh", "prop")
            if name == "__init__":
                return mk("ext", "object.__init__")
            return mk("attr", b, name)
        if b is NONE:
            self.event("none_attr", (name, TRUE), node, st)
            raise AbsRaise("AttributeError")
        if o == "super":
            c, selfref = b.a
            h = st.heap.get(selfref.a[0]) if selfref.op == "ref" else None
            start = self.classes[c.a[0]]
            m = self.mro(h.cls) if h is not None and h.kind == "inst" else self.mro(start)
            i = m.index(start) if start in m else 0
            for k in m[i + 1:]:
                if name in k.ns:
                    return mk("bound", k.ns[name], selfref)
            return mk("ext", "object." + name)
        k = (b, name)
        if k in st.over:
            return self.simp(st.over[k], st)
        if name in ("sparse", "full", "neighbors", "id_order") and self.unroll and (o == "attr" and b.a[1] == "sparse" or o == "param" and self.ptypes.get(b.a[0]) == "csr_matrix"):
            raise AbsRaise("AttributeError")  # a sparse matrix has no attribute of that name
        if self.track_reads:
            self.event("read", (b, name), node, st)
        if name == "shape":
            return self.dims(b)
        return mk("attr", b, name)

    def number(self, t):
        """t, or the constant it is known to equal"""
        if isconst(t) or self.shaper is None:
            return t
        v = self.shaper(t, True)
        return t if v is None else C(v)

    def dims(self, b):
        """the shape of an array: known numbers of rows or columns are constants"""
        t = mk("attr", b, "shape")
        s = self.shaper(b) if self.shaper else None
        if s and any(d.op == "num" for d in s):
            return mk("tuple", *[C(int(d.a[0])) if d.op == "num" else mk("index", t, C(i)) for i, d in enumerate(s)])
        return t

    def no_attr(self, h, name, st, node, c):
        cq = h.cls.qual if h.cls else "?"
        if c is TRUE:
            self.event("missing_attr", (cq, name, TRUE), node, st)
            raise AbsRaise("AttributeError")
        e = st.clone()
        if self.assume(e, c, True):
            self.event("missing_attr", (cq, name, c), node, st)
            self.exits.append(Exit(c, "raise", e, ("AttributeError", NONE), node))
            self.assume(st, c, False)
        return None

    # subscripts
    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        k = self.ev(n.slice, st)
        return self.getitem(b, k, st, n)

    def getitem(self, b, k, st, node, unpack=False):
        b = self.simp(b, st)
        k = self.simp(k, st)
        o = b.op
        if o == "call" and b.a[0] == "numpy.array":
            # elements of a constant vector
            l, i = constarr(b), constarr(self.reify(k, st))
            if k.op == "tuple" and isinstance(i, list) and len(i) == 1:
                i = i[0]
            if isinstance(l, list) and l and not any(isinstance(x, list) for x in l) and isinstance(i, list) and not any(isinstance(x, (list, str)) for x in i):
                if len(i) == len(l) and all(isinstance(x, bool) for x in i):
                    i = [j for j, x in enumerate(i) if x]
                if all(isinstance(x, int) and not isinstance(x, bool) and -len(l) <= x < len(l) for x in i):
                    return mk("call", "numpy.array", (mk("list", *[C(l[x]) for x in i]),), ())
        if o == "phi":
            arms = self.arms(b, st)
            if any(x.op in ("ref", "tuple", "list") for c, x in arms):
                leaves = []
                err = None
                for c, x in arms:
                    if x is UNBOUND:
                        continue
                    sub = State(st.env, st.heap, dict(st.facts), st.over, list(st.cfacts))
                    if not self.assume(sub, c, True):
                        continue
                    n0 = len(self.exits)
                    try:
                        leaves.append((c, self.getitem(x, k, sub, node)))
                    except AbsRaise as ex:
                        err = ex
                        es = st.clone()
                        self.assume(es, c, True)
                        self.exits.append(Exit(c, "raise", es, (ex.etype, ex.payload), node))
                        continue
                    for e in self.exits[n0:]:
                        e.cond = self.conj(c, e.cond)
                if not leaves:
                    for i in range(len(self.exits) - 1, -1, -1):
                        if self.exits[i].node is node:
                            del self.exits[i]
                            continue
                        break
                    raise err or AbsRaise("TypeError")
                if err is not None:
                    for c, x in arms:
                        if not any(c is lc for lc, v in leaves):
                            self.assume(st, c, False)
                out = leaves[-1][1]
                for c, v in reversed(leaves[:-1]):
                    out = phi(c, v, out)
                return out
        if b is NONE:
            self.event("none_index", TRUE, node, st)
            raise AbsRaise("TypeError")
        if o in ("tuple", "list"):
            if isconst(k) and isinstance(cval(k), int):
                ents = b.a
                i = cval(k)
                if not any(e.op in ("rep", "splice", "conde") for e in ents):
                    if -len(ents) <= i < len(ents):
                        return ents[i]
                    raise AbsRaise("IndexError")
                v = self.listget(ents, i)
                if v is not None:
                    return v
            if k.op == "slice" and o == "tuple":
                sl = self.const_slice(k)
                if sl is not None:
                    return mk("tuple", *b.a[sl])
            if k.op == "slice" and o == "list":
                v = self.listslice(b.a, k)
                if v is not None:
                    return self.newlist(v, st, node)
        if o == "ref":
            h = st.heap.get(b.a[0])
            if h is not None:
                if h.kind == "list":
                    if isconst(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
                        v = self.listget(h.d, cval(k))
                        if v is not None:
                            return v
                        if not any(e.op in ("rep", "splice", "conde") for e in h.d):
                            raise AbsRaise("IndexError")
                    elif k.op == "slice":
                        v = self.listslice(h.d, k)
                        if v is not None:
                            return self.newlist(v, st, node)
                        return self.newlist([mk("splice", mk("index", self.reify(b, st), k))], st, node)
                    else:
                        # generic element of a comprehension over the same iterable
                        if len(h.d) == 1 and h.d[0].op == "rep" and len(h.d[0].a) == 2:
                            it, e = h.d[0].a
                            if k.op == "pos" and k.a[0] is it:
                                return e
                            if it.op == "call" and it.a[0] == "range" and k is mk("elem", it):
                                return e
                elif h.kind == "dict":
                    kk = self.reify(k, st)
                    for e in reversed(h.d):
                        if e[0] is kk:
                            v = self.simp(e[1], st)
                            if v is MISSING:
                                raise AbsRaise("KeyError")
                            if v.op == "phi" and self.may_be(v, MISSING, st):
                                c = self.cond_of(v, MISSING, st)
                                es = st.clone()
                                if self.assume(es, c, True):
                                    self.exits.append(Exit(c, "raise", es, ("KeyError", NONE), node))
                                    self.assume(st, c, False)
                                v = self.strip(v, MISSING, st)
                            return v
                    if h.rest is None and isconst(kk) and all(isconst(e[0]) for e in h.d):
                        raise AbsRaise("KeyError")
                    if h.rest is not None and not any(not isconst(e[0]) for e in h.d) and isconst(kk):
                        return mk("index", h.rest, kk)
                    if h.rest is not None and not h.d:
                        return mk("index", h.rest, kk)
                elif h.kind == "arr":
                    r = self.reify(b, st)
                    v = mk("index", r, self.reify(k, st))
                    return v
                elif h.kind == "inst":
                    f = self.clsfind(h.cls, "__getitem__")
                    if f and f[0] == "ns":
                        return self.call(mk("bound", f[1], b), [k], {}, st, node)
        rb, rk = self.reify(b, st), self.reify(k, st)
        return self.mkindex(rb, rk)

    def mkindex(self, rb, rk):
        if rb.op == "dict":
            for e in reversed(rb.a[1:]):
                if e.a[0] is rk:
                    return e.a[1]
        if rb.op == "call" and rb.a[0] == "tuple" and rb.a[1]:
            return mk("index", rb.a[1][0], rk)
        return mk("index", rb, rk)

    def listget(self, ents, i):
        if i >= 0:
            for j, e in enumerate(ents):
                if e.op in ("rep", "splice", "conde"):
                    return None
                if j == i:
                    return e
        else:
            for j, e in enumerate(reversed(ents)):
                if e.op in ("rep", "splice", "conde"):
                    return None
                if j == -i - 1:
                    return e
        return None

    def const_slice(self, k):
        vals = []
        for x in k.a:
            x = self.number(x)
            if not isconst(x) or not (cval(x) is None or isinstance(cval(x), int)):
                return None
            vals.append(cval(x))
        return slice(*vals)

    def listslice(self, ents, k):
        sl = self.const_slice(k)
        if sl is None:
            return None
        gen = lambda e: e.op in ("rep", "splice", "conde")
        if not any(gen(e) for e in ents):
            return ents[sl]
        if sl.step is not None:
            return None
        a, b = sl.start or 0, sl.stop
        if a == 0 and b is None:
            return ents
        # drop a plain prefix / suffix
        out = list(ents)
        if a > 0:
            if a <= len(out) and not any(gen(e) for e in out[:a]):
                out = out[a:]
            elif len(out) >= 1 and gen(out[0]) and out[0].op == "splice":
                out = [mk("splice", mk("index", out[0].a[0], mk("slice", C(a), NONE, NONE)))] + out[1:]
            else:
                return None
        elif a < 0:
            if -a <= len(out) and not any(gen(e) for e in out[a:]):
                out = out[a:]
                return tuple(out) if b is None else None
            return None
        if b is not None:
            if b < 0:
                if -b <= len(out) and not any(gen(e) for e in out[b:]):
                    out = out[:b]
                elif out and out[-1].op == "splice":
                    out = out[:-1] + [mk("splice", mk("index", out[-1].a[0], mk("slice", NONE, C(b), NONE)))]
                else:
                    return None
            else:
                if b - a <= len(out) and not any(gen(e) for e in out[: b - a]):
                    out = out[: b - a]
                else:
                    return None
        return tuple(out)

    # ------------------------------------------------------------------- calls
    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            f = self.stack[-1]
            return mk("super", mk("class", f.cls.qual), st.env[f.node.args.args[0].arg])
        f = self.ev(n.func, st)
        args, kw = [], {}
        star = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.simp(self.ev(a.value, st), st)
                items = self.iteritems(v, st)
                if items is None:
                    args.append(mk("star", self.reify(v, st)))
                    star = True
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                v = self.simp(v, st)
                if v.op == "ref" and st.heap.get(v.a[0]) is not None and st.heap[v.a[0]].kind == "dict":
                    h = st.heap[v.a[0]]
                    for kk, vv, it in h.d:
                        if isconst(kk) and vv is not MISSING:
                            kw[cval(kk)] = vv
                    if h.rest is not None:
                        kw["**"] = h.rest
                else:
                    kw["**"] = self.reify(v, st)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, n)

    def call(self, f, args, kw, st, node):
        f = self.simp(f, st)
        o = f.op
        if o == "phi":
            arms = self.arms(f, st)
            if len(arms) == 1:
                return self.call(arms[0][1], args, kw, st, node)
            if any(x.op in ("func", "class", "bound") for c, x in arms):
                return self.call_arms(arms, args, kw, st, node)
        if o == "func":
            return self.call_func(f, args, kw, st, node)
        if o == "class":
            return self.instantiate(f, args, kw, st, node)
        if o == "bound":
            m, recv = f.a
            if m.op == "meth":
                return self.call_method(m.a[0], recv, args, kw, st, node)
            return self.call_func(m, [recv] + list(args), kw, st, node)
        if o == "ext":
            return self.call_ext(f.a[0], args, kw, st, node)
        if o == "partial":
            kk = dict(zip(f.a[2], f.a[3]))
            kk.update(kw)
            return self.call(f.a[0], list(f.a[1]) + list(args), kk, st, node)
        if o == "attr" or (o == "phi"):
            if o == "attr":
                if f.a[1] == "__getitem__" and len(args) == 1 and not kw:
                    return self.getitem(f.a[0], args[0], st, node)
                return self.call_method(f.a[1], f.a[0], args, kw, st, node)
        if f is NONE or (isconst(f)):
            self.event("not_callable", f, node, st)
            raise AbsRaise("TypeError")
        if o == "inst" or o == "ref":
            h = st.heap.get(f.a[0])
            if h is not None and h.kind == "inst":
                g = self.clsfind(h.cls, "__call__")
                if g:
                    return self.call(mk("bound", g[1], f), args, kw, st, node)
        self.stats["ext"] += 1
        return mk("call", f, self.rargs(args, st), self.rkw(kw, st))

    def held(self, vs, st):
        """the heap cells reachable from some values"""
        out, todo = {}, list(vs)
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                todo += v
            elif isinstance(v, T):
                if v.op == "ref" and v.a[0] not in out and st.heap.get(v.a[0]) is not None:
                    h = out[v.a[0]] = st.heap[v.a[0]]
                    todo += list(h.d.values()) if isinstance(h.d, dict) else list(h.d) if isinstance(h.d, tuple) else [h.d]
                elif v.op in ("tuple", "list", "phi", "ent", "rep", "splice", "conde"):
                    todo += v.a
        return out

    def transfer(self, v, w, st):
        """a value made by another process (state w): a copy of it arrives in st, and nothing else of w"""
        memo = {}

        def cp(t):
            if isinstance(t, tuple):
                return tuple(cp(x) for x in t)
            if not isinstance(t, T):
                return t
            if t in memo:
                return memo[t]
            if t.op == "ref" and w.heap.get(t.a[0]) is not None:
                h = w.heap[t.a[0]]
                r = memo[t] = mk("ref", self.fresh("P"))
                d = {k: cp(x) for k, x in h.d.items()} if isinstance(h.d, dict) else cp(h.d)
                st.heap[r.a[0]] = Heap(h.kind, h.cls, d, cp(h.rest), None, h.site)
                return r
            memo[t] = t
            a = tuple(cp(x) for x in t.a)
            r = memo[t] = t if all(x is y for x, y in zip(a, t.a)) else mk(t.op, *a)
            if t.op != "param":
                for k in [k for k in w.over if k[0] is t]:
                    st.over = dict(st.over)
                    st.over[(r,) + tuple(k[1:])] = cp(w.over[k])
            return r
        return cp(v)

    def call_arms(self, arms, args, kw, st, node):
        res = None
        acc = None
        for c, x in reversed(arms):
            sub = st.clone()
            sub.env = dict(st.env)
            if not self.assume(sub, c, True):
                continue
            n0 = len(self.exits)
            try:
                v = self.call(x, args, kw, sub, node)
            except AbsRaise as e:
                ex = Exit(c, "raise", sub, (e.etype, e.payload), node)
                self.exits.append(ex)
                continue
            for e in self.exits[n0:]:
                e.cond = self.conj(c, e.cond)
            if acc is None:
                acc, res = sub, v
            else:
                acc = self.merge_states(c, sub, acc)
                res = phi(c, v, res)
        if acc is None:
            raise AbsRaise("TypeError")
        env = st.env
        st.take(acc)
        st.env = env
        return res

    def opaque_call(self, f, args, kw, st, node):
        """call of a function kept uninterpreted: all its arguments in the order of the parameters; of an object only what is read"""
        env = self.bind(f, args, kw, st, node)
        a = f.node.args
        vals = []
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = self.simp(env[x.arg], st)
            h = st.heap.get(v.a[0]) if v.op == "ref" else None
            if h is not None and h.kind == "inst":
                rd = self.reads(f, x.arg, ())
                if rd is not None:
                    n0 = len(self.exits)
                    fs = []
                    for n in sorted(rd):
                        try:
                            fs.append(mk("field", n, self.reify(self.simp(self.getattr(v, n, st, node), st), st)))
                        except AbsRaise:
                            pass
                    del self.exits[n0:]
                    v = mk("inst*", *fs)
            vals.append(self.reify(v, st))
        for n in ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
            vals.append(self.reify(self.simp(env.get(n, NONE), st), st))
        return mk("call", "@" + f.qual, tuple(vals), ())

    def reads(self, f, p, seen):
        """attributes of parameter p that f reads, itself or in the functions it hands p to; None if p goes elsewhere"""
        if (f.qual, p) in seen:
            return set()
        out = set()
        known = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p:
                out.add(n.attr)
                known.add(id(n.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                use = [(i, x) for i, x in enumerate(n.args) if isinstance(x, ast.Name) and x.id == p] + [(k.arg, k.value) for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id == p]
                if use:
                    self.stack.append(Func(ast.parse("pass"), f.mod, "<reads>"))
                    try:
                        g = f.mod.env.get(n.func.id) if isinstance(n.func, ast.Name) else self.peek(n.func, State({}, {}, {}, {}, []))
                    finally:
                        self.stack.pop()
                    g = self.funcs.get(g.a[0]) if g is not None and g.op == "func" else None
                    if g is None:
                        continue
                    names = [x.arg for x in g.node.args.args]
                    for i, x in use:
                        q = names[i] if isinstance(i, int) and i < len(names) else i
                        r = self.reads(g, q, seen + ((f.qual, p),)) if q in names else None
                        if r is None:
                            return None
                        out |= r
                        known.add(id(x))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == p and id(n) not in known:
                return None
        return out

    def rargs(self, args, st):
        return tuple(self.reify(self.simp(a, st), st) for a in args)

    def rkw(self, kw, st):
        return tuple(sorted((k, self.reify(self.simp(v, st), st)) for k, v in kw.items()))

    def evdefaults(self, f, st):
        a = f.node.args
        f.defaults = [self.ev(d, st) for d in a.defaults]
        f.kwdefaults = [self.ev(d, st) if d is not None else None for d in a.kw_defaults]

    def getdefaults(self, f, st):
        if f.defaults is None:
            st2 = State(env=f.mod.env, heap=st.heap)
            self.stack.append(f)
            saved = self.exits
            self.exits = []
            try:
                a = f.node.args
                f.defaults = [self.defval(d, st2, f, i) for i, d in enumerate(a.defaults)]
                f.kwdefaults = [self.defval(d, st2, f, i) if d is not None else None for i, d in enumerate(a.kw_defaults)]
            finally:
                self.stack.pop()
                self.exits = saved
        return f.defaults

    def defval(self, d, st, f, i):
        if isinstance(d, (ast.List, ast.Dict, ast.Set)):
            return mk("mutdefault", f.qual, i, ast.unparse(d))
        return self.ev(d, st)

    def bind(self, f, args, kw, st, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        extra = kw.pop("**", None)
        starred = None
        if any(x.op == "star" for x in args):
            i = next(i for i, x in enumerate(args) if x.op == "star")
            starred = args[i].a[0]
            tail = args[i + 1:]
            args = args[:i]
        pos = args[: len(names)]
        for nme, v in zip(names, pos):
            env[nme] = v
        if starred is not None:
            for j, nme in enumerate(names[len(pos):]):
                if nme not in kw:
                    env[nme] = mk("index", starred, C(j))
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *args[len(names):])
            else:
                self.event("arity", (f.qual, "too many positional arguments: %d > %d" % (len(args), len(names))), node, st)
                raise AbsRaise("TypeError")
        elif a.vararg:
            env[a.vararg.arg] = mk("tuple")
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in env and starred is None:
                    self.event("arity", (f.qual, "multiple values for argument '%s'" % k), node, st)
                    raise AbsRaise("TypeError")
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.event("arity", (f.qual, "unexpected keyword argument '%s'" % k), node, st)
                raise AbsRaise("TypeError")
        defs = self.getdefaults(f, st)
        nd = len(defs)
        for i, nme in enumerate(names):
            if nme not in env:
                j = i - (len(names) - nd)
                if extra is not None:
                    d = defs[j] if j >= 0 else None
                    env[nme] = self.instdef(d, st) if d is not None else mk("index", extra, C(nme))
                elif j >= 0:
                    env[nme] = self.instdef(defs[j], st)
                else:
                    self.event("arity", (f.qual, "missing required argument '%s'" % nme), node, st)
                    raise AbsRaise("TypeError")
        for i, nme in enumerate(kwonly):
            if nme not in env:
                d = f.kwdefaults[i]
                if d is None:
                    self.event("arity", (f.qual, "missing keyword argument '%s'" % nme), node, st)
                    raise AbsRaise("TypeError")
                env[nme] = self.instdef(d, st)
        if a.kwarg:
            env[a.kwarg.arg] = self.newdict([(C(k), v, None) for k, v in rest.items()], st, rest=extra)
        return env

    def instdef(self, d, st):
        if d.op == "mutdefault":
            e = ast.parse(d.a[2], mode="eval").body
            alias = mk("default", d.a[0])
            if isinstance(e, ast.Dict):
                return self.newdict([(C(ast.literal_eval(k)), C(ast.literal_eval(v)), None) for k, v in zip(e.keys, e.values)], st, alias=alias)
            try:
                items = [C(ast.literal_eval(x)) for x in e.elts]
            except Exception:
                items = [mk("fresh", "defitem%d" % i) for i, x in enumerate(e.elts)]
            return self.newlist(items, st, alias=alias)
        return d

    def call_func(self, ft, args, kw, st, node):
        f = self.funcs[ft.a[0]]
        if self.monitor_call is not None:
            r = self.monitor_call(self, f, args, kw, st, node)
            if r is not None:
                return r
        depth = len(self.stack)
        if depth > MAX_DEPTH or sum(1 for g in self.stack if g is f) >= 1 or f.qual in self.opaque_funcs:
            self.event("cutoff", f.qual, node, st)
            if self.unroll and f.qual in self.opaque_funcs:
                return self.opaque_call(f, args, kw, st, node)
            return mk("call", "@" + f.qual, self.rargs(args, st), self.rkw(kw, st))
        self.stats["calls"] += 1
        self.visited.add(f.qual)
        if f.decos and any("requires" in d for d in f.decos):
            pass
        env = self.bind(f, args, kw, st, node)
        if isinstance(f.node, ast.Lambda):
            sub = State(env, st.heap, st.facts, st.over, st.cfacts)
            self.stack.append(f)
            try:
                v = self.ev(f.node.body, sub)
            finally:
                self.stack.pop()
            st.take_shared(sub)
            return v
        if not hasattr(f, "locals"):
            f.locals = assigned_names(f.node)
        sub = State(env, st.heap, st.facts, st.over, st.cfacts)
        self.stack.append(f)
        try:
            fall, exits = self.block(f.node.body, sub)
        finally:
            self.stack.pop()
        return self.finish_call(f, fall, exits, st, node)

    def finish_call(self, f, fall, exits, st, node):
        rets = [e for e in exits if e.kind == "ret"]
        raises = [e for e in exits if e.kind == "raise"]
        if fall is None and not rets:
            # always raises: the last exit decides
            last = raises[-1] if raises else None
            for e in raises[:-1]:
                e.state.env = st.env
                self.exits.append(e)
            if last is None:
                raise AbsRaise("Exception")
            st.heap, st.facts, st.over, st.cfacts = last.state.heap, last.state.facts, last.state.over, last.state.cfacts
            raise AbsRaise(*last.val)
        # fold the exits from the back
        acc, val = fall, NONE
        for e in reversed(exits):
            if e.kind == "raise":
                continue
            if e.kind in ("brk", "cont"):
                continue
            if acc is None:
                acc, val = e.state, e.val
            elif e.cond is TRUE:
                acc, val = e.state, e.val
            else:
                c = e.cond
                acc2 = self.merge_states(c, e.state, acc)
                val = phi(c, e.val, val)
                acc = acc2
        for e in raises:
            # condition relative to the call: earlier returns are ignored (over-approximation)
            e2 = Exit(e.cond, "raise", e.state, e.val, e.node)
            es = e.state.clone()
            es.env = st.env
            e2.state = es
            self.exits.append(e2)
        st.heap, st.facts, st.over, st.cfacts = acc.heap, acc.facts, acc.over, acc.cfacts
        return val

    def instantiate(self, ct, args, kw, st, node):
        c = self.classes[ct.a[0]]
        if self.unroll and c.qual.split(".", 1)[-1] in self.opaque_funcs:
            f = self.clsfind(c, "__init__")
            return mk("call", "@" + c.qual.split(".", 1)[-1], self.opaque_call(f[1] if isinstance(f[1], Func) else self.funcs[f[1].a[0]], [NONE] + list(args), kw, st, node).a[1][1:], ())
        r = self.fresh("O")
        st.heap[r] = Heap("inst", cls=c, d={}, site=(self.where(node)))
        ref = mk("ref", r)
        f = self.clsfind(c, "__init__")
        if f and f[0] == "ns":
            self.call_func(f[1], [ref] + list(args), kw, st, node)
        return ref

    # ------------------------------------------------------------ ext functions
    def call_ext(self, name, args, kw, st, node):
        h = EXT.get(name)
        if name == "print":
            self.event("print", tuple(self.reify(a, st) for a in args), node, st)
            return NONE
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        self.stats["ext"] += 1
        if name in OPTIM:
            args, kw = self.bind_callbacks(name, args, kw, st)
        if name in NP_MUT0 and args:
            self.mutate(args[0], st, node, name)
            for r in self.refs(args[0], st):
                hh = st.heap[r.a[0]]
                if hh.kind == "arr":
                    st.heap[r.a[0]] = hh.copy(mk("call", name, self.rargs(args, st), self.rkw(kw, st)))
            if name == "numpy.fill_diagonal" and len(args) == 2:
                self.revalue(args[0], mk("call", name, self.rargs(args, st), ()), st)
        if "out" in kw and kw["out"] is not NONE:
            self.mutate(kw["out"], st, node, "out=")
        if name in ALLOC or name in ("pandas.DataFrame", "pandas.concat"):
            r = self.fresh("A")
            st.heap[r] = Heap("arr", d=mk("call", name, self.rargs(args, st), self.rkw(kw, st)))
            return mk("ref", r)
        if kw.get("inplace") is TRUE:
            self.mutate(args[0] if args else NONE, st, node, "inplace=")
        rk = self.rkw(kw, st)
        ra = self.rargs(args, st)
        self.event("ext", (name, ra, rk), node, st)
        return mk("call", name, ra, rk)

    def call_method(self, name, recv, args, kw, st, node):
        recv = self.simp(recv, st)
        if recv.op == "phi":
            arms = self.arms(recv, st)
            if len(arms) == 1:
                return self.call_method(name, arms[0][1], args, kw, st, node)
            if any(x.op in ("ref",) for c, x in arms):
                if name in LIST_MUT | DICT_MUT:
                    # guarded in-place update of every arm
                    for c, x in arms:
                        if x.op == "ref":
                            before = st.heap.get(x.a[0])
                            self.call_method(name, x, args, kw, st, node)
                            after = st.heap.get(x.a[0])
                            st.heap[x.a[0]] = self.merge_heap(c, after, before)
                        elif x is not NONE:
                            self.mutate(x, st, node, "." + name + "()")
                            nb = mk("method", name, x, self.rargs(args, st), self.rkw(kw, st))
                    return NONE if name != "pop" else mk("method", name, self.reify(recv, st), self.rargs(args, st), self.rkw(kw, st))
                leaves = []
                for c, x in arms:
                    if x is NONE:
                        continue
                    leaves.append((c, self.call(self.getattr(x, name, st, node), args, kw, st, node)))
                out = leaves[-1][1]
                for c, v in reversed(leaves[:-1]):
                    out = phi(c, v, out)
                return out
        if name == "count" and len(args) == 1 and not kw and isconst(args[0]):
            l = st.heap[recv.a[0]].d if recv.op == "ref" and st.heap.get(recv.a[0]) is not None and st.heap[recv.a[0]].kind == "list" else recv.a if recv.op in ("list", "tuple") else None
            if l is not None and all(isinstance(x, T) and isconst(x) for x in l):
                return C([cval(x) for x in l].count(cval(args[0])))
        if recv.op == "ref" and st.heap.get(recv.a[0]) is not None:
            h = st.heap[recv.a[0]]
            k = h.kind
            if k == "list":
                if name == "append":
                    self.mut_if_alias(recv, h, st, node, name)
                    st.heap[recv.a[0]] = h.copy(h.d + (args[0],))
                    return NONE
                if name == "extend":
                    self.mut_if_alias(recv, h, st, node, name)
                    st.heap[recv.a[0]] = h.copy(h.d + self.entries(args[0], st))
                    return NONE
                if name == "insert":
                    self.mut_if_alias(recv, h, st, node, name)
                    i = self.simp(args[0], st)
                    d = list(h.d)
                    if isconst(i) and (cval(i) == 0 or (0 <= cval(i) <= len(d) and not any(e.op in ("rep", "splice", "conde") for e in d[: cval(i)]))):
                        d.insert(cval(i), args[1])
                        st.heap[recv.a[0]] = h.copy(tuple(d))
                    elif isconst(i) and cval(i) < 0 and not any(e.op in ("rep", "splice", "conde") for e in d[cval(i):]) and -cval(i) <= len(d):
                        d.insert(cval(i), args[1])
                        st.heap[recv.a[0]] = h.copy(tuple(d))
                    else:
                        st.heap[recv.a[0]] = h.copy((mk("splice", mk("call", "list.insert", (self.reify(recv, st), self.reify(i, st), self.reify(args[1], st)), ())),))
                    return NONE
                if name == "pop":
                    self.mut_if_alias(recv, h, st, node, name)
                    i = cval(args[0]) if args and isconst(args[0]) else (-1 if not args else None)
                    if i is not None:
                        v = self.listget(h.d, i)
                        if v is not None:
                            d = list(h.d)
                            d.pop(i)
                            st.heap[recv.a[0]] = h.copy(tuple(d))
                            return v
                    r = self.reify(recv, st)
                    st.heap[recv.a[0]] = h.copy((mk("splice", mk("call", "list.popped", (r,) + self.rargs(args, st), ())),))
                    return mk("method", "pop", r, self.rargs(args, st), ())
                if name in ("sort", "reverse", "remove", "clear"):
                    self.mut_if_alias(recv, h, st, node, name)
                    if name in ("sort", "reverse") and not args and not kw and h.kind == "list" and all(isconst(x) for x in h.d):
                        d = sort_consts(h.d) if name == "sort" else h.d[::-1]
                        if d is not None:
                            st.heap[recv.a[0]] = h.copy(tuple(d))
                            return NONE
                    r = self.reify(recv, st)
                    st.heap[recv.a[0]] = h.copy(() if name == "clear" else (mk("splice", mk("call", "list." + name, (r,) + self.rargs(args, st), self.rkw(kw, st))),))
                    return NONE
                if name == "copy":
                    return self.newlist(h.d, st, node)
                if name == "index" and len(args) == 1 and not kw:
                    fixed = lambda t: isconst(t) or t.op == "tuple" and all(isconst(x) for x in t.a)
                    x = self.reify(self.simp(args[0], st), st)
                    ents = [self.reify(y, st) for y in h.d]
                    if fixed(x) and all(fixed(y) for y in ents):
                        if x not in ents:
                            raise AbsRaise("ValueError")
                        return C(ents.index(x))
            elif k == "dict":
                if name == "update":
                    self.mut_if_alias(recv, h, st, node, name)
                    for a in args:
                        a = self.simp(a, st)
                        if a.op == "ref" and st.heap.get(a.a[0]) is not None and st.heap[a.a[0]].kind == "dict":
                            o = st.heap[a.a[0]]
                            for kk, vv, it in o.d:
                                self.dict_store(recv, st.heap[recv.a[0]], kk, vv, TRUE, st)
                        else:
                            hh = st.heap[recv.a[0]]
                            hh = hh.copy(hh.d)
                            hh.rest = self.reify(a, st) if hh.rest is None else mk("call", "dict.update", (hh.rest, self.reify(a, st)), ())
                            st.heap[recv.a[0]] = hh
                    for kk, vv in kw.items():
                        self.dict_store(recv, st.heap[recv.a[0]], C(kk), vv, TRUE, st)
                    return NONE
                if name == "copy":
                    return self.newdict(h.d, st, rest=h.rest)
                if name == "get":
                    kk = self.reify(args[0], st)
                    for e in h.d:
                        if e[0] is kk:
                            v = self.simp(e[1], st)
                            dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
                            if self.may_be(v, MISSING, st):
                                cnd = self.cond_of(v, MISSING, st)
                                v = phi(cnd, dflt, self.strip(v, MISSING, st))
                            return v
                    if h.rest is None and isconst(kk) and all(isconst(e[0]) for e in h.d):
                        return args[1] if len(args) > 1 else NONE
                if name == "items" and h.rest is None:
                    return self.newlist([mk("tuple", e[0], e[1]) if e[2] is None else mk("rep", e[2], mk("tuple", e[0], e[1])) for e in h.d], st, node)
                if name == "keys" and h.rest is None:
                    return self.newlist([e[0] if e[2] is None else mk("rep", e[2], e[0]) for e in h.d], st, node)
                if name == "values" and h.rest is None:
                    return self.newlist([e[1] if e[2] is None else mk("rep", e[2], e[1]) for e in h.d], st, node)
                if name == "pop":
                    self.mut_if_alias(recv, h, st, node, name)
                    kk = self.reify(args[0], st)
                    for e in h.d:
                        if e[0] is kk:
                            st.heap[recv.a[0]] = h.copy(tuple(x for x in h.d if x is not e))
                            return e[1]
                    return args[1] if len(args) > 1 else mk("index", self.reify(recv, st), kk)
                if name == "setdefault":
                    self.mut_if_alias(recv, h, st, node, name)
                    k0 = self.simp(args[0], st) if args else None
                    if k0 is not None and isconst(k0) and h.rest is None and not kw and all(isconst(kk) and it is None for kk, vv, it in h.d):
                        old = [vv for kk, vv, it in h.d if kk is k0]
                        if old and not self.may_be(old[0], MISSING, st):
                            return old[0]
                        if not old:
                            v0 = args[1] if len(args) > 1 else NONE
                            self.dict_store(recv, h, k0, v0, TRUE, st)
                            return v0
                if name in ("has_key", "iteritems", "itervalues", "iterkeys"):
                    self.event("py2_method", name, node, st)
                    raise AbsRaise("AttributeError")
            elif k == "set":
                if name == "add":
                    st.heap[recv.a[0]] = h.copy(h.d + (args[0],))
                    return NONE
            elif k == "arr":
                if name in ARR_MUT or name in ("sort",):
                    self.mutate(recv, st, node, "." + name + "()")
                    st.heap[recv.a[0]] = h.copy(mk("method", name, self.reify(recv, st), self.rargs(args, st), self.rkw(kw, st)))
                    return NONE
        elif recv.op not in ("ref",):
            if name == "setdiag" and len(args) == 1:
                self.revalue(recv, mk("call", "numpy.fill_diagonal", (self.reify(recv, st),) + self.rargs(args, st), ()), st)
            if name in LIST_MUT | DICT_MUT | ARR_MUT and not (recv.op == "const"):
                if not (name in ("pop",) and False):
                    self.mutate(recv, st, node, "." + name + "()")
                    self.opaque_mut(name, recv, args, kw, st, node)
            if name in ("has_key", "iteritems", "itervalues", "iterkeys") and recv.op in ("param", "attr", "index", "call", "method"):
                self.event("py2_method", name, node, st)
                raise AbsRaise("AttributeError")
            if name == "apply_async" and args:
                a = list(args)
                k2 = dict(kw)
                fn = a[0]
                fargs = a[1] if len(a) > 1 else k2.get("args", mk("tuple"))
                fkw = a[2] if len(a) > 2 else k2.get("kwds")
                fargs = self.simp(fargs, st)
                items = self.iteritems(fargs, st)
                if items is not None:
                    kws = {}
                    if fkw is not None and fkw.op == "ref":
                        kws = {cval(kk): vv for kk, vv, it in st.heap[fkw.a[0]].d if isconst(kk)}
                    self.event("apply_async", (recv,), node, st)
                    if self.processes:
                        self.processes += 1
                        w = st.clone()
                        for f in [fn] + list(items) + list(kws.values()):
                            if f.op in ("func", "lambda") and (f.op == "lambda" or self.funcs[f.a[0]].up is not None or self.funcs[f.a[0]].name == "<lambda>"):
                                self.escaped.append((getattr(self.funcs.get(f.a[0]), "name", "<lambda>"), "which a worker process cannot find"))
                        held = self.held(list(items) + list(kws.values()), st)
                        self.escaped.append((getattr(self.funcs.get(fn.a[0]), "name", "?"), held))
                        return mk("async", self.transfer(self.call(fn, items, kws, w, node), w, st), C(len(self.escaped) - 1))
                    return mk("async", self.call(fn, items, kws, st, node))
            if name == "get" and recv.op == "async":
                if len(recv.a) > 1:
                    f, held = self.escaped[cval(recv.a[1])]
                    if isinstance(held, dict) and any(st.heap.get(k) is not h for k, h in held.items()):
                        self.escaped[cval(recv.a[1])] = (f, "with an argument that is changed before the result is collected")
                return recv.a[0]
            if name == "close":
                self.event("close", (recv,), node, st)
            if name == "dot" and len(args) == 1:
                pass
        if recv is NONE:
            self.event("none_attr", (name, TRUE), node, st)
            raise AbsRaise("AttributeError")
        if isconst(recv) and isinstance(cval(recv), str) and all(isconst(a) for a in args) and not kw and name in ("upper", "lower", "strip", "replace", "startswith", "endswith", "split", "title", "capitalize", "isdigit", "isalpha", "isnumeric", "isdecimal", "lstrip", "rstrip", "find"):
            try:
                r = getattr(cval(recv), name)(*[cval(a) for a in args])
                if isinstance(r, (str, bool, int)):
                    return C(r)
                if isinstance(r, list) and all(isinstance(x, str) for x in r):
                    return self.newlist([C(x) for x in r], st, node)
            except Exception:
                pass
        if name == "join" and isconst(recv) and isinstance(cval(recv), str) and len(args) == 1 and not kw and self.unroll:
            l = self.iteritems(args[0], st)
            if l is not None and all(isconst(x) and isinstance(cval(x), str) for x in l):
                return C(cval(recv).join(cval(x) for x in l))
        self.stats["ext"] += 1
        if "out" in kw and kw["out"] is not NONE:
            self.mutate(kw["out"], st, node, "out=")
        if kw.get("inplace") is TRUE:
            self.mutate(recv, st, node, "." + name + "(inplace=True)")
        rr = self.reify(recv, st)
        ra, rk = self.rargs(args, st), self.rkw(kw, st)
        self.event("method", (name, rr, ra, rk), node, st)
        return mk("method", name, rr, ra, rk)

    def mut_if_alias(self, recv, h, st, node, name):
        if h.alias is not None:
            self.mutate(recv, st, node, "." + name + "()")

    def opaque_mut(self, name, recv, args, kw, st, node):
        """list-like mutator on an unknown value: track the new contents through the access path"""
        if name not in ("append", "extend", "insert", "update", "resize"):
            return
        if not isinstance(node, ast.Call) or not isinstance(node.func, ast.Attribute):
            return
        if name == "resize":
            self.reassign(node.func.value, mk("method", "reshape", self.reify(recv, st), self.rargs(args, st), ()), st, node)
            return
        if name == "update":
            ref = self.newdict([], st, rest=self.reify(recv, st), alias=recv)
        else:
            ref = self.newlist(list(self.entries(recv, st)), st, node, alias=recv)
        h = st.heap[ref.a[0]]
        al = h.alias
        h.alias = None
        self.call_method(name, ref, args, kw, st, node)
        st.heap[ref.a[0]].alias = al
        self.reassign(node.func.value, ref, st, node)

    # -------------------------------------------------------------------- entry
    def built(self, v, st):
        """dictionaries given entry by entry: mkdict(key, value, key, value, ...)"""
        if isinstance(v, T) and v.op == "mkdict":
            return self.newdict([(v.a[i], self.built(v.a[i + 1], st), None) for i in range(0, len(v.a), 2)], st)
        return v

    def run(self, qual, scenario=None, facts=None, extra=None):
        """analyse one public entry point; qual = 'module.Class' or 'module.func'
        scenario: {param: T}; returns Result"""
        meth = None
        if qual.count(".") == 2:
            qual, meth = qual.rsplit(".", 1)
        modname, name = qual.rsplit(".", 1)
        m = self.module(self.pkg + "." + modname)
        t = m.env[name]
        if meth and meth[0] == "@":
            # the method on its own
            f = self.clsfind(self.classes[t.a[0]], meth[1:])
            if not f:
                raise KeyError("%s has no method %s" % (qual, meth[1:]))
            t, meth = f[1], None
        self.events = []
        self.stack = []
        self.exits = []
        st = State()
        scenario = {k: self.built(v, st) for k, v in (scenario or {}).items()}
        top = Func(ast.parse("pass"), m, "<entry>")
        self.stack.append(top)
        if t.op == "class":
            c = self.classes[t.a[0]]
            fi = self.clsfind(c, "__init__")
            if not fi:
                fi = (None, self.mkfunc(ast.parse("def __init__(self): pass").body[0], m, name + ".__init__"))
            fn = self.funcs[fi[1].a[0]]
            skip = 1
        else:
            fn = self.funcs[t.a[0]]
            skip = 0
        a = fn.node.args
        args, kw = [], {}
        for x in (a.posonlyargs + a.args)[skip:]:
            args.append(scenario.get(x.arg, mk("param", x.arg)))
        for x in a.kwonlyargs:
            kw[x.arg] = scenario.get(x.arg, mk("param", x.arg))
        if a.kwarg and scenario.get("**") is not None:
            kw["**"] = scenario["**"]
        for k in (scenario or {}):
            if a.kwarg and k not in [x.arg for x in a.args] and k != "**":
                kw[k] = scenario[k]
        for fct, v in (facts or []):
            self.assume(st, fct, v)
        raised = None
        val = None
        try:
            val = self.call(t, args, kw, st, fn.node)
            if meth:
                mf = self.funcs[self.clsfind(self.classes[t.a[0]], meth)[1].a[0]]
                ma = [scenario.get(x.arg, mk("param", x.arg)) for x in mf.node.args.args[1:]]
                self.call(self.getattr(val, meth, st, mf.node), ma, {}, st, mf.node)
        except AbsRaise as e:
            raised = e
        self.stack.pop()
        return Result(self, qual, t, val, st, list(self.exits), raised, self.events)


class Result:
    def __init__(self, eng, qual, t, val, st, exits, raised, events):
        self.eng, self.qual, self.t, self.val, self.st, self.exits, self.raised, self.events = eng, qual, t, val, st, exits, raised, events

    def attrs(self):
        if self.val is None or self.val.op != "ref":
            return {}
        h = self.st.heap.get(self.val.a[0])
        return dict(h.d) if h is not None and h.kind == "inst" else {}

    def attr(self, name, quiet=True):
        e = self.eng
        e.stack.append(Func(ast.parse("pass"), e.modules[e.pkg + "." + self.qual.rsplit(".", 1)[0]], "<entry>"))
        saved = e.exits
        e.exits = []
        try:
            return e.getattr(self.val, name, self.st, ast.parse("x", mode="eval").body)
        except AbsRaise:
            return None
        finally:
            e.exits = saved
            e.stack.pop()


def heap_differs(a, b):
    if a.kind == "inst" or a.kind == "dict":
        return a.d != b.d
    if a.kind == "arr":
        return a.d is not b.d
    return a.d != b.d


def merge_lists(c, a, b):
    if a == b:
        return a
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[len(a) - 1 - j] is b[len(b) - 1 - j]:
        j += 1
    ma, mb = a[i:len(a) - j], b[i:len(b) - j]
    if len(ma) == 1 and len(mb) == 1 and all(x.op not in ("rep", "splice", "conde") for x in ma + mb):
        mid = (phi(c, ma[0], mb[0]),)
    elif c.op == "not":
        mid = (mk("conde", c.a[0], mk("list", *mb), mk("list", *ma)),)
    else:
        mid = (mk("conde", c, mk("list", *ma), mk("list", *mb)),)
    return tuple(a[:i]) + mid + tuple(a[len(a) - j:] if j else ())


def _as_load(t):
    import copy as _c
    x = _c.copy(t)
    x.ctx = ast.Load()
    return x


def isstr(t):
    if t.op == "const":
        return isinstance(cval(t), str)
    if t.op == "fstr":
        return True
    if t.op == "bin" and t.a[0] in ("%", "+"):
        return isstr(t.a[1]) or (t.a[0] == "+" and isstr(t.a[2]))
    if t.op == "call" and t.a[0] == "str":
        return True
    if t.op == "method" and t.a[0] in ("join", "format", "ljust", "rjust", "center", "strip", "upper", "lower"):
        return True
    if t.op == "phi":
        return isstr(t.a[1]) or isstr(t.a[2])
    return False


def assigned_names(fn):
    out = set()
    glob = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                continue
            if isinstance(c, ast.Assign):
                for t in c.targets:
                    tgt(t)
            elif isinstance(c, (ast.AugAssign, ast.AnnAssign, ast.For)):
                tgt(c.target)
            elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                tgt(c.optional_vars)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    out.add((al.asname or al.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            walk(c)

    walk(fn)
    return out - glob


ALIAS = {"scipy.linalg": "numpy.linalg", "numpy.linalg": "numpy.linalg"}


def canon(name):
    for k, v in (("scipy.linalg.", "numpy.linalg."),):
        if name.startswith(k):
            return v + name[len(k):]
    return name


# ---------------------------------------------------------------- builtins
EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f

    return deco


@ext("len")
def _len(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if v.op == "phi":
        arms = e.arms(v, st)
        if any(x.op in ("ref", "tuple") for c, x in arms):
            leaves = [(c, _len(e, [x], {}, st, node)) for c, x in arms if x is not NONE]
            if leaves and all(x is not None for c, x in leaves):
                out = leaves[-1][1]
                for c, x in reversed(leaves[:-1]):
                    out = phi(c, x, out)
                return out
    n = None
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        if h.kind == "list" or h.kind == "set" and all(isconst(x) for x in h.d):
            return lenof(h.d, e, st)
        if h.kind == "dict" and h.rest is None and all(x[2] is None for x in h.d) and all(not e.may_be(x[1], MISSING, st) for x in h.d):
            return C(len(h.d))
        if h.kind == "dict" and h.rest is not None and not h.d:
            return mk("call", "len", (h.rest,), ())
    if v.op in ("tuple", "list"):
        return lenof(v.a, e, st)
    if isconst(v) and isinstance(cval(v), str):
        return C(len(cval(v)))
    if v.op == "call" and v.a[0] == "range" and len(v.a[1]) == 1:
        return v.a[1][0]
    v = e.reify(v, st)
    if e.shaper:
        s = e.shaper(v)
        if s and s[0].op == "num":
            return C(int(s[0].a[0]))
    l = constarr(v) if v.op in ("const", "list", "call", "index", "method") else None
    if isinstance(l, list):
        return C(len(l))
    return mk("call", "len", (v,), ())


def lenof(ents, e, st):
    n = 0
    rest = []
    for x in ents:
        if x.op == "rep":
            it = x.a[0]
            base = it.a[1][0] if it.op == "call" and it.a[0] == "range" and len(it.a[1]) == 1 else mk("call", "len", (it,), ())
            if any(y.op in ("splice", "conde", "rep") for y in x.a[1:]):
                return mk("call", "len", (mk("list", *[e.reify(y, st) for y in ents]),), ())
            m = len(x.a) - 1
            rest.append(base if m == 1 else mk("bin", "*", C(m), base))
        elif x.op == "splice":
            rest.append(mk("call", "len", (x.a[0],), ()))
        elif x.op == "conde":
            rest.append(phi(x.a[0], lenof(x.a[1].a, e, st), lenof(x.a[2].a, e, st)))
        else:
            n += 1
    t = None
    for r in rest:
        t = r if t is None else mk("bin", "+", t, r)
    if t is None:
        return C(n)
    return t if n == 0 else mk("bin", "+", t, C(n))


@ext("list", "tuple", "sorted", "set", "reversed", "iter")
def _list(e, args, kw, st, node):
    return None


def sort_consts(d):
    try:
        return [x for v, x in sorted(((cval(x), x) for x in d), key=lambda p: p[0])]
    except TypeError:
        return None


def norange(t):
    """the columns that do not vary: none, by the precondition of the relations (constant columns are the subject of B01)"""
    while t.op == "index" and isconst(t.a[1]) and cval(t.a[1]) == 0 or t.op == "tuple" and len(t.a) == 1:
        t = t.a[0]
    if t.op == "call" and t.a[0] in ("numpy.nonzero", "numpy.where", "numpy.flatnonzero") and len(t.a[1]) == 1 or t.op == "method" and t.a[0] == "nonzero":
        t = t.a[1][0] if t.op == "call" else t.a[1]
        if t.op == "cmp" and t.a[0] == "==":
            a, b = t.a[1:] if isconst(t.a[2]) else (t.a[2], t.a[1])
            return isconst(b) and cval(b) == 0 and (a.op == "call" and a.a[0] in ("numpy.ptp",) or a.op == "method" and a.a[0] == "ptp")
    return False


def constarr(t, depth=0):
    """a constant array as nested Python lists (None if it is not constant)"""
    if depth > 12:
        return None
    if isconst(t):
        return cval(t)
    if t.op in ("list", "tuple"):
        l = [constarr(x, depth + 1) for x in t.a]
        return None if any(x is None for x in l) else l
    if t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "list") and len(t.a[1]) == 1 and all(k == "dtype" for k, v in t.a[2]):
        return constarr(t.a[1][0], depth + 1)
    if t.op == "method" and t.a[0] in ("flatten", "ravel", "tolist") and not t.a[2]:
        l = constarr(t.a[1], depth + 1)
        if isinstance(l, list) and t.a[0] != "tolist":
            while any(isinstance(x, list) for x in l):
                l = [y for x in l for y in (x if isinstance(x, list) else [x])]
        return l
    if t.op == "call" and t.a[0] == "numpy.ravel" and len(t.a[1]) == 1:
        return constarr(mk("method", "flatten", t.a[1][0], (), ()), depth + 1)
    if t.op == "cmp" and t.a[0] in ("==", "!=", "<", "<=", ">", ">="):
        a, b = constarr(t.a[1], depth + 1), constarr(t.a[2], depth + 1)
        if isinstance(b, list) and not isinstance(a, list):
            a, b = b, a
            o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(t.a[0], t.a[0])
        else:
            o = t.a[0]
        if isinstance(a, list) and b is not None and not isinstance(b, list) and not any(isinstance(x, list) for x in a):
            try:
                return [{"==": x == b, "!=": x != b, "<": o == "<" and x < b, "<=": o == "<=" and x <= b, ">": o == ">" and x > b, ">=": o == ">=" and x >= b}[o] for x in a]
            except TypeError:
                return None
    return None


def frame(t):
    """a data frame made by the code"""
    for i in range(200):
        if t.op != "store":
            break
        t = t.a[0]
    return t.op == "call" and t.a[0] in ("pandas.DataFrame", "pandas.concat")


@ext("numpy.where", "numpy.nonzero")
def _where(e, args, kw, st, node):
    if len(args) != 1 or kw:
        return None
    l = constarr(e.reify(args[0], st))
    if not isinstance(l, list) or any(isinstance(x, (list, str)) for x in l):
        return None
    return mk("tuple", mk("call", "numpy.array", (mk("list", *[C(i) for i, x in enumerate(l) if x]),), ()))


@ext("set")
def _mkset(e, args, kw, st, node):
    """a set of constants (in an order that no program should rely on)"""
    if len(args) != 1 or kw:
        return None
    v = e.simp(args[0], st)
    if v.op == "ref" and st.heap.get(v.a[0]) is not None and st.heap[v.a[0]].kind == "dict":
        return None
    d = e.entries(v, st) if v.op in ("ref", "tuple", "list") else [C(x) for x in constarr(e.reify(v, st)) or []]
    if not d or not all(isinstance(x, T) and isconst(x) and x.op != "list" for x in d):
        return None
    d = sort_consts({cval(x): x for x in d}.values())
    return None if d is None else e.newlist(d[::-1], st, node, kind="set")


@ext("sorted")
def _sorted(e, args, kw, st, node):
    if len(args) != 1 or kw:
        return None
    v = e.simp(args[0], st)
    if v.op not in ("ref", "tuple", "list") or v.op == "ref" and (st.heap.get(v.a[0]) is None or st.heap[v.a[0]].kind == "dict"):
        return None
    d = e.entries(v, st)
    if not all(isinstance(x, T) and isconst(x) for x in d):
        return None
    d = sort_consts(d)
    return None if d is None else e.newlist(d, st, node)


@ext("list")
def _mklist(e, args, kw, st, node):
    if not args:
        return e.newlist([], st, node)
    v = e.simp(args[0], st)
    if v.op == "phi" or v.op in ("ref", "tuple", "list"):
        if v.op == "ref" and st.heap.get(v.a[0]) is not None and st.heap[v.a[0]].kind == "dict":
            return e.call_method("keys", v, [], {}, st, node)
        return e.newlist(e.entries(v, st), st, node)
    r = e.reify(v, st)
    l = constarr(r) if r.op == "call" and r.a[0] == "numpy.array" else None
    if isinstance(l, list) and not any(isinstance(x, list) for x in l):
        return e.newlist([C(x) for x in l], st, node)
    if r.op == "call" and r.a[0] == "zip":
        its = e.iteritems(r, st)
        if its is not None:
            return e.newlist(its, st, node)
        b, el = e.elem_of(r, st)
        return e.newlist([mk("rep", b, el)], st, node)
    if r.op == "call" and r.a[0] in ("range", "enumerate"):
        its = e.iteritems(r, st)
        if its is not None:
            return e.newlist(its, st, node)
    return e.newlist([mk("splice", r)], st, node)


@ext("itertools.compress")
def _compress(e, args, kw, st, node):
    if len(args) != 2 or kw:
        return None
    a, b = e.iteritems(args[0], st), e.iteritems(args[1], st)
    if a is None or b is None or not all(isconst(x) for x in b):
        return None
    return e.newlist([x for x, y in zip(a, b) if cval(y)], st, node)


@ext("tuple")
def _mktuple(e, args, kw, st, node):
    if not args:
        return mk("tuple")
    its = e.iteritems(args[0], st)
    if its is not None:
        return mk("tuple", *its)
    return None


@ext("dict")
def _mkdict(e, args, kw, st, node):
    ents = []
    rest = None
    if args:
        v = e.simp(args[0], st)
        if v.op == "ref" and st.heap.get(v.a[0]) is not None:
            h = st.heap[v.a[0]]
            if h.kind == "dict":
                ents = list(h.d)
                rest = h.rest
            else:
                if any(x.op in ("splice", "conde") for x in h.d):
                    rest = mk("call", "dict", (e.reify(v, st),), ())
                else:
                    ents = e.dict_entries(h.d, st)
        elif v.op == "call" and v.a[0] == "zip":
            b, el = e.elem_of(v, st)
            its = e.iteritems(v, st)
            if its is not None:
                ents = e.dict_entries(its, st)
            elif el.op == "tuple" and len(el.a) == 2:
                ents = [(el.a[0], el.a[1], b)]
            else:
                rest = mk("call", "dict", (e.reify(v, st),), ())
        else:
            rest = mk("call", "dict", (e.reify(v, st),), ())
    for k, v in kw.items():
        if k == "**":
            rest = v
        else:
            ents.append((C(k), v, None))
    return e.newdict(ents, st, rest=rest)


@ext("copy.copy")
def _copy(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        r = e.fresh("C")
        st.heap[r] = Heap(h.kind, h.cls, h.d, h.rest, None, h.site)
        return mk("ref", r)
    return None


@ext("copy.deepcopy")
def _deepcopy(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if v.op == "ref" and st.heap.get(v.a[0]) is not None and st.heap[v.a[0]].kind in ("list", "dict"):
        return _copy(e, args, kw, st, node)
    return None


@ext("isinstance")
def _isinstance(e, args, kw, st, node):
    v = e.simp(args[0], st)
    ct = args[1]
    cl = list(ct.a) if ct.op == "tuple" else [ct]
    names = [c.a[0].split(".")[-1] if c.op in ("ext",) else (c.a[0] if c.op == "class" else None) for c in cl]
    full = [c.a[0] if c.op in ("ext", "class") else "?" for c in cl]
    kind = None
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        if h.kind == "inst":
            mq = [k.qual for k in e.mro(h.cls)]
            if e.stand_ins and mq and mq[0] in e.stand_ins:
                return C(bool(e.stand_ins[mq[0]] & set(names)))
            return C(any(c.op == "class" and c.a[0] in mq for c in cl))
        kind = {"list": "list", "dict": "dict", "set": "set", "arr": "ndarray"}[h.kind]
    elif v.op == "const":
        x = cval(v)
        kind = type(x).__name__
        if x is None:
            kind = "NoneType"
        if kind == "bool" and "int" in names:
            return TRUE
    elif v.op == "tuple":
        kind = "tuple"
    elif v.op == "list":
        kind = "list"
    elif v.op == "fstr" or isstr(v):
        kind = "str"
    elif v.op == "call" and isinstance(v.a[0], str) and v.a[0].startswith("numpy.") and v.a[0].split(".")[1] in ("dot", "hstack", "vstack", "array", "concatenate", "asarray"):
        kind = "ndarray"
    if kind is not None and None not in names and "?" not in full:
        return C(kind in names or "object" in names)
    # path facts: value known None -> not an instance
    if e.decide(mk("cmp", "is", v, NONE), st) is True:
        return C("NoneType" in names)
    vt = e.vtype(v, st)
    if vt is not None and None not in names and "?" not in full:
        return C(any(n in TYPE_ISA.get(vt, (vt, "object")) for n in names))
    return mk("call", "isinstance", (e.reify(v, st), ct), ())


@ext("hasattr")
def _hasattr(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if not isconst(args[1]):
        return None
    nm = cval(args[1])
    if v.op == "phi":
        arms = e.arms(v, st)
        vals = [_hasattr(e, [x, args[1]], {}, st, node) for c, x in arms]
        if all(x is not None for x in vals):
            out = vals[-1]
            for (c, x), r in reversed(list(zip(arms, vals))[:-1]):
                out = phi(c, r, out)
            return out
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        if h.kind == "inst":
            if e.clsfind(h.cls, nm):
                f = e.clsfind(h.cls, nm)
                if f[0] == "prop":
                    return mk("call", "hasattr", (v, args[1]), ()) if False else TRUE
                return TRUE
            if nm in h.d:
                x = e.simp(h.d[nm], st)
                if x is MISSING:
                    return FALSE
                if e.may_be(x, MISSING, st):
                    return e.neg(e.cond_of(x, MISSING, st))
                return TRUE
            if h.rest is None:
                return FALSE
    if (v, nm) in st.over:
        return TRUE
    return None


@ext("getattr")
def _getattr(e, args, kw, st, node):
    if len(args) >= 2 and isconst(args[1]):
        if len(args) == 2:
            return e.getattr(args[0], cval(args[1]), st, node)
        h = _hasattr(e, args[:2], {}, st, node)
        if h is TRUE:
            return e.getattr(args[0], cval(args[1]), st, node)
        if h is FALSE:
            return args[2]
    return None


@ext("setattr")
def _setattr(e, args, kw, st, node):
    if isconst(args[1]):
        e.setattr(args[0], cval(args[1]), args[2], st, node)
        return NONE
    e.mutate(args[0], st, node, "setattr")
    return NONE


@ext("range")
def _range(e, args, kw, st, node):
    a = [e.reify(e.simp(x, st), st) for x in args]
    if len(a) == 2 and a[0] is C(0):
        a = a[1:]
    return mk("call", "range", tuple(a), ())


@ext("any", "all")
def _anyall(e, args, kw, st, node):
    if len(args) != 1 or not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name)):
        return None
    x = e.reify(e.simp(args[0], st), st)
    if x.op not in ("list", "tuple"):
        return None
    ws = [None if y.op in ("rep", "splice", "conde") else e.decide(y, st) for y in x.a]
    hit = node.func.id == "any"
    if any(w is hit for w in ws):
        return C(hit)
    return C(not hit) if all(w is (not hit) for w in ws) else None


@ext("max", "min", "abs", "int", "float", "round")
def _num(e, args, kw, st, node):
    if all(isconst(a) for a in args) and not kw and isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
        try:
            r = {"max": max, "min": min, "abs": abs, "int": int, "float": float, "round": round}[node.func.id](*[cval(a) for a in args])
            return C(r)
        except Exception:
            return None
    return None


@ext("str")
def _str(e, args, kw, st, node):
    if args and isconst(args[0]) and isinstance(cval(args[0]), (str, int)):
        return C(str(cval(args[0])))
    return None


@ext("sum")
def _sum(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if v.op == "ref" and st.heap.get(v.a[0]) is not None and st.heap[v.a[0]].kind == "list" and len(args) == 1:
        d = st.heap[v.a[0]].d
        out = None
        for x in d:
            if x.op == "rep" and len(x.a) == 2 and x.a[1].op not in ("rep", "conde", "splice"):
                y = mk("sum", x.a[0], e.reify(x.a[1], st))
            elif x.op in ("rep", "conde", "splice"):
                return None
            else:
                y = e.reify(x, st)
            out = y if out is None else mk("bin", "+", out, y)
        return out if out is not None else C(0)
    return None


@ext("scipy.sparse.issparse")
def _issparse(e, args, kw, st, node):
    v = e.simp(args[0], st)
    t = e.vtype(v, st) if e.unroll else None
    if t in ("csr_matrix", "csc_matrix", "coo_matrix", "lil_matrix", "dia_matrix"):
        return TRUE
    if t is not None:
        return FALSE
    return mk("call", "scipy.sparse.issparse", (e.reify(v, st),), ())


@ext("type")
def _type(e, args, kw, st, node):
    v = e.simp(args[0], st)
    if v.op == "ref" and st.heap.get(v.a[0]) is not None:
        h = st.heap[v.a[0]]
        if h.kind == "inst":
            return mk("class", h.cls.qual)
        if h.kind in ("list", "dict", "set"):
            return mk("ext", h.kind)
    if v.op == "const":
        return mk("ext", type(cval(v)).__name__)
    if v.op == "tuple":
        return mk("ext", "tuple")
    vt = e.vtype(v, st)
    if vt is not None:
        return mk("ext", TYPE_FULL.get(vt, vt))
    return None


@ext("issubclass")
def _issubclass(e, args, kw, st, node):
    if len(args) == 2 and args[0].op == "ext" and args[1].op == "ext":
        a, b = args[0].a[0].split(".")[-1], args[1].a[0].split(".")[-1]
        return C(b in TYPE_ISA.get(a, (a, "object")))
    return None


TYPE_ISA = {"csr_matrix": ("csr_matrix", "spmatrix", "object"), "csc_matrix": ("csc_matrix", "spmatrix", "object"),
            "Kernel": ("Kernel", "W", "object"), "bool": ("bool", "int", "object")}
TYPE_FULL = {"ndarray": "numpy.ndarray", "csr_matrix": "scipy.sparse.csr_matrix", "csc_matrix": "scipy.sparse.csc_matrix",
             "W": "libpysal.weights.W", "Kernel": "libpysal.weights.Kernel"}
ND_FUNCS = {"ones", "zeros", "hstack", "vstack", "concatenate", "dot", "array", "diag", "multiply", "sqrt", "delete", "asarray", "eye",
            "identity", "matmul", "arange", "ones_like", "zeros_like", "abs", "log", "exp", "square", "where_", "reshape", "kron", "outer",
            "column_stack", "linspace", "repeat", "tile", "subtract", "add", "empty", "full", "power", "divide", "block", "stack"}
ND_SAME = {"reshape", "flatten", "copy", "ravel", "astype", "sum", "mean", "transpose", "squeeze"}


@ext("functools.partial")
def _partial(e, args, kw, st, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(kw.keys()), tuple(kw.values()))


@ext("map")
def _map(e, args, kw, st, node):
    if len(args) == 2:
        its = e.iteritems(args[1], st)
        if its is not None:
            return e.newlist([e.call(args[0], [x], {}, st, node) for x in its], st, node)
        b, el = e.elem_of(args[1], st)
        return e.newlist([mk("rep", b, e.call(args[0], [el], {}, st, node))], st, node)
    its = [e.iteritems(x, st) for x in args[1:]]
    if its and all(x is not None for x in its):
        return e.newlist([e.call(args[0], list(x), {}, st, node) for x in zip(*its)], st, node)
    return None


@ext("callable")
def _callable(e, args, kw, st, node):
    if args[0].op in ("func", "class", "bound", "ext"):
        return TRUE
    if isconst(args[0]) or args[0].op in ("list", "tuple"):
        return FALSE
    return None
