"""Hash-consed value-graph terms: the abstract domain of the dataflow engine.

A term denotes "the value computed by this operation on these operands" (global
value numbering).  Joins of control flow are gated phi terms; there is no path
enumeration and no solver.
"""
import itertools

_intern = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        _intern[key] = t
    return t


def C(v):
    if isinstance(v, T):
        return v
    if isinstance(v, tuple):
        return mk("tuple", *[C(x) for x in v])
    return mk("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
UNBOUND = mk("unbound")
MISSING = mk("missing")


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.a[1]


def phi(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if cval(c) else b
    if c.op == "not":
        return phi(c.a[0], b, a)
    if c.op == "cmp" and c.a[0] == "is" and c.a[2] is NONE and a is c.a[1]:
        a = NONE  # under "x is None", x is None
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("phi", c, a, b)


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    o = t.op
    if o == "const":
        return repr(t.a[1])
    if d <= 0:
        return "#%d" % t.id
    s = lambda x: show(x, d - 1)
    if o == "param":
        return t.a[0]
    if o == "attr":
        return "%s.%s" % (s(t.a[0]), t.a[1])
    if o == "bin":
        return "(%s %s %s)" % (s(t.a[1]), t.a[0], s(t.a[2]))
    if o == "un":
        return "(%s%s)" % (t.a[0], s(t.a[1]))
    if o == "cmp":
        return "(%s %s %s)" % (s(t.a[1]), t.a[0], s(t.a[2]))
    if o == "not":
        return "not %s" % s(t.a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in t.a) + ")"
    if o == "index":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in t.a)
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in t.a) + ")"
    if o == "list":
        return "[" + ", ".join(s(x) for x in t.a) + "]"
    if o == "phi":
        return "phi{%s ? %s : %s}" % tuple(s(x) for x in t.a)
    if o == "call":
        kw = ["%s=%s" % (k, s(v)) for k, v in t.a[2]]
        return "%s(%s)" % (t.a[0] if isinstance(t.a[0], str) else s(t.a[0]), ", ".join([s(x) for x in t.a[1]] + kw))
    if o == "method":
        kw = ["%s=%s" % (k, s(v)) for k, v in t.a[3]]
        return "%s.%s(%s)" % (s(t.a[1]), t.a[0], ", ".join([s(x) for x in t.a[2]] + kw))
    if o == "ext":
        return t.a[0]
    if o == "ref":
        return "&%s" % t.a[0]
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else (repr(x) if not isinstance(x, tuple) else "..") for x in t.a))


def subterms(t):
    """every distinct subterm, children of tuples included"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.a)
        elif isinstance(x, tuple):
            stack.extend(x)


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st = list(x)
            while st:
                y = st.pop(0)
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    st = list(y) + st


def rebuild(t, f):
    """apply f to each child term, keep shape"""

    def go(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    return mk(t.op, *[go(x) for x in t.a])
