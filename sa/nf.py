"""Normal form of value terms: commutative polynomials over (noncommutative) matrix products.

Every value the engine computes for an attribute is rewritten to a canonical term; two computations that differ only in
naming, order of statements, helper functions, association, distribution, transposition or dense/sparse dispatch get the
same canonical term.  No evaluation takes place."""
import functools
from fractions import Fraction
from math import isqrt
from terms import *
from engine import isstr, norange

ONE, ZERO, HALF = Fraction(1), Fraction(0), Fraction(1, 2)
N_ = mk("sym", "N")
SCALAR = ()


def num(f):
    return mk("num", Fraction(f))


N1, N0 = num(1), num(0)

INV = {"numpy.linalg.inv", "scipy.linalg.inv", "numpy.linalg.pinv_", "scipy.sparse.linalg.inv"}
IDENT_CALLS = {"numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy", "copy.copy", "copy.deepcopy",
               "float", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix", "numpy.asmatrix", "numpy.float64", "numpy.squeeze_",
               "scipy.sparse.csr_array", "numpy.real_if_close"}
IDENT_METHODS = {"copy", "toarray", "todense", "tocsr", "tocsc", "tocoo", "to_numpy", "item", "tolil"}
ELEM = {"numpy.log": "log", "math.log": "log", "numpy.exp": "exp", "math.exp": "exp", "numpy.abs": "abs", "numpy.absolute": "abs",
        "abs": "abs", "numpy.fabs": "abs", "numpy.real": "real", "numpy.isnan": "isnan", "numpy.sign": "sign"}
CALLNAME = {"math.sqrt": "numpy.sqrt", "numpy.matmul": "numpy.dot", "numpy.mat": "numpy.asarray", "numpy.identity": "numpy.eye",
            "scipy.sparse.identity": "numpy.eye", "scipy.sparse.eye": "numpy.eye", "scipy.sparse.hstack": "numpy.hstack",
            "scipy.sparse.vstack": "numpy.vstack", "math.pow": "numpy.power", "scipy.stats.chisqprob": "scipy.stats.chi2.sf",
            "numpy.concat": "numpy.concatenate", "numpy.linalg.slogdet": "numpy.linalg.slogdet", "numpy.diagonal": "numpy.diag",
            "scipy.linalg.det": "numpy.linalg.det", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "scipy.stats.distributions.chi2.sf": "scipy.stats.chi2.sf",
            "libpysal.weights.w_subset": "libpysal.weights.set_operations.w_subset"}

# operations the normaliser knows; a mismatch made of these only is a real difference
SCALAR_CALLS = {"@utils.optim_moments"}
KNOWN_FN = {"log", "exp", "abs", "real", "sign", "sum", "mean", "trace", "inv", "hstack", "vstack", "diag", "ones", "zeros", "eye", "kron", "isnan",
            "max", "min", "shape", "len", "det", "flatten", "reshape", "eig"}


class NF:
    def __init__(self, eng=None, st=None, shapes=None, budget=400000):
        self.eng, self.st = eng, st
        self.sym = set()
        self.decl = shapes or {}  # term -> shape tuple of nf dims
        self.memo = {}
        self.smemo = {}
        self.steps = 0
        self.budget = budget
        self.phimemo = {}
        self.busy = False
        self.small = False  # third normal form: small matrices element by element
        self.expand = False  # second normal form: products and sums of block matrices block by block

    # ---------------------------------------------------------------- polys
    def terms(self, t):
        """[(coef, mono)] with mono = tuple of (atom, exponent)"""
        if t.op == "num":
            return [] if t.a[0] == 0 else [(t.a[0], ())]
        if t.op == "poly":
            return list(t.a[0])
        return [(ONE, ((t, ONE),))]

    def zero(self, f):
        return f.op == "fn" and (f.a[0] == "zeros" and len(f.a) == 2 or f.a[0] in ("hstack", "vstack") and len(f.a) > 1 and all(self.zero(x) for x in f.a[1:]))

    def dropzeros(self, ts):
        """array of zeros: absorbs scalars, disappears next to a term of the same shape"""
        out, rest, others = [], [], []
        for c, m in ts:
            z = [f for f, e in m if self.zero(f) and e > 0]
            if z and all(f is z[0] or self.is_scalar(f) for f, e in m):
                out.append(z[0])
            else:
                rest.append((c, m))
        if not out:
            return ts
        if rest:
            s = self.shape(out[0])
            if s is not None and all(self.shape(z) == s for z in out) and any(self.shape(self.mkpoly([t])) == s for t in rest):
                return rest
        return rest + [(ONE, ((z, ONE),)) for z in dict.fromkeys(out)]

    def dropones(self, ts):
        """c*ones next to an array of the same shape is the scalar c, broadcast"""
        isone = lambda f, e: f.op == "fn" and f.a[0] == "ones" and len(f.a) == 2 and e == 1
        full = None
        for c, m in ts:
            if not any(isone(f, e) for f, e in m):
                s = self.shape(self.mkpoly([(c, m)]))
                if s and not all(d is N1 for d in s):
                    full = s
                    break
        if full is None:
            return ts
        out = []
        for c, m in ts:
            o = [f for f, e in m if isone(f, e)]
            if len(o) == 1 and self.shape(o[0]) == full and all(f is o[0] or self.is_scalar(f) for f, e in m):
                m = tuple((f, e) for f, e in m if f is not o[0])
            out.append((c, m))
        return out

    def mkpoly(self, ts):
        ts = list(ts)
        if len(ts) > 1 and any(f.op == "fn" and f.a[0] == "ones" for c, m in ts for f, e in m):
            ts = self.dropones(ts)
        if any(f.op == "fn" and f.a[0] == "zeros" for c, m in ts for f, e in m):
            ts = self.dropzeros(ts)
        acc = {}
        for c, m in ts:
            acc[m] = acc.get(m, ZERO) + c
        ts = [(c, m) for m, c in acc.items() if c != 0]
        if len(ts) > 1 and not self.busy:
            ts = self.collapse(ts)
        if not ts:
            return N0
        if self.small and (len(ts) > 1 or ts[0][0] != 1 or len(ts[0][1]) > 1 or ts[0][1][0][1] != 1 if ts[0][1] else False):
            x = self.elementwise(ts)
            if x is not None:
                return x
        if len(ts) == 1:
            c, m = ts[0]
            if not m:
                return num(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        ts.sort(key=lambda x: (tuple((f.id, e) for f, e in x[1]), x[0]))
        return mk("poly", tuple(ts))

    def collapse(self, ts):
        """inv(S) times the expanded terms of the sum S"""
        isinv = lambda f: f.op == "fn" and f.a[0] == "inv" and f.a[1].op == "poly" and len(f.a[1].a[0]) > 1
        for _ in range(200):
            acc = {m: c for c, m in ts}
            new = None
            for c, m in ts:
                fs = [f for f, e in m if e == 1 and (isinv(f) or f.op == "chain" and any(isinv(g) for g in f.a))]
                if len(fs) == 1:
                    new = self.collapse1(acc, c, m, fs[0], isinv)
                    if new is not None:
                        break
            if new is None:
                return ts
            ts = new
        return ts

    def collapse1(self, acc, c, m, f, isinv):
        g = list(f.a) if f.op == "chain" else [f]
        rest = tuple(x for x in m if x[0] is not f)
        for i, v in enumerate(g):
            if not isinv(v) or len(v.a[1].a[0]) > len(acc):
                continue
            self.busy = True
            try:
                sp = self.split_scalar(v.a[1])
                if any(not y for k, s, y in sp):
                    continue
                part = [[] if z.op == "fn" and z.a[0] == "eye" else self.factors(z) for z in (self.matatom(y) for k, s, y in sp)]
                for j0, side in ((j, d) for j in range(len(part)) if part[j] for d in (0, 1)):
                    n = len(part[j0])
                    if side == 0 and g[i + 1:i + 1 + n] == part[j0] and n:
                        pre, suf = g[:i], g[i + 1 + n:]
                        mk1 = lambda p: pre + [v] + p + suf
                    elif side == 1 and n and i >= n and g[i - n:i] == part[j0]:
                        pre, suf = g[:i - n], g[i + 1:]
                        mk1 = lambda p: pre + p + [v] + suf
                    else:
                        continue
                    inv0 = self.power(self.mkpoly([(sp[j0][0], sp[j0][1])]), -1)
                    base = self.mul(self.mkpoly([(c, rest)]), inv0)
                    gone = {}
                    for (k, s, y), p in zip(sp, part):
                        q = mk1(p)
                        t = self.mul(self.mul(base, self.mkpoly([(k, s)])), self.chain(q) if len(q) > 1 else q[0])
                        tt = self.terms(t)
                        if len(tt) != 1 or tt[0][1] not in acc:
                            gone = None
                            break
                        gone[tt[0][1]] = gone.get(tt[0][1], ZERO) + tt[0][0]  # a number and its transpose are one term
                    if gone is None or any(acc[x] != y for x, y in gone.items()):
                        continue
                    q = pre + suf
                    if q:
                        z = self.chain(q) if len(q) > 1 else q[0]
                    else:
                        sh = self.shape(v.a[1])
                        z = mk("fn", "eye", sh[0] if sh else mk("sym", "dim"))
                    out = {x: y for x, y in acc.items() if x not in gone}
                    for k, x in self.terms(self.mul(base, z)):
                        out[x] = out.get(x, ZERO) + k
                    return [(y, x) for x, y in out.items() if y != 0]
            finally:
                self.busy = False
        return None

    def mono_mul(self, a, b):
        d = {}
        for f, e in a + b:
            d[f] = d.get(f, ZERO) + e
        return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=lambda x: x[0].id))

    def add(self, *xs):
        out = []
        for x in xs:
            out += self.terms(x)
        return self.mkpoly(out)

    def scale(self, c, x):
        return self.mkpoly([(c * k, m) for k, m in self.terms(x)])

    def sub(self, a, b):
        return self.add(a, self.scale(Fraction(-1), b))

    def mul(self, a, b):
        """commutative (scalar or elementwise) product"""
        ta, tb = self.terms(a), self.terms(b)
        if len(ta) * len(tb) > 400:
            return self.mkpoly([(ONE, self.mono_mul(((a, ONE),), ((b, ONE),)))])
        out = []
        for c, m in ta:
            for k, l in tb:
                self.steps += 1
                out.append((c * k, self.mono_mul(m, l)))
        # a mono may now contain poly factors with exponent 1 (from cancelled powers): expand
        r = []
        again = []
        for c, m in out:
            if len(m) > 1:
                x = self.scaled(c, m)
                if x is not None:
                    again.append(x)
                    continue
            p = [(f, e) for f, e in m if f.op == "poly" and e.denominator == 1 and 0 < e <= 3]
            if p:
                rest = tuple((f, e) for f, e in m if (f, e) not in p)
                x = self.mkpoly([(c, rest)])
                for f, e in p:
                    for _ in range(int(e)):
                        x = self.mul(x, f)
                again.append(x)
            else:
                r.append((c, m))
        return self.add(self.mkpoly(r), *again) if again else self.mkpoly(r)

    def scaled(self, c, m):
        """a matrix whose rows (or columns) are multiplied by the elements of a column (a row): product with a diagonal matrix"""
        sc, cols, rows, full = [], [], [], []
        n = k = None
        if any(len(self.shape(f) or ()) == 1 for f, e in m) and any(len(self.shape(f) or ()) == 2 for f, e in m):
            m = [(self.tr(self.reshape(f, mk("tuple", self.shape(f)[0], N1))) if len(self.shape(f) or ()) == 1 else f, e) for f, e in m]  # broadcast as a row
        for f, e in m:
            s = self.shape(f)
            if s is None or len(s) not in (0, 2):
                return None
            if not s or s == (N1, N1):
                sc.append((f, e))
            elif s[1] is N1:
                cols.append((f, e))
                n = n or s[0]
            elif s[0] is N1:
                rows.append((f, e))
                k = k or s[1]
            elif self.outer(f):
                cols.append((f.a[0], e))
                rows.append((self.chain(list(f.a[1:])), e))
                n, k = n or s[0], k or s[1]
            else:
                full.append((f, e))
            if len(s) == 2 and (s[0] is not N1 and n is not None and s[0] is not n or s[1] is not N1 and k is not None and s[1] is not k):
                return None
        if len(m) - len(sc) == 1 and not full and cols and cols[0][1] == 1:
            return None  # one outer product
        if len(full) > 1:
            g = []
            for f, e in full:
                if e == 1 and f.op == "chain" and f.a[0].op == "fn" and f.a[0].a[0] == "diag" and f.a[0].a[1].op == "fn" and f.a[0].a[1].a[0] == "flatten":
                    cols.append((f.a[0].a[1].a[1], ONE))
                    f = self.chain(list(f.a[1:]))
                g.append((f, e))
            full = g
        if not (cols and (full or rows) or rows and full):
            return None
        prod = lambda fs: functools.reduce(self.mul, [self.power(f, e) for f, e in fs])
        if not full:
            x = self.dot(prod(cols), prod(rows))
        else:
            x = prod(full)
            if cols:
                x = self.dot(self.diag(self.flat(prod(cols))), x)
            if rows:
                x = self.dot(x, self.diag(self.flat(prod(rows))))
        return self.mul(self.mkpoly([(c, tuple(sc))]), x) if sc or c != 1 else x

    def outer(self, f):
        """a column times a row"""
        if f.op != "chain":
            return False
        s = self.shape(f.a[0])
        return s is not None and len(s) == 2 and s[1] is N1

    def power(self, x, e):
        e = Fraction(e)
        if e == 0:
            return N1
        if e == 1:
            return x
        if self.outer(x) and self.shape(x) is not None and N1 not in self.shape(x):
            return self.dot(self.power(x.a[0], e), self.power(self.chain(list(x.a[1:])), e))
        if x.op == "fn" and x.a[0] == "reshape" and len(x.a) == 3:
            return mk("fn", "reshape", self.power(x.a[1], e), x.a[2])
        ts = self.terms(x)
        if not ts:
            return N0
        if len(ts) == 1:
            c, m = ts[0]
            if e.denominator == 1:
                return self.mkpoly([(c ** int(e), tuple((f, k * e) for f, k in m))])
            # fractional power: keep the coefficient inside unless a perfect square
            out = []
            for f, k in m:
                out.append((f, k * e))
            if c == 1 and len(m) == 1:
                r = self.mkpoly([(ONE, tuple(out))])
                f, k = out[0]
                if f.op == "poly" and k.denominator == 1 and 0 < k <= 3:
                    return self.mul(r, N1)
                return r
            return self.mkpoly([(ONE, ((x, e),))])
        if e.denominator == 1 and 0 < e <= 3:
            r = x
            for _ in range(int(e) - 1):
                r = self.mul(r, x)
            return r
        # content normalisation: (c*M*P)^e = c^e M^e P^e (rational content of perfect squares for roots)
        c = ts[0][0]
        mon = dict(ts[0][1])
        for _, m in ts[1:]:
            dm = dict(m)
            for f in list(mon):
                k = dm.get(f, ZERO)
                k = min(mon[f], k) if mon[f] > 0 else max(mon[f], k) if k < 0 else ZERO
                if f in dm and k != 0:
                    mon[f] = k
                else:
                    del mon[f]
        if e.denominator != 1:
            if c > 0:
                rn, rd = isqrt(c.numerator), isqrt(c.denominator)
                c = c if rn * rn == c.numerator and rd * rd == c.denominator and e.denominator == 2 else ONE
            else:
                c = ONE
            mon = {f: k for f, k in mon.items() if (k * e).denominator <= 2} if all((k * e).denominator <= 2 for k in mon.values()) else {}
        if c != 1 or mon:
            inv = self.mkpoly([(1 / c, tuple(sorted(((f, -k) for f, k in mon.items()), key=lambda z: z[0].id)))])
            y = self.mul(inv, x)
            ce = c ** int(e) if e.denominator == 1 else Fraction(isqrt(c.numerator), isqrt(c.denominator)) ** int(e * 2) if c != 1 else ONE
            return self.mul(self.mkpoly([(ce, tuple(sorted(((f, k * e) for f, k in mon.items()), key=lambda z: z[0].id)))]),
                            self.mkpoly([(ONE, ((y, e),))]) if len(self.terms(y)) > 1 else self.power(y, e))
        return self.mkpoly([(ONE, ((x, e),))])

    # ---------------------------------------------------------------- shapes
    def shape(self, t):
        s = self.smemo.get(t, 0)
        if s != 0:
            return s
        self.smemo[t] = None
        s = self._shape(t)
        self.smemo[t] = s
        return s

    def bc(self, shapes):
        """broadcast"""
        if any(s is None for s in shapes):
            return None
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            d = N1
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                if d is N1:
                    d = s[j]
            out.append(d)
        return tuple(out)

    def _shape(self, t):
        if t in self.decl:
            return self.decl[t]
        o = t.op
        if o == "attr" and t.a[0].op == "call" and isinstance(t.a[0].a[0], str) and t.a[0].a[0][0] == "@":
            return self.decl.get(mk("opq", t.a[0].a[0], t.a[1]))  # a result of an estimator that is kept uninterpreted
        if o in ("num", "sym", "str"):
            return SCALAR
        if o == "loop" and len(t.a) == 4:
            s = self.shape(t.a[2])
            return s if s is not None and self.keeps(t.a[3], s) else None
        if o == "poly":
            sh = []
            for c, m in t.a[0]:
                sh += [self.shape(f) for f, e in m] or [SCALAR]
            return self.bc(sh)
        if o == "chain":
            a, b = self.shape(t.a[0]), self.shape(t.a[-1])
            if a is None or b is None:
                return None
            if len(a) == 1:
                return SCALAR if len(b) == 1 else (b[1],) if len(b) == 2 else None
            if len(a) != 2:
                return None
            if len(b) == 2:
                return (a[0], b[1])
            if len(b) == 1:
                return (a[0],)
            return None
        if o == "T":
            a = self.shape(t.a[0])
            return None if a is None else tuple(reversed(a))
        if o == "fn":
            n = t.a[0]
            a = t.a[1:]
            if n in ("log", "exp", "abs", "real", "sign", "isnan"):
                return self.shape(a[0])
            if n in ("sum", "trace", "len", "det", "max", "min", "mean"):
                return SCALAR if len(a) == 1 else None
            if n == "sumax":
                s = self.shape(a[0])
                if s is None or len(s) != 2 or a[1].op != "num":
                    return None
                ax = int(a[1].a[0]) % 2
                return (s[1 - ax],)
            if n in ("inv", "place"):
                return self.shape(a[0])
            if n == "kron":
                s, q = self.shape(a[0]), self.shape(a[1])
                return (self.mul(s[0], q[0]), self.mul(s[1], q[1])) if s and q and len(s) == len(q) == 2 else None
            if n == "hstack":
                ss = [(N1, N1) if self.shape(x) == () else self.shape(x) for x in a]
                if any(s is None or len(s) != 2 for s in ss):
                    return None
                return (ss[0][0], self.add(*[s[1] for s in ss]))
            if n == "vstack":
                ss = [(N1, N1) if self.shape(x) == () else self.shape(x) for x in a]
                if any(s is None or len(s) != 2 for s in ss):
                    return None
                return (self.add(*[s[0] for s in ss]), ss[0][1])
            if n in ("ones", "zeros") and len(a) == 1:
                if a[0].op == "tuple":
                    return tuple(a[0].a)
                return (a[0],)
            if n == "eye":
                return (a[0], a[0])
            if n == "flatten":
                s = self.shape(a[0])
                if s is None:
                    return None
                r = N1
                for d in s:
                    r = self.mul(r, d)
                return (r,)
            if n == "diag":
                s = self.shape(a[0])
                if s is None:
                    return None
                return (s[0],) if len(s) == 2 else ((s[0], s[0]) if len(s) == 1 else None)
            if n == "elem":
                return SCALAR
            if n == "reshape" and len(a) == 2 and a[1].op == "tuple":
                if all(x is not num(-1) for x in a[1].a):
                    return tuple(a[1].a)
                return None
            if n == "col":
                s = self.shape(a[0])
                return (s[0],) if s and len(s) == 2 else None
            if n == "cols":
                s = self.shape(a[0])
                return (s[0], mk("fn", "ncols", t)) if s and len(s) == 2 else None
            return None
        if o == "call":
            nm = t.a[0]
            if isinstance(nm, str) and (nm.endswith((".sf", ".cdf", ".pdf", ".ppf")) and t.a[1]):
                return self.shape(t.a[1][0])
            if nm == "@regimes.regimeX_setup" and t.a[1]:
                s = self.shape(t.a[1][0])
                return (s[0], mk("fn", "ncols", t)) if s and len(s) == 2 else None
            if nm == "@utils.inverse_prod" and len(t.a[1]) > 1:
                s = self.shape(t.a[1][1])
                post = any(k == "post_multiply" and v is TRUE for k, v in t.a[2]) or len(t.a[1]) > 3 and t.a[1][3] is TRUE
                return (s[1], s[0]) if post and s and len(s) == 2 else s
            if nm == "@utils.optim_moments":
                full = len(t.a[1]) > 2 and t.a[1][2] is not FALSE or any(k == "all_par" and v is not FALSE for k, v in t.a[2])
                return (mk("fn", "npar", t),) if full else SCALAR
            if nm == "@w_utils.symmetrize" and t.a[1]:
                return self.shape(mk("attr", t.a[1][0], "sparse"))
            if nm in ("len", "int", "numpy.trace", "round"):
                return SCALAR
            if nm in SCALAR_CALLS:
                return SCALAR
            if nm == "numpy.linalg.cholesky" and t.a[1]:
                return self.shape(t.a[1][0])
            if nm in ("numpy.linalg.eigvals", "numpy.linalg.eigvalsh") and t.a[1]:
                s = self.shape(t.a[1][0])
                return s[:1] if s else None
            if nm in ("scipy.sparse.lil_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix") and t.a[1] and t.a[1][0].op == "tuple" and len(t.a[1][0].a) == 2:
                return tuple(self.nf(x) for x in t.a[1][0].a)
            if nm == "numpy.delete" and len(t.a[1]) == 3 and t.a[1][2] is N1:
                s = self.shape(t.a[1][0])
                return (s[0], mk("fn", "ncols", t)) if s and len(s) == 2 else None
            return None
        if o == "phi":
            a, b = self.shape(t.a[1]), self.shape(t.a[2])
            if a and b and a != b and len(a) == len(b) == 2 and (a[0] is b[0] or a[1] is b[1]):
                return tuple(x if x is y else mk("fn", "dim", t.a[0], x, y) for x, y in zip(a, b))
            return a if a is b or a == b else None
        if o == "elem":
            return SCALAR if t.a[0].op == "call" and t.a[0].a[0] == "range" else None
        if o == "store":
            return self.shape(t.a[0])
        if o == "sum":
            return self.shape(t.a[1])
        if o == "svar":
            return SCALAR
        if o == "attr" and t.a[1] in ("x", "fun") and t.a[0].op == "call" and t.a[0].a[0] == "scipy.optimize.minimize_scalar":
            return SCALAR
        if o == "attr" and t.a[1] in ("x", "fun") and t.a[0].op == "call" and t.a[0].a[0] == "scipy.optimize.minimize" and len(t.a[0].a[1]) > 1 and t.a[0].a[1][1].op in ("list", "tuple"):
            return (num(len(t.a[0].a[1][1].a)),) if t.a[1] == "x" else SCALAR
        if o == "index" and t.a[0].op == "call" and t.a[0].a[0] in ("numpy.linalg.eig", "numpy.linalg.eigh") and t.a[1] in (N0, N1):
            b = self.shape(t.a[0].a[1][0])
            return None if b is None or len(b) != 2 else b[:1] if t.a[1] is N0 else b
        if o == "index" and t.a[0].op == "attr" and t.a[0].a[1] == "x" and t.a[1].op == "num" and len(self.shape(t.a[0]) or ()) == 1:
            return SCALAR
        if o == "index":
            b, k = self.shape(t.a[0]), t.a[1]
            if b == SCALAR:
                return SCALAR
            if b is None or len(b) not in (1, 2):
                return None
            ks = list(k.a) if k.op == "tuple" else [k]
            if len(ks) <= len(b) and all(x.op in ("slice", "num") for x in ks):
                out = []
                for d, x in zip(b, ks + [None] * len(b)):
                    if x is None:
                        out.append(d)
                    elif x.op == "slice":
                        out.append(self.slicelen(d, x))
                return None if None in out else tuple(out)
            if len(b) != 2:
                return None
            # rows or columns selected by a condition
            if k.op == "cmp":
                return (mk("fn", "count", k), b[1])
            if k.op == "call" and k.a[0] == "numpy.ix_" and len(k.a[1]) == 2 and all(x.op == "cmp" for x in k.a[1]):
                return tuple(mk("fn", "count", x) for x in k.a[1])
            if k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]):
                if k.a[1].op == "cmp":
                    return (b[0], mk("fn", "count", k.a[1]))
                if self.intlist(k.a[1]) is not None:
                    return (b[0], num(len(self.intlist(k.a[1]))))
                if k.a[1].op == "slice" or k.a[1].op not in ("num",) and self.shape(k.a[1]) != SCALAR:
                    return (b[0], mk("fn", "ncols", t.a[0], k.a[1]))
                return (b[0],)
        return None

    def keeps(self, b, s):
        """the next value of a loop variable has the shape of the previous one"""
        while b.op == "store":
            b = b.a[0]
        if b.op == "mu":
            return True
        if b.op == "phi":
            return self.keeps(b.a[1], s) and self.keeps(b.a[2], s)
        if b.op == "loop" and len(b.a) == 4:
            return self.keeps(b.a[2], s) and self.keeps(b.a[3], s)
        return self.shape(b) == s

    def slicelen(self, d, x):
        lo, hi = x.a[0], x.a[1]
        if len(x.a) > 2 and x.a[2] is not NONE:
            return None
        neg = lambda z: z.op == "num" and z.a[0] < 0
        lo = N0 if lo is NONE else self.add(d, lo) if neg(lo) else lo
        hi = d if hi is NONE else self.add(d, hi) if neg(hi) else hi
        return self.sub(hi, lo)

    def is_scalar(self, t):
        s = self.shape(t)
        if s is None:
            return t.op in ("num", "sym")
        return all(d is N1 for d in s)

    # ---------------------------------------------------------------- matrix algebra
    def split_scalar(self, x):
        """poly term list -> [(coef, scalar mono, matrix factor list as a single nf or None)]"""
        out = []
        for c, m in self.terms(x):
            sc, mt = [], []
            for f, e in m:
                (sc if self.is_scalar(f) else mt).append((f, e))
            out.append((c, tuple(sc), tuple(mt)))
        return out

    def matatom(self, mt):
        if len(mt) == 1 and mt[0][1] == 1:
            return mt[0][0]
        return self.mkpoly([(ONE, mt)])

    def spread(self, x):
        """a linear combination of rows (or columns) of blocks, block by block"""
        if not self.expand or x.op != "poly":
            return x
        sp = self.split_scalar(x)
        ms = [m[0][0] if len(m) == 1 and m[0][1] == 1 else None for c, s, m in sp]
        for kind in ("hstack", "vstack"):
            if all(m is not None and self.blocks(m, kind) for m in ms) and len({len(m.a) for m in ms}) == 1:
                parts = []
                for i in range(1, len(ms[0].a)):
                    parts.append(self.spread(self.add(*[self.mul(self.mkpoly([(c, s)]), m.a[i]) for (c, s, _), m in zip(sp, ms)])))
                return self.mkstack(kind, parts)
        return x

    def broadcast(self, x):
        """terms of a factor of a matrix product, a scalar added to an array written as a multiple of ones"""
        sp = self.split_scalar(x)
        if x.op != "poly" or all(m for c, s, m in sp) or not any(m for c, s, m in sp):
            return sp
        shp = self.shape(x)
        if shp is None:
            return None
        if not shp or all(d is N1 for d in shp):
            return sp
        o = mk("fn", "ones", mk("tuple", *shp) if len(shp) > 1 else shp[0])
        return [(c, s, m if m else ((o, ONE),)) for c, s, m in sp]

    def dot(self, a, b):
        a, b = self.spread(a), self.spread(b)
        sa, sb = self.broadcast(a), self.broadcast(b)
        if sa is None or sb is None:
            return mk("chain", a, b)
        if len(sa) * len(sb) > 200:
            return mk("chain", a, b)
        out = []
        for c, s, m in sa:
            for k, r, l in sb:
                self.steps += 1
                u, v = (self.matatom(m), self.matatom(l)) if m and l else (None, None)
                if u is not None and all(z.op == "fn" and z.a[0] == "flatten" and len(self.shape(z.a[1]) or ()) == 2 and self.shape(z.a[1])[1] is N1 for z in (u, v)):
                    # inner product of two columns
                    out.append(self.mul(self.mkpoly([(c * k, self.mono_mul(s, r))]), self.dot(self.tr(u.a[1]), v.a[1])))
                    continue
                du, dv = (self.stacked(u), self.stacked(v)) if u is not None else (None, None)
                if not m or not l:
                    z = self.mul(self.matatom(m) if m else N1, self.matatom(l) if l else N1)
                elif du is not None and len(u.a[2].a) == 2 and self.shape(v) is not None and len(self.shape(v)) == 2 and self.shape(v)[0] is u.a[2].a[1]:
                    z = self.reshape(self.dot(self.kron(mk("fn", "eye", u.a[2].a[0]), self.tr(v)), du), mk("tuple", u.a[2].a[0], self.shape(v)[1]))
                elif dv is not None and len(v.a[2].a) == 2 and self.shape(u) is not None and len(self.shape(u)) == 2 and self.shape(u)[1] is v.a[2].a[0]:
                    z = self.reshape(self.dot(self.kron(u, mk("fn", "eye", v.a[2].a[1])), dv), mk("tuple", self.shape(u)[0], v.a[2].a[1]))
                else:
                    z = self.chain(self.left(self.matatom(m)) + self.factors(self.matatom(l)))
                out.append(self.mul(self.mkpoly([(c * k, self.mono_mul(s, r))]), z))
        return self.add(*out)

    def left(self, x):
        """factors of a left operand: a vector A@y (one dimension) is y@A' there"""
        fs = self.factors(x)
        if len(fs) > 1:
            s = self.shape(x)
            if s is not None and len(s) == 1 and len(self.shape(fs[0]) or ()) == 2:
                return [self.tr1(f) for f in reversed(fs)]
        return fs

    def factors(self, x):
        return list(x.a) if x.op == "chain" else [x]

    def chain(self, fs):
        # cancellation A * inv(A), identity
        out = []
        if len(fs) > 1 and all(z.op == "fn" and z.a[0] == "flatten" and len(self.shape(z.a[1]) or ()) == 2 and self.shape(z.a[1])[1] is N1 for z in (fs[0], fs[-1])):
            return self.dot(self.dot(self.tr(fs[0].a[1]), self.chain(list(fs[1:-1]))) if len(fs) > 2 else self.tr(fs[0].a[1]), fs[-1].a[1])
        if len(fs) > 1 and any(self.zero(f) for f in fs):
            sa, sb = self.shape(fs[0]), self.shape(fs[-1])
            if sa is not None and sb is not None and len(sa) == 2 and len(sb) == 2:
                return N0 if (sa[0], sb[1]) == (N1, N1) else mk("fn", "zeros", mk("tuple", sa[0], sb[1]))
        for fi, f in enumerate(fs):
            if f.op == "fn" and f.a[0] == "eye":
                continue
            if out:
                p = out[-1]
                if (p.op == "fn" and p.a[0] == "inv" and p.a[1] is f) or (f.op == "fn" and f.a[0] == "inv" and f.a[1] is p):
                    out.pop()
                    continue
                if p.op == "fn" and p.a[0] == "ones" and f.op == "fn" and f.a[0] == "ones":
                    sa, sb = self.shape(p), self.shape(f)
                    if sa is not None and sb is not None and len(sa) == len(sb) == 2 and sa[1] is N1 and sb[0] is N1 and N1 not in (sa[0], sb[1]):
                        out[-1] = mk("fn", "ones", mk("tuple", sa[0], sb[1]))
                        continue
                    if sa is not None and sb is not None and len(sa) == len(sb) == 2 and sa[1] is sb[0] and sa[1] is not N1 and sa[0] is N1 and sb[1] is N1:
                        out.pop()
                        rest = out + list(fs[fi + 1:])
                        return self.mul(sa[1], self.chain(rest)) if rest else sa[1]
                    if sa is not None and sb is not None and len(sa) == len(sb) == 2 and sa[1] is sb[0] and N1 not in (sa[0], sb[1]):
                        out[-1] = mk("fn", "ones", mk("tuple", sa[0], sb[1]))
                        return self.mul(sa[1], self.chain(out + list(fs[fi + 1:])))
                if p.op == "fn" and p.a[0] == "kron" and f.op == "fn" and f.a[0] == "kron":
                    a, b, c, d = (self.shape(q) for q in p.a[1:3] + f.a[1:3])
                    if all(q is not None and len(q) == 2 for q in (a, b, c, d)) and a[1] is c[0] and b[1] is d[0] and not (a[1] is N1 and a[0] is not N1 and d[1] is d[0]):
                        out.pop()
                        q = self.kron(self.dot(p.a[1], f.a[1]), self.dot(p.a[2], f.a[2]))
                        rest = fs[fi + 1:]
                        if q.op == "poly":
                            q = self.dot(self.chain(out), q) if out else q
                            return self.dot(q, self.chain(rest)) if rest else q
                        return self.chain(out + self.factors(q) + list(rest))
                if p.op == "T" and p.a[0] is f and self.eigvec(f, "numpy.linalg.eigh") or f.op == "T" and f.a[0] is p and self.eigvec(p, "numpy.linalg.eigh"):
                    out.pop()  # orthogonal matrix of eigenvectors
                    continue
                if p.op == f.op == "fn" and p.a[0] == f.a[0] == "diag" and all(len(self.shape(z.a[1]) or ()) == 1 for z in (p, f)):
                    out[-1] = self.diag(self.mul(p.a[1], f.a[1]))
                    continue
                if f.op == "T" and p.op == "fn" and p.a[0] == "diag" and self.eigvec(f.a[0], "numpy.linalg.eigh") and len(out) > 1 and out[-2] is f.a[0]:
                    ev = mk("index", f.a[0].a[0], N0)
                    d = 1 if p.a[1] is ev else -1 if p.a[1] is self.power(ev, -1) else 0
                    if d:
                        del out[-2:]
                        A = f.a[0].a[0].a[1][0]
                        z, rest = A if d > 0 else self.inv(A), list(fs[fi + 1:])
                        if z.op == "poly":
                            z = self.dot(self.chain(out), z) if out else z
                            return self.dot(z, self.chain(rest)) if rest else z
                        return self.chain(out + self.factors(z) + rest)
                if f.op == "T" and f.a[0] is p and p.op == "call" and p.a[0] == "numpy.linalg.cholesky":
                    out[-1:] = self.factors(p.a[1][0])
                    continue
                # product forms: inv(X) directly after the factors spelling X
                if f.op == "fn" and f.a[0] == "inv" and f.a[1].op == "chain":
                    g = list(f.a[1].a)
                    if len(out) >= len(g) and out[-len(g):] == g:
                        del out[-len(g):]
                        continue
                done = False
                for i in range(len(out)):
                    q = out[i]
                    if q.op == "fn" and q.a[0] == "inv" and q.a[1].op == "chain" and out[i + 1:] + [f] == list(q.a[1].a):
                        del out[i:]
                        done = True
                        break
                if done:
                    continue
            if self.expand and out and self.blocks(f, "vstack") and all(self.blocks(x, "hstack") for x in f.a[1:]) and len({len(x.a) for x in f.a[1:]}) == 1:
                f = mk("fn", "hstack", *[mk("fn", "vstack", *[x.a[j] for x in f.a[1:]]) for j in range(1, len(f.a[1].a))])
            if self.expand and out and self.blocks(f, "hstack"):
                # everything to the left of a row of blocks is applied block by block
                g = self.chain(out)
                out = self.factors(self.mkstack("hstack", [self.dot(g, x) for x in f.a[1:]]))
                continue
            cf = self.conform(out[0], f) if self.expand and len(out) == 1 and f.op == "fn" and f.a[0] == "vstack" else None
            if cf:
                x = self.add(*[self.dot(p, q) for p, q in cf])
                rest = fs[fi + 1:]
                return self.dot(x, self.chain(rest)) if rest else x
            if self.expand and out and self.blocks(out[-1], "vstack"):
                v = out.pop()
                out += self.factors(self.mkstack("vstack", [self.dot(x, f) for x in v.a[1:]]))
                continue
            out.append(f)
        if not out:
            return fs[0] if fs and fs[0].op == "fn" and fs[0].a[0] == "eye" else mk("fn", "eye", mk("sym", "dim"))
        if len(out) == 1:
            return out[0]
        if len(out) == 2 and any(f.op == "poly" for f in out) and all(len(self.terms(f)) == 1 for f in out):
            # product of two vectors one of which is an elementwise power: a sum
            a, b = self.tr(out[0]), out[1]
            sa = self.shape(a)
            if sa is not None and len(sa) == 2 and sa[1] is N1 and sa[0] is not N1 and sa == self.shape(b) and not any(f.op in ("chain", "poly") for x in (a, b) for f, e in self.terms(x)[0][1]):
                return self.total(self.mul(a, b))
        t = mk("chain", *out)
        s = self.shape(t)
        if s == SCALAR and all(len(self.shape(f) or ()) == 2 for f in out[1:-1]) or s == (N1, N1):
            u = mk("chain", *[self.tr1(f) for f in reversed(out)])
            if self.ckey(u) < self.ckey(t):
                self.smemo[u] = s
                return u
        return t

    def eigvec(self, f, name):
        return f.op == "index" and f.a[0].op == "call" and f.a[0].a[0] == name and f.a[1] is N1

    def blocks(self, f, kind):
        return f.op == "fn" and f.a[0] == kind and all(x.op not in ("rep", "splice", "conde") for x in f.a[1:])

    def conform(self, h, v):
        """pairs of matching blocks when a row of blocks multiplies a column of blocks, merging blocks of a finer partition"""
        if not (self.blocks(h, "hstack") and self.blocks(v, "vstack")):
            return None
        hs, vs = [], []
        for p in h.a[1:]:
            s = self.shape(p)
            if s is None or len(s) not in (0, 2):
                return None
            hs.append((p, s[1] if s else N1))
        for p in v.a[1:]:
            s = self.shape(p)
            if s is None or len(s) not in (0, 2):
                return None
            vs.append((p, s[0] if s else N1))
        out = []
        while hs or vs:
            if not (hs and vs):
                return None
            (p, a), (q, b) = hs.pop(0), vs.pop(0)
            gp, gq = [p], [q]
            while a is not b:
                d = [c for c, m in self.terms(self.sub(a, b))]
                if all(c > 0 for c in d) and vs:
                    q, w = vs.pop(0)
                    gq.append(q)
                    b = self.add(b, w)
                elif all(c < 0 for c in d) and hs:
                    p, w = hs.pop(0)
                    gp.append(p)
                    a = self.add(a, w)
                else:
                    return None
            out.append((self.mkstack("hstack", gp), self.mkstack("vstack", gq)))
        return out if len(out) > 1 else None

    def mkstack(self, kind, parts):
        full = [x for x in parts if not (self.zero(x) and (self.shape(x) or (N1,))[1 if kind == "hstack" and len(self.shape(x)) == 2 else 0] is N0)]
        parts = full or parts
        if len(parts) == 1 and parts[0].op not in ("rep", "conde", "splice"):
            return parts[0]
        if self.expand and kind == "hstack" and all(self.blocks(x, "vstack") for x in parts) and len({len(x.a) for x in parts}) == 1:
            rows = [[x.a[i] for x in parts] for i in range(1, len(parts[0].a))]
            hs = [[N1 if self.is_scalar(y) else (self.shape(y) or (None,))[0] for y in r] for r in rows]
            if all(len(set(h)) == 1 for h in hs):
                return mk("fn", "vstack", *[self.mkstack("hstack", r) for r in rows])
        flat = []
        for x in parts:
            if self.expand and len(parts) > 1 and x.op == "fn" and x.a[0] == "zeros":
                s, ax = self.shape(x), 0 if kind == "vstack" else 1
                if s is not None and len(s) == 2 and s[ax].op == "num" and 1 < s[ax].a[0] <= 8:
                    x = mk("fn", kind, *[mk("fn", "zeros", mk("tuple", *([N1, s[1]] if ax == 0 else [s[0], N1])))] * int(s[ax].a[0]))
            flat += list(x.a[1:]) if x.op == "fn" and x.a[0] == kind else [x]
        if len(parts) > 1 and any(x.op == "fn" and (x.a[0] in ("zeros", "ones", "eye") or kind == "hstack" and self.blocks(x, "vstack")) for x in parts) and all(self.constmat(x) for x in parts):
            # a small matrix of numbers
            ds = [self.dense(x) for x in parts]
            if kind == "vstack":
                return self.undense([r for d in ds for r in d])
            if len({len(d) for d in ds}) == 1:
                return self.undense([sum((d[i] for d in ds), []) for i in range(len(ds[0]))])
        return mk("fn", kind, *flat)

    def constmat(self, x):
        if x.op == "num":
            return True
        if x.op != "fn" or x.a[0] not in ("zeros", "ones", "eye", "hstack", "vstack"):
            return False
        s = self.shape(x)
        if s is None or len(s) != 2 or any(d.op != "num" for d in s) or s[0].a[0] * s[1].a[0] > 400 or s[0].a[0] * s[1].a[0] < 2:
            return False
        return x.a[0] in ("zeros", "ones", "eye") or all(self.constmat(y) for y in x.a[1:])

    def ckey(self, t):
        return tuple(f.id for f in t.a)

    def tr1(self, f):
        r = self.tr(f)
        return r

    def tr(self, x):
        o = x.op
        if o == "num" or o == "sym":
            return x
        if o == "T":
            return x.a[0]
        if x in self.sym or x.op == "index" and x.a[0] in self.sym and x.a[1].op == "call" and x.a[1].a[0] == "numpy.ix_" and len(x.a[1].a[1]) == 2 and x.a[1].a[1][0] is x.a[1].a[1][1]:
            return x
        s = self.shape(x)
        if s is not None and (len(s) < 2 or all(d is N1 for d in s)):
            return x
        if o == "poly":
            out = []
            for c, m in x.a[0]:
                y = num(c)
                for f, e in m:
                    y = self.mul(y, self.power(self.tr(f), e))
                out.append(y)
            return self.add(*out)
        if o == "chain":
            y = None
            for f in reversed(x.a):
                z = self.tr(f)
                y = z if y is None else self.dot(y, z)
            return y
        if o == "fn":
            if x.a[0] == "inv":
                return self.inv(self.tr(x.a[1]))
            if x.a[0] in ("eye",):
                return x
            if x.a[0] in ("zeros", "ones") and s is not None and len(s) == 2:
                return mk("fn", x.a[0], mk("tuple", s[1], s[0]))
            if x.a[0] == "hstack":
                return self.mkstack("vstack", [self.tr(y) for y in x.a[1:]])
            if x.a[0] == "vstack":
                return self.mkstack("hstack", [self.tr(y) for y in x.a[1:]])
            if x.a[0] in ("log", "exp", "abs", "real", "sign"):
                return mk("fn", x.a[0], self.tr(x.a[1]))
            if x.a[0] == "diag" and s is not None and len(s) == 2:
                return x
            if x.a[0] == "kron":
                return self.kron(self.tr(x.a[1]), self.tr(x.a[2]))
        if o == "phi":
            return self.mkphi(x.a[0], self.tr(x.a[1]), self.tr(x.a[2]))
        return mk("T", x)

    def inv(self, x):
        if self.is_scalar(x):
            return self.power(x, -1)
        if x.op == "fn" and x.a[0] == "inv":
            return x.a[1]
        if x.op == "fn" and x.a[0] == "eye":
            return x
        # pull scalar content
        sp = self.split_scalar(x)
        if len(sp) == 1 and (sp[0][0] != 1 or sp[0][1]):
            c, s, m = sp[0]
            return self.mul(self.power(self.mkpoly([(c, s)]), -1), self.inv(self.matatom(m)))
        if len(sp) > 1:
            common = set(sp[0][1])
            for c, s, m in sp[1:]:
                common &= set(s)
            c0 = sp[0][0]
            if common or c0 != 1:
                cm = tuple(sorted(common, key=lambda z: z[0].id))
                back = self.power(self.mkpoly([(c0, cm)]), -1)
                y = self.mul(back, x)
                if not any(s and set(s) & common for c, s, m in self.split_scalar(y)) and y is not x:
                    return self.mul(back, mk("fn", "inv", y))
        if x.op == "phi":
            return self.mkphi(x.a[0], self.inv(x.a[1]), self.inv(x.a[2]))
        if x.op == "fn" and x.a[0] == "kron" and all(q is not None and len(q) == 2 and q[0] is q[1] for q in map(self.shape, x.a[1:])):
            return self.kron(self.inv(x.a[1]), self.inv(x.a[2]))
        if self.blocks(x, "vstack") and all(self.blocks(r, "hstack") and len(r.a) == len(x.a) for r in x.a[1:]):
            # block diagonal
            rows = [list(r.a[1:]) for r in x.a[1:]]
            iszero = lambda b: b is N0 or b.op == "fn" and b.a[0] == "zeros"
            if all(iszero(b) for i, r in enumerate(rows) for j, b in enumerate(r) if i != j):
                return self.mkstack("vstack", [self.mkstack("hstack", [self.inv(b) if i == j else b for j, b in enumerate(r)]) for i, r in enumerate(rows)])
        return mk("fn", "inv", x)

    def real(self, x):
        """log-determinants are real, also when written as a sum over complex eigenvalues"""
        if x.op == "fn" and (x.a[0] == "logdet" or x.a[0] == "sum" and x.a[1].op == "fn" and x.a[1].a[0] == "log"):
            return x
        if x.op == "poly" and all(self.real(f) is f or f.op == "param" or f.op == "sym" for c, m in x.a[0] for f, e in m):
            return x
        return mk("fn", "real", x)

    def logabs(self, x):
        """sum of the log of the diagonal of the LU factor, sum of the log of one minus rho times the eigenvalues"""
        if x.op != "fn" or x.a[0] != "log":
            return None
        x = x.a[1]
        positive = x.op == "fn" and x.a[0] == "abs"
        if positive:
            x = x.a[1]
        if x.op == "fn" and x.a[0] == "diag" and x.a[1].op == "attr" and x.a[1].a[1] == "U" and x.a[1].a[0].op == "call" and x.a[1].a[0].a[0] == "scipy.sparse.linalg.splu":
            # the pivots can be negative
            return self.logdet(x.a[1].a[0].a[1][0]) if positive else mk("fn", "logpivots", self.logdet(x.a[1].a[0].a[1][0]))
        ts = self.terms(x)
        if len(ts) == 2 and any(c == 1 and not m for c, m in ts):
            c, m = [z for z in ts if z[1]][0]
            ev = [f for f, e in m if f.op == "call" and f.a[0] in ("numpy.linalg.eigvals", "numpy.linalg.eigvalsh") and e == 1]
            rest = [(f, e) for f, e in m if f not in ev]
            if len(ev) == 1 and all(self.is_scalar(f) for f, e in rest):
                W = ev[0].a[1][0]
                if W.op == "call" and W.a[0] == "@w_utils.symmetrize":  # similar to the weights matrix
                    W = self.nf(mk("attr", W.a[1][0], "sparse"))
                s = self.shape(W)
                if s is not None and len(s) == 2:
                    return self.logdet(self.add(mk("fn", "eye", s[0]), self.mul(self.mkpoly([(c, tuple(rest))]), W)))
        return None

    def log(self, x):
        if x is N1:
            return N0
        if x.op == "fn" and x.a[0] == "det":
            return self.logdet(x.a[1])
        ts = self.terms(x)
        if len(ts) == 1 and ts[0][0] > 0 and self.is_scalar(x) and (ts[0][0] != 1 or len(ts[0][1]) > 1 or ts[0][1][0][1] != 1):
            # logarithm of a product (of positive quantities)
            c, m = ts[0]
            return self.add(mk("fn", "log", num(c)) if c != 1 else N0, *[self.mul(num(e), mk("fn", "log", f)) for f, e in m])
        return mk("fn", "log", x)

    def trace(self, x):
        if x.op == "poly" or x.op == "num":
            out = []
            for c, s, m in self.split_scalar(x):
                if not m:
                    out.append(mk("fn", "trace", x))
                    return self.add(*out) if len(self.terms(x)) == 1 else mk("fn", "trace", x)
                out.append(self.mul(self.mkpoly([(c, s)]), self.trace(self.matatom(m)) if len(m) == 1 and m[0][1] == 1 else mk("fn", "trace", self.matatom(m))))
            return self.add(*out)
        if x.op == "fn" and x.a[0] == "eye":
            return x.a[1]
        if x.op == "phi":
            return self.mkphi(x.a[0], self.trace(x.a[1]), self.trace(x.a[2]))
        if x.op == "chain":
            best = None
            for base in (list(x.a), [self.tr(f) for f in reversed(x.a)]):
                for i in range(len(base)):
                    rot = base[i:] + base[:i]
                    k = tuple(f.id for f in rot)
                    if best is None or k < best[0]:
                        best = (k, rot)
            rot = best[1]
            return mk("fn", "trace", mk("chain", *rot))
        y = self.tr(x)
        return mk("fn", "trace", x if x.id <= y.id else y)

    def total(self, x):
        """sum of all elements"""
        ld = self.logabs(x)
        if ld is not None:
            return ld
        if self.is_scalar(x):
            return x
        if x.op == "fn" and x.a[0] == "sumax":
            return self.total(x.a[1])
        if x.op in ("poly", "num") or x.op == "chain":
            out = []
            for c, s, m in self.split_scalar(x):
                if not m:
                    return mk("fn", "sum", x)
                out.append(self.mul(self.mkpoly([(c, s)]), self.total1(m)))
            return self.add(*out)
        return self.total1(((x, ONE),))

    def total1(self, m):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].a[0] == "sumax":
            return self.total(m[0][0].a[1])
        if len(m) == 1 and m[0][1] == 2 or len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            a, b = m[0][0], m[-1][0]
            if all(f.op == "fn" and f.a[0] == "reshape" and f.a[2] is a.a[2] for f in (a, b)) and a.a[2].op == "tuple":
                a, b = a.a[1], b.a[1]
            sa, sb = self.shape(a), self.shape(b)
            if sa is not None and sb is not None and len(sa) == 2 and len(sb) == 2:
                if sa[1] is N1 and sb[1] is N1 and sa[0] is not N1 and sb[0] is not N1:
                    return self.dot(self.tr(a), b)
                if sa[0] is N1 and sb[0] is N1 and sa[1] is not N1 and sb[1] is not N1:
                    return self.dot(a, self.tr(b))
                if sa[0] is sb[0] and sa[1] is sb[1] and sa[1] is not N1 and sa[0] is not N1:
                    return self.trace(self.dot(self.tr(a), b))
            if sa is not None and len(sa) == 1 and sb is not None and len(sb) == 1:
                return self.dot(a, b) if a.id <= b.id else self.dot(b, a)
        if len(m) == 2 and [f.op == "chain" and e == 1 for f, e in m].count(True) == 1:
            a, b = sorted(m, key=lambda fe: fe[0].op == "chain" and fe[1] == 1)
            a, b = self.matatom((a,)), b[0]
            sa, sb = self.shape(a), self.shape(b)
            if sa is not None and sb is not None and len(sa) == len(sb) == 2 and sa[1] is N1 and sb[1] is N1 and sa[0] is not N1 and sb[0] is not N1:
                return self.dot(self.tr(a), b)
        x = self.matatom(m)
        if x.op == "fn" and x.a[0] == "diag":
            s = self.shape(x.a[1])
            if s is None or len(s) == 2:
                return self.trace(x.a[1])
        y = self.tr(x) if self.shape(x) is not None else x
        return mk("fn", "sum", x if x.id <= y.id else y)

    # ---------------------------------------------------------------- phi
    def mkphi(self, c, a, b):
        if a is b:
            return a
        return phi(c, a, b)

    # ---------------------------------------------------------------- main
    def nf(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > self.budget:
            raise RuntimeError("nf budget")
        r = self._nf(t)
        if self.expand:
            r = self.spread(r)
        self.memo[t] = r
        return r

    def pick(self, t):
        """the branch of a conditional value whose condition is known in normal form"""
        while t.op == "phi":
            c = self.nf(t.a[0])
            if c not in (TRUE, FALSE):
                break
            t = t.a[1] if c is TRUE else t.a[2]
        return t

    def objective(self, x):
        """an objective up to a positive factor (the minimiser does not depend on it)"""
        com = None
        for c, m in self.terms(x):
            d = {f: e for f, e in m if e.__class__ in (int, Fraction) and e % 2 == 0 and self.is_scalar(f)}
            com = d if com is None else {f: e for f, e in com.items() if d.get(f) == e}
        for f, e in (com or {}).items():
            if not any(z.op == "svar" for z in subterms(f)):
                x = self.mul(x, self.power(f, -e))
        return x

    def bind(self, t, v, memo):
        """the body of the objective of a scalar minimisation, with its variable as a scalar"""
        if t in memo:
            return memo[t]
        r = v if t.op == "bvar" else rebuild(t, lambda x: self.bind(x, v, memo))
        if r.op == "phi" and r.a[0].op == "call" and r.a[0].a[0] == "isinstance" and r.a[0].a[1][0] is v:
            r = r.a[2]
        memo[t] = r
        return r

    def args(self, xs):
        return [self.nf(x) for x in xs]

    def gen(self, t):
        return rebuild(t, self.nf)

    def _nf(self, t):
        o = t.op
        if o in ("num", "sym", "poly", "chain", "T", "fn"):
            return t
        if t in self.decl:
            s = self.decl[t]
            if isinstance(s, T):  # alias
                return self.nf(s)
            return t
        if o == "const":
            v = cval(t)
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return t
            if isinstance(v, int):
                return num(v)
            if isinstance(v, float):
                return num(Fraction(repr(v))) if v == v and abs(v) != float("inf") else t
            return t
        if o == "ext" and t.a[0] in ("math.pi", "numpy.pi"):
            return mk("sym", "pi")
        if o == "ref" and self.eng is not None and self.st is not None and self.st.heap.get(t.a[0]) is not None:
            y = self.eng.reify(t, self.st)
            return self.nf(y) if y is not t else t
        if o == "phi":
            if self.eng is not None and self.st is not None:
                c = self.eng.decide(t.a[0], self.st)
                if c is not None:
                    return self.nf(t.a[1] if c else t.a[2])
            return self.mkphi(self.nf(t.a[0]), self.nf(t.a[1]), self.nf(t.a[2]))
        if o == "bin":
            return self.n_bin(t)
        if o == "un":
            x = self.nf(t.a[1])
            if t.a[0] == "-":
                return self.scale(Fraction(-1), x)
            if t.a[0] == "+":
                return x
            return mk("un", t.a[0], x)
        if o == "attr":
            return self.n_attr(t)
        if o == "method":
            return self.n_method(t)
        if o == "call" and isinstance(t.a[0], str):
            return self.n_call(t)
        if o == "index":
            return self.n_index(t)
        if o == "setdata":
            return self.n_setdata(t)
        if o == "store" and len(t.a) == 3:
            b, k, v = self.args(t.a)
            if b.op == "list" and k.op == "num" and all(x.op not in ("rep", "splice", "conde") for x in b.a) and 0 <= k.a[0] < len(b.a) and k.a[0].denominator == 1:
                l = list(b.a)
                l[int(k.a[0])] = v
                return mk("list", *l)
            s = self.shape(b)
            if k is num(-1) and s is not None and len(s) == 2 and s[1] is N1 and self.is_scalar(v):
                return self.mkstack("vstack", [self.nf(mk("index", b, mk("slice", NONE, C(-1), NONE))), v])
            if k.op == "tuple" and len(k.a) == 1:
                k = k.a[0]
            elif k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[1]) and s is not None and len(s) == 2:
                k = k.a[0]
            d = self.densestore(b, k, v)
            if d is None:
                d = self.place(b, k, v)
            return d if d is not None else mk("store", b, k, v)
        if o == "cmp":
            return self.n_cmp(t)
        if o == "sum":
            # loop sum: linear
            b = self.nf(t.a[1])
            return mk("sum", self.nf(t.a[0]), b)
        if o in ("and", "or"):
            return self.n_and(t)
        if o == "not":
            return self.n_not(t)
        if o == "loop" and len(t.a) == 4 and t.a[1] == "[]":
            x = self.fillloop(t)
            if x is not None:
                return self.nf(x)
        if o in ("mu", "loop", "last") and len(t.a) > 1 and isinstance(t.a[1], str) and t.a[1].startswith("listL"):
            return self.gen(mk(o, t.a[0], "list", *t.a[2:]))  # not the name of the allocation site
        return self.gen(t)

    def fillloop(self, t):
        """a loop that fills every row (or every column) of an array with a linear function of the same row (column) of others"""
        base, _, init, st = t.a
        if base.op != "call" or base.a[0] != "range" or len(base.a[1]) != 1 or st.op != "store" or st.a[0].op != "mu" or st.a[0].a[1:] != ("[]", init):
            return None
        s, e = self.shape(self.nf(init)), mk("elem", base)
        if s is None or len(s) != 2:
            return None
        k = st.a[1]
        full = lambda z: z.op == "slice" and all(x is NONE for x in z.a)
        if k is e or k.op == "tuple" and len(k.a) == 2 and k.a[0] is e and full(k.a[1]):
            ax = 0
        elif k.op == "tuple" and len(k.a) == 2 and k.a[1] is e and full(k.a[0]):
            ax = 1
        else:
            return None
        if self.nf(base.a[1][0]) is not s[ax]:
            return None
        has = lambda x: any(z is e or z is st.a[0] for z in subterms(x))
        T_ = lambda x: mk("attr", x, "T")

        def whole(v):
            # column e of X, as periods below each other, each multiplied by a matrix
            if ax == 1 and v.op == "method" and v.a[0] in ("reshape", "flatten", "ravel") and not v.a[3] and v.a[2] in ((), (C(-1),)) and v.a[1].op == "bin" and v.a[1].a[0] == "@" and not has(v.a[1].a[2]):
                i, A = v.a[1].a[1:]
                if i.op == "index" and not has(i.a[0]) and i.a[1].op == "tuple" and len(i.a[1].a) == 3 and full(i.a[1].a[0]) and full(i.a[1].a[1]) and i.a[1].a[2] is e:
                    U = self.nf(i.a[0])
                    X = self.stacked(U)
                    if X is not None and len(U.a[2].a) == 3:
                        return mk("bin", "@", mk("call", "numpy.kron", (mk("call", "numpy.eye", (U.a[2].a[0],), ()), T_(A)), ()), X)
                return None
            if v.op == "index" and not has(v.a[0]):
                q = v.a[1]
                if ax == 0 and (q is e or q.op == "tuple" and len(q.a) == 2 and q.a[0] is e and full(q.a[1])):
                    return v.a[0]
                if ax == 1 and q.op == "tuple" and len(q.a) == 2 and q.a[1] is e and full(q.a[0]):
                    return v.a[0]
                return None
            f = v.a[0] if v.op in ("bin", "call") else None
            a = v.a[1:] if v.op == "bin" else v.a[1] if v.op == "call" and not v.a[2] else ()
            if f in ("@", "numpy.dot", "numpy.matmul") and len(a) == 2:
                if not has(a[0]):
                    b = whole(a[1])
                    return None if b is None else mk("bin", "@", a[0], b) if ax else mk("bin", "@", b, T_(a[0]))
                if not has(a[1]):
                    b = whole(a[0])
                    return None if b is None else mk("bin", "@", b, a[1]) if not ax else mk("bin", "@", T_(a[1]), b)
                return None
            if v.op == "bin" and f in ("+", "-"):
                b, c = whole(a[0]), whole(a[1])
                return None if b is None or c is None else mk("bin", f, b, c)
            if v.op == "bin" and f in ("*", "/"):
                for i in (0, 1):
                    if not has(a[i]) and self.is_scalar(self.nf(a[i])) and (f == "*" or i == 1):
                        b = whole(a[1 - i])
                        return None if b is None else mk("bin", f, b, a[i])
                return None
            if v.op == "un" and v.a[0] == "-":
                b = whole(v.a[1])
                return None if b is None else mk("un", "-", b)
            if f == "numpy.tile" and len(a) == 2 and ax == 1 and not has(a[1]):
                b = whole(a[0])
                return None if b is None else mk("call", "numpy.kron", (mk("call", "numpy.ones", (mk("tuple", a[1], C(1)),), ()), b), ())
            return None
        return whole(st.a[2])

    def n_not(self, t):
        x = self.nf(t.a[0])
        if x in (TRUE, FALSE):
            return FALSE if x is TRUE else TRUE
        if x.op == "cmp" and x.a[0] in ("==", "!="):
            return mk("cmp", "!=" if x.a[0] == "==" else "==", *x.a[1:])
        if x.op == "cmp" and x.a[0] in ("<", "<="):
            return mk("cmp", "<=" if x.a[0] == "<" else "<", x.a[2], x.a[1])
        return x.a[0] if x.op == "not" else mk("not", x)

    def n_and(self, t):
        xs = [self.nf(x) for x in t.a]
        u, z = (TRUE, FALSE) if t.op == "and" else (FALSE, TRUE)
        if z in xs:
            return z
        xs = sorted({x for x in xs if x is not u}, key=lambda z: z.id)
        return u if not xs else xs[0] if len(xs) == 1 else mk(t.op, *xs)

    n_or = n_and

    def n_cmp(self, t):
        op, a, b = t.a[0], self.nf(t.a[1]), self.nf(t.a[2])
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if op in ("==", "!=") and a.id > b.id:
            a, b = b, a
        if a.op == "num" and b.op == "num":
            r = {"<": a.a[0] < b.a[0], "<=": a.a[0] <= b.a[0], "==": a is b, "!=": a is not b}.get(op)
            if r is not None:
                return TRUE if r else FALSE
        if a is b and a.op == "sym" and op in ("==", "!="):
            return TRUE if op == "==" else FALSE
        dim = lambda x, y: x.op == "num" and x.a[0] == 0 and y.op == "sym" and y.a[0] != "pi"
        if op in ("==", "!=") and (dim(a, b) or dim(b, a)):
            return FALSE if op == "==" else TRUE  # no empty arrays
        return mk("cmp", op, a, b)

    def n_bin(self, t):
        op = t.a[0]
        a, b = self.nf(t.a[1]), self.nf(t.a[2])
        if op in ("+", "-") and (a.op in ("poly", "fn") and b.op in ("poly", "fn", "chain")):
            sa, sb = self.shape(a), self.shape(b)
            if sa is not None and sb is not None and len(sa) == 2 and len(sb) == 1 and sa[1] is sb[0] and sa[0] is not N1 and any(x.op == "fn" and x.a[0] == "reshape" for x in subterms(a)):
                b = self.rows(b, sa[0])
        if op == "+":
            if isstr(t.a[1]) or isstr(t.a[2]) or a.op in ("list", "tuple") or b.op in ("list", "tuple"):
                return mk("bin", "+", a, b)
            return self.add(a, b)
        if op == "-":
            return self.sub(a, b)
        if op == "*":
            if a.op in ("list", "tuple") or b.op in ("list", "tuple") or isstr(t.a[1]):
                return mk("bin", "*", a, b)
            if self.sparse(t.a[1]) and not self.is_scalar(b) and self.issp(t.a[1]):
                return self.dot(a, b)
            return self.mul(a, b)
        if op == "/":
            return self.mul(a, self.power(b, -1))
        if op == "**":
            if b.op == "num" and b.a[0].denominator in (1, 2) and abs(b.a[0]) <= 16:
                return self.power(a, b.a[0])
            return mk("fn", "pow", a, b)
        if op == "@":
            return self.dot(a, b)
        if op == "//":
            q = self.mul(a, self.power(b, -1))
            if q.op == "num" and q.a[0].denominator == 1 or q.op == "sym" or (q.op == "poly" and len(q.a[0]) == 1 and q.a[0][0][0].denominator == 1
                                                                       and all(e.denominator == 1 and e > 0 for f, e in q.a[0][0][1])):
                return q
        return mk("bin", op, a, b)

    def sparse(self, t):
        return t.op == "attr" and t.a[1] == "sparse" or (t.op == "attr" and t.a[1] == "T" and self.sparse(t.a[0]))

    issp = sparse

    def n_attr(self, t):
        n = t.a[1]
        b = self.nf(t.a[0])
        if n == "T":
            return self.tr(b)
        if n == "A" or n == "sparse" and b.op == "attr" and b.a[1] == "sparse":
            return b
        if n == "real":
            return self.real(b)
        if n == "flat":
            return self.flat(b)
        if n == "shape":
            s = self.shape(b)
            if s is not None:
                return mk("tuple", *s)
            return mk("fn", "shape", b)
        if n == "ndim" and t.a[0].op in ("param", "attr") and self.shape(b) is not None:
            return num(len(self.shape(b)))
        if n == "size" and self.shape(b) is not None:
            r = N1
            for d in self.shape(b):
                r = self.mul(r, d)
            return r
        return mk("attr", b, n)

    def kwd(self, kw):
        return {k: v for k, v in kw}

    def zerodiag(self, x):
        """spatial weights have a zero diagonal"""
        return all(len([f for f, e in m if not self.is_scalar(f)]) == 1 and all(e == 1 and (f.op == "attr" and f.a[1] == "sparse" or f.op == "call" and f.a[0] == "@w_utils.symmetrize" or f.op == "param" and f.a[0] in ("W", "Wsp"))
                   for f, e in m if not self.is_scalar(f)) for c, m in self.terms(x))

    def logdet(self, x):
        if x.op == "fn" and x.a[0] == "eye":
            return N0
        return mk("fn", "logdet", x)

    def n_method(self, t):
        name, recv, args, kw = t.a
        kw = self.kwd(kw)
        if name == "full" and not args and not kw:
            return mk("tuple", self.nf(mk("attr", recv, "sparse")), self.nf(mk("attr", recv, "id_order")))
        if name == "asformat":
            return self.nf(recv)
        if name == "to_sparse" and set(kw) <= {"fmt"} and not args and recv.op == "param":
            return self.nf(mk("attr", recv, "sparse"))
        if name == "dot" and len(args) == 1:
            return self.dot(self.nf(recv), self.nf(args[0]))
        b = self.nf(recv)
        if name == "get_transform" and not args:
            return mk("attr", b, "transform")
        if name in IDENT_METHODS and not (name == "copy" and False):
            return b
        if name == "astype" or name == "squeeze" and self.is_scalar(b) and self.shape(b) is not None:
            return b
        if name == "any" and not args and not kw and b.op == "list" and b.a and all(x.op == "num" for x in b.a):
            return C(any(x is not N0 for x in b.a))
        if name == "sum":
            ax = args[0] if args else kw.get("axis")
            if ax is None or ax is NONE:
                return self.total(b)
            return self.sumaxis(b, self.nf(ax))
        if name == "mean" and not args and not kw:
            return self.mean(b)
        if name == "mean" and (len(args) == 1 and not kw or not args and set(kw) == {"axis"}):
            ax, s = self.nf(args[0] if args else kw["axis"]), self.shape(b)
            if s is not None and ax.op == "num" and 0 <= ax.a[0] < len(s):
                return self.mul(self.sumaxis(b, ax), self.power(s[int(ax.a[0])], -1))
        if name == "transpose" and not args:
            return self.tr(b)
        if name == "trace" and not args:
            return self.trace(b)
        if name == "diagonal" and not args:
            return self.diag(b)
        if name == "multiply" and len(args) == 1:
            return self.mul(b, self.nf(args[0]))
        if name == "power" and len(args) == 1:
            e = self.nf(args[0])
            if e.op == "num":
                return self.power(b, e.a[0])
        if name in ("flatten", "ravel") and not args and not kw:
            return self.flat(b)
        if name == "reshape" and (not kw or set(kw) == {"order"}):
            sh = args[0] if len(args) == 1 else mk("tuple", *args)
            if not kw or kw["order"] is C("C"):
                return self.reshape(b, self.nf(sh))
            z = self.reshapeF(b, self.nf(sh)) if kw["order"] is C("F") else None
            if z is not None:
                return z
        if name in ("max", "min") and not args and not kw:
            return mk("fn", name, b)
        if name == "tolist":
            return b
        if name == "upper" or name == "lower":
            if b.op == "method" and b.a[0] in ("upper", "lower"):
                b = b.a[1]
            return mk("method", name, b, (), ())
        return mk("method", name, b, tuple(self.args(args)), tuple(sorted((k, self.nf(v)) for k, v in kw.items())))

    def reshapeF(self, b, sh):
        """a single column with the columns of b below each other"""
        s = self.shape(b)
        if s is None or len(s) != 2 or sh.op not in ("tuple", "list") or len(sh.a) != 2 or sh.a[1] is not N1:
            return None
        if s[1].op == "num" and 1 < s[1].a[0] <= 8:
            return self.nf(mk("call", "numpy.vstack", (mk("tuple", *[mk("index", b, mk("tuple", mk("slice", NONE, NONE, NONE), mk("slice", C(i), C(i + 1), NONE))) for i in range(int(s[1].a[0]))]),), ()))
        return self.reshape(self.tr(b), sh)

    def stacked(self, v):
        """v for the matrix whose rows are consecutive pieces of the column vector v"""
        if v.op == "fn" and v.a[0] == "reshape" and v.a[2].op == "tuple":
            s = self.shape(v.a[1])
            if s is not None and len(s) == 2 and (s[1] is N1 and len(v.a[2].a) == 2 or len(v.a[2].a) == 3 and s[1] is v.a[2].a[2]):
                return v.a[1]

    def ekron(self, t, n):
        """t copies of a block of n rows below each other"""
        return mk("fn", "kron", mk("fn", "ones", mk("tuple", t, N1)), mk("fn", "eye", n))

    def rows(self, b, t):
        """t copies of a vector as the rows of a matrix"""
        n = self.shape(b)[0]
        return self.reshape(self.dot(self.ekron(t, n), self.reshape(b, mk("tuple", n, N1))), mk("tuple", t, n))

    def sumaxis(self, b, ax):
        s = self.shape(b)
        if ax is N0 and b.op == "poly" and s is not None and any(self.stacked(self.matatom(m)) is not None for c, sc, m in self.split_scalar(b) if m):
            sp = self.split_scalar(b)
            if all(m and self.shape(self.matatom(m)) == s for c, sc, m in sp):
                return self.add(*[self.mul(self.mkpoly([(c, sc)]), self.sumaxis(self.matatom(m), ax)) for c, sc, m in sp])
        v = self.stacked(b)
        if v is not None and ax is N0:
            sh = b.a[2].a
            z = self.dot(self.tr(self.ekron(sh[0], sh[1])), v)
            return z if len(sh) == 3 else self.flat(z)
        if s is not None and len(s) == 1:
            return self.total(b)
        if s is not None and len(s) == 2 and ax.op == "num":
            k = int(ax.a[0]) % 2
            if s[1 - k] is N1:
                return self.total(b)
            if s[k] is N1:
                return self.flat(b)
        return mk("fn", "sumax", b, ax)

    def mean(self, b):
        s = self.shape(b)
        if s is not None:
            n = N1
            for d in s:
                n = self.mul(n, d)
            return self.mul(self.total(b), self.power(n, -1))
        return mk("fn", "mean", b)

    def kron(self, a, b):
        """Kronecker product, linear in each factor"""
        out = []
        for ca, sa, ma in self.split_scalar(a):
            for cb, sb, mb in self.split_scalar(b):
                qa, qb = self.shape(a), self.shape(b)
                if qa is not None and not ma and (len(qa) == 0 or qa == (N1, N1)) or qb is not None and not mb and (len(qb) == 0 or qb == (N1, N1)):
                    out.append(self.mul(self.mul(self.mkpoly([(ca, sa)]), self.mkpoly([(cb, sb)])), self.mul(self.matatom(ma) if ma else N1, self.matatom(mb) if mb else N1)))
                    continue
                if not ma and (qa is None or len(qa) != 2) or not mb and (qb is None or len(qb) != 2):
                    return mk("fn", "kron", a, b)
                f = self.matatom(ma) if ma else mk("fn", "ones", mk("tuple", *qa))
                g = self.matatom(mb) if mb else mk("fn", "ones", mk("tuple", *qb))
                sf, sg = self.shape(f), self.shape(g)
                if f.op == "fn" and f.a[0] == "eye" and g.op == "fn" and g.a[0] == "eye" and len(f.a) == len(g.a) == 2:
                    k = mk("fn", "eye", self.mul(f.a[1], g.a[1]))
                elif self.is_scalar(f):
                    k = self.mul(f, g)
                elif sf is not None and sg is not None and len(sf) == len(sg) == 2 and f.op == "fn" and f.a[0] == "ones":
                    # a vector of ones (x) A is (ones (x) I) A
                    k = g
                    if sf[0] is not N1:
                        k = self.dot(mk("fn", "kron", mk("fn", "ones", mk("tuple", sf[0], N1)), mk("fn", "eye", sg[0])), k)
                    if sf[1] is not N1:
                        k = self.dot(k, mk("fn", "kron", mk("fn", "ones", mk("tuple", N1, sf[1])), mk("fn", "eye", sg[1])))
                else:
                    k = mk("fn", "kron", f, g)
                out.append(self.mul(self.mul(self.mkpoly([(ca, sa)]), self.mkpoly([(cb, sb)])), k))
        return self.add(*out)

    def n_setdata(self, t):
        b, v = self.nf(t.a[0]), self.nf(t.a[1])
        if b.op == "fn" and b.a[0] == "eye" and len(b.a) == 2:
            return self.diag(v)
        return mk("setdata", b, v)

    def diag(self, b):
        if b.op == "fn" and b.a[0] == "ones" and self.shape(b) is not None and len(self.shape(b)) == 1:
            return mk("fn", "eye", self.shape(b)[0])
        if b.op == "poly":
            s = self.split_scalar(b)
            if len(s) == 1 and s[0][2] and (s[0][1] or s[0][0] != 1):
                return self.mul(self.mkpoly([(s[0][0], s[0][1])]), self.diag(self.matatom(s[0][2])))
            shp = self.shape(b)
            if len(s) > 1 and shp is not None and len(shp) == 1:
                return self.add(*[self.mul(self.mkpoly([(c, sc)]), self.diag(self.matatom(mt)) if mt else mk("fn", "eye", shp[0])) for c, sc, mt in s])
        if b.op == "fn" and b.a[0] == "diag":
            s = self.shape(b.a[1])
            if s is not None and len(s) == 1:
                return b.a[1]
        if b.op == "fn" and b.a[0] in ("hstack", "vstack"):
            d = self.dense(b)
            if d is not None and len(d) == len(d[0]):
                return self.flat(self.undense([[d[i][i]] for i in range(len(d))]))
        if self.small and b.op == "fn" and b.a[0] == "flatten":
            d = self.dense(b.a[1])
            if d is not None and len(d[0]) == 1:
                return self.undense([[d[i][0] if i == j else N0 for j in range(len(d))] for i in range(len(d))])
        return mk("fn", "diag", b)

    def flat(self, b):
        s = self.shape(b)
        if s is not None and len(s) == 1:
            return b
        if s is not None and len(s) == 2 and s[0] is N1 and s[1] is not N1:
            return self.flat(self.tr(b))
        if b.op == "poly" and s is not None and len(s) == 2 and s[1] is N1:
            sp = self.split_scalar(b)
            if len(sp) > 1 or sp[0][1] or sp[0][0] != 1:
                return self.add(*[self.mul(self.mkpoly([(c, sc)]), self.flat(self.matatom(mt)) if mt else mk("fn", "ones", s[0])) for c, sc, mt in sp])
        if b.op == "fn" and b.a[0] in ("flatten", "reshape"):
            return self.flat(b.a[1]) if b.a[0] == "flatten" else mk("fn", "flatten", b.a[1])
        return mk("fn", "flatten", b)

    def reshape(self, b, sh):
        if sh.op == "list":
            sh = mk("tuple", *sh.a)
        elif sh.op != "tuple" and sh is not num(-1) and self.shape(sh) == SCALAR:
            sh = mk("tuple", sh)
        s = self.shape(b)
        if sh.op == "tuple" and len(sh.a) > 1 and sum(x is num(-1) for x in sh.a) == 1 and s is not None and len(s) > 1:
            q = N1
            for x in s:
                q = self.mul(q, x)
            for x in sh.a:
                if x is not num(-1):
                    q = self.mul(q, self.power(x, -1))
            if q.op == "sym" or q.op == "num" and q.a[0].denominator == 1 or q.op == "poly" and len(q.a[0]) == 1 and q.a[0][0][0].denominator == 1 and all(e > 0 for f, e in q.a[0][0][1]):
                sh = mk("tuple", *[q if x is num(-1) else x for x in sh.a])
        if b.op == "fn" and b.a[0] == "reshape" and sh.op == "tuple" and self.shape(b.a[1]) is not None:
            return self.reshape(b.a[1], sh)
        if b.op == "poly" and sh.op == "tuple" and len(sh.a) == 2 and num(-1) not in sh.a and s is not None and len(s) == 2 and (s[1] is N1 and sh.a[1] is not N1 and sh.a[0] is not N1
                                                                                            or sh.a[1] is N1 and s[1] is not N1 and s[0] is not N1):
            out = []
            for c, sc, mt in self.split_scalar(b):
                x = self.mkpoly([(c, sc)])
                for f, e in mt:
                    if self.shape(f) != s:
                        x = None
                        break
                    x = self.mul(x, self.power(self.reshape(f, sh), e))
                out.append(x)
            if None not in out and any(m for c, sc, m in self.split_scalar(b)):
                return self.add(*out)
        if sh.op == "tuple" and all(x is N1 for x in sh.a) and len(sh.a) == 2:
            if b.op in ("list", "tuple") and len(b.a) == 1:
                b = b.a[0]
            if self.is_scalar(b):
                return b
        if s is not None and sh.op == "tuple" and len(s) == len(sh.a):
            if all(x is y or y is num(-1) for x, y in zip(s, sh.a)):
                return b
        if s is not None and len(s) == 2 and s[1] is N1 and sh.op == "tuple" and len(sh.a) == 2 and sh.a[1] is N1:
            return b
        if sh.op == "tuple" and len(sh.a) == 2 and sh.a[1] is N1 and b.op == "fn" and b.a[0] == "flatten":
            s2 = self.shape(b.a[1])
            if s2 is not None and len(s2) == 2 and s2[1] is N1:
                return b.a[1]
        if s is not None and len(s) == 1 and sh.op == "tuple" and len(sh.a) == 2 and sh.a[1] is N1 and b.op == "poly":
            out = []
            for c, sc, mt in self.split_scalar(b):
                x = self.mkpoly([(c, sc)])
                for f, e in mt:
                    g = f.a[1] if f.op == "fn" and f.a[0] == "flatten" else None
                    gs = self.shape(g) if g is not None else None
                    x = self.mul(x, self.power(g, e)) if x is not None and gs is not None and len(gs) == 2 and gs[1] is N1 else None
                out.append(x if mt else None)
            if None not in out:
                return self.add(*out)
        if s is not None and len(s) == 1 and sh.op == "tuple" and len(sh.a) == 2 and sh.a[1] is N1:
            sh = mk("tuple", s[0], N1)
        if s is not None and len(s) == 1 and sh.op == "tuple" and len(sh.a) == 2 and sh.a[0] is N1 and s[0] is not N1:
            return self.tr(self.reshape(b, mk("tuple", s[0], N1)))
        if sh is num(-1) or (sh.op == "tuple" and (sh.a == (num(-1),) or len(sh.a) == 1 and s is not None and len(s) == 2 and s[1] is N1 and sh.a[0] is s[0])):
            return self.flat(b)
        return mk("fn", "reshape", b, sh)

    def numbers(self, l):
        """an array written out as rows of numbers, as a stack of 1 x 1 blocks"""
        if all(r.op == "list" and r.a and len(r.a) == len(l.a[0].a) for r in l.a):
            rows = [[self.nf(x) for x in r.a] for r in l.a]
            if all(self.is_scalar(x) and self.shape(x) is not None for r in rows for x in r):
                rows = [r[0] if len(r) == 1 else self.mkstack("hstack", r) for r in rows]
                return rows[0] if len(rows) == 1 else self.mkstack("vstack", rows)
        if len(l.a) == 1 and l.a[0].op != "list":  # one row
            v = self.nf(l.a[0])
            s = self.shape(v)
            if s is not None and len(s) == 1 and s[0] is not N1:
                return self.tr(self.reshape(v, mk("tuple", s[0], N1)))
        # elements that are the single rows of 1 x 1 results
        if all(x.op == "index" and isconst(x.a[1]) and cval(x.a[1]) == 0 and isinstance(cval(x.a[1]), int) for x in l.a) and len(l.a) > 1:
            bs = [self.nf(x.a[0]) for x in l.a]
            if all(self.shape(b) == (N1, N1) for b in bs):
                return self.mkstack("vstack", bs)
        return None

    def n_call(self, t):
        name, args, kw = t.a
        name = CALLNAME.get(name, name)
        kw = self.kwd(kw)
        if name == "libpysal.weights.set_operations.w_subset":
            kw = {k: v for k, v in kw.items() if k != "silence_warnings"}
        if name == "numpy.delete" and len(args) + len(kw) == 3 and norange(args[1]):
            return self.nf(args[0])
        if name == "@utils.inverse_prod" and args and args[0].op == "param" and self.shape(args[0]) is None:
            args = (mk("attr", args[0], "sparse"),) + tuple(args[1:])  # takes the weights object or its matrix
        if name == "scipy.optimize.minimize_scalar" and args and args[0].op == "lambda" and len(args[0].a) == 2:
            v = mk("svar", 0)
            f = mk("lambda", args[0].a[0], self.nf(self.bind(args[0].a[1], v, {})))
            return mk("call", name, (f,) + tuple(self.args(args[1:])), tuple((k, self.nf(x)) for k, x in sorted(kw.items())))
        if name == "scipy.optimize.minimize" and len(args) >= 2 and args[0].op == "lambda" and len(args[0].a) == 2:
            x0 = self.nf(args[1])
            if x0.op in ("list", "tuple"):
                f = mk("lambda", args[0].a[0], self.nf(self.bind(args[0].a[1], mk("list", *[mk("svar", i) for i in range(len(x0.a))]), {})))
                return mk("call", name, (f, x0) + tuple(self.args(args[2:])), tuple((k, self.nf(x)) for k, x in sorted(kw.items())))
        if name == "scipy.optimize.fmin_l_bfgs_b" and len(args) >= 2:
            f, x0 = self.pick(args[0]), self.nf(args[1])
            if f.op == "lambda" and len(f.a) == 2 and x0.op == "list":
                v = mk("svar", 0) if len(x0.a) == 1 else mk("list", *[mk("svar", i) for i in range(len(x0.a))])
                f = mk("lambda", f.a[0], self.objective(self.nf(self.bind(f.a[1], v, {}))))
                return mk("call", name, (f, x0) + tuple(self.args(args[2:])), tuple((k, self.nf(x)) for k, x in sorted(kw.items())))
        if name in ("scipy.sparse.lil_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix") and args:
            z = self.nf(args[0])
            if z.op == "fn" and z.a[0] == "shape" and len(z.a) == 2 and self.shape(z.a[1]) is not None:
                z = mk("tuple", *self.shape(z.a[1]))
            if z.op == "tuple" and len(z.a) == 2 and all(self.is_scalar(y) for y in z.a):
                return mk("fn", "zeros", z)
            if self.small and z.op in ("tuple", "list") and len(z.a) == 3 and "csr" in name and not len(args) > 1:
                # the elements of every row, their columns, and where each row starts
                v, ix, pt = [self.vec(y) for y in z.a]
                if v is not None and ix and pt and all(y.op == "num" for y in ix + pt) and len(v) == len(ix) == pt[-1].a[0] and pt[0] is N0 and all(p.a[0] <= q.a[0] for p, q in zip(pt, pt[1:])):
                    r, c = len(pt) - 1, 1 + max(int(y.a[0]) for y in ix)
                    sh = kw.get("shape")
                    if sh is not None:
                        sh = self.nf(sh)
                        if sh.op != "tuple" or any(y.op != "num" for y in sh.a) or sh.a[0].a[0] != r or sh.a[1].a[0] < c:
                            return mk("call", name, tuple(self.args(args)), tuple((k, self.nf(x)) for k, x in sorted(kw.items())))
                        c = int(sh.a[1].a[0])
                    d = [[N0] * c for _i in range(r)]
                    for i in range(r):
                        for j in range(int(pt[i].a[0]), int(pt[i + 1].a[0])):
                            d[i][int(ix[j].a[0])] = self.add(d[i][int(ix[j].a[0])], v[j])
                    return self.undense(d)
        if name == "scipy.sparse.dia_matrix" and args and args[0].op in ("tuple", "list") and len(args[0].a) == 2:
            v, o = self.nf(args[0].a[0]), self.nf(args[0].a[1])
            v = v.a[0] if v.op == "list" and len(v.a) == 1 else v
            if o.op == "list" and o.a == (N0,) or o is N0:
                return self.diag(self.flat(v))
        if name == "isinstance" and len(args) == 2 and args[0].op == "svar":
            return FALSE
        if name in ("numpy.dot", "scipy.sparse.csr_matrix.dot", "scipy.sparse.csc_matrix.dot", "numpy.ndarray.dot") and len(args) == 2:
            return self.dot(self.nf(args[0]), self.nf(args[1]))
        if name == "numpy.linalg.multi_dot" and len(args) == 1 and args[0].op in ("list", "tuple"):
            r = None
            for x in args[0].a:
                r = self.nf(x) if r is None else self.dot(r, self.nf(x))
            return r
        if name in INV and args:
            return self.inv(self.nf(args[0]))
        if name == "numpy.linalg.solve" and len(args) == 2:
            return self.dot(self.inv(self.nf(args[0])), self.nf(args[1]))
        if name in IDENT_CALLS and args:
            l = args[0]
            if name.startswith("numpy") and l.op == "list" and len(l.a) == 1 and l.a[0].op == "list" and len(l.a[0].a) == 1:
                x = self.nf(l.a[0].a[0])
                if self.is_scalar(x):  # a 1 x 1 array
                    return x
            if name in ("numpy.array", "numpy.asarray") and l.op == "list" and l.a:
                g = self.numbers(l)
                if g is not None:
                    return g
            if name in ("copy.copy",) or args[0].op not in ("tuple",) and not (args[0].op == "list" and name.startswith("scipy")):
                return self.nf(args[0])
        if name == "numpy.sqrt" and args:
            return self.power(self.nf(args[0]), HALF)
        if name == "numpy.square":
            return self.power(self.nf(args[0]), 2)
        if name in ("numpy.power",) and len(args) == 2:
            return self.n_bin(mk("bin", "**", args[0], args[1]))
        if name == "numpy.multiply" and len(args) == 2:
            return self.mul(self.nf(args[0]), self.nf(args[1]))
        if name == "numpy.add" and len(args) == 2:
            return self.add(self.nf(args[0]), self.nf(args[1]))
        if name == "numpy.subtract" and len(args) == 2:
            return self.sub(self.nf(args[0]), self.nf(args[1]))
        if name in ("numpy.divide", "numpy.true_divide") and len(args) == 2:
            return self.mul(self.nf(args[0]), self.power(self.nf(args[1]), -1))
        if name == "numpy.negative":
            return self.scale(Fraction(-1), self.nf(args[0]))
        if name == "numpy.diagflat" and len(args) == 1:
            x = self.nf(args[0])
            s = self.shape(x)
            if s is not None and (len(s) == 1 or len(s) == 2 and N1 in s):
                return self.diag(self.flat(x))
        if name == "numpy.fill_diagonal" and len(args) == 2:
            x, v = self.nf(args[0]), self.nf(args[1])
            s = self.shape(x)
            if s is not None and len(s) == 2 and s[0] is s[1]:
                zero = x.op == "fn" and x.a[0] == "zeros"
                off = N0 if zero else x if self.zerodiag(x) else self.sub(x, self.diag(self.diag(x)))
                vs = self.shape(v)
                if self.is_scalar(v):
                    return self.add(off, self.mul(v, mk("fn", "eye", s[0])))
                if vs is not None and (len(vs) == 1 or len(vs) == 2 and vs[1] is N1):
                    d = self.diag(v if len(vs) == 1 else self.flat(v))
                    return d if zero else self.add(off, d)
            return mk("call", name, (x, v), ())
        if name in ELEM and args:
            x = self.nf(args[0])
            if ELEM[name] == "abs":
                ts = self.terms(x)
                if len(ts) == 1 and ts[0][0] < 0:
                    x = self.scale(Fraction(-1), x)
                if x.op == "num":
                    return num(abs(x.a[0]))
            if ELEM[name] == "log":
                return self.log(x)
            if ELEM[name] == "real":
                return self.real(x)
            return mk("fn", ELEM[name], x)
        if name == "numpy.sum" and args:
            ax = args[1] if len(args) > 1 else kw.get("axis")
            if ax is None or ax is NONE:
                return self.total(self.nf(args[0]))
            return self.sumaxis(self.nf(args[0]), self.nf(ax))
        if name == "sum" and len(args) == 1:
            x = self.nf(args[0])
            if x.op in ("list", "tuple") and all(self.is_scalar(y) for y in x.a):
                return self.add(N0, *x.a)
            s = self.shape(x)
            if s is not None and len(s) == 1:
                return self.total(x)
            if s is not None and len(s) == 2 and s[1] is N1:
                return self.total(x)
            return mk("call", "sum", (x,), ())
        if name == "numpy.mean" and len(args) == 1 and not kw:
            return self.mean(self.nf(args[0]))
        if name == "numpy.trace" and args:
            return self.trace(self.nf(args[0]))
        if name == "numpy.diag" and len(args) == 1:
            return self.diag(self.nf(args[0]))
        if name == "scipy.sparse.diags" and len(args) == 1 and not kw and args[0].op in ("list", "tuple") and args[0].a and all(self.is_scalar(self.nf(z)) for z in args[0].a):
            return self.diag(self.nf(mk("tuple", *args[0].a)))
        if name == "numpy.transpose" and len(args) == 1:
            return self.tr(self.nf(args[0]))
        if name == "numpy.reshape" and len(args) == 2 and (not kw or tuple(kw) == ("order",) and kw["order"] in (C("C"), C("F"))):
            z = self.reshape(self.nf(args[0]), self.nf(args[1])) if not kw or kw["order"] is C("C") else self.reshapeF(self.nf(args[0]), self.nf(args[1]))
            if z is not None:
                return z
        if name == "numpy.ravel" and len(args) == 1 and not kw:
            return self.flat(self.nf(args[0]))
        if name in ("numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.column_stack"):
            return self.stack(name, args, kw, t)
        if name == "numpy.eye":
            x = self.nf(args[0])
            return N1 if x is N1 else mk("fn", "eye", x)
        if name in ("numpy.ones", "numpy.zeros") and args:
            x = self.nf(args[0])
            if x.op == "list":
                x = mk("tuple", *x.a)
            return mk("fn", name[6:], x)
        if name in ("numpy.ones_like", "numpy.zeros_like") and args:
            s = self.shape(self.nf(args[0]))
            if s is not None:
                return mk("fn", name[6:].split("_")[0], mk("tuple", *s))
        if name == "numpy.tile" and len(args) == 2 and not kw:
            b, r = self.nf(args[0]), self.nf(args[1])
            s = self.shape(b)
            if s is not None and len(s) == 1 and self.is_scalar(r) and s[0] is not N1:
                return self.flat(self.dot(self.ekron(r, s[0]), self.reshape(b, mk("tuple", s[0], N1))))
            if s is not None and r.op == "tuple" and len(r.a) == 2 and r.a[1] is N1 and self.is_scalar(r.a[0]):
                if len(s) == 1:
                    return self.rows(b, r.a[0])
                if len(s) == 2 and s[0] is N1 and s[1] is not N1:
                    return self.rows(self.flat(b), r.a[0])
                if len(s) == 2:
                    return self.dot(self.ekron(r.a[0], s[0]), b)
        if name in ("numpy.kron", "scipy.sparse.kron") and len(args) >= 2:
            return self.kron(self.nf(args[0]), self.nf(args[1]))
        if name == "numpy.linalg.det":
            return mk("fn", "det", self.nf(args[0]))
        if name == "len" and len(args) == 1:
            x = self.nf(args[0])
            s = self.shape(x)
            if s:
                return s[0]
            if x.op in ("list", "tuple") and all(y.op not in ("rep", "splice", "conde") for y in x.a):
                return num(len(x.a))
            return mk("fn", "len", x)
        if name == "int" and len(args) == 1:
            x = self.nf(args[0])
            if x.op in ("num", "sym") or x.op == "fn" and x.a[0] in ("shape", "len"):
                return x
            return mk("call", "int", (x,), ())
        if name.endswith("lag_spatial") and len(args) == 2:
            return self.dot(mk("attr", self.nf(args[0]), "sparse"), self.nf(args[1]))
        if name.endswith(".cdf") and name.startswith("scipy.stats."):
            base = name[:-4]
            return self.sub(N1, self.sf(base, args, kw))
        if name.endswith(".sf") and name.startswith("scipy.stats."):
            return self.sf(name[:-3], args, kw)
        if name.endswith(".pdf") and name.startswith("scipy.stats."):
            return mk("call", name, tuple(self.args(args)), tuple(sorted((k, self.nf(v)) for k, v in kw.items())))
        if name in ("max", "numpy.max") and len(args) == 1 and not kw:
            return mk("fn", "max", self.nf(args[0]))
        if name in ("min", "numpy.min") and len(args) == 1 and not kw:
            return mk("fn", "min", self.nf(args[0]))
        return mk("call", name, tuple(self.args(args)), tuple(sorted((k, self.nf(v)) for k, v in kw.items())))

    SF_PARAMS = {"scipy.stats.t": ("df",), "scipy.stats.chi2": ("df",), "scipy.stats.f": ("dfn", "dfd"), "scipy.stats.norm": ()}

    def sf(self, base, args, kw):
        a = self.args(args)
        for p in self.SF_PARAMS.get(base, ()):
            if p in kw:
                a.append(self.nf(kw[p]))
        x = a[0]
        if base in ("scipy.stats.norm", "scipy.stats.t"):
            ts = self.terms(x)
            if ts and all(c < 0 for c, m in ts) and len(ts) == 1:
                return self.sub(N1, mk("call", base + ".sf", tuple([self.scale(Fraction(-1), x)] + a[1:]), ()))
        return mk("call", base + ".sf", tuple(a), ())

    def stack(self, name, args, kw, t):
        ax = kw.get("axis", args[1] if len(args) > 1 and name == "numpy.concatenate" else None)
        x = args[0] if args else None
        kind = {"numpy.hstack": "hstack", "numpy.column_stack": "hstack", "numpy.vstack": "vstack"}.get(name)
        if kind is None:
            kind = "hstack" if ax is not None and ax.op == "const" and cval(ax) in (1, -1) else "vstack"
        x = self.nf(x) if x is not None else None
        if x is None or x.op not in ("list", "tuple"):
            return mk("call", "numpy." + kind, (x,) if x is not None else (), ())
        parts = []
        for y in x.a:
            if y.op == "fn" and y.a[0] == kind:
                parts += list(y.a[1:])
            else:
                parts.append(y)
        return self.mkstack(kind, parts)

    def n_index(self, t):
        b = self.nf(t.a[0])
        k = self.nf(t.a[1])
        if b.op == "call" and b.a[0] == "pandas.DataFrame" and len(b.a[1]) == 1 and not b.a[2] and b.a[1][0].op == "dict" and b.a[1][0].a[0] is NONE and isconst(k):
            # a column of a table built from a dictionary
            e = [x.a[1] for x in b.a[1][0].a[1:] if x.op == "ent" and x.a[0] is k and x.a[2] is NONE]
            if len(e) == 1:
                return e[0]
        if isconst(k) and k.op != "num" and isinstance(cval(k), str):
            r = self.tablecolumn(b, k)
            if r is not None:
                return r
        if k.op == "list" and len(k.a) == 1 and k.a[0].op == "splice" and k.a[0].a[0].op == "call" and k.a[0].a[0].a[0] == "range":
            r = k.a[0].a[0].a[1]
            if len(r) <= 2:
                k = mk("slice", r[0] if len(r) == 2 else N0, r[-1], NONE)
        if k.op == "slice" and self.shape(b) and k.a[1] is self.shape(b)[0]:
            k = mk("slice", k.a[0], NONE, *k.a[2:])
        if k.op == "tuple" and self.shape(b) is not None and (len(k.a) == 1 or len(k.a) == 2 and len(self.shape(b)) == 2 and self.fullslice(k.a[1])):
            k = k.a[0]
        if b.op == "fn" and b.a[0] == "hstack" and len(self.shape(b) or ()) == 2 and k.op == "list" and len(self.intlist(k) or ()) > 1:
            # rows of columns side by side
            return self.mkstack("hstack", [self.nf(mk("index", x, k)) for x in b.a[1:]])
        if b.op == "fn" and b.a[0] in ("ones", "zeros") and k.op == "list" and self.intlist(k) and len(self.shape(b) or ()) == 2:
            return self.nf(mk("call", "numpy." + b.a[0], (mk("tuple", num(len(k.a)), self.shape(b)[1]),), ()))
        if self.small and b.op in ("param", "T", "attr", "poly", "chain") and (k.op == "list" and k.a or k.op == "tuple" and len(k.a) == 2 and k.a[1].op in ("list", "slice") and k.a[0].op in ("list", "slice")):
            # rows and columns of a small matrix
            d = self.dense(b)
            ks = k.a if k.op == "tuple" else (k, mk("slice", NONE, NONE, NONE))
            if d is not None and not all(x.op == "list" for x in ks):
                r, c = self.positions(ks[0], len(d)), self.positions(ks[1], len(d[0]))
                if r and c:
                    return self.undense([[d[i][j] for j in c] for i in r])
        if k.op == "tuple" and len(k.a) == 2 and all(x.op == "num" and x.a[0] >= 0 for x in k.a) and (self.small or b.op == "fn" and b.a[0] in ("hstack", "vstack")):
            d = self.dense(b)
            if d is not None and k.a[0].a[0] < len(d) and k.a[1].a[0] < len(d[0]):
                return d[int(k.a[0].a[0])][int(k.a[1].a[0])]
        if b.op == "index" and all(z.op == "tuple" and len(z.a) == 2 and self.fullslice(z.a[0]) and z.a[1].op == "slice" and len(z.a[1].a) == 3 and z.a[1].a[2] is NONE for z in (k, b.a[1])):
            # a range of columns of a range of columns
            r = [[N0 if x is NONE else x for x in z.a[1].a[:2]] for z in (b.a[1], k)]
            if all(x.op == "num" and x.a[0] >= 0 for z in r for x in z) and r[1][1].a[0] <= r[0][1].a[0] - r[0][0].a[0]:
                return self.nf(mk("index", b.a[0], mk("tuple", k.a[0], mk("slice", self.add(r[0][0], r[1][0]), self.add(r[0][0], r[1][1]), NONE))))
        if b.op == "fn" and b.a[0] == "sumax" and b.a[2] is N0 and k.op == "num" and k.a[0] >= 0:
            x = self.columns(b.a[1], [int(k.a[0])])
            if x is not None:
                return self.total(x)
        if b.op == "call" and b.a[0] == "numpy.linalg.slogdet" and len(b.a[1]) == 1 and k is N1:
            return self.logdet(b.a[1][0])
        if b.op in ("tuple", "list") and k.op == "num" and k.a[0].denominator == 1:
            i = int(k.a[0])
            if all(y.op not in ("rep", "splice", "conde") for y in b.a) and -len(b.a) <= i < len(b.a):
                return b.a[i]
        if b.op == "fn" and b.a[0] == "shape" and k.op == "num":
            s = self.shape(b.a[1])
            if s is not None and -len(s) <= int(k.a[0]) < len(s):
                return s[int(k.a[0])]
            return mk("fn", "shape", b.a[1], k)
        if self.zero(b) and k.op == "num" and b.a[1].op in ("tuple", "list"):
            d = b.a[1].a
            return N0 if len(d) == 1 or all(x is N1 for x in d[1:]) else mk("fn", "zeros", mk("tuple", *d[1:]))
        if self.is_scalar(b) and self.shape(b) is not None and (k is N0 or (k.op == "tuple" and all(z is N0 for z in k.a))):
            return b
        s = self.shape(b)
        if s is not None and len(s) == 1 and s[0] is N1 and k is N0:
            return b
        if b.op == "fn" and b.a[0] == "vstack":
            r = self.vindex(b, k)
            if r is not None:
                return r
        if b.op == "store":
            r = self.storeindex(b, k)
            if r is not None:
                return r
        # column vector element: v[i], v[i][0], v[i,0]
        if k.op == "tuple" and len(k.a) == 2 and k.a[1] is N0 and s is not None and len(s) == 2 and s[1] is N1 and k.a[0].op != "slice":
            return mk("fn", "elem", b, k.a[0])
        if s is not None and len(s) == 2 and s[1] is N1 and k.op == "num":
            return mk("fn", "elem", b, k)
        if b.op == "fn" and b.a[0] == "elem" and k is N0:
            return b
        if s is not None and len(s) == 2 and s[0] is N1 and s[1] is not N1 and k is N0:
            return self.flat(b)
        if b.op == "phi":
            return self.mkphi(b.a[0], self.nf(mk("index", b.a[1], k)), self.nf(mk("index", b.a[2], k)))
        if k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]) and k.a[1].op == "num" and k.a[1].a[0].denominator == 1:
            r = self.column(b, int(k.a[1].a[0]))
            if r is None and s is not None and len(s) == 2 and s[1] is not N1 and k.a[1].a[0] >= 0:
                r = self.columns(b, [int(k.a[1].a[0])])
            if r is not None:
                return self.flat(r)
        if k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]):
            l = self.intlist(k.a[1])
            if l is not None and s is not None and len(s) == 2:
                r = self.columns(b, l)
                if r is not None:
                    return r
        # double integer indexing of matrices
        if b.op == "index" and b.a[1].op == "num" and k.op == "num":
            return mk("index", b.a[0], mk("tuple", b.a[1], k))
        if b.op == "fn" and b.a[0] == "hstack" and k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]):
            r = self.hslice(b, k.a[1])
            if r is not None:
                return r
        if k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]) and self.fullslice(k.a[1]):
            return b
        if s is not None and len(s) == 2 and k.op == "tuple" and len(k.a) == 2 and self.fullslice(k.a[0]) and k.a[1].op == "slice" and self.hslice(mk("fn", "hstack", b), k.a[1]) is b:
            return b
        if self.fullslice(k):
            return b
        return mk("index", b, k)

    def tablecolumn(self, b, k, depth=0):
        """column k of a data frame that is built from lists"""
        if depth > 60:
            return None
        if b.op == "store":
            if b.a[1] is k:
                return b.a[2]
            if b.a[1].op == "tuple" and len(b.a[1].a) == 3 and isconst(b.a[1].a[0]) and cval(b.a[1].a[0]) in ("@loc", "@iloc", "@at", "@iat"):
                # some rows of one column are replaced
                how, rows, col = b.a[1].a
                old = self.tablecolumn(b.a[0], k, depth + 1)
                if col.op == "method" and col.a[0] == "get_loc" and len(col.a[2]) == 1:
                    col = col.a[2][0]
                elif cval(how)[1] == "i":
                    return None
                if col is not k:
                    return old if isconst(col) else None
                rows = self.tablerows(rows)
                if old is None or old.op != "list" or not self.plainlist(old) or rows is None or any(not -len(old.a) <= i < len(old.a) for i in rows):
                    return None
                l = list(old.a)
                v = b.a[2]
                for j, i in enumerate(rows):
                    l[i] = v.a[j] if v.op == "list" and len(v.a) == len(rows) else v
                return mk("list", *l)
            return self.tablecolumn(b.a[0], k, depth + 1) if isconst(b.a[1]) and isinstance(cval(b.a[1]), str) else None
        if b.op != "call" or not isinstance(b.a[0], str):
            return None
        args, kw = b.a[1], dict(b.a[2])
        if b.a[0] == "pandas.DataFrame" and set(kw) <= {"columns"}:
            names = kw["columns"].a if "columns" in kw and kw["columns"].op in ("list", "tuple") else None
            if not args and names and k in names:
                return mk("list")
            if len(args) == 1 and args[0].op == "dict" and names is None:
                e = [x.a[1] for x in args[0].a[1:] if x.op == "ent" and x.a[0] is k and x.a[2] is NONE]
                if len(e) == 1 and args[0].a[0] is NONE:
                    if e[0].op in ("list", "tuple"):
                        return e[0]
                    # one value for every row
                    n = [len(x.a[1].a) for x in args[0].a[1:] if x.op == "ent" and x.a[1].op == "list" and self.plainlist(x.a[1])]
                    return mk("list", *[e[0]] * n[0]) if n else None
            if len(args) == 1 and args[0].op == "list" and names and len(names) == 1 and names[0] is k:
                return args[0]
        if b.a[0] == "pandas.concat" and args and args[0].op in ("list", "tuple") and self.plainlist(args[0]) and set(kw) <= {"ignore_index"}:
            cols = [self.tablecolumn(x, k, depth + 1) for x in args[0].a]
            if all(c is not None and c.op in ("list", "tuple") for c in cols):
                return mk("list", *[e for c in cols for e in c.a])
        return None

    def tablemask(self, m):
        """which rows satisfy a condition on columns of constants"""
        m = self.nf(m)
        if m.op == "list" and m.a and all(x in (TRUE, FALSE) for x in m.a):
            return [x is TRUE for x in m.a]
        if m.op == "bin" and m.a[0] in ("&", "|"):
            a, b = self.tablemask(m.a[1]), self.tablemask(m.a[2])
            return None if a is None or b is None or len(a) != len(b) else [(x and y) if m.a[0] == "&" else (x or y) for x, y in zip(a, b)]
        if m.op == "un" and m.a[0] == "~" or m.op == "fn" and m.a[0] == "~":
            a = self.tablemask(m.a[1])
            return None if a is None else [not x for x in a]
        if m.op == "cmp" and m.a[0] in ("==", "!="):
            for a, b in (m.a[1:], m.a[:0:-1]):
                if a.op == "list" and self.plainlist(a) and all(isconst(x) or x.op == "num" for x in a.a) and (isconst(b) or b.op == "num"):
                    return [(x is b) == (m.a[0] == "==") for x in a.a]
        if m.op == "method" and m.a[0] == "isin" and len(m.a[2]) == 1 and m.a[1].op == "list" and m.a[2][0].op in ("list", "tuple", "set"):
            if self.plainlist(m.a[1]) and all(isconst(x) for x in m.a[1].a + m.a[2][0].a):
                return [x in m.a[2][0].a for x in m.a[1].a]
        return None

    def tablerows(self, r):
        """row numbers of a selection of rows"""
        r = self.nf(r)
        if r.op == "num" and r.a[0].denominator == 1:
            return [int(r.a[0])]
        l = self.intlist(r)
        if l is not None:
            return l
        m = self.tablemask(r)
        if m is not None:
            return [i for i, x in enumerate(m) if x]
        if r.op == "index" and r.a[1].op == "slice" and all(x is NONE or x.op == "num" for x in r.a[1].a):
            l = self.tablerows(r.a[0])
            return None if l is None else l[slice(*[None if x is NONE else int(x.a[0]) for x in r.a[1].a])]
        if r.op == "attr" and r.a[1] == "index" and r.a[0].op == "index":
            return self.tablerows(r.a[0].a[1])  # the rows of a table are numbered from zero
        if r.op == "attr" and r.a[1] == "index":
            n = self.tablelen(r.a[0])
            return None if n is None else list(range(n))
        if r.op == "method" and r.a[0] in ("tolist", "to_list") or r.op == "call" and r.a[0] == "list":
            return self.tablerows(r.a[1] if r.op == "method" else r.a[1][0])
        return None

    def tablelen(self, t):
        while t.op == "store":
            t = t.a[0]
        if t.op == "call" and t.a[0] == "pandas.DataFrame" and t.a[1] and t.a[1][0].op == "list" and self.plainlist(t.a[1][0]):
            return len(t.a[1][0].a)
        return None

    def plainlist(self, l):
        return all(x.op not in ("rep", "splice", "conde") for x in l.a)

    def intlist(self, k):
        """a constant list of column numbers or of truth values, as a list of numbers"""
        if k.op == "call" and k.a[0] == "numpy.tile" and len(k.a[1]) == 2 and k.a[1][1].op == "num" and k.a[1][0].op in ("list", "tuple"):
            return self.intlist(mk("list", *(k.a[1][0].a * int(k.a[1][1].a[0]))))
        if k.op == "bin" and k.a[0] == "*":
            for l, n in (k.a[1:], k.a[:0:-1]):
                if l.op == "list" and n.op == "num" and n.a[0].denominator == 1 and n.a[0] >= 0:
                    return self.intlist(mk("list", *(l.a * int(n.a[0]))))
        if k.op not in ("list", "tuple") or not k.a:
            return None
        if all(x in (TRUE, FALSE) for x in k.a):
            return [i for i, x in enumerate(k.a) if x is TRUE]
        if all(x.op == "num" and x.a[0].denominator == 1 and x.a[0] >= 0 for x in k.a):
            return [int(x.a[0]) for x in k.a]
        return None

    def column(self, b, i):
        """the block that is column i of b"""
        s = self.shape(b)
        if s is not None and len(s) == 2 and s[1] is N1:
            return b if i in (0, -1) else None
        if self.blocks(b, "hstack"):
            parts = b.a[1:] if i >= 0 else b.a[:0:-1]
            n = i if i >= 0 else -i - 1
            for p in parts:
                ps = self.shape(p)
                if ps is None or len(ps) != 2 or ps[1].op != "num":
                    return None
                if ps[1] is N1 and n == 0:
                    return p
                n -= int(ps[1].a[0])
                if n < 0:
                    return None
        return None

    def columns(self, b, l):
        """b[:, l] for constant column numbers"""
        s = self.shape(b)
        if s is None or len(s) != 2:
            return None
        if s[1].op == "num" and l == list(range(int(s[1].a[0]))):
            return b
        if b.op == "chain":
            x = self.columns(b.a[-1], l)
            return None if x is None else self.dot(self.chain(list(b.a[:-1])), x)
        if b.op == "poly":
            out = []
            for c, sc, mt in self.split_scalar(b):
                if not mt:
                    return None
                x = self.mkpoly([(c, sc)])
                for f, e in mt:
                    fs = self.shape(f)
                    if fs is None or len(fs) != 2 or fs[0] is not s[0] and fs[0] is not N1 or fs[1] is not s[1] and fs[1] is not N1:
                        return None
                    f = self.columns(f, l) if fs[1] is s[1] else f
                    x = None if f is None else self.mul(x, self.power(f, e))
                    if x is None:
                        return None
                out.append(x)
            return self.add(*out)
        if b.op == "index" and b.a[1].op == "tuple" and len(b.a[1].a) == 2 and self.fullslice(b.a[1].a[0]):
            j = self.intlist(b.a[1].a[1])
            if j is not None and all(i < len(j) for i in l):
                return self.columns(b.a[0], [j[i] for i in l])
        if self.blocks(b, "hstack"):
            cols = []
            for x in b.a[1:]:
                xs = self.shape(x)
                w = N1 if xs is not None and not xs else xs[1] if xs is not None and len(xs) == 2 else None
                if w is None or w.op != "num":
                    return None
                cols += [(x, i, int(w.a[0])) for i in range(int(w.a[0]))]
            if any(i >= len(cols) for i in l):
                return None
            parts, i = [], 0
            while i < len(l):
                x = cols[l[i]][0]
                g = [cols[l[i]][1]]
                while i + 1 < len(l) and cols[l[i + 1]][0] is x and cols[l[i + 1]][1] > g[-1]:
                    i += 1
                    g.append(cols[l[i]][1])
                i += 1
                parts.append(x if cols[l[i - 1]][2] == 1 else self.columns(x, g))
            return None if any(x is None for x in parts) else parts[0] if len(parts) == 1 else self.mkstack("hstack", parts)
        if len(l) == 1:
            return mk("index", b, mk("tuple", mk("slice", NONE, NONE, NONE), mk("list", num(l[0]))))
        return mk("index", b, mk("tuple", mk("slice", NONE, NONE, NONE), mk("list", *[num(i) for i in l])))

    def vec(self, t):
        """the elements of a small vector"""
        if t.op == "splice":
            return self.vec(t.a[0])
        if t.op in ("list", "tuple"):
            out = []
            for x in t.a:
                e = self.vec(x) if x.op == "splice" else [x] if self.is_scalar(x) else None
                if e is None:
                    return None
                out += e
            return out
        s = self.shape(t)
        if t.op == "store":
            b = self.vec(t.a[0])
            i = self.positions(t.a[1], len(b)) if b is not None else None
            v = None if i is None else [t.a[2]] * len(i) if self.is_scalar(t.a[2]) else self.vec(t.a[2])
            if v is None or len(v) != len(i):
                return None
            for j, x in zip(i, v):
                b[j] = x
            return b
        if t.op == "fn" and t.a[0] == "flatten":
            if t.a[1].op == "list" and all(r.op in ("list", "tuple") and all(self.is_scalar(x) for x in r.a) for r in t.a[1].a):
                return [x for r in t.a[1].a for x in r.a]
            d = self.dense(t.a[1])
            return None if d is None else [x for r in d for x in r]
        if t.op == "call" and t.a[0] == "numpy.arange" and len(t.a[1]) == 1 and t.a[1][0].op == "num" and 0 <= t.a[1][0].a[0] <= 100:
            return [num(i) for i in range(int(t.a[1][0].a[0]))]
        if t.op == "poly" and s is None:
            v = [self.vec(f) for c, m in self.terms(t) for f, e in m if not self.is_scalar(f)]
            s = (num(len(v[0])),) if v and all(x is not None and len(x) == len(v[0]) for x in v) else None
        if s is None or len(s) != 1 or s[0].op != "num" or s[0].a[0] > 100:
            return None
        n = int(s[0].a[0])
        if t.op == "fn" and t.a[0] in ("zeros", "ones"):
            return [N0 if t.a[0] == "zeros" else N1] * n
        if t.op == "poly":
            out = [[] for i in range(n)]
            for c, m in self.terms(t):
                fs = [([f] * n if self.is_scalar(f) else self.vec(f), e) for f, e in m]
                if any(f is None or len(f) != n for f, e in fs):
                    return None
                for i in range(n):
                    x = num(c)
                    for f, e in fs:
                        x = self.mul(x, self.power(f[i], e))
                    out[i].append(x)
            return [self.add(*x) for x in out]
        return None

    def dense(self, b):
        """the elements of a small matrix, row by row"""
        s = self.shape(b)
        if s == SCALAR or (b.op != "fn" or b.a[0] not in ("hstack", "vstack")) and s is not None and all(d is N1 for d in s) and not self.small:
            return [[b]]
        if s is None or len(s) != 2 or any(d.op != "num" or d.a[0].denominator != 1 for d in s):
            return None
        r, c = int(s[0].a[0]), int(s[1].a[0])
        if r * c > 600 or r * c == 0:
            return None
        if self.small and b.op == "poly":
            x = self.elementwise(self.terms(b))
            if x is not None and x is not b:
                return self.dense(x)
        if self.small and b.op == "chain" and all(len(self.shape(f) or ()) == 2 and all(x.op == "num" for x in self.shape(f)) for f in b.a):
            ds = [self.dense(f) for f in b.a]
            if all(d is not None for d in ds):
                return functools.reduce(lambda x, y: [[self.add(*[self.mul(x[i][l], y[l][j]) for l in range(len(y))]) for j in range(len(y[0]))] for i in range(len(x))], ds)
        if self.small and b.op == "store":
            x = self.densestore(*b.a)
            if x is not None and x is not b:
                return self.dense(x)
        if self.small and (b.op != "fn" or b.a[0] not in ("zeros", "ones", "eye", "hstack", "vstack", "diag")):
            el = lambda i, j: mk("fn", "elem", b, num(i)) if c == 1 else mk("index", b, mk("tuple", num(i), num(j)))
            return [[el(min(i, j), max(i, j)) if b in self.sym or b.op == "fn" and b.a[0] == "inv" and b.a[1] in self.sym else el(i, j) for j in range(c)] for i in range(r)]
        if b.op != "fn":
            return None
        if b.a[0] == "diag" and r == c:
            v = b.a[1]
            if self.small and v.op == "poly" and self.shape(v) == (s[0],):
                v = self.flat(self.nf(mk("call", "numpy.reshape", (v, mk("tuple", s[0], N1)), ())))
            e = self.dense(v.a[1]) if v.op == "fn" and v.a[0] == "flatten" else None
            if e is not None and len(e) == r:
                return [[e[i][0] if i == j else N0 for j in range(c)] for i in range(r)]
            return None
        if b.a[0] in ("zeros", "ones"):
            return [[N0 if b.a[0] == "zeros" else N1] * c for i in range(r)]
        if b.a[0] == "eye":
            return [[N1 if i == j else N0 for j in range(c)] for i in range(r)]
        if b.a[0] in ("hstack", "vstack"):
            ps = [self.dense(x) for x in b.a[1:]]
            if any(p is None for p in ps):
                return None
            return [sum((p[i] for p in ps), []) for i in range(r)] if b.a[0] == "hstack" else [x for p in ps for x in p]
        return None

    def elementwise(self, ts):
        """a sum of products as a small matrix of sums of products"""
        dims, ones = None, False
        for c, m in ts:
            for f, e in m:
                s = self.shape(f)
                ones = ones or s == (N1, N1)
                if s is None or len(s) not in (0, 2) or any(d.op != "num" for d in s):
                    return None
                if s and not all(d is N1 for d in s):
                    if dims not in (None, s) and N1 not in s and N1 not in dims:
                        return None
                    dims = s if dims is None else self.bc([s, dims])
        if dims is None:
            if not ones:
                return None
            dims = (N1, N1)
        r, k = int(dims[0].a[0]), int(dims[1].a[0])
        if r * k > 100:
            return None
        out = [[[] for j in range(k)] for i in range(r)]
        for c, m in ts:
            fs = [(self.dense(f), e) for f, e in m]
            if any(d is None for d, e in fs):
                return None
            for i in range(r):
                for j in range(k):
                    x = num(c)
                    for d, e in fs:
                        x = self.mul(x, self.power(d[i if len(d) > 1 else 0][j if len(d[0]) > 1 else 0], e))
                    out[i][j].append(x)
        return self.undense([[self.add(*x) for x in row] for row in out])

    def undense(self, d):
        x = d[0][0]
        if x.op == "index" and self.shape(x.a[0]) == (num(len(d)), num(len(d[0]))) and d == self.dense(x.a[0]):
            return x.a[0]
        rows = [r[0] if len(r) == 1 else self.mkstack("hstack", r) for r in d]
        return rows[0] if len(rows) == 1 else self.mkstack("vstack", rows)

    def positions(self, k, n):
        if k.op == "num" and k.a[0].denominator == 1 and -n <= k.a[0] < n:
            return [int(k.a[0]) % n]
        if k.op == "slice" and all(x is NONE or x.op == "num" for x in k.a):
            return list(range(n))[slice(*[None if x is NONE else int(x.a[0]) for x in k.a])]
        l = self.intlist(k)
        return l if l is not None and all(i < n for i in l) else None

    def place(self, b, k, v):
        """values stored into disjoint known positions of an array of zeros: the order of the assignments does not matter"""
        if b.op == "fn" and b.a[0] == "place":
            base, old = b.a[1], list(zip(b.a[2::2], b.a[3::2]))
        elif self.zero(b) and b.a[0] == "zeros":
            base, old = b, []
        else:
            return None
        if self.keyset(k) is None:
            return None
        new = [(i, x) for i, x in old if i is not k]
        if not all(disjoint(self.keyset(i), self.keyset(k)) for i, x in new):
            return None
        new = sorted(new + [(k, v)], key=lambda e: [sorted(x) for x in self.keyset(e[0])])
        s = self.shape(base)
        if s is not None and len(s) == 2 and all(d.op == "num" for d in s):
            x = self.placed([int(d.a[0]) for d in s], [(self.keyset(i), x) for i, x in new])
            if x is not None:
                return x
        return mk("fn", "place", base, *[z for e in new for z in e])

    def placed(self, dims, ents):
        """... as blocks of rows, when the positions are consecutive and cover all the rows"""
        rows, at = [], 0
        for ks, v in ents:
            r = sorted(ks[0])
            c = sorted(ks[1]) if len(ks) == 2 else list(range(dims[1]))
            if r != list(range(at, at + len(r))) or c != list(range(c[0], c[0] + len(c))) or self.shape(v) != (num(len(r)), num(len(c))):
                return None
            at += len(r)
            z = lambda n: [mk("fn", "zeros", mk("tuple", num(len(r)), num(n)))] if n else []
            rows.append(self.mkstack("hstack", z(c[0]) + [v] + z(dims[1] - c[0] - len(c))) if len(c) < dims[1] else v)
        return (rows[0] if len(rows) == 1 else self.mkstack("vstack", rows)) if at == dims[0] else None

    def keyset(self, k):
        """the known rows (and columns) of an assignment"""
        out = []
        for x in k.a if k.op == "tuple" else (k,):
            if x.op == "num" and x.a[0].denominator == 1 and x.a[0] >= 0:
                out.append({int(x.a[0])})
            elif x.op == "slice" and len(x.a) == 3 and x.a[2] is NONE and x.a[1].op == "num" and x.a[1].a[0] >= 0 and (x.a[0] is NONE or x.a[0].op == "num" and x.a[0].a[0] >= 0):
                out.append(set(range(0 if x.a[0] is NONE else int(x.a[0].a[0]), int(x.a[1].a[0]))))
            elif x.op == "list" and self.intlist(x):
                out.append(set(self.intlist(x)))
            else:
                return None
        if k.op == "tuple" and sum(x.op == "list" for x in k.a) > 1:
            return None
        return out if 1 <= len(out) <= 2 and all(out) else None

    def densestore(self, b, k, v):
        """assignment to elements, rows or columns of a small matrix"""
        ks = k.a if k.op == "tuple" else (k,)
        row = v.op in ("tuple", "list") and v.a and all(self.is_scalar(x) for x in v.a)
        if len(ks) > 2 or self.shape(v) is None and not row:
            return None
        d = self.dense(b)
        if d is None:
            return None
        rows = self.positions(ks[0], len(d))
        cols = self.positions(ks[1], len(d[0])) if len(ks) == 2 else list(range(len(d[0])))
        if any(x.op == "num" and not -m <= x.a[0] < m for x, m in zip(ks, (len(d), len(d[0])))):
            return mk("fn", "outofrange", *ks)  # the assignment fails
        if rows is None or cols is None:
            return None
        s = (num(len(v.a)),) if row else self.shape(v)
        if s == SCALAR or all(x is N1 for x in s) and not row:
            get = lambda i, j: v
        elif len(s) == 1 and (row or v.op == "fn" and v.a[0] == "flatten" and self.dense(v.a[1]) is not None):
            e = list(v.a) if v.op != "fn" else [x for r in self.dense(v.a[1]) for x in r]
            if len(e) != len(cols) and len(e) != len(rows) or len(rows) > 1 and len(e) != len(cols):
                return None
            get = lambda i, j: e[j] if len(e) == len(cols) else e[i]
        else:
            e = self.dense(v)
            if e is None or (len(e), len(e[0])) != (len(rows), len(cols)):
                return None
            get = lambda i, j: e[i][j]
        d = [list(r) for r in d]
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                d[r][c] = get(i, j)
        return self.undense(d)

    def storeindex(self, b, k):
        """an element, row or column of an array some of whose elements, rows or columns were assigned"""
        while b.op == "store":
            i, v = b.a[1], b.a[2]
            ks, js = (x.a if x.op == "tuple" else (x,) for x in (k, i))
            if len(ks) != len(js):
                return None
            eq = True
            for x, y in zip(ks, js):
                if self.fullslice(x) and self.fullslice(y):
                    continue
                if x.op == "num" and y.op == "num" and x.a[0] >= 0 and y.a[0] >= 0:
                    if x is not y:
                        eq = False
                        break
                    continue
                return None
            if eq:
                return v
            b = b.a[0]
        return self.nf(mk("index", b, k))

    def fullslice(self, k):
        return k.op == "slice" and (k.a[0] is NONE or k.a[0] is N0) and k.a[1] is NONE and (len(k.a) < 3 or k.a[2] is NONE)

    def vindex(self, b, k):
        """rows of a stacked matrix"""
        if k.op == "tuple" and len(k.a) == 2 and (self.fullslice(k.a[1]) or (k.a[1] is N0 and (self.shape(b) or (0, 0))[1] is N1)):
            k = k.a[0]
        if k.op == "slice":
            return self.hslice(b, k, 0, "vstack")
        if k.op != "num":
            return None
        i = int(k.a[0])
        parts = list(b.a[1:])
        while parts:
            p = parts.pop(0 if i >= 0 else -1)
            s = self.shape(p)
            if s == SCALAR:
                s = (N1, N1)
            if s is None or len(s) != 2 or s[0].op != "num":
                return None
            h = int(s[0].a[0])
            if i in (0, -1) and h == 1:
                return p
            if (h <= i) if i >= 0 else (h < -i):
                i = i - h if i >= 0 else i + h
                continue
            return self.nf(mk("index", p, num(i)))
        return None

    def hslice(self, b, k, dim=1, kind="hstack"):
        parts = list(b.a[1:])
        if k.op != "slice" or (len(k.a) > 2 and k.a[2] is not NONE):
            return None
        lo, hi = k.a[0], k.a[1]
        ws = []
        for p in parts:
            s = self.shape(p)
            ws.append(s[dim] if s is not None and len(s) == 2 else N1 if s == SCALAR else None)
        if lo is NONE:
            i = 0
        else:
            i = self.boundary(ws, lo)
        if hi is NONE:
            j = len(parts)
        else:
            j = self.boundary(ws, hi)
        if i is None or j is None:
            return None
        if i >= j:
            return None
        return parts[i] if j - i == 1 else self.mkstack(kind, parts[i:j])


    def boundary(self, ws, x):
        """number of blocks (of widths ws) that come before position x"""
        t = N0
        for i in range(len(ws) + 1):
            if t is x and (i or x is N0):
                return i
            if i == len(ws) or ws[i] is None:
                break
            t = self.add(t, ws[i])
        t = N0
        for i in range(len(ws) - 1, -1, -1):
            if ws[i] is None:
                break
            t = self.sub(t, ws[i])
            if t is x:
                return i
        return None


# ------------------------------------------------------------------ comparison
UNKNOWN_OPS = {"rep", "mu", "loop", "last", "store", "fresh", "opaque", "unknown", "exc", "splice", "conde", "missing", "unbound", "ref", "async", "default",
               "bound", "partial", "dict", "inst", "super", "method"}


def nfsub(t):
    return {x for x in subterms(t)}


def disjoint(a, b):
    return any(not (x & y) for x, y in zip(a, b))


def same(z, a, b, depth=0):
    """equality of two normal forms as rational functions of their atoms"""
    if a is b:
        return True
    if depth > 8:
        return False
    if a.op in ("poly", "num") or b.op in ("poly", "num"):
        return same_poly(z, a, b, depth)
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("ref", "param", "const", "sym", "loop", "last"):
        return all(same_x(z, x, y, depth + 1) for x, y in zip(a.a, b.a))
    return False


def same_x(z, x, y, depth):
    if isinstance(x, T) and isinstance(y, T):
        return same(z, x, y, depth)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_x(z, p, q, depth) for p, q in zip(x, y))
    return x == y


def same_poly(z, a, b, depth):
    fa = {f for c, m in z.terms(a) for f, e in m}
    fb = {f for c, m in z.terms(b) for f, e in m}
    rep = {}
    for g in sorted(fb - fa, key=lambda t: t.id):
        for f in sorted(fa, key=lambda t: t.id):
            if f.op == g.op and f.op != "poly" and same(z, f, g, depth + 1):
                rep[g] = f
                break
    if rep:
        b = z.mkpoly([(c, z.mono_mul(tuple((rep.get(f, f), e) for f, e in m), ())) for c, m in z.terms(b)])
    d = z.sub(a, b)
    for _ in range(12):
        ts = z.terms(d)
        if not ts:
            return True
        den = {}
        for c, m in ts:
            for f, e in m:
                if f.op == "poly" and e < 0:
                    den[f] = min(den.get(f, ZERO), e)
        if not den:
            # positive integer powers of polynomials left by clearing denominators
            return False
        f = min(den, key=lambda t: t.id)
        e = den[f]
        out = []
        for c, m in ts:
            k = dict(m)
            k[f] = k.get(f, ZERO) - e
            x = z.mkpoly([(c, tuple(sorted(((g, v) for g, v in k.items() if g is not f and v != 0), key=lambda q: q[0].id)))])
            p = k[f]
            if p.denominator == 1:
                if p > 6:
                    return False
                for _i in range(int(p)):
                    x = z.mul(x, f)
            else:
                x = z.mul(x, z.mkpoly([(ONE, ((f, p),))]))
            out.append(x)
        d = z.add(*out)
        if len(z.terms(d)) > 3000:
            return False
    return False


def compare(a, b, z=None):
    """'eq' | ('diff', text) | ('und', text)"""
    if a is b or same(z or NF(), a, b):
        return "eq", ""
    sa, sb = nfsub(a), nfsub(b)
    only_a, only_b = frontier(a, sb), frontier(b, sa)
    both = call_names(sa) & call_names(sb)
    bad = [x for x in only_a | only_b if x.op in UNKNOWN_OPS and not (x.op == "method" and x.a[0] in KNOWN_METHOD) or (x.op == "call" and not known_call(x, both))]
    # a bound may be written as a choice between two values
    bad += [x for p, q in ((only_a, only_b), (only_b, only_a)) for x in p if (x.op == "call" and x.a[0] in BOUND_FN or x.op == "method" and x.a[0] == "clip") and any(y.op == "phi" for y in q)]
    txt = "got %s; expected %s" % (show_nf(a), show_nf(b))
    if bad:
        return "und", "%s [%s]" % (txt, ",".join(sorted({x.op + (":" + str(x.a[0])[:40] if x.op in ("call", "method") else "") for x in bad})[:4]))
    return "diff", txt


# external functions with a meaning of their own: a different one of these, or different arguments, is a different value;
# any other external function that occurs on one side only leaves the comparison undecided
KNOWN_FN = {"numpy." + x for x in """log exp sqrt abs absolute sum mean var std dot matmul hstack vstack ones zeros eye identity diag diagonal trace
 linalg.inv linalg.solve linalg.det linalg.slogdet linalg.eigvals linalg.cholesky prod cumsum max min amax amin sign power square array concatenate kron
 arange ones_like zeros_like multiply transpose reshape log1p expm1 dstack column_stack tile repeat delete maximum minimum fmax fmin clip nan_to_num around round floor ceil trunc rint roll flip fliplr flipud
 sort argsort median percentile quantile nanmean nansum nanvar nanstd cov corrcoef real imag tril triu cross outer linalg.norm linalg.pinv linalg.lstsq linalg.matrix_rank
 linalg.eigvalsh linalg.matrix_power linalg.svd exp2 log2 log10 cbrt square argmax argmin""".split()} \
    | {"len", "int", "sum", "max", "min", "range", "abs", "round", "isinstance", "float", "@transformed", "libpysal.weights.set_operations.w_subset"}


BOUND_FN = {"numpy." + x for x in ("maximum", "minimum", "fmax", "fmin", "clip", "nan_to_num", "max", "min", "amax", "amin")} | {"max", "min"}
KNOWN_METHOD = {"round", "clip", "cumsum", "prod", "std", "var", "argsort"}


def known_call(x, both=()):
    n = x.a[0]
    return isinstance(n, str) and (n.startswith("scipy.stats.") or n in KNOWN_FN or n in both)


def call_names(sub):
    return {x.a[0] for x in sub if x.op == "call" and isinstance(x.a[0], str)}


def frontier(t, other):
    """subterms of t that do not occur in the other term"""
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in other or x in out:
            continue
        out.add(x)
        for y in children(x):
            stack.append(y)
    return out


def show_nf(t, d=7):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return ".."
    s = lambda x: show_nf(x, d - 1)
    o = t.op
    if o == "num":
        f = t.a[0]
        return str(f) if f.denominator < 1000 else "%g" % float(f)
    if o == "sym":
        return t.a[0]
    if o == "poly":
        out = []
        for c, m in t.a[0]:
            fs = [s(f) + ("" if e == 1 else "^%s" % e) for f, e in m]
            out.append(("" if c == 1 and fs else (str(c) if abs(c.denominator) < 1000 else "%g" % float(c)) + ("*" if fs else "")) + "*".join(fs))
        return "(" + " + ".join(out) + ")"
    if o == "chain":
        return "@".join(s(x) for x in t.a)
    if o == "T":
        return s(t.a[0]) + "'"
    if o == "fn":
        return "%s(%s)" % (t.a[0], ", ".join(s(x) for x in t.a[1:]))
    if o == "param":
        return t.a[0]
    if o == "attr":
        return "%s.%s" % (s(t.a[0]), t.a[1])
    if o == "phi":
        return "{%s ? %s : %s}" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == "call":
        return "%s(%s)" % (t.a[0], ", ".join([s(x) for x in t.a[1]] + ["%s=%s" % (k, s(v)) for k, v in t.a[2]]))
    if o == "method":
        return "%s.%s(%s)" % (s(t.a[1]), t.a[0], ", ".join([s(x) for x in t.a[2]]))
    if o == "index":
        return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "cmp":
        return "(%s %s %s)" % (s(t.a[1]), t.a[0], s(t.a[2]))
    if o in ("tuple", "list"):
        return "[" + ", ".join(s(x) for x in t.a) + "]"
    if o == "const":
        return repr(t.a[1])
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, T) else str(x)[:30] for x in t.a))
