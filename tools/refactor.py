"""development aid: writes a behaviour-preserving rewrite of /repo to a scratch directory (usage: refactor.py DIR KIND...)

Kinds: temps (name every assigned value first), helper (move every plain function body to a private helper), swapif (negate if/else),
loops (list comprehensions to loops), kwargs (reorder keyword arguments), rename (rename local variables), retvar (name returned values),
split (nested calls get a name), tuples (split tuple assignment), elems (a != b -> not a == b), noop"""
import ast, os, shutil, sys, random


class Fn(ast.NodeTransformer):
    def __init__(self, kinds, mod):
        self.k, self.mod, self.c, self.fn = kinds, mod, 0, []

    def new(self):
        self.c += 1
        return "_rf%d" % self.c

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r] if r is not None else []
        return out

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        names = set()
        if "rename" in self.k:
            bad = any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.FunctionDef, ast.ClassDef)) and x is not n
                      or isinstance(x, ast.Name) and x.id in ("locals", "exec", "eval", "vars") for x in ast.walk(n))
            if not bad:
                params = {a.arg for a in n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]}
                names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
                imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
                names -= imp
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id in names:
                        x.id = "rf_" + x.id
                    if isinstance(x, ast.ExceptHandler) and x.name in names:
                        x.name = "rf_" + x.name
        n.body = self.body(n.body)
        if "noop" in self.k:
            n.body.insert(1 if len(n.body) > 1 and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0, ast.parse("_rf_unused = None").body[0])
        self.fn.pop()
        if "helper" in self.k and not self.fn and not self.cls and not n.decorator_list and not n.name.startswith("_test"):
            if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                a = n.args
                if not a.vararg and not a.kwarg and not a.kwonlyargs and not a.posonlyargs:
                    ps = [x.arg for x in a.args]
                    doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
                    h = ast.FunctionDef(name="_rf_" + n.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in ps], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=n.body[len(doc):] or [ast.Pass()], decorator_list=[], type_params=[])
                    n.body = doc + [ast.Return(ast.Call(ast.Name("_rf_" + n.name, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
                    return [h, n]
        return n

    cls = 0

    def visit_ClassDef(self, n):
        self.cls += 1
        n.body = self.body(n.body)
        self.cls -= 1
        return n

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, f, None), list) and not isinstance(n, (ast.Module, ast.Lambda)):
                setattr(n, f, self.body(getattr(n, f)))
        if isinstance(n, ast.Try):
            for h in n.handlers:
                h.body = self.body(h.body)
        return n

    def visit_Module(self, n):
        n.body = self.body(n.body)
        return n

    def expr(self, e):
        if "kwargs" in self.k:
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and x.keywords and all(k.arg for k in x.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in x.keywords):
                    x.keywords = x.keywords[::-1]
        if "elems" in self.k:
            class V(ast.NodeTransformer):
                def visit_Compare(s, x):
                    s.generic_visit(x)
                    if len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                        o = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}[type(x.ops[0])]()
                        return ast.UnaryOp(ast.Not(), ast.Compare(x.left, [o], x.comparators))
                    return x
            e = V().visit(e)
        return e

    def pre(self, e, depth=0):
        """split nested calls in argument position of the outermost expression, left to right"""
        st = []
        if "split" in self.k and isinstance(e, ast.Call) and self.fn:
            simple = (ast.Name, ast.Constant, ast.Attribute)
            fixed = isinstance(e.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(e.func))
            if fixed and not any(isinstance(a, ast.Starred) for a in e.args):
                na = []
                for a in e.args:
                    if isinstance(a, (ast.Call, ast.BinOp)):
                        v = self.new()
                        st.append(ast.Assign([ast.Name(v, ast.Store())], a, lineno=0))
                        a = ast.Name(v, ast.Load())
                    elif not isinstance(a, simple):
                        return e, []
                    na.append(a)
                e.args = na
        return e, st

    def visit_Assign(self, n):
        n.value = self.expr(n.value)
        if not self.fn:
            return n
        if "loops" in self.k and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = n.value.generators[0]
            vs = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            used = [x for x in ast.walk(self.fn[0]) if isinstance(x, ast.Name) and x.id in vs]
            inside = [x for x in ast.walk(n.value) if isinstance(x, ast.Name) and x.id in vs]
            if len(used) == len(inside):
                v = self.new()
                b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [n.value.elt], []))]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                return [ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, b, [], lineno=0),
                        ast.Assign(n.targets, ast.Name(v, ast.Load()), lineno=0)]
        if "tuples" in self.k and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and all(isinstance(t, (ast.Name, ast.Attribute)) for t in n.targets[0].elts):
            v = self.new()
            return [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0)] + [
                ast.Assign([t], ast.Subscript(ast.Name(v, ast.Load()), ast.Constant(i), ast.Load()), lineno=0) for i, t in enumerate(n.targets[0].elts)]
        n.value, st = self.pre(n.value)
        if "temps" in self.k and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and not isinstance(n.value, (ast.Name, ast.Constant)):
            v = self.new()
            return st + [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Assign(n.targets, ast.Name(v, ast.Load()), lineno=0)]
        return st + [n]

    def visit_Return(self, n):
        if n.value is None or not self.fn:
            return n
        n.value = self.expr(n.value)
        n.value, st = self.pre(n.value)
        if "retvar" in self.k:
            v = self.new()
            return st + [ast.Assign([ast.Name(v, ast.Store())], n.value, lineno=0), ast.Return(ast.Name(v, ast.Load()))]
        return st + [n]

    def visit_Expr(self, n):
        n.value = self.expr(n.value)
        if self.fn:
            n.value, st = self.pre(n.value)
            return st + [n]
        return n

    def visit_If(self, n):
        n.test = self.expr(n.test)
        self.generic_visit(n)
        if "swapif" in self.k and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        if "elif" in self.k and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and False:
            pass
        return n


def main(dst, kinds):
    src = "/repo"
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(".git"))
    for f in sorted(os.listdir(os.path.join(dst, "spreg"))):
        if f.endswith(".py"):
            p = os.path.join(dst, "spreg", f)
            t = ast.parse(open(p).read())
            t = Fn(kinds, f).visit(t)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2:])
