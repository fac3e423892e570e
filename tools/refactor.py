#!/usr/bin/env python3
"""tools/refactor.py KIND TREE: rewrite every function of the package in TREE
(a scratch copy) without changing what it does (development aid)"""
import ast, os, sys


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p="tmp"):
        Base.n += 1
        return f"_{p}_{Base.n}"


def name(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def assign(x, v):
    return ast.Assign([name(x, ast.Store())], v)


class ReturnVar(Base):
    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Name, ast.Constant)):
            return s
        v = self.fresh("result")
        return [assign(v, s.value), ast.Return(name(v))]


class InvertIf(Base):
    def visit_If(self, s):
        self.generic_visit(s)
        t = s.test
        if s.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), t), s.orelse, s.body)
        return ast.If(ast.UnaryOp(ast.Not(), t), [ast.Pass()], s.body)


class IndexLoop(Base):
    """for x in seq -> materialise, then index"""
    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse or "restart_files(" in ast.unparse(s.iter):  # a generator that closes its files
            return s
        l, i = self.fresh("items"), self.fresh("i")
        return [assign(l, ast.Call(name("list"), [s.iter], [])),
                ast.For(name(i, ast.Store()), ast.Call(name("range"), [ast.Call(name("len"), [name(l)], [])], []),
                        [ast.Assign([s.target], ast.Subscript(name(l), name(i), ast.Load()))] + s.body, [])]


class IterLoop(Base):
    """for x in seq -> enumerate"""
    def visit_For(self, s):
        self.generic_visit(s)
        i = self.fresh("i")
        return ast.For(ast.Tuple([name(i, ast.Store()), s.target], ast.Store()), ast.Call(name("enumerate"), [s.iter], []), s.body, s.orelse)


class CompLoop(Base):
    """assigned or returned list/dict comprehensions -> loops"""
    def stmt(self, s):
        v = getattr(s, "value", None)
        if isinstance(v, (ast.ListComp, ast.DictComp)) and all(not g.is_async for g in v.generators):
            out = self.fresh("out")
            if isinstance(v, ast.ListComp):
                init = ast.List([], ast.Load())
                body = [ast.Expr(ast.Call(ast.Attribute(name(out), "append", ast.Load()), [v.elt], []))]
            else:
                init = ast.Dict([], [])
                body = [ast.Assign([ast.Subscript(name(out), v.key, ast.Store())], v.value)]
            for g in reversed(v.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, g.iter, body, [])]
            s.value = name(out)
            return [assign(out, init)] + body + [s]
        return s

    def visit_Assign(self, s):
        return self.stmt(s)

    def visit_Return(self, s):
        return self.stmt(s)

    def visit_ClassDef(self, s):
        s.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in s.body]
        return s


class LoopComp(Base):
    """x = []; for ..: x.append(e) -> comprehension"""
    def block(self, body):
        out = []
        for s in body:
            if (isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and out and isinstance(out[-1], ast.Assign) and isinstance(out[-1].value, ast.List)
                    and not out[-1].value.elts and isinstance(out[-1].targets[0], ast.Name)):
                b = s.body[0]
                x = out[-1].targets[0].id
                app = lambda e: isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Attribute) and e.value.func.attr == "append" \
                    and isinstance(e.value.func.value, ast.Name) and e.value.func.value.id == x
                elt = ifs = None
                if app(b):
                    elt, ifs = b.value.args[0], []
                elif isinstance(b, ast.If) and len(b.body) == 1 and app(b.body[0]):
                    if not b.orelse:
                        elt, ifs = b.body[0].value.args[0], [b.test]
                    elif len(b.orelse) == 1 and app(b.orelse[0]):
                        elt, ifs = ast.IfExp(b.test, b.body[0].value.args[0], b.orelse[0].value.args[0]), []
                if elt is not None:
                    out[-1] = assign(x, ast.ListComp(elt, [ast.comprehension(s.target, s.iter, ifs, 0)]))
                    continue
            out.append(s)
        return out

    def visit_FunctionDef(self, s):
        self.generic_visit(s)
        s.body = self.block(s.body)
        return s


class Delegate(Base):
    """def f(args): body -> def f(args): return _f_impl(args)   (functions without yield, super or decorators)"""
    def visit_Module(self, m):
        m.body = self.block(m.body, False)
        return m

    def block(self, body, cls):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = self.block(s.body, True)
                out.append(s)
                continue
            if not isinstance(s, ast.FunctionDef) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for n in ast.walk(s)) or s.decorator_list or s.name.startswith("__"):
                out.append(s)
                continue
            a = s.args
            if a.posonlyargs or a.kwonlyargs:
                out.append(s)
                continue
            import copy
            impl = copy.deepcopy(s)
            impl.name = "_" + s.name.strip("_") + "_impl"
            impl.args.defaults = []
            names = [x.arg for x in a.args]
            args = [name(x) for x in names[1 if cls else 0:]]
            if a.vararg:
                args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
            kw = [ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []
            fn = ast.Attribute(name(names[0]), impl.name, ast.Load()) if cls else name(impl.name)
            doc = s.body[:1] if ast.get_docstring(s) else []
            s.body = doc + [ast.Return(ast.Call(fn, args, kw))]
            out += [impl, s] if not cls else [s, impl]
        return out


class Nothing(Base):
    """statements without effect everywhere"""
    def visit_FunctionDef(self, s):
        self.generic_visit(s)
        k = 1 if ast.get_docstring(s) else 0
        v = self.fresh("unused")
        s.body[k:k] = [assign(v, ast.Tuple([ast.Constant(1), ast.Constant("x")], ast.Load())), ast.Assert(ast.Compare(name(v), [ast.IsNot()], [ast.Constant(None)]), None)]
        return s

    def visit_For(self, s):
        self.generic_visit(s)
        s.body.append(ast.If(ast.Constant(False), [ast.Break()], []))
        return s


class MembershipOr(Base):
    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn)) and isinstance(c.comparators[0], ast.Tuple) and isinstance(c.left, (ast.Name, ast.Attribute)):
            e = ast.BoolOp(ast.Or(), [ast.Compare(c.left, [ast.Eq()], [x]) for x in c.comparators[0].elts])
            return ast.UnaryOp(ast.Not(), e) if isinstance(c.ops[0], ast.NotIn) else e
        return c


class SplitArgs(Base):
    """every call argument that is itself a call goes through a local name (simple statements only)"""
    def one(self, s):
        pre = []
        v = s.value
        if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and isinstance(v.func, (ast.Name, ast.Attribute)):
            for k, a in enumerate(v.args):
                if isinstance(a, (ast.Call, ast.Subscript, ast.BinOp)):
                    n = self.fresh("arg")
                    pre.append(assign(n, a))
                    v.args[k] = name(n)
                elif not isinstance(a, (ast.Name, ast.Constant, ast.Attribute)):
                    break
        return pre + [s]

    def visit_Assign(self, s):
        return self.one(s)

    def visit_Return(self, s):
        return self.one(s) if s.value is not None else s

    def visit_Expr(self, s):
        return self.one(s)

    def visit_ClassDef(self, s):
        s.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in s.body]
        return s

    def visit_Module(self, s):
        s.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in s.body]
        return s


class NestWith(Base):
    def visit_With(self, s):
        self.generic_visit(s)
        while len(s.items) > 1:
            last = s.items.pop()
            s.body = [ast.With([last], s.body)]
        return s


class WithTry(Base):
    """with cm as x: body -> try/finally through an ExitStack"""
    def visit_With(self, s):
        self.generic_visit(s)
        st = self.fresh("stack")
        pre = []
        for it in s.items:
            call = ast.Call(ast.Attribute(name(st), "enter_context", ast.Load()), [it.context_expr], [])
            pre.append(ast.Assign([it.optional_vars], call) if it.optional_vars is not None else ast.Expr(call))
        imp = ast.Import([ast.alias("contextlib", None)])
        return [imp, ast.With([ast.withitem(ast.Call(ast.Attribute(name("contextlib"), "ExitStack", ast.Load()), [], []), name(st, ast.Store()))], pre + s.body)]


class EarlyReturn(Base):
    """if/else whose branches both end a function: drop the else"""
    def visit_FunctionDef(self, s):
        self.generic_visit(s)
        if s.body and isinstance(s.body[-1], ast.If):
            i = s.body[-1]
            if i.orelse and isinstance(i.body[-1], (ast.Return, ast.Raise)):
                s.body += i.orelse
                i.orelse = []
        return s


class Ternary(Base):
    """a if c else b (assigned or returned) -> if statement; and if c: x = a else: x = b -> ternary"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp):
            import copy
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return s

    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        return s

    def visit_If(self, s):
        self.generic_visit(s)
        if len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s

    def visit_ClassDef(self, s):
        s.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in s.body]
        return s

    def visit_Module(self, s):
        s.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in s.body]
        return s


class AugPlain(Base):
    """x += e -> x = x + e for names and attributes"""
    def visit_AugAssign(self, s):
        if isinstance(s.target, (ast.Name, ast.Attribute)):
            import copy
            l = copy.deepcopy(s.target)
            l.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(l, s.op, s.value))
        return s


class Format(Base):
    """f-strings -> str.format"""
    def visit_JoinedStr(self, j):
        t, args = "", []
        for v in j.values:
            if isinstance(v, ast.Constant):
                t += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None and not all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return j
                spec = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                t += "{" + ("!r" if v.conversion == 114 else "") + (":" + spec if spec else "") + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])


class While(Base):
    """for x in range(..) / in sequence -> counter and while"""
    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse or any(isinstance(n, (ast.Continue, ast.Break, ast.Yield)) for n in ast.walk(s)) or "restart_files(" in ast.unparse(s.iter):
            return s
        k = self.fresh("k")
        step = ast.AugAssign(name(k, ast.Store()), ast.Add(), ast.Constant(1))
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) < 3 and isinstance(s.target, ast.Name):
            a = s.iter.args
            end = self.fresh("n")
            return [assign(k, a[0] if len(a) == 2 else ast.Constant(0)), assign(end, a[-1]),
                    ast.While(ast.Compare(name(k), [ast.Lt()], [name(end)]), [ast.Assign([s.target], name(k))] + s.body + [step], [])]
        seq = self.fresh("seq")
        return [assign(seq, ast.Call(name("list"), [s.iter], [])), assign(k, ast.Constant(0)),
                ast.While(ast.Compare(name(k), [ast.Lt()], [ast.Call(name("len"), [name(seq)], [])]),
                          [ast.Assign([s.target], ast.Subscript(name(seq), name(k), ast.Load()))] + s.body + [step], [])]


class Drain(Base):
    """for x in sequence -> while list: x = list.pop(0)"""
    def visit_For(self, s):
        self.generic_visit(s)
        if s.orelse or any(isinstance(n, (ast.Continue, ast.Break, ast.Yield, ast.Return)) for n in ast.walk(s)) or "restart_files(" in ast.unparse(s.iter):
            return s
        seq = self.fresh("todo")
        return [assign(seq, ast.Call(name("list"), [s.iter], [])),
                ast.While(name(seq), [ast.Assign([s.target], ast.Call(ast.Attribute(name(seq), "pop", ast.Load()), [ast.Constant(0)], []))] + s.body, [])]


class Rename(Base):
    """rename local variables (not parameters)"""
    def visit_FunctionDef(self, s):
        params = {a.arg for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs} | {a.arg for a in (s.args.vararg, s.args.kwarg) if a}
        if any(isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not s for n in ast.walk(s)) or any(isinstance(n, ast.Name) and n.id in ("locals", "exec") for n in ast.walk(s)):
            return s
        loc = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = "local_" + n.id
            elif isinstance(n, ast.ExceptHandler) and n.name:
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and m.id == n.name:
                        m.id = "local_" + n.name
                n.name = "local_" + n.name
        return s


class DemorganGuard(Base):
    """a and b -> not (not a or not b) in tests of if"""
    def visit_If(self, s):
        self.generic_visit(s)
        t = s.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return s


class MethodKw(Base):
    """keyword arguments in reverse order"""
    def visit_Call(self, c):
        self.generic_visit(c)
        if all(k.arg for k in c.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in c.keywords):
            c.keywords = c.keywords[::-1]
        return c


class Helper(Base):
    """every loop body of a module-level function or method becomes a call of a
    nested function (no break/continue/return/yield in it)"""
    def visit_FunctionDef(self, s):
        out = []
        self.generic_visit(s)
        loc = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for b in s.body:
            if isinstance(b, ast.For) and not b.orelse and isinstance(b.target, (ast.Name, ast.Tuple)) and not any(isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.FunctionDef)) for n in ast.walk(b)):
                tn = [n.id for n in ast.walk(b.target) if isinstance(n, ast.Name)]
                st = {n.id for x in b.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
                rest = [n.id for x in s.body if x is not b for n in ast.walk(x) if isinstance(n, ast.Name)]
                if not st & set(rest) and not set(tn) & set(rest):
                    f = self.fresh("step")
                    fd = ast.FunctionDef(f, ast.arguments([], [ast.arg(x) for x in tn], None, [], [], None, []), b.body, [], None)
                    fd.type_params = []
                    out.append(fd)
                    b.body = [ast.Expr(ast.Call(name(f), [name(x) for x in tn], []))]
            out.append(b)
        s.body = out
        return s


KINDS = {k: v for k, v in globals().items() if isinstance(v, type) and issubclass(v, Base) and v is not Base}

if __name__ == "__main__":
    if len(sys.argv) == 1:
        print(" ".join(KINDS))
        sys.exit()
    kind, tree = sys.argv[1:3]
    only = sys.argv[3:]
    for d, _, fs in os.walk(tree + "/fv3gfs/util"):
        if d.endswith("/testing"):
            continue
        for f in fs:
            if not f.endswith(".py") or f == "__init__.py" or only and f not in only:
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            t = KINDS[kind]().visit(ast.parse(src))
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n")
