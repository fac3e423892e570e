"""AST abstract interpreter.

Reads the repository's source with `ast` only and evaluates it over the
abstract domains of values.py / poly.py / arrays.py, partitioning traces at
undecided branches.  Nothing of the analysed code is imported or executed."""
import ast
import os
import sys
import threading
import types
from . import api_names
from .poly import Poly, Sym, Facts
from .values import *
from .values import Heap

sys.setrecursionlimit(20000)
threading.stack_size(128 * 1024 * 1024)

PKG = "fv3gfs.util"
BREAK, CONTINUE = ("break",), ("continue",)


class AbsRaise(Exception):
    """an exception of the analysed program"""

    def __init__(self, exc, node=None, site=None, implicit=False):
        super().__init__(repr(exc))
        self.exc, self.node, self.site, self.implicit = exc, node, site, implicit


class Unsupported(Exception):
    """a construct the analysis cannot interpret"""


class Infeasible(Exception):
    pass


class Restart(Exception):
    """loop summary changed: start exploring again"""


class Budget(Exception):
    pass


class PathKill(BaseException):
    pass


class Event:
    __slots__ = ("kind", "data", "site", "stack", "body", "seq")

    def __init__(self, kind, data, site, stack, seq):
        self.kind, self.data, self.site, self.stack = kind, data, site, stack
        self.body = None
        self.seq = seq

    def __getattr__(self, n):
        try:
            return self.data[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={vrepr(v) if not isinstance(v,(list,dict)) else v}' for k, v in self.data.items())})@{self.site[0]}:{self.site[1]}"


class Env:
    __slots__ = ("vars", "parent", "mod", "locals", "globals_decl", "nonlocal_decl", "is_class", "func", "is_comp", "self_cls", "args0")

    def __init__(self, mod, parent=None, locals_=(), is_class=False, func=None, is_comp=False):
        self.vars, self.parent, self.mod = {}, parent, mod
        self.locals = locals_
        self.globals_decl, self.nonlocal_decl = set(), set()
        self.is_class, self.func, self.is_comp = is_class, func, is_comp
        self.args0 = None


class Path:
    def __init__(self):
        self.decisions = []
        self.S = {}
        self.status = "ok"
        self.exc = None
        self.out = None
        self.events = []
        self.why = ""
        self.facts = None

    def desc(self):
        return "; ".join(f"{d} is {v}" for d, v, _ in self.decisions)


class Coroutine:
    """runs a generator body in its own thread, strictly alternating with the
    consumer"""

    def __init__(self, I, run, label):
        self.I, self.run, self.label = I, run, label
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.running = False
        self.inbox = None
        self.outbox = None
        self.seg = []

    def _main(self):
        self.go.acquire()
        try:
            kind, v = self.inbox
            if kind == "throw":
                raise v
            r = self.run(self)
            self.outbox = ("return", r)
        except BaseException as e:  # noqa - handed to the consumer
            self.outbox = ("raise", e)
        self.done = True
        self.back.release()

    def resume(self, kind, v):
        I = self.I
        if self.done:
            if kind == "throw":
                raise v
            return ("return", None)
        if self.running:
            raise Unsupported("generator re-entered")
        if self.thread is None:
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
            I.coros.append(self)
        base = list(I.stack)
        I.stack = base + self.seg
        outer = I.current
        I.current = self
        self.inbox = (kind, v)
        self.running = True
        self.go.release()
        self.back.acquire()
        self.running = False
        self.seg = I.stack[len(base):] if not self.done else []
        I.stack = base
        I.current = outer
        k, r = self.outbox
        if k == "raise":
            raise r
        return (k, r)

    def yield_(self, value):
        """called in the generator thread"""
        self.outbox = ("yield", value)
        self.back.release()
        self.go.acquire()
        kind, v = self.inbox
        if kind == "throw":
            raise v
        return v

    def kill(self):
        if self.thread is not None and not self.done:
            self.inbox = ("throw", PathKill())
            self.go.release()
            self.back.acquire()


class GenV(Heap):
    def __init__(self, co, name):
        self.co, self.name = co, name
        self.loops0 = None
        self.lazy = False           # the moment of each step is observable: it yields inside a with or try statement

    def __repr__(self):
        return f"<generator {self.name}>"


class BoundIter:
    pass


def unmodelled(o, name):
    """does the type o stands for have the attribute name, although the analyser has no model of it"""
    real = (list if isinstance(o, ListV) else dict if isinstance(o, DictV) else set if isinstance(o, SetV)
            else types.GeneratorType if isinstance(o, GenV) else type(o) if isinstance(o, (str, bytes, int, float, complex, tuple, slice, frozenset))
            else None)
    if real is not None:
        return hasattr(real, name)
    for c in type(o).__mro__:
        if c.__name__ in ("CommObj", "Request"):
            return not name.startswith("_")
        known = api_names.NAMES.get(API.get(c.__name__, c.__name__))
        if known is not None:
            return name in known
    return False


API = {"Scalar0": "DataArray", "DataArrayObj": "DataArray", "DatasetObj": "Dataset", "BoolArr": "ndarray", "ArrV": "ndarray",
       "VecV": "ndarray"}
_lazy_cache = {}


def yields_in_context(node):
    """does the function yield inside a with or try statement (a step then holds a resource)"""
    hit = _lazy_cache.get(id(node))
    if hit is None or hit[0] is not node:
        found = any(isinstance(y, (ast.Yield, ast.YieldFrom))
                    for x in ast.walk(node) if isinstance(x, (ast.With, ast.Try)) for y in ast.walk(x))
        hit = _lazy_cache[id(node)] = (node, found)
    return hit[1]


_scan_cache = {}


def scan_function(node):
    """(local names, is generator, globals, nonlocals)"""
    r = _scan_cache.get(node)
    if r is not None:
        return r
    names, gl, nl = set(), set(), set()
    gen = [False]

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.iter_child_nodes(n):
                walk(c, True)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and not comp:
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c, comp)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    if not isinstance(node, ast.Module):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    r = (names - gl - nl, gen[0], gl, nl)
    _scan_cache[node] = r
    return r


def assigned_names(stmts):
    out = []

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in stmts:
        walk(s)
    return list(dict.fromkeys(out))


def loop_names(s):
    r = getattr(s, "_loop_names", None)
    if r is None:
        r = s._loop_names = assigned_names(s.body) + assigned_names([s.target])
    return r


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "add", "discard", "popitem", "setdefault", "sort", "reverse"}


def while_as_for(s):
    """statements with a for loop equivalent to a while loop that counts a
    local name up or down, or that empties a list; None for other loops"""
    r = getattr(s, "_as_for", 0)
    if r == 0:
        r = s._as_for = _while_as_for(s)
        for x in r or ():
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
    return r


def _own(stmts, kinds):
    """nodes of these kinds that belong to this loop body"""
    out = []

    def walk(n, inner):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, kinds) and not (inner and isinstance(n, (ast.Break, ast.Continue))):
            out.append(n)
        for c in ast.iter_child_nodes(n):
            walk(c, inner or isinstance(n, (ast.For, ast.While)))
    for x in stmts:
        walk(x, False)
    return out


def _while_as_for(s):
    t = s.test
    if s.orelse or not s.body:
        return None
    name = lambda n, ctx=None: ast.Name(id=n, ctx=ctx or ast.Load())
    num = lambda n: ast.Constant(value=n)
    used = lambda stmts, n: any(isinstance(x, ast.Name) and x.id == n for b in stmts for x in ast.walk(b))
    # while i < n: ...; i += 1
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, op, b = t.left, t.ops[0], t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.NotEq: ast.NotEq}
        for i, o, bound in ((a, type(op), b), (b, flip.get(type(op)), a)):
            if not isinstance(i, ast.Name) or o not in flip:
                continue
            steps = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == i.id]
            asg = [x for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == i.id]
            # i = i + 1
            plain = [k for k, x in enumerate(s.body) if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == i.id
                     and isinstance(x.value, ast.BinOp) and isinstance(x.value.left, ast.Name) and x.value.left.id == i.id]
            ks = steps + plain
            if len(ks) != 1 or len(asg) != 1:
                continue
            st = s.body[ks[0]]
            sop, val = (st.op, st.value) if isinstance(st, ast.AugAssign) else (st.value.op, st.value.right)
            if not (isinstance(val, ast.Constant) and type(val.value) is int and val.value > 0 and isinstance(sop, (ast.Add, ast.Sub))):
                continue
            up = isinstance(sop, ast.Add)
            if up != (o in (ast.Lt, ast.LtE)) and o is not ast.NotEq or o is ast.NotEq and val.value != 1:
                continue
            rest = s.body[:ks[0]] + s.body[ks[0] + 1:]
            if used(s.body[ks[0] + 1:], i.id) or _own(s.body, (ast.Continue, ast.Break, ast.Yield, ast.YieldFrom, ast.Delete)):
                continue
            free = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
            if free & set(assigned_names(s.body)) or any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in free and x.attr in MUTATORS for y in s.body for x in ast.walk(y)):
                continue
            if any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(bound)):
                continue
            end = bound
            if o in (ast.LtE, ast.GtE):
                end = ast.BinOp(left=bound, op=ast.Add() if up else ast.Sub(), right=num(1))
            step = num(val.value) if up else ast.UnaryOp(op=ast.USub(), operand=num(val.value))
            tmp = f"_from_{s.lineno}"
            last = f"_to_{s.lineno}"
            loop = ast.For(target=name(i.id, ast.Store()), iter=ast.Call(func=name("range"), args=[name(tmp), name(last), step], keywords=[]), body=rest or [ast.Pass()], orelse=[], type_comment=None)
            # afterwards the counter has the first value the condition fails for
            after = ast.If(test=ast.Compare(left=name(tmp), ops=[ast.Lt() if up else ast.Gt()], comparators=[name(last)]),
                           body=[ast.Assign(targets=[name(i.id, ast.Store())], value=name(last))], orelse=[ast.Assign(targets=[name(i.id, ast.Store())], value=name(tmp))])
            if val.value != 1:
                after = ast.Delete(targets=[name(i.id, ast.Del())])
            return [ast.Assign(targets=[name(tmp, ast.Store())], value=name(i.id)), ast.Assign(targets=[name(last, ast.Store())], value=end), loop, after]
    # while names: x = names.pop(0); ...
    q = t
    if isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.ops[0], (ast.Gt, ast.NotEq)) and isinstance(q.comparators[0], ast.Constant) and q.comparators[0].value == 0:
        q = q.left
    if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == "len" and len(q.args) == 1 and not q.keywords:
        q = q.args[0]
    f = s.body[0]
    if isinstance(q, ast.Name) and isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Attribute) \
            and isinstance(f.value.func.value, ast.Name) and f.value.func.value.id == q.id and f.value.func.attr in ("pop", "popleft") and not f.value.keywords:
        args = [x.value for x in f.value.args if isinstance(x, ast.Constant)]
        first = f.value.func.attr == "popleft" or args == [0]
        if len(args) == len(f.value.args) and (first or args in ([], [-1])) and not used(s.body[1:], q.id) \
                and not _own(s.body, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) and not any(isinstance(x, ast.Name) and x.id == q.id for x in ast.walk(f.targets[0])):
            it = name(q.id) if first else ast.Call(func=name("reversed"), args=[name(q.id)], keywords=[])
            it = ast.Call(func=name("list"), args=[it], keywords=[])
            return [ast.For(target=f.targets[0], iter=it, body=s.body[1:] or [ast.Pass()], orelse=[], type_comment=None),
                    ast.Expr(value=ast.Call(func=ast.Attribute(value=name(q.id), attr="clear", ctx=ast.Load()), args=[], keywords=[]))]
    return None


LITERAL_DTYPES = {"int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "float64", "float32", "float16", "bool", "complex64", "complex128"}


PURE = {"operator", "math", "itertools", "functools", "collections", "posixpath", "string", "bisect", "heapq", "re", "fractions", "statistics", "textwrap", "fnmatch"}


def plain_const(v):
    return v is None or isinstance(v, (bool, int, float, str)) or isinstance(v, tuple) and all(map(plain_const, v))


class Interp:
    def __init__(self, root=None, absent=("cupy", "gt4py"), max_paths=3000, max_steps=400000, time_limit=90):
        from . import builtins_ as B
        from . import models as M
        from . import ext, io_models
        from . import arrays as A
        self.root = root or os.environ.get("SA_ROOT", "/repo")
        self.absent = set(absent)
        self.annotations = False
        self.max_paths, self.max_steps = max_paths, max_steps
        self.time_limit = time_limit
        self.builtins = B.make_builtins()
        self.B, self.M, self.A = B, M, A
        self.modules = {}
        self.oid = 0
        self.journal = None
        self.loop_modes = {}
        self.touched_functions = set()
        self.inject = None        # callable(I, what) -> None, may raise AbsRaise
        self.hooks = {}
        self.ext_models = dict(M.MODELS)
        self.parsed = {}
        self._reset_path([])
        self.load_errors = {}

    # ------------------------------------------------------------------ paths
    def _reset_path(self, script):
        self.idx_extra = []
        self.facts = Facts()
        self.known = {}
        self.eqc = {}
        self.script = script
        self.pos = 0
        self.decisions = []
        self.events = []
        self.allevents = self.events
        self.loops = []
        self.len_layout = {}
        self.idx_src = {}
        self.stack = []
        self.coros = []
        self.current = None
        self.steps = 0
        self.seq = 0
        self.uid = 0
        self.insts = []
        self.taken = []
        self.warned = []

    def fresh_name(self, base):
        self.uid += 1
        return f"{base}#{self.uid}"

    def new(self, obj):
        self.oid += 1
        obj.oid = self.oid
        if isinstance(obj, InstV):
            self.insts.append(obj)
        return obj

    def touch(self, obj):
        """call before mutating a heap object: journal module-level state"""
        if self.journal is not None and obj.oid <= self.base_oid and obj.oid not in self.journal:
            if isinstance(obj, (ListV, SetV)):
                snap = list(obj.items)
            elif isinstance(obj, DictV):
                snap = [list(e) for e in obj.entries]
            elif isinstance(obj, InstV):
                snap = dict(obj.attrs)
            elif isinstance(obj, (ClassV, ModV)):
                snap = dict(obj.ns)
            elif isinstance(obj, LruV):
                snap = dict(obj.cache)
            elif isinstance(obj, FuncV):
                snap = dict(obj.attrs)
            else:
                return
            self.journal[obj.oid] = (obj, snap)

    def _rollback(self):
        for obj, snap in self.journal.values():
            if isinstance(obj, (ListV, SetV)):
                obj.items = snap
            elif isinstance(obj, DictV):
                obj.entries = snap
            elif isinstance(obj, InstV):
                obj.attrs = snap
            elif isinstance(obj, (ClassV, ModV)):
                obj.ns = snap
            elif isinstance(obj, LruV):
                obj.cache = snap
            elif isinstance(obj, FuncV):
                obj.attrs = snap
        self.journal = {}

    def explore(self, driver, max_paths=None):
        """run `driver(I)` on every trace partition; returns list of Path"""
        import time
        t0 = time.time()
        max_paths = max_paths or self.max_paths
        if not self.modules:
            self.load_all()
        base = self.oid
        self.base_oid = base
        for attempt in range(40):
            paths = []
            todo = [[]]
            try:
                while todo:
                    script = todo.pop()
                    self.journal = {}
                    self.oid = base
                    self._reset_path(script)
                    p = Path()
                    self.S = p.S = {}
                    try:
                        p.out = driver(self)
                    except AbsRaise as e:
                        p.status, p.exc = "raise", e
                    except Infeasible:
                        p.status = "infeasible"
                    except Unsupported as e:
                        p.status, p.why = "undecided", str(e) + " at " + ":".join(map(str, self.site()))
                    except RecursionError:
                        p.status, p.why = "undecided", "recursion too deep"
                    finally:
                        for c in reversed(self.coros):
                            try:
                                c.kill()
                            except BaseException:
                                pass
                        self._rollback()
                        self.journal = None
                    p.decisions = [(d, v, s) for (k, d, v, s) in self.decisions]
                    p.events = self.allevents
                    p.facts = self.facts
                    if p.status != "infeasible":
                        paths.append(p)
                    for i in range(len(self.taken) - 1, len(script) - 1, -1):
                        todo.append(self.taken[:i] + [not self.taken[i]])
                    if len(paths) + len(todo) > max_paths:
                        raise Budget(f"more than {max_paths} paths")
                    if self.time_limit and time.time() - t0 > self.time_limit:
                        raise Budget("time limit")
                self.loop_modes_done = True
                return paths
            except Restart:
                self._finish_path()
                continue
        raise Budget("loop summaries did not stabilise")

    def _finish_path(self):
        for c in reversed(self.coros):
            try:
                c.kill()
            except BaseException:
                pass
        if self.journal is not None:
            self._rollback()
            self.journal = None

    # -------------------------------------------------------------- decisions
    def choose(self, key, desc):
        """trace partitioning on an undecided predicate"""
        if key in self.known:
            return self.known[key]
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = True
        self.pos += 1
        self.taken.append(v)
        self.known[key] = v
        self.decisions.append((key, desc, v, self.site()))
        return v

    def cmp_num(self, op, a, b):
        pa, pb = to_poly(a), to_poly(b)
        d = pa - pb
        F = self.facts
        s = F.sign(d)
        nd = F.norm(d)
        if op == "==":
            if s == 0:
                return True
            if s in (">", "<"):
                return False
            key = _eqkey(nd)
            if key in self.known:
                return self.known[key]
            v = self.choose(key, f"{nd!r} == 0")
            if not F.assume_eq0(nd, v):
                raise Infeasible()
            return v
        if op == ">":
            return self.cmp_num("<", b, a)
        if op == ">=":
            return not self.cmp_num("<", a, b)
        if op == "<=":
            return not self.cmp_num("<", b, a)
        if s == "<":
            return True
        if s in (0, ">", ">="):
            return False
        if s == "<=":
            return not self.cmp_num("==", a, b)
        key = ("lt0", nd.key)
        v = self.choose(key, f"{nd!r} < 0")
        ok = F.assume_nonneg(-nd - Poly.const(1)) if v else F.assume_nonneg(nd)
        if not ok:
            raise Infeasible()
        return v

    def eq(self, a, b):
        """abstract == as a decided boolean"""
        if a is b:
            return True
        A = self.A
        if isinstance(a, float) or isinstance(b, float) or isinstance(a, Frac) or isinstance(b, Frac):
            fa, fb = to_frac(a) if is_num(a) else None, to_frac(b) if is_num(b) else None
            if fa is not None and fb is not None:
                d = fa.num * fb.den - fb.num * fa.den
                if fa.ops == 0 and fb.ops == 0:
                    return self.cmp_num("==", mk(d), 0)
                if not d.t and fa.ops == fb.ops:
                    return True
                return self.choose(("feq", fa.key, fb.key), f"{a!r} == {b!r}")
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return self.cmp_num("==", a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, slice) and isinstance(b, slice):
            return self.eq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
        if isinstance(a, Term) or isinstance(b, Term):
            if not isinstance(a, Term):
                a, b = b, a
            if isinstance(b, Term) and a.key == b.key:
                return True
            if isinstance(b, Term) and a.op == b.op == "dtype" and len(a.args) == len(b.args) == 1 and a.args[0] in LITERAL_DTYPES and b.args[0] in LITERAL_DTYPES:
                return False
            if b is None:
                return self.is_none(a)
            if "const_ne" in a.info and isinstance(b, str):
                return False
            if isinstance(b, (InstV, ListV, DictV, SetV, FuncV)) and a.info.get("fresh"):
                return False
            if isinstance(b, (int, Poly)) and not isinstance(b, bool) and a.info.get("kind") == "int":
                return self.cmp_num("==", a, b)
            ka, kb = vkey(a), vkey(b)
            const = not isinstance(b, Term)
            if const and ka in self.eqc:
                return self.eqc[ka] == kb
            key = ("eq",) + tuple(sorted((ka, kb), key=repr))
            v = self.choose(key, f"{vrepr(a)} == {vrepr(b)}")
            if v and const:
                self.eqc[ka] = kb
            return v
        if isinstance(a, ListV) and isinstance(b, ListV):
            if any(isinstance(x, Rep) for x in a.items + b.items):
                if vkey(tuple(a.items)) == vkey(tuple(b.items)):
                    return True
                return self.choose(("eq", a.key, b.key), f"{a!r} == {b!r}")
            return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, SetV) and isinstance(b, SetV):
            if any(isinstance(x, Rep) for x in a.items + b.items):
                return self.choose(("eq", self.set_key(a), self.set_key(b)), f"{a!r} == {b!r}")
            return len(a.items) == len(b.items) and all(self.B.contains(self, b, x) for x in a.items)
        if isinstance(a, DictV) and isinstance(b, DictV):
            if a.base is not None or b.base is not None or any(isinstance(k, Rep) for k, _ in a.entries + b.entries):
                return self.choose(("eq", a.key, b.key), f"{a!r} == {b!r}")
            if len(a.entries) != len(b.entries):
                return False
            for k, v in a.entries:
                ok = False
                for k2, v2 in b.entries:
                    if self.eq(k, k2):
                        ok = True
                        if not self.eq(v, v2):
                            return False
                        break
                if not ok:
                    return False
            return True
        if isinstance(a, InstV) or isinstance(b, InstV):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, InstV):
                    f = self.class_lookup(x.cls, "__eq__")
                    if f is not None:
                        return self.truth(self.call(BoundV(f, x), [y], {}))
            if isinstance(a, InstV) and isinstance(b, InstV) and a.cls is b.cls:
                if a.cls.is_dataclass and a.cls.dc_eq:
                    return all(self.eq(a.attrs.get(n), b.attrs.get(n)) for n, *_ in a.cls.dc_fields)
                if "__tuple__" in a.attrs:
                    return self.eq(a.attrs["__tuple__"], b.attrs["__tuple__"])
            return False
        if isinstance(a, Obj):
            r = getattr(a, "eq", None)
            if r:
                return r(self, b)
            return a is b
        if isinstance(b, Obj):
            return self.eq(b, a)
        if isinstance(a, (ExtV, BT, BoundV, PyFn)) and isinstance(b, (ExtV, BT, BoundV, PyFn)):
            return vkey(a) == vkey(b)
        if isinstance(a, Heap) or isinstance(b, Heap):
            return a is b
        if isinstance(a, (Poly, Frac)) or isinstance(b, (Poly, Frac)):
            return False
        try:
            return bool(a == b)
        except Exception:
            return a is b

    def set_key(self, s):
        return ("set",) + tuple(sorted((vkey(x) for x in s.items), key=repr))

    def is_none(self, a):
        if a is None:
            return True
        if isinstance(a, Term) and not a.info.get("nonnull"):
            if vkey(a) in self.eqc:
                return self.eqc[vkey(a)] == vkey(None)
            v = self.choose(("isnone", a.key), f"{a!r} is None")
            if v:
                self.eqc[vkey(a)] = vkey(None)
            return v
        return False

    def is_(self, a, b):
        if b is None:
            return self.is_none(a)
        if a is None:
            return self.is_none(b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, Term) or isinstance(b, Term):
                return self.eq(a, b)
            return False
        if isinstance(a, (int, Poly, str, Term)) and isinstance(b, (int, Poly, str, Term)):
            return self.eq(a, b)
        if a is b:
            return True
        if isinstance(a, (ExtV, BT)) and isinstance(b, (ExtV, BT)):
            return vkey(a) == vkey(b)
        return False

    def truth(self, v):
        if v is None or v is Ellipsis:
            return v is Ellipsis
        if isinstance(v, (bool, int, float, str, bytes, tuple, frozenset)):
            return bool(v)
        if isinstance(v, Poly):
            return not self.cmp_num("==", v, 0)
        if isinstance(v, Frac):
            return not self.eq(v, 0)
        if isinstance(v, (ListV, SetV)):
            if any(not isinstance(x, Rep) for x in v.items):
                return True
            if not v.items:
                return False
            return self.choose(("nonempty",) + tuple(vkey(x.src) for x in v.items), f"{v!r} is not empty")
        if isinstance(v, DictV):
            if any(not isinstance(k, Rep) for k, _ in v.entries):
                return True
            if v.base is None and not v.entries:
                return False
            return self.choose(("nonempty", v.key, len(v.entries)), f"{v!r} is not empty")
        if isinstance(v, Term):
            if v.info.get("truthy"):
                return True
            if vkey(v) in self.eqc:
                c = self.eqc[vkey(v)]
                if c[0] == "c":
                    return bool(c[2])
            return self.choose(("truth", v.key), f"{v!r}")
        if isinstance(v, InstV):
            f = self.class_lookup(v.cls, "__bool__")
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            f = self.class_lookup(v.cls, "__len__")
            if f is not None:
                return self.truth(self.call(BoundV(f, v), [], {}))
            return True
        if isinstance(v, Obj):
            t = getattr(v, "truth", None)
            if t is not None:
                return t(self)
            return True
        if isinstance(v, IterV):
            return True
        return True

    # ----------------------------------------------------------------- events
    def site(self):
        if not self.stack:
            return ("?", 0)
        f = self.stack[-1]
        return (f[0], f[2])

    def where(self):
        return " < ".join(f"{s[1]}:{s[2]}" for s in reversed(self.stack[-4:]))

    def event(self, kind, **data):
        self.seq += 1
        e = Event(kind, data, self.site(), tuple((s[0], s[1], s[2]) for s in self.stack[-6:]), self.seq)
        self.events.append(e)
        h = self.hooks.get("event")
        if h:
            h(self, e)
        return e

    def begin_loop(self, src, **data):
        data.setdefault("oid0", self.oid)
        if isinstance(src, Term):
            data["idx"] = {f"{vrepr(self.binop('Sub', r.args[1], r.args[0]) if r.args[2] == 1 else self.binop('Sub', r.args[0], r.args[1]))}"
                           for r in (src.args if src.op == "nest" else (src,)) if isinstance(r, Term) and r.op == "range" and r.args[2] in (1, -1)}
        e = self.event("loop", src=src, **data)
        e.body = []
        self.loops.append((e, self.events))
        self.events = e.body
        return e

    def end_loop(self, e):
        while self.loops:
            x, outer = self.loops.pop()
            self.events = outer
            if x is e:
                return

    def raise_(self, cls, *args, implicit=True):
        if isinstance(cls, type):
            cls = BT(cls)
        exc = self.make_exc(cls, args)
        raise AbsRaise(exc, site=self.site(), implicit=implicit)

    def make_exc(self, cls, args):
        if isinstance(cls, ClassV):
            return self.call(cls, list(args), {})
        e = InstV.__new__(InstV)
        InstV.__init__(e, cls)
        self.new(e)
        e.attrs["args"] = tuple(args)
        return e

    # ---------------------------------------------------------------- modules
    def mod_path(self, name):
        base = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        return None, False

    def all_module_names(self):
        out = []
        top = os.path.join(self.root, *PKG.split("."))
        for d, _, fs in os.walk(top):
            rel = os.path.relpath(d, self.root).replace(os.sep, ".")
            if "__pycache__" in rel:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    out.append(rel if f == "__init__.py" else rel + "." + f[:-3])
        return sorted(out, key=lambda n: (n == PKG, n))

    def load_all(self):
        for n in self.all_module_names():
            if n == PKG:
                continue
            if self.mod_path(n)[1] and n != PKG:
                pass
            try:
                self.load_module(n)
            except AbsRaise as e:
                self.load_errors[n] = e
            except Unsupported as e:
                self.load_errors[n] = e

    def parse(self, path):
        t = self.parsed.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            t = ast.parse(src, path)
            self.parsed[path] = t
        return t

    def load_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            if m.state == "failed":
                raise m.error
            return m
        path, is_pkg = self.mod_path(name)
        if path is None:
            return None
        m = self.new(ModV(name, os.path.relpath(path, self.root)))
        m.is_pkg = is_pkg
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.modules[name] = m
        m.state = "loading"
        env = Env(m)
        env.vars = m.ns
        self.stack.append([m.path, "<module>", 0])
        try:
            self.exec_block(self.parse(path).body, env)
            m.state = "loaded"
        except AbsRaise as e:
            m.state, m.error = "failed", e
            raise
        except Unsupported as e:
            m.state, m.error = "failed", e
            raise
        finally:
            self.stack.pop()
        return m

    def func(self, dotted):
        """anchor lookup: 'partitioner.TilePartitioner.boundary'"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            name = PKG + "." + ".".join(parts[:i])
            if self.mod_path(name)[0]:
                v = self.load_module(name)
                rest = parts[i:]
                break
        else:
            return None
        for p in rest:
            if isinstance(v, ModV):
                v = v.ns.get(p)
            elif isinstance(v, ClassV):
                v = self.class_lookup(v, p)
            else:
                v = None
            if v is None:
                return None
        return v

    def import_module(self, name):
        """import of an absolute dotted name -> value of the *module*"""
        root = name.split(".")[0]
        if name == PKG or name.startswith(PKG + "."):
            m = self.load_module(name)
            if m is None:
                self.raise_(ModuleNotFoundError, f"No module named '{name}'")
            return m
        if root in self.absent:
            self.event("import", name=name, ok=False)
            self.raise_(ModuleNotFoundError, f"No module named '{root}'")
        self.event("import", name=name, ok=True)
        return ExtV(name)

    def exec_import(self, node, env):
        if isinstance(node, ast.Import):
            for a in node.names:
                m = self.import_module(a.name)
                if a.asname:
                    self.assign_name(a.asname, m, env)
                else:
                    top = a.name.split(".")[0]
                    self.assign_name(top, m if "." not in a.name else (ExtV(top) if isinstance(m, ExtV) else self.import_module(a.name)), env)
            return
        mod = node.module or ""
        if node.level:
            cur = env.mod.name.split(".")
            if not env.mod.is_pkg:
                cur = cur[:-1]
            cur = cur[:len(cur) - (node.level - 1)]
            mod = ".".join(cur + ([mod] if mod else []))
        if mod == "__future__":
            env.mod.future = env.mod.future | {a.name for a in node.names}
            return
        if mod == PKG or mod.startswith(PKG + "."):
            m = None
            pk = self.mod_path(mod)[1]
            for a in node.names:
                if pk and self.mod_path(mod + "." + a.name)[0]:
                    v = self.load_module(mod + "." + a.name)
                else:
                    if m is None:
                        m = self.import_module(mod)
                    if a.name == "*":
                        names = m.ns.get("__all__")
                        names = [x for x in names.items] if isinstance(names, ListV) else [k for k in m.ns if not k.startswith("_")]
                        for k in names:
                            self.assign_name(k, m.ns[k], env)
                        continue
                    if a.name not in m.ns:
                        self.raise_(ImportError, f"cannot import name '{a.name}' from '{mod}'")
                    v = m.ns[a.name]
                self.assign_name(a.asname or a.name, v, env)
            return
        m = self.import_module(mod)
        for a in node.names:
            v = self.getattr(m, a.name)
            self.assign_name(a.asname or a.name, v, env)

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            r = self.exec(s, env)
            if r is not None:
                return r
        return None

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        if self.stack:
            self.stack[-1][2] = getattr(s, "lineno", 0)
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, env)

    def x_Expr(self, s, env):
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        self.exec_import(s, env)

    x_ImportFrom = x_Import

    def x_Global(self, s, env):
        env.globals_decl.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocal_decl.update(s.names)

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if self.annotations and not isinstance(env.func, FuncV):
            self.annotation(s.annotation, env)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, env)
            self.assign(t, self.inplace(op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, old, self.ev(s.value, env)))
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, old, val):
        if isinstance(old, self.A.ArrV):
            r = self.binop(op, old, val)
            self.A.write(self, old, r)
            return old
        if isinstance(old, ListV) and op == "Add":
            self.B.list_extend(self, old, val)
            return old
        if isinstance(old, DictV) and op == "BitOr":
            self.B.dict_update(self, old, val)
            return old
        if isinstance(old, SetV) and not old.frozen and op in ("BitOr", "Sub", "BitAnd"):
            r = self.binop(op, old, val)
            self.touch(old)
            old.items = r.items
            return old
        if isinstance(old, InstV):
            name = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op)
            f = name and self.class_lookup(old.cls, name)
            if f:
                return self.call(BoundV(f, old), [val], {})
        if isinstance(old, Obj) and hasattr(old, "inplace"):
            return old.inplace(self, op, val)
        return self.binop(op, old, val)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.B.delitem(self, self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.touch(o)
                if isinstance(o, InstV) and t.attr in o.attrs:
                    del o.attrs[t.attr]
                else:
                    self.raise_(AttributeError, t.attr)
            else:
                raise Unsupported("del target")

    def x_Return(self, s, env):
        return ("return", self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        return BREAK

    def x_Continue(self, s, env):
        return CONTINUE

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            return self.exec_block(s.body, env)
        return self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_(AssertionError, *([self.ev(s.msg, env)] if s.msg else []), implicit=False)

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            for fr in reversed(self.stack):
                if len(fr) > 3 and fr[3]:
                    raise fr[3][-1]
            self.raise_(RuntimeError, "No active exception to reraise")
        v = self.ev(s.exc, env)
        cause = self.ev(s.cause, env) if s.cause is not None else None
        if isinstance(v, (BT, ClassV)):
            v = self.call(v, [], {})
        raise AbsRaise(v, s, self.site())

    def annotation(self, n, env):
        """names an annotation looks up when its definition is executed"""
        if n is None or "annotations" in env.mod.future:
            return
        if isinstance(n, (ast.Name, ast.Attribute)):
            try:
                self.ev(n, env)
            except Unsupported:
                pass
        elif isinstance(n, (ast.Subscript, ast.Tuple, ast.List, ast.BinOp, ast.Index if hasattr(ast, "Index") else ast.Tuple)):
            for c in ast.iter_child_nodes(n):
                self.annotation(c, env)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        if self.annotations:
            a = s.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                self.annotation(x and x.annotation, env)
            self.annotation(s.returns, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.assign_name(s.name, v, env)

    def decorate(self, d, v):
        return self.call(d, [v], {})

    def make_func(self, node, env, name=None):
        name = name or getattr(node, "name", "<lambda>")
        outer = env
        qual = name
        e = env
        while e is not None and e.is_comp:
            e = e.parent
        if e is not None and e.is_class:
            qual = f"{e.func}.{name}"
            outer = e.parent
        elif e is not None and isinstance(e.func, FuncV):
            qual = f"{e.func.qual}.<locals>.{name}"
        f = self.new(FuncV(node, env.mod, outer, name, qual))
        a = node.args
        f.defaults = [self.ev(x, env) for x in a.defaults]
        f.kwdefaults = {k.arg: self.ev(x, env) for k, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None}
        f.is_gen = scan_function(node)[1]
        return f

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        ce = Env(env.mod, env, is_class=True, func=s.name)
        ce.vars = {}
        cls = self.new(ClassV(s.name, bases, ce.vars, env.mod, f"{env.mod.path}:{s.name}"))
        anns = []
        ce.vars["__module__"] = env.mod.name
        self.exec_block(s.body, ce)
        cls.fields_ann = [b.target.id for b in s.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)]
        for k, v in list(cls.ns.items()):
            self._set_cls(v, cls)
        for b in bases:
            if isinstance(b, ExtV) and b.name in ("typing.NamedTuple",):
                cls.is_namedtuple = list(cls.fields_ann)
            if isinstance(b, ExtV) and b.name.startswith("enum."):
                for k, v in list(cls.ns.items()):
                    if not k.startswith("_") and isinstance(v, (int, str, tuple)):
                        if b.name in ("enum.IntEnum", "enum.IntFlag"):
                            continue
                        m = self.new(InstV(cls))
                        m.attrs.update(name=k, value=v)
                        cls.ns[k] = m
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.assign_name(s.name, v, env)

    def _set_cls(self, v, cls):
        if isinstance(v, FuncV):
            if v.cls is None:
                v.cls = cls
        elif isinstance(v, PropertyV):
            for f in (v.fget, v.fset):
                if f is not None:
                    self._set_cls(f, cls)
        elif isinstance(v, (StaticV, ClassMethodV)):
            self._set_cls(v.f, cls)
        elif isinstance(v, (LruV, CMFactory)):
            self._set_cls(v.func, cls)
        elif isinstance(v, FuncV):
            pass

    def x_For(self, s, env):
        it = self.ev(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            return self.exec_block(s.body, env)
        r = self.iterate(it, body, loc=(s, env), names=loop_names(s))
        if r is None:
            return self.exec_block(s.orelse, env)
        if r is BREAK:
            return None
        return r

    def x_While(self, s, env):
        eq = while_as_for(s)
        if eq is not None:
            return self.exec_block(eq, env)
        n = 0
        while True:
            npos = len(self.taken)
            c = self.truth(self.ev(s.test, env))
            undecided = len(self.taken) > npos
            if not c:
                return self.exec_block(s.orelse, env)
            if undecided:
                return self.generic_while(s, env)
            r = self.exec_block(s.body, env)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
            n += 1
            if n > 2000:
                raise Unsupported("while loop does not terminate abstractly")

    def generic_while(self, s, env):
        src = Term("while", (self.fresh_name(f"w{s.lineno}"),))
        e = self.begin_loop(src)
        try:
            r = self.exec_block(s.body, env)
        finally:
            self.end_loop(e)
        if r is BREAK:
            return None
        if r is not None and r is not CONTINUE:
            return r
        # leave the loop: variables assigned in it are unknown unless the
        # condition can be re-evaluated to false
        for k in range(3):
            if not self.truth(self.ev(s.test, env)):
                return self.exec_block(s.orelse, env)
            r = self.exec_block(s.body, env)
            if r is BREAK:
                return None
            if r is not None and r is not CONTINUE:
                return r
        raise Infeasible()

    # iteration -----------------------------------------------------------
    def items_of(self, it):
        """materialise an iterable into [value | Rep], consuming iterators"""
        return self.B.items_of(self, it)

    def iterate(self, it, body, loc=None, names=()):
        """run body(value) for each element; body returns a control signal.
        Returns BREAK, a return signal, or None when exhausted."""
        if isinstance(it, GenV):
            co = it.co
            try:
                while True:
                    k, v = co.resume("send", None)
                    if k == "return":
                        return None
                    r = body(v)
                    if r is not None and r is not CONTINUE:
                        self.close_gen(it)
                        return r
            except AbsRaise:
                if not co.done:
                    self.close_gen(it)
                raise
        if isinstance(it, IterV):
            while it.pos < len(it.items):
                x = it.items[it.pos]
                it.pos += 1
                r = self._one(x, body, loc, names)
                if r is not None and r is not CONTINUE:
                    return r
            return None
        if isinstance(it, InstV):
            f = self.class_lookup(it.cls, "__iter__")
            if f is not None:
                return self.iterate(self.call(BoundV(f, it), [], {}), body, loc, names)
            f = self.class_lookup(it.cls, "__next__")
            if f is not None:
                n = 0
                while True:
                    try:
                        v = self.call(BoundV(f, it), [], {})
                    except AbsRaise as e:
                        if self.exc_matches(e.exc, BT(StopIteration)):
                            return None
                        raise
                    r = body(v)
                    if r is not None and r is not CONTINUE:
                        return r
                    n += 1
                    if n > 500:
                        raise Unsupported("unbounded iterator")
        for x in self.items_of(it):
            r = self._one(x, body, loc, names)
            if r is not None and r is not CONTINUE:
                return r
        return None

    def close_gen(self, g):
        if g.co.done or g.co.thread is None:
            g.co.done = True
            return
        try:
            g.co.resume("throw", AbsRaise(self.make_exc(BT(GeneratorExit), ())))
        except AbsRaise as e:
            if not self.exc_matches(e.exc, BT(GeneratorExit)):
                raise

    def _one(self, x, body, loc, names):
        if not isinstance(x, Rep):
            return body(x)
        # generic iteration
        ctx = None
        e = self.begin_loop(x.src, elem=x.value)
        mark = self.oid
        saved = {}
        env = loc[1] if loc else None
        ctx = (id(loc[0]) if loc else 0, tuple((f[1]) for f in self.stack[-3:]))
        modes = self.loop_modes.setdefault(ctx, {})
        k = None
        for n in names:
            if env is not None and n in env.vars:
                mode = modes.get(("var", n))
                if mode is not None:
                    if mode[0] == "lin":
                        if k is None:
                            k = self.index_symbol(x)
                        env.vars[n] = self.binop("Add", env.vars[n], self.binop("Mult", mode[1], k))
                    elif mode[0] == "any":
                        env.vars[n] = Term("loopvar", (n, self.fresh_name("h")))
                saved[("var", n)] = env.vars[n]
        for o in list(self.insts):
            for a, v in list(o.attrs.items()):
                mode = modes.get(("attr", getattr(o.cls, "name", "?"), a))
                if mode is not None:
                    self.touch(o)
                    if mode[0] == "lin" and is_num(v):
                        if k is None:
                            k = self.index_symbol(x)
                        o.attrs[a] = self.binop("Add", v, self.binop("Mult", mode[1], k))
                    else:
                        o.attrs[a] = Term("loopattr", (a, self.fresh_name("h")))
        attr_saved = [(o, dict(o.attrs)) for o in self.insts]
        try:
            r = body(x.value)
        finally:
            self.end_loop(e)
        if r is not None and r is not CONTINUE:
            return r
        # loop-carried state: compare with the state at the loop head
        for n in names:
            loc_ = ("var", n)
            if loc_ in saved and env is not None and n in env.vars:
                self._carry(modes, loc_, saved[loc_], env.vars[n])
        for o, before in attr_saved:
            for a, v in o.attrs.items():
                if a in before and before[a] is not v and vkey(before[a]) != vkey(v):
                    if o.cls and isinstance(o.cls, ClassV):
                        self._carry(modes, ("attr", o.cls.name, a), before[a], v)
        # after the loop linear variables have an unknown number of steps
        for n in names:
            mode = modes.get(("var", n))
            if mode is not None and env is not None and n in env.vars and ("var", n) in saved:
                if mode[0] == "any":
                    env.vars[n] = Term("afterloop", (n, self.fresh_name("h")))
        return None

    def index_symbol(self, rep):
        s = Sym(self.fresh_name("k"))
        self.facts.declare(s, lo=0)
        return Poly.atom(s)

    def _carry(self, modes, loc, before, after):
        if vkey(before) == vkey(after):
            return
        cur = modes.get(loc)
        if cur is not None and cur[0] == "any":
            return
        if is_num(before) and is_num(after) and not isinstance(before, (float, Frac)) and not isinstance(after, (float, Frac)):
            d = self.binop("Sub", after, before)
            if isinstance(d, int):
                if cur is None:
                    modes[loc] = ("lin", d)
                    raise Restart()
                if cur[0] == "lin" and cur[1] == d:
                    return
        elif isinstance(before, (ListV, DictV, SetV, InstV)) and before is after:
            return
        elif cur is None and loc[0] == "var" and isinstance(after, (ListV, DictV, SetV, InstV, tuple, FuncV, self.A.ArrV)) and not is_num(before):
            # rebinding to a fresh object each iteration: value of the head
            # state may be any earlier one
            pass
        modes[loc] = ("any",)
        raise Restart()

    # try / with -----------------------------------------------------------
    def x_Try(self, s, env):
        sig = None
        pending = None
        try:
            try:
                sig = self.exec_block(s.body, env)
            except AbsRaise as e:
                depth_stack = self.stack
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, env)):
                        self.event("caught", exc=e.exc, handler=h.lineno)
                        if h.name:
                            self.assign_name(h.name, e.exc, env)
                        fr = self.stack[-1]
                        while len(fr) < 4:
                            fr.append([])
                        fr[3].append(e)
                        try:
                            sig = self.exec_block(h.body, env)
                        finally:
                            fr[3].pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if sig is None:
                    sig = self.exec_block(s.orelse, env)
        except AbsRaise as e:
            pending = e
        except (Unsupported, Infeasible, Restart, Budget, PathKill):
            raise
        if s.finalbody:
            f = self.exec_block(s.finalbody, env)
            if f is not None:
                return f
        if pending is not None:
            raise pending
        return sig

    def exc_class(self, exc):
        if isinstance(exc, InstV):
            return exc.cls
        return None

    def exc_matches(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.exc_matches(exc, t) for t in typ)
        c = self.exc_class(exc)
        if c is None:
            if isinstance(exc, Term):
                return self.choose(("excmatch", exc.key, vkey(typ)), f"{exc!r} is a {typ!r}")
            return False
        return self.issub(c, typ)

    def issub(self, c, typ):
        if isinstance(typ, tuple):
            return any(self.issub(c, t) for t in typ)
        if isinstance(c, ClassV):
            for b in c.mro():
                if b is typ or (not isinstance(b, ClassV) and self.issub(b, typ)):
                    return True
            return isinstance(typ, BT) and typ.t is object
        if isinstance(c, BT) and isinstance(typ, BT):
            try:
                return issubclass(c.t, typ.t)
            except TypeError:
                return False
        if isinstance(c, ExtV) and isinstance(typ, ExtV):
            if c.name == typ.name:
                return True
            r = self.M.ext_subclass(self, c.name, typ.name)
            if r is not None:
                return r
            return self.choose(("issub", c.name, typ.name), f"{c.name} is a subclass of {typ.name}")
        if isinstance(c, ExtV) and isinstance(typ, BT):
            if typ.t is object:
                return True
            r = self.M.ext_subclass(self, c.name, "builtins." + typ.t.__name__)
            return bool(r)
        if isinstance(c, BT) and isinstance(typ, ExtV):
            r = self.M.bt_ext(self, c.t, typ.name)
            return bool(r)
        if isinstance(c, Term) or isinstance(typ, Term):
            return self.choose(("issub", vkey(c), vkey(typ)), f"issubclass({c!r}, {typ!r})")
        return False

    def x_With(self, s, env, i=0):
        if i == len(s.items):
            return self.exec_block(s.body, env)
        item = s.items[i]
        cm = self.ev(item.context_expr, env)
        enter, exit_ = self.cm_protocol(cm)
        v = enter()
        if item.optional_vars is not None:
            try:
                self.assign(item.optional_vars, v, env)
            except AbsRaise as e:
                if not exit_(e):
                    raise
                return None
        try:
            sig = self.x_With(s, env, i + 1)
        except AbsRaise as e:
            if exit_(e):
                return None
            raise
        self.stack[-1][2] = getattr(s, "lineno", 0)
        exit_(None)
        return sig

    def cm_protocol(self, cm):
        """(enter(), exit(exc or None) -> suppressed)"""
        if isinstance(cm, InstV) and cm.cls is self.M.GCM:
            gen = cm.attrs["gen"]

            def enter():
                k, v = gen.co.resume("send", None)
                if k == "return":
                    self.raise_(RuntimeError, "generator didn't yield")
                return v

            def exit_(e):
                if e is None:
                    k, v = gen.co.resume("send", None)
                    if k == "yield":
                        self.raise_(RuntimeError, "generator didn't stop")
                    return False
                try:
                    k, v = gen.co.resume("throw", e)
                except AbsRaise as e2:
                    if e2 is e or e2.exc is e.exc:
                        return False
                    raise
                if k == "yield":
                    self.raise_(RuntimeError, "generator didn't stop after throw()")
                return True
            return enter, exit_
        if isinstance(cm, InstV):
            fe = self.class_lookup(cm.cls, "__enter__")
            fx = self.class_lookup(cm.cls, "__exit__")
            if fe is None or fx is None:
                self.raise_(AttributeError, "__enter__")

            def exit_(e):
                if e is None:
                    self.call(BoundV(fx, cm), [None, None, None], {})
                    return False
                return self.truth(self.call(BoundV(fx, cm), [self.exc_class(e.exc), e.exc, Term("traceback", ())], {}))
            return (lambda: self.call(BoundV(fe, cm), [], {})), exit_
        if isinstance(cm, Obj):
            fe = cm.getattr(self, "__enter__")
            fx = cm.getattr(self, "__exit__")
            if fe is NotImplemented or fx is NotImplemented:
                raise Unsupported(f"with {cm!r}")

            def exit_(e):
                r = self.call(fx, [None, None, None] if e is None else [self.exc_class(e.exc), e.exc, Term("traceback", ())], {})
                return e is not None and self.truth(r)
            return (lambda: self.call(fe, [], {})), exit_
        if isinstance(cm, Term):
            self.event("enter", cm=cm)

            def exit_(e):
                self.event("exit", cm=cm, exc=e.exc if e else None)
                return False
            return (lambda: Term("entered", (cm,), {"nonnull": True})), exit_
        raise Unsupported(f"with {cm!r}")

    def x_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                return self.exec_block(c.body, env)
        return None

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.ev(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.assign_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if isinstance(v, (tuple, ListV)):
                items = list(v) if isinstance(v, tuple) else v.items
                return len(items) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------- assignment
    def assign_name(self, name, v, env):
        e = env
        while e.is_comp:
            e = e.parent
        if name in e.globals_decl:
            self.touch(e.mod)
            e.mod.ns[name] = v
            return
        if name in e.nonlocal_decl:
            q = e.parent
            while q is not None:
                if name in q.vars or name in q.locals:
                    q.vars[name] = v
                    return
                q = q.parent
        e.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if env.is_comp:
                env.vars[t.id] = v
            else:
                self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        if isinstance(v, Term):
            if v.op == "pair" and len(elts) == len(v.args):
                items = list(v.args)
            elif any(isinstance(e, ast.Starred) for e in elts):
                raise Unsupported("starred unpacking of an unknown value")
            else:
                items = [Term("item", (v, i)) for i in range(len(elts))]
        else:
            items = self.items_of(v)
            if any(isinstance(x, Rep) for x in items):
                if len(items) == 1:
                    # unknown number of elements: assume it fits
                    items = [Term("nth", (items[0].src, i)) for i in range(len(elts))]
                else:
                    raise Unsupported("unpacking a sequence of unknown length")
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(items) < len(elts) - 1:
                self.raise_(ValueError, "not enough values to unpack")
            mid = items[i:len(items) - after]
            seq = items[:i] + [self.new(ListV(mid))] + items[len(items) - after:]
            for e, x in zip(elts, seq):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
            return
        if len(items) != len(elts):
            self.raise_(ValueError, f"unpack: expected {len(elts)} values, got {len(items)}")
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def load_name(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.globals_decl:
                break
            if not (e.is_class and not first) or e is env:
                if name in e.vars:
                    return e.vars[name]
                if name in e.locals and name not in e.nonlocal_decl:
                    self.raise_(UnboundLocalError, f"local variable '{name}' referenced before assignment")
            if not e.is_comp:
                first = False
            e = e.parent
        if name in env.mod.ns:
            return env.mod.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        self.raise_(NameError, f"name '{name}' is not defined")

    def e_Name(self, e, env):
        return self.load_name(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.seqv(e.elts, env))

    def e_List(self, e, env):
        return self.new(ListV(self.seqv(e.elts, env, True)))

    def e_Set(self, e, env):
        s = self.new(SetV())
        for x in self.seqv(e.elts, env):
            self.B.set_add(self, s, x)
        return s

    def seqv(self, elts, env, rep_ok=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.items_of(self.ev(x.value, env))
                if not rep_ok and any(isinstance(i, Rep) for i in items):
                    raise Unsupported("star of unknown sequence")
                out.extend(items)
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new(DictV())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.B.dict_update(self, d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.B.dict_set(self, d, kk, self.ev(v, env))
        return d

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign_name(e.target.id, v, env)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if x is e.values[-1]:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v)
        return self.unop(op, v)

    def unop(self, op, v):
        A = self.A
        if isinstance(v, (bool, int, float)):
            return {"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](v)
        if isinstance(v, Poly):
            return {"USub": lambda x: mk(-x), "UAdd": lambda x: x, "Invert": lambda x: mk(-x - Poly.const(1))}[op](v)
        if isinstance(v, Frac):
            return v.neg() if op == "USub" else v
        if isinstance(v, (A.ArrV, A.VecV, A.BoolArr)):
            return A.unop(self, op, v)
        if isinstance(v, InstV):
            f = self.class_lookup(v.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f:
                return self.call(BoundV(f, v), [], {})
        if isinstance(v, Obj) and hasattr(v, "unop"):
            return v.unop(self, op)
        if isinstance(v, Term):
            if op == "USub":
                if v.info.get("kind") in ("int",):
                    return mk(-Poly.atom(v))
                return Term("neg", (v,))
            return v if op == "UAdd" else Term("invert", (v,))
        self.raise_(TypeError, f"bad operand for unary {op}")

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.B.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, env)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def compare(self, op, a, b):
        A = self.A
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return not self.is_(a, b)
        if op == "In":
            return self.B.contains(self, b, a)
        if op == "NotIn":
            return not self.B.contains(self, b, a)
        if isinstance(a, (A.ArrV, A.VecV)) or isinstance(b, (A.ArrV, A.VecV)):
            return A.compare(self, op, a, b)
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return not self.eq(a, b)
        sym = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            if isinstance(a, int) and isinstance(b, int):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
            return self.cmp_num(sym, a, b)
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        if isinstance(a, (Poly, Frac, float, int)) and isinstance(b, (Poly, Frac, float, int)):
            fa, fb = to_frac(a), to_frac(b)
            if self.facts.sign(fa.den) == ">" and self.facts.sign(fb.den) == ">" and fa.ops + fb.ops == 0:
                return self.cmp_num(sym, mk(fa.num * fb.den), mk(fb.num * fa.den))
        if isinstance(a, (str, bytes)) and isinstance(b, type(a)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.truth(self.compare(op, x, y))
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[sym]
        if isinstance(a, SetV) and isinstance(b, SetV):
            sub = lambda s, t: all(self.B.contains(self, t, x.value if isinstance(x, Rep) else x) for x in s.items)
            if sym == "<=":
                return sub(a, b)
            if sym == ">=":
                return sub(b, a)
            if sym == "<":
                return sub(a, b) and not sub(b, a)
            return sub(b, a) and not sub(a, b)
        if isinstance(a, InstV):
            f = self.class_lookup(a.cls, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[sym])
            if f is not None:
                return self.call(BoundV(f, a), [b], {})
        if isinstance(a, (Term, Poly, int, Obj, Frac, float)) and isinstance(b, (Term, Poly, int, Obj, Frac, float)):
            if all(isinstance(x, (Poly, int)) or (isinstance(x, Term) and x.info.get("kind") == "int") for x in (a, b)):
                return self.cmp_num(sym, a, b)
            if sym in (">", ">="):
                a, b, sym = b, a, {">": "<", ">=": "<="}[sym]
            return self.choose(("cmp", sym, vkey(a), vkey(b)), f"{vrepr(a)} {sym} {vrepr(b)}")
        if isinstance(a, Term) or isinstance(b, Term):
            return self.choose(("cmp", sym, vkey(a), vkey(b)), f"{vrepr(a)} {sym} {vrepr(b)}")
        self.raise_(TypeError, f"'{sym}' not supported between {vrepr(a)} and {vrepr(b)}")

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        i = self.ev(e.slice, env)
        return self.getitem(o, i)

    def e_Slice(self, e, env):
        f = lambda x: self.ev(x, env) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                if isinstance(x, (int, str, float, bool)) and not isinstance(spec, Term):
                    if v.conversion == 114:
                        x = repr(x)
                    try:
                        parts.append(format(x, spec))
                        continue
                    except (ValueError, TypeError):
                        pass
                if x is None and not spec:
                    parts.append("None")
                    continue
                if isinstance(x, InstV) and "__str__" in x.cls.ns if isinstance(x, InstV) and isinstance(x.cls, ClassV) else False:
                    x = self.call(BoundV(x.cls.ns["__str__"], x), [], {})
                    if isinstance(x, str):
                        parts.append(x)
                        continue
                parts.append(Term("str", (self.freeze(x), spec)))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Term("fstr", _merge(parts), {"nonnull": True, "kind": "str"})

    def freeze(self, v):
        """snapshot of a container for use inside a Term"""
        if isinstance(v, ListV):
            return ("list",) + tuple(self.freeze(x) for x in v.items)
        if isinstance(v, SetV):
            return ("set",) + tuple(self.freeze(x) for x in v.items)
        if isinstance(v, DictV):
            return ("dict", tuple((self.freeze(k), self.freeze(x)) for k, x in v.entries), v.base.src if v.base else None)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    def e_FormattedValue(self, e, env):
        return Term("str", (self.freeze(self.ev(e.value, env)),))

    # comprehensions
    def comp(self, gens, env, leaf):
        """run leaf(env) for each combination"""
        def rec(i, env):
            if i == len(gens):
                leaf(env)
                return None
            g = gens[i]
            it = self.ev(g.iter, env)

            def body(v):
                # each iteration has its own cell in the child scope
                self.assign(g.target, v, ce)
                for c in g.ifs:
                    if not self.truth(self.ev(c, ce)):
                        return None
                rec(i + 1, ce)
                return None
            ce = Env(env.mod, env, is_comp=True, func=env.func)
            self.iterate(it, body, loc=(g, ce), names=())
        rec(0, env)

    def _repwrap(self, depth, v):
        """wrap a value produced inside generic loops opened since `depth`"""
        opened = self.loops[depth:]
        if opened:
            src = opened[0][0].data["src"] if len(opened) == 1 else Term("nest", tuple(o[0].data["src"] for o in opened))
            return Rep(v, src)
        return v

    def e_ListComp(self, e, env):
        out = []
        depth = len(self.loops)
        self.comp(e.generators, env, lambda ce: out.append(self._repwrap(depth, self.ev(e.elt, ce))))
        return self.new(ListV(out))

    def e_SetComp(self, e, env):
        out = self.new(SetV())
        depth = len(self.loops)

        def leaf(ce):
            v = self._repwrap(depth, self.ev(e.elt, ce))
            self.B.set_add(self, out, v)
        self.comp(e.generators, env, leaf)
        return out

    def e_DictComp(self, e, env):
        out = self.new(DictV())
        depth = len(self.loops)

        def leaf(ce):
            k = self.ev(e.key, ce)
            v = self.ev(e.value, ce)
            if len(self.loops) > depth:
                out.entries.append([self._repwrap(depth, k), v])
            else:
                self.B.dict_set(self, out, k, v)
        self.comp(e.generators, env, leaf)
        return out

    def e_GeneratorExp(self, e, env):
        first = self.ev(e.generators[0].iter, env)

        def run(co):
            self.stack.append([env.mod.path, "<genexpr>", e.lineno])
            try:
                def rec(i, env_):
                    if i == len(e.generators):
                        co.yield_(self.ev(e.elt, env_))
                        return
                    g = e.generators[i]
                    it = first if i == 0 else self.ev(g.iter, env_)
                    ce = Env(env.mod, env_, is_comp=True, func=env.func)

                    def body(v):
                        self.assign(g.target, v, ce)
                        for c in g.ifs:
                            if not self.truth(self.ev(c, ce)):
                                return None
                        rec(i + 1, ce)
                        return None
                    self.iterate(it, body, loc=(g, ce), names=())
                rec(0, env)
            finally:
                if self.stack:
                    self.stack.pop()
            return None
        gen = self.new(GenV(Coroutine(self, run, "genexpr"), "<genexpr>"))
        gen.lazy = isinstance(first, GenV) and first.lazy
        return gen

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        if self.current is None:
            raise Unsupported("yield outside a generator")
        return self.current.yield_(v)

    def e_YieldFrom(self, e, env):
        it = self.ev(e.value, env)
        cur = self.current

        def body(v):
            cur.yield_(v)
        self.iterate(it, body)
        return None

    def e_Await(self, e, env):
        raise Unsupported("await")

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id in ("locals", "super", "globals", "vars", "dir") and fn.id not in env.vars:
            r = self.special_call(fn.id, e, env)
            if r is not NotImplemented:
                return r
        f = self.ev(fn, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                items = self.items_of(v) if not isinstance(v, Term) else [v]
                if any(isinstance(x, Rep) for x in items) or isinstance(v, Term):
                    args.append(Term("star", (v if isinstance(v, Term) else self.freeze(self.new(ListV(items))),)))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, DictV):
                    for kk, vv in d.entries:
                        if isinstance(kk, str):
                            kwargs[kk] = vv
                        else:
                            kwargs["**"] = Term("kwargs", (self.freeze(d),))
                    if d.base is not None:
                        kwargs["**"] = Term("kwargs", (self.freeze(d),))
                elif isinstance(d, Term):
                    kwargs["**"] = d
                else:
                    raise Unsupported("** of non-dict")
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        line = self.stack[-1][2] if self.stack else 0
        if self.stack:
            self.stack[-1][2] = e.lineno
        r = self.call(f, args, kwargs)
        if self.stack:
            self.stack[-1][2] = line
        return r

    def special_call(self, name, e, env):
        if name == "super":
            fe = env
            while fe is not None and not isinstance(fe.func, FuncV):
                fe = fe.parent
            if e.args:
                c = self.ev(e.args[0], env)
                o = self.ev(e.args[1], env)
                return SuperV(c, o)
            return SuperV(fe.func.cls, fe.args0)
        if name == "locals" and not e.args:
            if env.vars is env.mod.ns:
                return self.new(NsDict(env.mod))
            d = self.new(DictV([[k, v] for k, v in env.vars.items()]))
            return d
        if name == "globals":
            return self.new(NsDict(env.mod))
        return NotImplemented

    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, PyFn):
            try:
                return f.f(self, list(args), dict(kwargs))
            except TypeError as e:
                if "argument" in str(e):
                    raise Unsupported(f"{f.name}: {e}")
                raise
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, BT):
            return self.B.call_type(self, f, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, LruV):
            k = (tuple(vkey(a) for a in args), tuple(sorted((n, vkey(v)) for n, v in kwargs.items())))
            try:
                hash(k)
            except TypeError:
                raise Unsupported("lru key")
            for a in list(args) + list(kwargs.values()):
                if isinstance(a, (ListV, DictV, SetV)):
                    self.raise_(TypeError, "unhashable type in cached call")
            k = self.lru_norm(f, args, kwargs, k)
            if k in f.cache:
                return f.cache[k]
            if any(isinstance(a, InstV) and self.custom_eq(a) for a in list(args) + list(kwargs.values())):
                for k2, (a2, kw2) in list(f.keys.items()):
                    if k2 in f.cache and len(a2) == len(args) and sorted(kw2) == sorted(kwargs) and all(
                            self.eq(x, y) for x, y in list(zip(a2, args)) + [(kw2[n], kwargs[n]) for n in kwargs]):
                        return f.cache[k2]
            v = self.call(f.func, args, kwargs)
            self.touch(f)
            f.cache[k] = v
            f.keys[k] = (tuple(args), dict(kwargs))
            self.event("cache_fill", func=f, value=v)
            return v
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, CMFactory):
            g = self.call(f.func, args, kwargs)
            i = self.new(InstV(self.M.GCM))
            i.attrs["gen"] = g
            return i
        if isinstance(f, (StaticV,)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, InstV):
            c = self.class_lookup(f.cls, "__call__")
            if c is not None:
                return self.call(BoundV(c, f), args, kwargs)
            self.raise_(TypeError, f"'{f.cls.name}' object is not callable")
        if isinstance(f, Obj):
            c = getattr(f, "call", None)
            if c is not None:
                return c(self, list(args), dict(kwargs))
            self.raise_(TypeError, f"{f!r} is not callable")
        if isinstance(f, Term):
            return self.call_unknown(f, args, kwargs)
        self.raise_(TypeError, f"{vrepr(f)} is not callable")

    def custom_eq(self, x):
        """equality of an instance is not identity; unhashable if the class
        defines it without __hash__"""
        f = self.class_lookup(x.cls, "__eq__")
        dc = x.cls.is_dataclass and x.cls.dc_eq
        if f is None and not dc and "__tuple__" not in x.attrs:
            return False
        if self.class_lookup(x.cls, "__hash__") is None and not (dc and x.cls.frozen) and "__tuple__" not in x.attrs:
            self.raise_(TypeError, f"unhashable type: {x.cls.name}")
        return True

    def lru_norm(self, f, args, kwargs, k):
        fn = f.func
        if isinstance(fn, FuncV) and kwargs:
            # lru_cache distinguishes positional from keyword arguments;
            # aliasing of the result is what matters here, so do not merge
            return k
        return k

    def call_unknown(self, f, args, kwargs):
        if f.op == "attr" and f.args[1] in ("append", "extend", "update", "add"):
            self.event("mutate", target=f.args[0], how=f.args[1], args=tuple(args))
            return None
        e = self.event("call", fn=f, args=tuple(args), kwargs=dict(kwargs))
        if self.inject:
            self.inject(self, f"call {f!r}")
        fz = tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        if f.info.get("pure"):
            return Term("call", (f,) + fz)
        return Term("call", (f,) + fz + (("n", self.seq),))

    def call_ext(self, f, args, kwargs):
        m = self.ext_models.get(f.name)
        if m is not None:
            r = m(self, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        root = f.name.split(".")[0]
        m = self.ext_models.get(root + ".*")
        if m is not None:
            r = m(self, f.name, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        if root in PURE:
            # a function of its arguments alone: folded if they are constants,
            # and otherwise nothing can be said
            vs = list(args) + list(kwargs.values())
            if root in ("operator", "math", "posixpath", "string") and all(plain_const(v) for v in vs):
                fn = __import__(root)
                for part in f.name.split(".")[1:]:
                    fn = getattr(fn, part, None)
                try:
                    r = fn(*args, **kwargs)
                except Exception as e:
                    self.raise_(type(e), *[x for x in e.args if isinstance(x, (str, int))])
                if plain_const(r):
                    return r
            raise Unsupported(f"{f.name} is not modelled")
        self.event("call", fn=f, args=tuple(args), kwargs=dict(kwargs))
        if self.inject:
            self.inject(self, f"call {f.name}")
        fz = tuple(self.freeze(a) for a in args) + tuple((k, self.freeze(v)) for k, v in sorted(kwargs.items()))
        return Term("call", (f,) + fz + (("n", self.seq),))

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.module, f.env, scan_function(f.node)[0], func=f)
        env.globals_decl = set(scan_function(f.node)[2])
        env.nonlocal_decl = set(scan_function(f.node)[3])
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars_ = env.vars
        extra = []
        for i, v in enumerate(args):
            if isinstance(v, Term) and v.op == "star":
                raise Unsupported(f"unknown number of arguments to {f.qual}")
            if i < len(pos):
                vars_[pos[i]] = v
            else:
                extra.append(v)
        kw = dict(kwargs)
        unk = kw.pop("**", None)
        for k in list(kw):
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in vars_:
                    self.raise_(TypeError, f"{f.name}() got multiple values for argument '{k}'")
                vars_[k] = kw.pop(k)
        if extra:
            if a.vararg is None:
                self.raise_(TypeError, f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            d = self.new(DictV([[k, v] for k, v in kw.items()]))
            if unk is not None:
                d.base = self.M.term_base(unk)
            vars_[a.kwarg.arg] = d
        elif kw:
            self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vars_:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars_[p] = f.defaults[j]
                elif unk is not None:
                    vars_[p] = Term("item", (unk, p))
                else:
                    self.raise_(TypeError, f"{f.name}() missing required argument '{p}'")
        for x in a.kwonlyargs:
            if x.arg not in vars_:
                if x.arg in f.kwdefaults:
                    vars_[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_(TypeError, f"{f.name}() missing keyword argument '{x.arg}'")
        if pos:
            env.args0 = vars_.get(pos[0])
        return env

    def call_func(self, f, args, kwargs):
        hook = self.hooks.get(f.qual)
        if hook is not None:
            r = hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.stack) > 150:
            raise Unsupported("call depth")
        self.touched_functions.add((f.module.path, f.qual))
        env = self.bind(f, args, kwargs)
        if f.is_gen:
            def run(co):
                self.stack.append([f.module.path, f.qual, f.node.lineno])
                self.exec_block(f.node.body, env)
                if self.stack:
                    self.stack.pop()
                return None
            gen = self.new(GenV(Coroutine(self, run, f.qual), f.qual))
            gen.lazy = yields_in_context(f.node) or any(isinstance(x, GenV) and x.lazy
                                                        for x in list(args) + list(kwargs.values()))
            return gen
        self.stack.append([f.module.path, f.qual, f.node.lineno])
        n = len(self.stack)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            r = self.exec_block(f.node.body, env)
        finally:
            del self.stack[n - 1:]
        return r[1] if r is not None and r[0] == "return" else None

    def instantiate(self, cls, args, kwargs):
        hook = self.hooks.get("class " + cls.name)
        if hook is not None:
            r = hook(self, cls, args, kwargs)
            if r is not NotImplemented:
                return r
        inst = self.new(InstV(cls))
        if getattr(cls, "is_namedtuple", None) or any(getattr(b, "is_namedtuple", None) for b in cls.mro() if isinstance(b, ClassV)):
            return self.M.make_namedtuple(self, cls, args, kwargs, inst)
        isexc = self.issub(cls, BT(BaseException))
        init = self.class_lookup(cls, "__init__")
        if isexc:
            inst.attrs["args"] = tuple(args)
        if init is not None:
            self.call(BoundV(init, inst), args, kwargs)
        elif self.dataclass_of(cls) is not None:
            self.dataclass_init(cls, inst, args, kwargs)
        elif not isexc and (args or kwargs):
            if all(isinstance(b, ClassV) or (isinstance(b, BT) and b.t is object) for b in cls.mro()):
                self.raise_(TypeError, f"{cls.name}() takes no arguments")
        return inst

    def dataclass_of(self, cls):
        for c in cls.mro():
            if isinstance(c, ClassV) and c.is_dataclass:
                return c
        return None

    def dataclass_init(self, cls, inst, args, kwargs):
        fields = self.dataclass_of(cls).dc_fields
        kw = dict(kwargs)
        init = [f for f in fields if f[3]]
        if len(args) > len(init):
            self.raise_(TypeError, f"{cls.name}() takes {len(init)} arguments")
        for i, (n, default, factory, _) in enumerate(init):
            if i < len(args):
                if n in kw:
                    self.raise_(TypeError, f"multiple values for '{n}'")
                inst.attrs[n] = args[i]
            elif n in kw:
                inst.attrs[n] = kw.pop(n)
            elif default is not NotImplemented:
                inst.attrs[n] = default
            elif factory is not None:
                inst.attrs[n] = self.call(factory, [], {})
            else:
                self.raise_(TypeError, f"{cls.name}() missing argument '{n}'")
        for n, default, factory, ini in fields:
            if not ini and (default is not NotImplemented or factory is not None):
                inst.attrs[n] = default if default is not NotImplemented else self.call(factory, [], {})
        if kw:
            self.raise_(TypeError, f"{cls.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        post = self.class_lookup(cls, "__post_init__")
        if post is not None:
            self.call(BoundV(post, inst), [], {})

    # ------------------------------------------------------------- attributes
    def class_lookup(self, cls, name):
        if not isinstance(cls, ClassV):
            return None
        for c in cls.mro():
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    def descr(self, v, obj, cls):
        if isinstance(v, (FuncV, LruV, CMFactory)) and obj is not None:
            return BoundV(v, obj)
        if isinstance(v, PropertyV) and obj is not None:
            if v.cached:
                r = self.call(v.fget, [obj], {})
                self.touch(obj)
                obj.attrs[v.name] = r
                return r
            return self.call(v.fget, [obj], {})
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMethodV):
            return BoundV(v.f, cls)
        return v

    def getattr(self, o, name, default=NotImplemented):
        r = self._getattr(o, name)
        if r is NotImplemented:
            if unmodelled(o, name):
                raise Unsupported(f"{vrepr(o)}.{name} is not modelled")
            if default is not NotImplemented:
                return default
            tn = o.cls.name if isinstance(o, InstV) and isinstance(o.cls, ClassV) else vrepr(o)
            self.raise_(AttributeError, f"'{tn}' object has no attribute '{name}'")
        return r

    def _getattr(self, o, name):
        A = self.A
        if isinstance(o, InstV):
            cls = o.cls
            if isinstance(cls, ClassV):
                cv = self.class_lookup(cls, name)
                if isinstance(cv, PropertyV) and not cv.cached:
                    return self.descr(cv, o, cls)
                if name in o.attrs:
                    return o.attrs[name]
                if cv is not None or any(name in c.ns for c in cls.mro() if isinstance(c, ClassV)):
                    return self.descr(cv, o, cls)
                if name == "__class__":
                    return cls
                if name == "__dict__":
                    return self.new(AttrDict(o))
                r = self.M.inst_builtin_attr(self, o, name)
                if r is not NotImplemented:
                    return r
                ga = self.class_lookup(cls, "__getattr__")
                if ga is not None:
                    return self.call(BoundV(ga, o), [name], {})
                for b in cls.mro():
                    if isinstance(b, ExtV) and b.name not in ("abc.ABC", "typing.Protocol", "typing_extensions.Protocol", "typing.Generic"):
                        return Term("attr", (o, name))
                return NotImplemented
            if name in o.attrs:
                return o.attrs[name]
            if name == "__class__":
                return cls
            return self.M.inst_builtin_attr(self, o, name)
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            if o.is_pkg and self.mod_path(o.name + "." + name)[0] and o.name + "." + name in self.modules:
                return self.modules[o.name + "." + name]
            if name == "__dict__":
                return self.new(NsDict(o))
            return NotImplemented
        if isinstance(o, ClassV):
            for c in o.mro():
                if isinstance(c, ClassV) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, ClassMethodV):
                        return BoundV(v.f, o)
                    if isinstance(v, StaticV):
                        return v.f
                    return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro())
            if name == "__init__":
                return PyFn("object.__init__", lambda I, a, k: None)
            if name == "__new__":
                return PyFn("object.__new__", lambda I, a, k: I.new(InstV(a[0])))
            if name == "__doc__":
                return None
            if name == "_make" and getattr(o, "is_namedtuple", None):
                return PyFn("_make", lambda I, a, k: I.call(o, I.items_of(a[0]), {}))
            return NotImplemented
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, InstV) else o.obj
            mro = cls.mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if isinstance(c, ClassV) and name in c.ns:
                    return self.descr(c.ns[name], o.obj if isinstance(o.obj, InstV) else None, cls)
            if name == "__init__":
                def init(I, a, k, o=o):
                    if isinstance(o.obj, InstV) and I.issub(o.obj.cls, BT(BaseException)):
                        o.obj.attrs["args"] = tuple(a)
                    return None
                return PyFn("object.__init__", init)
            if name == "__new__":
                return PyFn("object.__new__", lambda I, a, k: I.new(InstV(a[0])))
            if name == "__setattr__":
                return PyFn("object.__setattr__", lambda I, a, k, o=o: I.raw_setattr(o.obj, a[0], a[1]))
            if name == "__getattribute__":
                return PyFn("object.__getattribute__", lambda I, a, k, o=o: I.getattr(o.obj, a[0]))
            return Term("attr", (Term("super", ()), name))
        if isinstance(o, ExtV):
            return self.M.ext_attr(self, o, name)
        if isinstance(o, Obj):
            return o.getattr(self, name)
        if isinstance(o, (A.ArrV, A.VecV, A.BoolArr)):
            return A.getattr_(self, o, name)
        if isinstance(o, Term):
            r = self.M.term_attr(self, o, name)
            if r is not NotImplemented:
                return r
            return Term("attr", (o, name), {k: v for k, v in o.info.items() if k in ("uniform", "pure")})
        if isinstance(o, (FuncV, LruV, CMFactory, PartialV)):
            if name in ("__name__", "__qualname__"):
                return getattr(o, "name", "partial")
            if isinstance(o, FuncV) and name in o.attrs:
                return o.attrs[name]
            if name == "__wrapped__" and not isinstance(o, FuncV):
                return o.func
            if isinstance(o, LruV) and name == "cache_clear":
                def clear(I, a, k, o=o):
                    I.touch(o)
                    o.cache = {}
                return PyFn("cache_clear", clear)
            if name == "__doc__":
                return None
            if name == "__module__":
                return "fv3gfs.util"
            if name == "__get__":
                return PyFn("__get__", lambda I, a, k, o=o: BoundV(o, a[0]) if a[0] is not None else o)
            return NotImplemented
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, PropertyV):
            if name == "setter":
                return PyFn("setter", lambda I, a, k, o=o: I.new(PropertyV(o.fget, a[0])))
            if name == "fget":
                return o.fget
            if name in ("getter", "deleter"):
                return PyFn(name, lambda I, a, k, o=o: o)
            return NotImplemented
        return self.B.getattr_builtin(self, o, name)

    def hasattr(self, o, name):
        try:
            r = self._getattr(o, name)
        except AbsRaise as e:
            if self.exc_matches(e.exc, BT(AttributeError)):
                return False
            raise
        if r is NotImplemented:
            return False
        if isinstance(r, Term) and r.op == "attr" and isinstance(o, (Term,)):
            return self.choose(("hasattr", vkey(o), name), f"hasattr({o!r}, {name!r})")
        return True

    def setattr(self, o, name, v):
        if isinstance(o, InstV):
            if isinstance(o.cls, ClassV):
                cv = self.class_lookup(o.cls, name)
                if isinstance(cv, PropertyV) and not cv.cached:
                    if cv.fset is None:
                        self.raise_(AttributeError, f"can't set attribute '{name}'")
                    self.call(cv.fset, [o, v], {})
                    return
                if self.dataclass_of(o.cls) is not None and self.dataclass_of(o.cls).frozen:
                    self.raise_(AttributeError, f"cannot assign to field '{name}'")
                if getattr(o.cls, "is_namedtuple", None):
                    self.raise_(AttributeError, "can't set attribute")
                f = self.class_lookup(o.cls, "__setattr__")
                if f is not None:
                    self.call(BoundV(f, o), [name, v], {})
                    return
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, ModV):
            self.touch(o)
            o.ns[name] = v
            return
        if isinstance(o, ClassV):
            self.touch(o)
            o.ns[name] = v
            self._set_cls(v, o)
            return
        if isinstance(o, FuncV):
            self.touch(o)
            o.attrs[name] = v
            if name == "__name__":
                o.name = o.name
            return
        if isinstance(o, Obj):
            f = getattr(o, "setattr", None)
            if f is not None:
                return f(self, name, v)
        if isinstance(o, (self.A.ArrV, self.A.VecV)):
            return self.A.setattr_(self, o, name, v)
        if isinstance(o, (Term, ExtV, Obj)):
            self.event("setattr", obj=o, name=name, value=v)
            return
        if isinstance(o, (LruV, CMFactory, PartialV)):
            return
        self.raise_(AttributeError, f"cannot set attribute '{name}' of {vrepr(o)}")

    def raw_setattr(self, o, name, v):
        self.touch(o)
        old = o.attrs.get(name, NotImplemented)
        o.attrs[name] = v
        self.event("setattr", obj=o, name=name, value=v, old=old)

    def getitem(self, o, i):
        return self.B.getitem(self, o, i)

    def setitem(self, o, i, v):
        return self.B.setitem(self, o, i, v)

    # ------------------------------------------------------------- conveniences
    def sym(self, name, lo=None, hi=None):
        s = Sym(name)
        self.facts.declare(s, lo, hi)
        return Poly.atom(s)

    def call_name(self, dotted, *args, **kwargs):
        f = self.func(dotted)
        if f is None:
            raise AnchorMissing(dotted)
        return self.call(f, list(args), kwargs)

    def meth(self, o, name, *args, **kwargs):
        return self.call(self.getattr(o, name), list(args), kwargs)


class AnchorMissing(Exception):
    pass


class NsDict(Obj):
    """namespace of a module as a mapping"""
    label = "namespace"

    def __init__(self, mod):
        self.mod = mod

    def m_keys(self, I):
        return I.new(ListV(list(self.mod.ns)))

    def m_items(self, I):
        return I.new(ListV([(k, v) for k, v in self.mod.ns.items()]))

    def m_get(self, I, k, d=None):
        return self.mod.ns.get(k, d)

    def getitem(self, I, k):
        if k not in self.mod.ns:
            I.raise_(KeyError, k)
        return self.mod.ns[k]

    def setitem(self, I, k, v):
        I.touch(self.mod)
        self.mod.ns[k] = v

    def contains(self, I, k):
        return k in self.mod.ns

    def iter(self, I):
        return list(self.mod.ns)

    def m_update(self, I, other):
        for k, v in other.entries:
            self.setitem(I, k, v)


class AttrDict(Obj):
    label = "__dict__"

    def __init__(self, o):
        self.o = o

    def m_items(self, I):
        return I.new(ListV([(k, v) for k, v in self.o.attrs.items()]))

    def m_keys(self, I):
        return I.new(ListV(list(self.o.attrs)))

    def m_copy(self, I):
        return I.new(DictV([[k, v] for k, v in self.o.attrs.items()]))

    def m_update(self, I, *a, **k):
        for d in a:
            for kk, v in (d.entries if isinstance(d, DictV) else d.o.attrs.items()):
                I.raw_setattr(self.o, kk, v)
        for kk, v in k.items():
            I.raw_setattr(self.o, kk, v)

    def m_get(self, I, k, d=None):
        return self.o.attrs.get(k, d)

    def getitem(self, I, k):
        if k not in self.o.attrs:
            I.raise_(KeyError, k)
        return self.o.attrs[k]

    def setitem(self, I, k, v):
        I.raw_setattr(self.o, k, v)

    def contains(self, I, k):
        return k in self.o.attrs

    def iter(self, I):
        return list(self.o.attrs)


def _eqkey(p):
    k, k2 = p.key, (-p).key
    return ("eq0", min(k, k2, key=repr))


def _merge(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out
