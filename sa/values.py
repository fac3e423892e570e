"""Abstract values.

Concrete Python constants, tuples and slices stand for themselves; everything
else is one of the classes below.  Heap objects carry a serial number `oid`."""
from fractions import Fraction
from .poly import Poly, Sym


class Heap:
    """base of abstract values with identity"""
    oid = 0

    @property
    def key(self):
        return ("obj", self.oid)


class Term:
    """Opaque value-numbered expression: equal key == equal value."""
    __slots__ = ("op", "args", "key", "info", "_h")

    def __init__(self, op, args=(), info=None):
        self.op = op
        self.args = tuple(args)
        self.key = ("term", op) + tuple(vkey(a) for a in self.args)
        self._h = hash(self.key)
        self.info = info or {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Term) and o.key == self.key

    def __repr__(self):
        if not self.args:
            return str(self.op)
        if self.op == "attr":
            return f"{vrepr(self.args[0])}.{self.args[1]}"
        if self.op == "item":
            return f"{vrepr(self.args[0])}[{vrepr(self.args[1])}]"
        return f"{self.op}({', '.join(vrepr(a) for a in self.args)})"


class Frac:
    """real number num/den over polynomial numerators and denominators.
    `ops` counts roundings a floating point evaluation would perform."""
    __slots__ = ("num", "den", "ops")

    def __init__(self, num, den, ops=0):
        if num.is_const() and den.is_const() and den.constval():
            f = Fraction(num.constval(), den.constval())
            num, den = Poly.const(f.numerator), Poly.const(f.denominator)
        self.num, self.den, self.ops = num, den, ops

    @property
    def key(self):
        return ("frac", self.num.key, self.den.key, min(self.ops, 2))

    def __hash__(self):
        return hash((self.num, self.den))

    def __eq__(self, o):
        return isinstance(o, Frac) and self.num * o.den == o.num * self.den

    def __repr__(self):
        if self.den == Poly.const(1):
            return f"{self.num!r}"
        return f"({self.num!r})/({self.den!r})"

    def add(self, o):
        ops = self.ops + o.ops
        if self.den == o.den:
            return Frac(self.num + o.num, self.den, ops)
        return Frac(self.num * o.den + o.num * self.den, self.den * o.den, ops)

    def neg(self):
        return Frac(-self.num, self.den, self.ops)

    def mul(self, o):
        return Frac(self.num * o.num, self.den * o.den, self.ops + o.ops)

    def div(self, o):
        return Frac(self.num * o.den, self.den * o.num, self.ops + o.ops + 1)

    def same(self, o):
        return self.num * o.den == o.num * self.den


class Rep:
    """generic element standing for any number of elements of a container"""
    __slots__ = ("value", "src")

    def __init__(self, value, src):
        self.value, self.src = value, src

    @property
    def key(self):
        return ("rep", vkey(self.value), vkey(self.src))

    def __repr__(self):
        return f"<each {vrepr(self.value)} of {vrepr(self.src)}>"


class ListV(Heap):
    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return "[" + ", ".join(vrepr(x) for x in self.items) + "]"


class SetV(Heap):
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen

    def __repr__(self):
        return "{" + ", ".join(vrepr(x) for x in self.items) + "}"


class DictV(Heap):
    """entries: list of [key, value] (key may be Rep); `base` is the unknown
    remainder of a caller's dictionary (or None): object with .src Term,
    .elem Term (generic key) and .value(key)"""

    def __init__(self, entries=(), base=None, label=None):
        self.entries = [list(e) for e in entries]
        self.base = base
        self.label = label

    def __repr__(self):
        s = ", ".join(f"{vrepr(k)}: {vrepr(v)}" for k, v in self.entries)
        if self.base is not None:
            s = f"**{self.base.src!r}" + (", " if s else "") + s
        return "{" + s + "}"


class FuncV(Heap):
    def __init__(self, node, module, env, name, qual, cls=None):
        self.node, self.module, self.env = node, module, env
        self.name, self.qual, self.cls = name, qual, cls
        self.defaults, self.kwdefaults = [], {}
        self.attrs = {}
        self.is_gen = False

    def __repr__(self):
        return f"<function {self.qual}>"


class BoundV:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    @property
    def key(self):
        return ("bound", vkey(self.func), vkey(self.self_))

    def __repr__(self):
        return f"<bound {self.func!r}>"


class PropertyV(Heap):
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached
        self.name = getattr(fget, "name", None)


class StaticV(Heap):
    def __init__(self, f):
        self.f = f


class ClassMethodV(Heap):
    def __init__(self, f):
        self.f = f


class ClassV(Heap):
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns = name, bases, ns
        self.module, self.qual = module, qual
        self.is_dataclass = False
        self.frozen = False
        self.dc_fields = []
        self.dc_eq = True

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, ClassV) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def __repr__(self):
        return f"<class {self.name}>"


class InstV(Heap):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.label = None

    def __repr__(self):
        if self.label:
            return str(self.label)
        if "args" in self.attrs:
            return f"{getattr(self.cls, 'name', repr(self.cls))}({', '.join(vrepr(a) for a in self.attrs['args'])})"
        return f"<{getattr(self.cls, 'name', repr(self.cls))}#{self.oid}>"


class ModV(Heap):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.ns = {}
        self.state = "new"
        self.is_pkg = False
        self.future = frozenset()

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV:
    """external (not part of the analysed repository): module, function,
    class or object reachable by a dotted name"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    @property
    def key(self):
        return ("ext", self.name)

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __repr__(self):
        return self.name


class BT:
    """builtin type or exception class"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def key(self):
        return ("bt", self.t.__name__)

    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        return isinstance(o, BT) and o.t is self.t

    def __repr__(self):
        return self.t.__name__


class PyFn:
    """builtin function implemented by the analyser: f(interp, args, kwargs)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    @property
    def key(self):
        return ("pyfn", self.name)

    def __repr__(self):
        return f"<{self.name}>"


class LruV(Heap):
    def __init__(self, func, maxsize=None):
        self.func = func
        self.cache = {}
        self.keys = {}
        self.maxsize = maxsize
        self.name = getattr(func, "name", "?")

    def __repr__(self):
        return f"<lru_cache {self.func!r}>"


class PartialV(Heap):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class CMFactory(Heap):
    """function decorated with contextlib.contextmanager"""

    def __init__(self, func):
        self.func = func
        self.name = getattr(func, "name", "?")


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    key = ("super",)


class IterV(Heap):
    """materialised iterator: items (values or Rep), position"""

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


class Obj(Heap):
    """abstract external object implemented by the analyser"""
    label = "obj"

    def getattr(self, I, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return PyFn(f"{self.label}.{name}", lambda I, a, k, m=m: m(I, *a, **k))
        p = getattr(self, "p_" + name, None)
        if p is not None:
            return p(I)
        return NotImplemented

    def __repr__(self):
        return f"<{self.label}>"


def vkey(v):
    if v is None or isinstance(v, (bool, str, bytes)) or v is Ellipsis or v is NotImplemented:
        return ("c", type(v).__name__, v)
    if isinstance(v, (int, float, complex)):
        return ("c", "n", v)
    if isinstance(v, tuple):
        return ("t",) + tuple(vkey(x) for x in v)
    if isinstance(v, slice):
        return ("slice", vkey(v.start), vkey(v.stop), vkey(v.step))
    if isinstance(v, frozenset):
        return ("fs",) + tuple(sorted((vkey(x) for x in v), key=repr))
    return v.key


def vrepr(v):
    if isinstance(v, tuple):
        return "(" + ", ".join(vrepr(x) for x in v) + ("," if len(v) == 1 else "") + ")"
    if isinstance(v, slice):
        f = lambda x: "" if x is None else vrepr(x)
        s = f"{f(v.start)}:{f(v.stop)}"
        return s + (f":{f(v.step)}" if v.step is not None else "")
    return repr(v)


def is_num(v):
    return isinstance(v, (int, float, Poly, Frac)) and not isinstance(v, bool) or isinstance(v, bool)


def mk(p):
    """normalise a polynomial to a Python int when constant"""
    if isinstance(p, Poly) and p.is_const():
        return p.constval()
    return p


def to_poly(v):
    if isinstance(v, bool):
        return Poly.const(int(v))
    if isinstance(v, int):
        return Poly.const(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, (Term, Sym)):
        return Poly.atom(v)
    return None


def to_frac(v):
    if isinstance(v, Frac):
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        f = Fraction(v).limit_denominator(10 ** 12)
        return Frac(Poly.const(f.numerator), Poly.const(f.denominator))
    p = to_poly(v)
    if p is None:
        return None
    return Frac(p, Poly.const(1))


def mkf(f):
    """Frac -> int/Poly when it is a whole polynomial and no rounding happened"""
    if f.ops == 0 and f.den == Poly.const(1):
        return mk(f.num)
    if f.ops == 0 and f.num.is_const() and f.den.is_const():
        return f.num.constval() / f.den.constval()
    return f
