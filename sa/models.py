"""Models of the standard library, numpy and the other external packages.

Only documented behaviour is modelled; anything not modelled becomes an opaque
"call" event whose result is an unknown Term."""
from .poly import Poly, Sym
from .values import *
from . import builtins_ as B
from . import arrays as A

MODELS = {}


def _U(msg):
    from .interp import Unsupported
    return Unsupported(msg)


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


class _GCM:
    """class of objects returned by calling a contextmanager function"""
    name = "_GeneratorContextManager"
    key = ("gcm",)

    def mro(self):
        return [self]


GCM = _GCM()

# --------------------------------------------------------------- class facts
EXT_SUB = {
    ("cftime.DatetimeJulian", "cftime.datetime"): True,
    ("cftime.DatetimeNoLeap", "cftime.datetime"): True,
    ("cftime.DatetimeGregorian", "cftime.datetime"): True,
    ("collections.OrderedDict", "builtins.dict"): True,
    ("collections.defaultdict", "builtins.dict"): True,
    ("datetime.datetime", "cftime.datetime"): False,
    ("cftime.datetime", "datetime.datetime"): False,
    ("numpy.datetime64", "numpy.generic"): True,
}


def ext_subclass(I, c, t):
    if c == t or t == "builtins.object":
        return True
    if (c, t) in EXT_SUB:
        return EXT_SUB[(c, t)]
    if c.startswith("cftime.Datetime") and t == "cftime.datetime":
        return True
    if t in ("abc.ABC", "typing.Protocol", "typing.Generic", "typing_extensions.Protocol"):
        return False
    if c == "numpy.ndarray" or c == "cupy.ndarray":
        return False
    if c.split(".")[0] in ("numpy", "cupy", "cftime", "datetime", "xarray", "gt4py", "zarr") and t.split(".")[0] in \
            ("numpy", "cupy", "cftime", "datetime", "xarray", "gt4py", "zarr", "builtins", "collections"):
        if c.split(".")[0] != t.split(".")[0]:
            return False
    if t.startswith("builtins."):
        return False
    return None


def bt_ext(I, t, name):
    last = name.split(".")[-1]
    if name.split(".")[0] in ("typing", "collections", "numbers"):
        table = {"Mapping": (dict,), "MutableMapping": (dict,), "Sequence": (list, tuple, str, range, bytes),
                 "Iterable": (list, tuple, str, dict, set, frozenset, range), "Number": (int, float, complex),
                 "Integral": (int,), "Real": (int, float), "Hashable": (int, str, tuple, float), "Set": (set, frozenset)}
        return any(issubclass(t, x) for x in table.get(last, ()))
    return False


# ------------------------------------------------------------------- helpers
def term_base(t):
    return B.Base(repr(t), t, lambda I, k: Term("item", (t, k)))


def make_namedtuple(I, cls, args, kwargs, inst):
    names = next(getattr(c, "is_namedtuple") for c in cls.mro() if isinstance(c, ClassV) and getattr(c, "is_namedtuple", None))
    vals = list(args)
    if len(vals) > len(names):
        I.raise_(TypeError, f"{cls.name}() takes {len(names)} positional arguments")
    kw = dict(kwargs)
    for n in names[len(vals):]:
        if n in kw:
            vals.append(kw.pop(n))
        else:
            d = I.class_lookup(cls, n)
            dd = getattr(cls, "nt_defaults", {})
            if n in dd:
                vals.append(dd[n])
            elif d is not None:
                vals.append(d)
            else:
                I.raise_(TypeError, f"{cls.name}() missing argument '{n}'")
    if kw:
        I.raise_(TypeError, f"{cls.name}() got an unexpected keyword argument")
    inst.attrs["__tuple__"] = tuple(vals)
    for n, v in zip(names, vals):
        inst.attrs[n] = v
    return inst


def inst_builtin_attr(I, o, name):
    cls = o.cls
    if cls is GCM:
        enter, exit_ = I.cm_protocol(o)
        if name == "__enter__":
            return PyFn("__enter__", lambda I, a, k: enter())
        if name == "__exit__":
            from .interp import AbsRaise

            def ex(I, a, k):
                if not a or a[0] is None:
                    exit_(None)
                    return False
                return exit_(AbsRaise(a[1], site=I.site()))
            return PyFn("__exit__", ex)
        return NotImplemented
    if "__tuple__" in o.attrs:
        names = next((c.is_namedtuple for c in cls.mro() if isinstance(c, ClassV) and getattr(c, "is_namedtuple", None)), [])
        if name == "_replace":
            def rep(I, a, k):
                vals = [k.get(n, v) for n, v in zip(names, o.attrs["__tuple__"])]
                return I.call(cls, vals, {})
            return PyFn("_replace", rep)
        if name == "_asdict":
            return PyFn("_asdict", lambda I, a, k: I.new(DictV([[n, v] for n, v in zip(names, o.attrs["__tuple__"])])))
        if name == "_fields":
            return tuple(names)
        if name in ("index", "count", "__len__", "__getitem__"):
            return I.getattr(o.attrs["__tuple__"], name)
    isexc = I.issub(cls, BT(BaseException)) if isinstance(cls, (ClassV, BT)) else False
    if isexc:
        if name == "args":
            return o.attrs.get("args", ())
        if name == "with_traceback":
            return PyFn("with_traceback", lambda I, a, k: o)
        if name in ("__cause__", "__context__", "__traceback__"):
            return None
    return NotImplemented


# ------------------------------------------------------------------ ext attrs
NUMPY_MISSING = {"asnumpy", "memoize", "fuse", "RawKernel", "get_array_module", "cuda"}
CONSTS = {
    "numpy.newaxis": None, "cupy.newaxis": None, "math.pi": 3.141592653589793, "numpy.pi": 3.141592653589793,
    "os.sep": "/", "os.linesep": "\n", "logging.INFO": 20, "logging.DEBUG": 10, "logging.WARNING": 30,
    "sys.maxsize": 2 ** 63 - 1, "typing.TYPE_CHECKING": False, "numpy.inf": float("inf"), "math.inf": float("inf"),
}
DC_MISSING = Term("dataclasses.MISSING", (), {"nonnull": True})


def ext_attr(I, o, name):
    full = o.name + "." + name
    if full in CONSTS:
        return CONSTS[full]
    if o.name == "numpy" and name in NUMPY_MISSING:
        return NotImplemented
    if o.name in ("numpy", "cupy") and name in ("float", "int", "bool", "object", "str"):
        if name in ("float", "int", "object", "str"):
            return NotImplemented
    if name == "__name__":
        return o.name.split(".")[-1]
    if full == "builtins.open":
        return ExtV(full)
    if full == "dataclasses.MISSING":
        return DC_MISSING
    if full == "sys.version_info":
        return (3, 8, 0, "final", 0)
    if full in ("contextlib.suppress", "contextlib.ExitStack", "contextlib.nullcontext", "contextlib.closing"):
        return ExtV(full)
    h = I.hooks.get("ext_attr")
    if h:
        r = h(I, o, name)
        if r is not None:
            return r
    return ExtV(full)


PURE_STR = {"startswith", "endswith", "strip", "lstrip", "rstrip", "lower", "upper", "split", "replace", "format",
            "rsplit", "partition", "join", "zfill", "removesuffix", "removeprefix", "title", "capitalize", "find",
            "isdigit", "count", "encode", "decode", "splitlines", "rfind", "index"}


def term_attr(I, t, name):
    if t.info.get("kind") == "str" and name in PURE_STR:
        kind = {"startswith": "bool", "endswith": "bool", "find": "int", "count": "int", "rfind": "int"}.get(name, "str")

        def f(I, a, k):
            return Term("strm", (t, name) + tuple(I.freeze(x) for x in a) + tuple((kk, I.freeze(v)) for kk, v in sorted(k.items())),
                        {"kind": kind, "nonnull": True})
        return PyFn("str." + name, f)
    if "attrs" in t.info and name in t.info["attrs"]:
        return t.info["attrs"][name]
    if t.op == "dtype" and name in ("kind", "name", "itemsize", "char", "type", "str"):
        return Term("attr", (t, name), {"nonnull": True, "kind": "int" if name == "itemsize" else "str"})
    h = I.hooks.get("term_attr")
    if h:
        r = h(I, t, name)
        if r is not None:
            return r
    return NotImplemented


# ----------------------------------------------------------------- functools
@model("functools.lru_cache")
def lru_cache(I, a, k):
    ms = k.get("maxsize", a[0] if a and not isinstance(a[0], (FuncV,)) else 128)
    if a and isinstance(a[0], FuncV):
        return I.new(LruV(a[0], 128))
    return PyFn("lru_cache()", lambda I, a2, k2: I.new(LruV(a2[0], ms)))


@model("functools.cache")
def cache(I, a, k):
    return I.new(LruV(a[0], None))


@model("functools.cached_property")
def cached_property(I, a, k):
    return I.new(PropertyV(a[0], None, cached=True))


@model("functools.partial")
def partial(I, a, k):
    return I.new(PartialV(a[0], list(a[1:]), dict(k)))


@model("functools.wraps", "functools.update_wrapper")
def wraps(I, a, k):
    return PyFn("wraps()", lambda I, a2, k2: a2[0])


@model("functools.reduce")
def reduce(I, a, k):
    if _isgen(a[1]):
        acc = list(a[2:])

        def step(x):
            acc[:] = [I.call(a[0], [acc[0], x], {}) if acc else x]
        I.iterate(a[1], step)
        if not acc:
            I.raise_(TypeError, "reduce() of empty sequence")
        return acc[0]
    items = I.items_of(a[1])
    if any(isinstance(x, Rep) for x in items):
        raise _U("reduce over an unknown sequence")
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            I.raise_(TypeError, "reduce() of empty sequence")
        acc = items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {})
    return acc


@model("functools.singledispatch", "functools.total_ordering", "abc.abstractmethod", "typing.overload",
       "typing.runtime_checkable", "typing_extensions.runtime_checkable", "typing.final", "atexit.register",
       "typing.no_type_check")
def identity(I, a, k):
    return a[0]


@model("typing.cast", "typing_extensions.cast")
def cast(I, a, k):
    return a[1]


@model("typing.TypeVar", "typing.NewType", "typing_extensions.TypeVar")
def typevar(I, a, k):
    return ExtV("typing." + (a[0] if isinstance(a[0], str) else "T"))


# ---------------------------------------------------------------- contextlib
@model("contextlib.contextmanager")
def contextmanager(I, a, k):
    return I.new(CMFactory(a[0]))


class Suppress(Obj):
    label = "suppress"

    def __init__(self, excs):
        self.excs = tuple(excs)

    def m___enter__(self, I):
        return None

    def m___exit__(self, I, t, e, tb):
        return e is not None and I.exc_matches(e, self.excs)


class NullCM(Obj):
    label = "nullcontext"

    def __init__(self, v=None, close=None):
        self.v, self.close = v, close

    def m___enter__(self, I):
        return self.v

    def m___exit__(self, I, t, e, tb):
        if self.close:
            I.call(I.getattr(self.v, "close"), [], {})
        return False


class ExitStackO(Obj):
    label = "ExitStack"

    def __init__(self):
        self.cbs = []

    def m___enter__(self, I):
        return self

    def m_enter_context(self, I, cm):
        en, ex = I.cm_protocol(cm)
        v = en()
        if I.loops:
            # a generic loop enters one representative manager
            pass
        self.cbs.append(ex)
        return v

    def m_callback(self, I, f, *a, **k):
        def ex(e):
            I.call(f, list(a), k)
            return False
        self.cbs.append(ex)
        return f

    def m_push(self, I, cm):
        en, ex = I.cm_protocol(cm)
        self.cbs.append(ex)
        return cm

    def m_pop_all(self, I):
        n = I.new(ExitStackO())
        n.cbs, self.cbs = self.cbs, []
        return n

    def m_close(self, I):
        self.m___exit__(I, None, None, None)

    def m___exit__(self, I, t, e, tb):
        from .interp import AbsRaise
        cur = AbsRaise(e, site=I.site()) if e is not None else None
        orig = cur
        while self.cbs:
            ex = self.cbs.pop()
            try:
                if ex(cur):
                    cur = None
            except AbsRaise as e2:
                cur = e2
        if cur is not None and cur is not orig:
            raise cur
        return orig is not None and cur is None


MODELS["contextlib.suppress"] = lambda I, a, k: I.new(Suppress(a))
MODELS["contextlib.nullcontext"] = lambda I, a, k: I.new(NullCM(a[0] if a else None))
MODELS["contextlib.closing"] = lambda I, a, k: I.new(NullCM(a[0], True))
MODELS["contextlib.ExitStack"] = lambda I, a, k: I.new(ExitStackO())


# ---------------------------------------------------------------------- copy
def deepcopy(I, v, memo=None, deep=True):
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, Rep):
        return Rep(deepcopy(I, v.value, memo), v.src)
    if isinstance(v, (A.ArrV,)):
        k = ("arr", id(v))
        if k not in memo:
            memo[k] = A.copy_arr(I, v, how="deepcopy")
        return memo[k]
    if isinstance(v, A.VecV):
        return I.new(A.VecV([deepcopy(I, e, memo) for e in v.elems]))
    if isinstance(v, Obj) and hasattr(v, "deepcopy"):
        if id(v) not in memo:
            memo[id(v)] = v.deepcopy(I, memo)
        return memo[id(v)]
    if not isinstance(v, Heap) or isinstance(v, (FuncV, ClassV, ModV, PropertyV, LruV, CMFactory, Obj)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, ListV):
        n = I.new(ListV())
        memo[id(v)] = n
        n.items = [deepcopy(I, x, memo) for x in v.items]
        return n
    if isinstance(v, SetV):
        n = I.new(SetV())
        memo[id(v)] = n
        n.items = [deepcopy(I, x, memo) for x in v.items]
        n.frozen = v.frozen
        return n
    if isinstance(v, DictV):
        n = I.new(DictV())
        memo[id(v)] = n
        n.entries = [[deepcopy(I, a, memo), deepcopy(I, b, memo)] for a, b in v.entries]
        if v.base is not None:
            n.base = v.base.clone()
            f0 = v.base.factory
            n.base.factory = lambda I, k, f0=v.base: deepcopy(I, f0.value(I, k), memo)
            n.base.cache = {}
        n.label = v.label
        return n
    if isinstance(v, InstV):
        f = I.class_lookup(v.cls, "__deepcopy__") if isinstance(v.cls, ClassV) else None
        if f is not None:
            return I.call(BoundV(f, v), [I.new(DictV())], {})
        n = I.new(InstV(v.cls))
        memo[id(v)] = n
        n.attrs = {k: deepcopy(I, x, memo) for k, x in v.attrs.items()}
        n.label = v.label
        return n
    return v


@model("copy.deepcopy")
def m_deepcopy(I, a, k):
    return deepcopy(I, a[0])


@model("copy.copy")
def m_copy(I, a, k):
    v = a[0]
    if isinstance(v, ListV):
        return I.new(ListV(v.items))
    if isinstance(v, SetV):
        return I.new(SetV(v.items, v.frozen))
    if isinstance(v, DictV):
        return B.copy_dict(I, v)
    if isinstance(v, A.ArrV):
        return A.copy_arr(I, v)
    if isinstance(v, A.VecV):
        return I.new(A.VecV(v.elems))
    if isinstance(v, InstV):
        f = I.class_lookup(v.cls, "__copy__") if isinstance(v.cls, ClassV) else None
        if f is not None:
            return I.call(BoundV(f, v), [], {})
        n = I.new(InstV(v.cls))
        n.attrs = dict(v.attrs)
        n.label = v.label
        return n
    return v


# --------------------------------------------------------------- dataclasses
@model("dataclasses.field")
def dc_field(I, a, k):
    t = Term("dcfield", (I.fresh_name("f"),), {"field": dict(k), "nonnull": True})
    return t


@model("dataclasses.dataclass")
def dataclass(I, a, k):
    def deco(cls):
        fields = []
        for c in reversed(cls.mro()[1:]):
            if isinstance(c, ClassV) and c.is_dataclass:
                for f in c.dc_fields:
                    if f[0] not in [g[0] for g in fields]:
                        fields.append(f)
        for n in getattr(cls, "fields_ann", []):
            d = cls.ns.get(n, NotImplemented)
            factory, init = None, True
            if isinstance(d, Term) and d.op == "dcfield":
                f = d.info["field"]
                factory = f.get("default_factory")
                init = f.get("init", True)
                d = f.get("default", NotImplemented)
                if d is NotImplemented:
                    del cls.ns[n]
                else:
                    cls.ns[n] = d
            new = (n, d, factory, init)
            for i, f in enumerate(fields):
                if f[0] == n:
                    fields[i] = new
                    break
            else:
                fields.append(new)
        cls.is_dataclass = True
        cls.dc_fields = fields
        cls.frozen = bool(k.get("frozen", False))
        cls.dc_eq = bool(k.get("eq", True))
        return cls
    if a and isinstance(a[0], ClassV):
        return deco(a[0])
    return PyFn("dataclass()", lambda I, a2, k2: deco(a2[0]))


@model("dataclasses.replace")
def dc_replace(I, a, k):
    o = a[0]
    kw = {f[0]: o.attrs[f[0]] for f in I.dataclass_of(o.cls).dc_fields if f[3]}
    kw.update(k)
    return I.call(o.cls, [], kw)


@model("dataclasses.asdict")
def dc_asdict(I, a, k):
    o = a[0]
    return I.new(DictV([[f[0], deepcopy(I, o.attrs[f[0]])] for f in I.dataclass_of(o.cls).dc_fields]))


@model("dataclasses.astuple")
def dc_astuple(I, a, k):
    o = a[0]
    return tuple(deepcopy(I, o.attrs[f[0]]) for f in I.dataclass_of(o.cls).dc_fields)


@model("dataclasses.fields")
def dc_fields_(I, a, k):
    o = a[0]
    cls = o.cls if isinstance(o, InstV) else o
    return tuple(Term("dcf", (f[0],), {"attrs": {"name": f[0]}, "nonnull": True}) for f in I.dataclass_of(cls).dc_fields)


# --------------------------------------------------------------- collections
@model("collections.namedtuple")
def namedtuple(I, a, k):
    names = a[1].replace(",", " ").split() if isinstance(a[1], str) else list(I.items_of(a[1]))
    c = I.new(ClassV(a[0], [], {}, None, a[0]))
    c.is_namedtuple = names
    d = k.get("defaults")
    if d is not None:
        d = I.items_of(d)
        c.nt_defaults = dict(zip(names[-len(d):], d))
    return c


@model("collections.OrderedDict")
def ordereddict(I, a, k):
    return B.call_type(I, BT(dict), a, k)


@model("collections.ChainMap")
def chainmap(I, a, k):
    if not all(isinstance(x, DictV) for x in a):
        raise _U("ChainMap of something else than dictionaries")
    out = B.call_type(I, BT(dict), [], {})      # read only: what is stored would go to the first mapping
    for x in reversed(a):
        I.call(I.getattr(out, "update"), [x], {})
    out.is_chain = True
    return out


@model("collections.defaultdict")
def defaultdict(I, a, k):
    d = B.call_type(I, BT(dict), a[1:], k)
    d.default_factory = a[0] if a else None
    return d


@model("collections.deque")
def deque(I, a, k):
    l = B.call_type(I, BT(list), a[:1], {})
    l.is_deque = True
    return l


# ----------------------------------------------------------------- itertools
def _concrete(I, it, what):
    items = I.items_of(it)
    if any(isinstance(x, Rep) for x in items):
        raise _U(f"{what} of an unknown sequence")
    return items


@model("itertools.product")
def it_product(I, a, k):
    lists, mark = [], len(I.idx_extra)
    for x in list(a) * k.get("repeat", 1):
        lists.append(I.items_of(x))
        for r in lists[-1]:
            if isinstance(r, Rep) and isinstance(r.src, Term) and r.src.op == "range":
                I.idx_extra.append(vrepr(I.binop("Sub", r.src.args[1], r.src.args[0])))
    del I.idx_extra[mark:]
    if any(isinstance(x, Rep) for l in lists for x in l):
        if all(len(l) == 1 and isinstance(l[0], Rep) for l in lists):
            return I.new(ListV([Rep(tuple(l[0].value for l in lists), Term("nest", tuple(l[0].src for l in lists)))]))
        raise _U("product of mixed sequences")
    import itertools
    return I.new(IterV([tuple(x) for x in itertools.product(*lists)]))


def _generator(I, drive):
    """generator object whose values are those drive passes to its argument"""
    from . import interp as m

    def run(co):
        def body(v):
            co.yield_(v)
        drive(body)
    out = I.new(m.GenV(m.Coroutine(I, run, "iterator"), "<iterator>"))
    out.lazy = True
    return out


def _isgen(x):
    from . import interp as m
    return isinstance(x, m.GenV) and x.lazy


@model("itertools.chain")
def it_chain(I, a, k):
    if any(_isgen(x) for x in a):
        return _generator(I, lambda body: [I.iterate(x, body) for x in a])
    out = []
    for x in a:
        out.extend(I.items_of(x))
    return I.new(IterV(out))


@model("itertools.chain.from_iterable")
def it_chain2(I, a, k):
    if _isgen(a[0]):
        return _generator(I, lambda body: I.iterate(a[0], lambda x: I.iterate(x, body)))
    if isinstance(a[0], (tuple, ListV)) and any(_isgen(x) for x in I.items_of(a[0])):
        return it_chain(I, I.items_of(a[0]), {})
    out = []
    for x in I.items_of(a[0]):
        if isinstance(x, Rep):
            raise _U("chain of an unknown sequence")
        out.extend(I.items_of(x))
    return I.new(IterV(out))


def _itc(fn):
    def f(I, a, k):
        import itertools
        items = _concrete(I, a[0], fn)
        r = getattr(itertools, fn)(items, *a[1:])
        return I.new(IterV([tuple(x) if isinstance(x, tuple) else x for x in r]))
    return f


for _n in ("permutations", "combinations", "islice"):
    MODELS["itertools." + _n] = _itc(_n)


@model("itertools.repeat")
def it_repeat(I, a, k):
    if len(a) > 1 and isinstance(a[1], int):
        return I.new(IterV([a[0]] * a[1]))
    return I.new(IterV([a[0]] * 1000))


@model("itertools.count")
def it_count(I, a, k):
    s = a[0] if a else 0
    return I.new(IterV([I.binop("Add", s, i) for i in range(1000)]))


@model("itertools.zip_longest")
def it_zl(I, a, k):
    import itertools
    return I.new(IterV([tuple(x) for x in itertools.zip_longest(*[_concrete(I, x, "zip_longest") for x in a], fillvalue=k.get("fillvalue"))]))


@model("itertools.starmap")
def it_starmap(I, a, k):
    if _isgen(a[1]):
        return _generator(I, lambda body: I.iterate(a[1], lambda x: body(I.call(a[0], I.items_of(x), {}))))
    out = []
    for x in I.items_of(a[1]):
        if isinstance(x, Rep):
            out.append(Rep(I.call(a[0], I.items_of(x.value), {}), x.src))
        else:
            out.append(I.call(a[0], I.items_of(x), {}))
    return I.new(IterV(out))


@model("itertools.accumulate")
def it_acc(I, a, k):
    out = []
    for x in _concrete(I, a[0], "accumulate"):
        out.append(x if not out else (I.call(a[1], [out[-1], x], {}) if len(a) > 1 else I.binop("Add", out[-1], x)))
    return I.new(IterV(out))


# ------------------------------------------------------------------ operator
for _n, _op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("or_", "BitOr"), ("and_", "BitAnd"), ("xor", "BitXor"), ("pow", "Pow"), ("concat", "Add"), ("lshift", "LShift"), ("rshift", "RShift"), ("matmul", "MatMult"),
                ("iadd", "Add"), ("isub", "Sub"), ("imul", "Mult")):
    MODELS["operator." + _n] = lambda I, a, k, _op=_op: I.binop(_op, a[0], a[1])
for _n, _op in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
    MODELS["operator." + _n] = lambda I, a, k, _op=_op: I.compare(_op, a[0], a[1])
MODELS["operator.neg"] = lambda I, a, k: I.unop("USub", a[0])
MODELS["operator.not_"] = lambda I, a, k: not I.truth(a[0])
MODELS["operator.pos"] = lambda I, a, k: I.unop("UAdd", a[0])
MODELS["operator.truth"] = lambda I, a, k: I.truth(a[0])
MODELS["operator.is_"] = lambda I, a, k: I.compare("Is", a[0], a[1])
MODELS["operator.is_not"] = lambda I, a, k: I.compare("IsNot", a[0], a[1])
MODELS["operator.countOf"] = lambda I, a, k: sum(1 for x in _concrete(I, a[0], "countOf") if I.truth(I.eq(x, a[1])))
MODELS["operator.setitem"] = lambda I, a, k: I.setitem(a[0], a[1], a[2])
MODELS["operator.index"] = lambda I, a, k: a[0]
MODELS["operator.getitem"] = lambda I, a, k: I.getitem(a[0], a[1])
MODELS["operator.contains"] = lambda I, a, k: B.contains(I, a[0], a[1])
MODELS["operator.itemgetter"] = lambda I, a, k: PyFn("itemgetter", lambda I, b, k2: I.getitem(b[0], a[0]) if len(a) == 1 else tuple(I.getitem(b[0], x) for x in a))


def _attrgetter(I, a, k):
    def one(o, p):
        for n in p.split("."):
            o = I.getattr(o, n)
        return o
    return PyFn("attrgetter", lambda I, b, k2: one(b[0], a[0]) if len(a) == 1 else tuple(one(b[0], x) for x in a))


MODELS["operator.attrgetter"] = _attrgetter
MODELS["operator.methodcaller"] = lambda I, a, k: PyFn("methodcaller", lambda I, b, k2: I.call(I.getattr(b[0], a[0]), list(a[1:]), k))


# --------------------------------------------------------------------- math
@model("math.prod")
def math_prod(I, a, k):
    r = k.get("start", 1)
    for x in _concrete(I, a[0], "prod"):
        r = I.binop("Mult", r, x)
    return r


@model("math.floor")
def math_floor(I, a, k):
    v = a[0]
    if isinstance(v, Frac):
        if v.ops:
            return B.to_int(I, v)
        return I.binop("FloorDiv", mk(v.num), mk(v.den))
    return B.to_int(I, v) if isinstance(v, (Poly, int, float)) and (not isinstance(v, float) or v >= 0) else Term("floor", (v,), {"kind": "int"})


@model("math.ceil")
def math_ceil(I, a, k):
    v = a[0]
    if isinstance(v, (int, Poly)):
        return v
    if isinstance(v, Frac) and not v.ops:
        return I.unop("USub", I.binop("FloorDiv", I.unop("USub", mk(v.num)), mk(v.den)))
    return Term("ceil", (v,), {"kind": "int"})


@model("math.sqrt", "numpy.sqrt", "cupy.sqrt")
def math_sqrt(I, a, k):
    return elementwise(I, "sqrt", a)


@model("math.isqrt")
def math_isqrt(I, a, k):
    return Term("isqrt", (a[0],), {"kind": "int"})


# --------------------------------------------- logging / warnings / misc pure
class Logger(Obj):
    label = "logger"

    def getattr(self, I, name):
        return PyFn("logger." + name, lambda I, a, k: I.event("log", level=name, args=tuple(a)) and None)


MODELS["logging.getLogger"] = lambda I, a, k: I.new(Logger())
MODELS["logging.*"] = lambda I, n, a, k: I.event("log", level=n, args=tuple(a)) and None


@model("warnings.warn")
def warn(I, a, k):
    I.event("warn", args=tuple(a), kw=dict(k))
    return None


MODELS["warnings.*"] = lambda I, n, a, k: None
MODELS["traceback.*"] = lambda I, n, a, k: Term("traceback", ())


@model("timeit.default_timer", "time.time", "time.perf_counter", "time.monotonic", "time.process_time")
def clock(I, a, k):
    I.uid += 1
    t = Term("clock", (I.uid,), {"kind": "float", "nonnull": True})
    I.event("clock", t=t)
    return t


MODELS["time.sleep"] = lambda I, a, k: None


# ------------------------------------------------------------- os / io / files
class BytesIO(Obj):
    label = "BytesIO"

    def __init__(self):
        self.parts = []

    def m_write(self, I, v):
        I.event("iowrite", target=self, value=v)
        self.parts.append(v)
        return Term("n", ())

    def m_getvalue(self, I):
        return Term("getvalue", (self, len(self.parts)))

    def m_read(self, I, *a):
        return Term("read", (self, len(self.parts)))

    def m_seek(self, I, *a):
        return 0

    def m_close(self, I):
        return None

    def m___enter__(self, I):
        return self

    def m___exit__(self, I, *a):
        return False


MODELS["io.BytesIO"] = lambda I, a, k: I.new(BytesIO())
MODELS["io.StringIO"] = lambda I, a, k: I.new(BytesIO())


class TempFile(Obj):
    label = "tempfile"
    n = 0

    def m___enter__(self, I):
        I.event("tempopen", file=self)
        return self

    def m___exit__(self, I, *a):
        I.event("tempclose", file=self)
        return False

    def m_close(self, I):
        I.event("tempclose", file=self)

    def m_fileno(self, I):
        return Term("fileno", (self,), {"kind": "int", "nonnull": True})

    def m_seek(self, I, *a):
        I.event("seek", file=self, args=tuple(a))
        self.at_start = tuple(a) in ((0,), (0, 0))
        return 0

    at_start = False      # what was written through the descriptor moved the position

    def m_read(self, I, *a):
        I.event("tempread", file=self)
        if I.inject:
            I.inject(I, "tempfile read")
        if not self.at_start or any(x is not None and x != -1 for x in a):
            return Term("rest", (self,), {"nonnull": True})
        self.at_start = False
        return Term("contents", (self,), {"nonnull": True})

    def m_flush(self, I):
        return None

    def p_name(self, I):
        return Term("tempname", (self,), {"kind": "str", "nonnull": True})


@model("tempfile.NamedTemporaryFile", "tempfile.TemporaryFile")
def tempfile(I, a, k):
    if I.inject:
        I.inject(I, "tempfile creation")
    f = I.new(TempFile())
    I.event("tempcreate", file=f, kwargs=dict(k))
    return f


@model("os.dup")
def os_dup(I, a, k):
    if I.inject:
        I.inject(I, "os.dup")
    I.uid += 1
    t = Term("dup", (a[0], I.uid), {"kind": "int", "nonnull": True})
    I.event("dup", fd=a[0], new=t)
    return t


@model("os.dup2")
def os_dup2(I, a, k):
    if I.inject:
        I.inject(I, "os.dup2", a[0], a[1])
    I.event("dup2", src=a[0], dst=a[1])
    return a[1]


@model("os.close")
def os_close(I, a, k):
    I.event("close", fd=a[0])


@model("os.path.join", "posixpath.join")
def path_join(I, a, k):
    if all(isinstance(x, str) for x in a):
        import posixpath
        return posixpath.join(*a)
    return Term("join", tuple(a), {"kind": "str", "nonnull": True, "truthy": True})


@model("os.path.basename")
def basename(I, a, k):
    if isinstance(a[0], str):
        import posixpath
        return posixpath.basename(a[0])
    return Term("basename", (a[0],), {"kind": "str", "nonnull": True})


# ------------------------------------------------------------------ datetime
@model("datetime.timedelta")
def timedelta(I, a, k):
    names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
    d = dict(zip(names, a))
    d.update(k)
    if "**" in d:
        raise _U("timedelta(**)")
    return TimeDelta.make(I, d)


UNITS = {"days": 86400, "seconds": 1, "minutes": 60, "hours": 3600, "weeks": 604800}


class TimeDelta(Obj):
    label = "timedelta"
    typename = "datetime.timedelta"

    def __init__(self, secs):
        self.secs = secs

    @staticmethod
    def make(I, d):
        tot = 0
        for n, v in d.items():
            if n in ("microseconds", "milliseconds"):
                v = I.binop("Div", v, 1000000 if n == "microseconds" else 1000)
                tot = I.binop("Add", tot, v)
            else:
                tot = I.binop("Add", tot, I.binop("Mult", v, UNITS[n]))
        return I.new(TimeDelta(tot))

    @property
    def key(self):
        return ("timedelta", vkey(self.secs))

    def __repr__(self):
        return f"timedelta({vrepr(self.secs)} s)"

    def m_total_seconds(self, I):
        s = self.secs
        if isinstance(s, Frac):
            return s
        if isinstance(s, (int, Poly)):
            return to_frac(s)
        return s

    def p_days(self, I):
        if isinstance(self.secs, int):
            return self.secs // 86400
        return Term("timedelta.days", (self,), {"kind": "int", "nonnull": True})

    def p_seconds(self, I):
        if isinstance(self.secs, int):
            return self.secs % 86400
        return Term("timedelta.seconds", (self,), {"kind": "int", "nonnull": True})

    def p_microseconds(self, I):
        if isinstance(self.secs, int):
            return 0
        return Term("timedelta.microseconds", (self,), {"kind": "int", "nonnull": True})

    def eq(self, I, o):
        return isinstance(o, TimeDelta) and I.eq(self.secs, o.secs)

    def binop(self, I, op, other, swapped):
        if op == "Div":
            if isinstance(other, TimeDelta) and not swapped:
                return I.binop("Div", self.secs, other.secs)
            if not swapped:
                return I.new(TimeDelta(I.binop("Div", self.secs, other)))
        if op in ("Add", "Sub") and isinstance(other, TimeDelta):
            a, b = (other, self) if swapped else (self, other)
            return I.new(TimeDelta(I.binop(op, a.secs, b.secs)))
        if op == "Mult":
            return I.new(TimeDelta(I.binop("Mult", self.secs, other)))
        if isinstance(other, Term):
            a, b = (other, self) if swapped else (self, other)
            return Term(op, (a, b))
        raise _U("timedelta arithmetic")

    def truth(self, I):
        return I.truth(self.secs)


# --------------------------------------------------------------------- numpy
def tn_of(name):
    return "cupy.ndarray" if name.startswith("cupy") else A.HOST


def np_alloc(kind):
    def f(I, name, a, k):
        bad = [x for x in k if x not in ("shape", "dtype", "order", "like", "device", "**") and not (x == "fill_value" and kind == "full")]
        if bad:
            I.raise_(TypeError, f"{kind}() got an unexpected keyword argument '{bad[0]}'")
        shape = A.as_shape(I, a[0] if a else k["shape"])
        rest = a[1:]
        fill = None
        if kind == "full":
            fill = rest[0] if rest else k.get("fill_value")
            rest = rest[1:]
        dt = rest[0] if rest else k.get("dtype")
        order = k.get("order", rest[1] if len(rest) > 1 else "C")
        content = {"zeros": to_frac(0), "ones": to_frac(1), "empty": None, "full": A.content_of(I, fill) if fill is not None else None}[kind]
        for n in shape:
            if isinstance(n, Poly) and I.facts.sign(n) in (None, "<"):
                if I.compare("Lt", n, 0):
                    I.raise_(ValueError, "negative dimensions are not allowed")
            elif isinstance(n, int) and n < 0:
                I.raise_(ValueError, "negative dimensions are not allowed")
        return A.alloc(I, kind, shape, A.dtype_of(I, dt), tn_of(name), content=content, order="C" if order == "C" else None, how=kind)
    return f


def np_like(kind):
    def f(I, name, a, k):
        v = a[0]
        if isinstance(v, A.VecV):
            return I.new(A.VecV([{"zeros": 0, "ones": 1}.get(kind, 0)] * len(v.elems)))
        if not isinstance(v, A.ArrV):
            raise _U(f"{kind}_like")
        rest = a[1:]
        fill = None
        if kind == "full":
            fill = rest[0] if rest else k.get("fill_value")
            rest = rest[1:]
        dt = rest[0] if rest else k.get("dtype")
        content = {"zeros": to_frac(0), "ones": to_frac(1), "empty": None, "full": A.content_of(I, fill) if fill is not None else None}[kind]
        return A.alloc(I, kind, v.shape, A.dtype_of(I, dt) if dt is not None else v.buf.dtype, v.buf.typename, content=content,
                       order="C" if len(v.axes) <= 1 else None, how=kind)
    return f


def np_asarray(copy=False):
    def f(I, name, a, k):
        v = a[0]
        dt = a[1] if len(a) > 1 else k.get("dtype")
        cp = k.get("copy", copy)
        tn = tn_of(name)
        if isinstance(v, A.ArrV):
            if v.buf.typename != A.HOST and tn == A.HOST:
                I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed. Please use `.get()`")
            if v.buf.typename == A.HOST and tn != A.HOST:
                return A.copy_arr(I, v, dt, how="to_device", typename=tn)
        h = I.hooks.get("asarray")
        if h:
            r = h(I, v)
            if r is not None:
                return r
        r = A.asarray(I, v, dt, cp)
        if isinstance(r, A.ArrV) and tn != A.HOST and r.buf.typename == A.HOST and r is not v:
            r.buf.typename = tn
        return r
    return f


def np_ascontig(I, name, a, k):
    v = a[0]
    if isinstance(v, A.ArrV):
        if v.buf.typename != A.HOST and tn_of(name) == A.HOST:
            I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed.")
        dt = a[1] if len(a) > 1 else k.get("dtype")
        if dt is not None and vkey(A.dtype_of(I, dt)) != vkey(v.buf.dtype):
            return A.copy_arr(I, v, dt)
        if A.contiguous(I, v, "C"):
            return v
        return A.copy_arr(I, v)
    return np_asarray()(I, name, a, k)


def np_asfortran(I, name, a, k):
    v = a[0]
    if isinstance(v, A.ArrV):
        if v.buf.typename != A.HOST and tn_of(name) == A.HOST:
            I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed.")
        if len(v.axes) > 1 and A.contiguous(I, v, "F"):
            return v
        return A.copy_arr(I, v, order="C" if len(v.axes) <= 1 else "F")
    return np_asarray()(I, name, a, k)


def np_asnumpy(I, name, a, k):
    v = a[0]
    if isinstance(v, A.ArrV):
        if v.buf.typename == A.HOST:
            return v
        return A.copy_arr(I, v, how="to_host", typename=A.HOST)
    return A.asarray(I, v)


def elementwise(I, op, args):
    if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in args):
        if op == "sqrt" and args[0] >= 0:
            r = float(args[0]) ** 0.5
            return r
    arrs = [x for x in args if isinstance(x, A.ArrV)]
    for x in arrs:
        I.event("read", arr=x)
    if not arrs:
        if any(isinstance(x, A.VecV) for x in args):
            n = max(len(x.elems) for x in args if isinstance(x, A.VecV))
            return I.new(A.VecV([Term(op, tuple(x.elems[i] if isinstance(x, A.VecV) else I.freeze(x) for x in args), {"nonnull": True}) for i in range(n)]))
        return Term(op, tuple(I.freeze(x) for x in args), {"nonnull": True})
    shape = ()
    for x in args:
        shape = A.broadcast_shapes(I, shape, A.bshape(I, x))
    cs = [A.aligned(I, x, len(shape)) if x is not None else None for x in args]
    t = Term(op, tuple(("c", c.num, c.den) if c is not None else ("opaque", x) for c, x in zip(cs, [I.freeze(y) for y in args])))
    return A.alloc(I, op, shape, arrs[0].buf.dtype, arrs[0].buf.typename, content=None, how="arith", order=None if len(shape) > 1 else "C")


ELEMENTWISE = {"abs", "absolute", "sin", "cos", "tan", "exp", "log", "minimum", "maximum", "isnan", "isfinite", "sign",
               "floor", "ceil", "round", "around", "clip", "nan_to_num", "power", "square", "arctan2", "fabs", "hypot",
               "logical_and", "logical_or", "logical_not"}
BINF = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "floor_divide": "FloorDiv",
        "mod": "Mod", "remainder": "Mod"}
CMPF = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}
DTYPES = {"int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "float64", "float32", "float16",
          "bool_", "complex128", "complex64", "intp", "int_", "float_", "double", "single"}


def np_call(I, name, a, k):
    short = name.split(".", 1)[1]
    f = NP.get(short)
    if f is not None:
        return f(I, name, list(a), dict(k))
    if short in ELEMENTWISE:
        return elementwise(I, short, a)
    if short in BINF:
        r = A.binop(I, BINF[short], a[0], a[1]) if any(isinstance(x, (A.ArrV, A.VecV)) for x in a[:2]) else I.binop(BINF[short], a[0], a[1])
        out = k.get("out", a[2] if len(a) > 2 else None)
        if out is not None:
            A.write(I, out, r)
            return out
        return r
    if short in ("negative", "positive"):
        r = I.unop("USub" if short == "negative" else "UAdd", a[0])
        out = k.get("out", a[1] if len(a) > 1 else None)
        if out is not None:
            A.write(I, out, r)
            return out
        return r
    if short in CMPF:
        return I.compare(CMPF[short], a[0], a[1])
    if short in DTYPES:
        v = a[0] if a else 0
        if isinstance(v, (int, Poly)) and "int" in short or isinstance(v, (float, Frac)) and short in ("float64", "float_", "double"):
            return v
        if isinstance(v, (int, Poly)) and short in ("float64", "float_", "double"):
            return float(v) if isinstance(v, int) else to_frac(v)
        return Term(short, (I.freeze(v),), {"nonnull": True, "type": ExtV(name)})
    return NotImplemented


MODELS["numpy.*"] = np_call
MODELS["cupy.*"] = np_call


def _view(fn):
    def f(I, name, a, k):
        v = a[0]
        if not isinstance(v, (A.ArrV, A.VecV)):
            v = A.asarray(I, v)
            if not isinstance(v, (A.ArrV, A.VecV)):
                raise _U(f"{name} of {vrepr(v)}")
        return fn(I, v, *a[1:], **k)
    return f


def _moveaxis(I, v, s, d):
    n = len(v.axes)
    s = [s] if isinstance(s, int) else I.items_of(s)
    d = [d] if isinstance(d, int) else I.items_of(d)
    s = [x % n for x in s]
    d = [x % n for x in d]
    order = [i for i in range(n) if i not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return A.transpose(I, v, tuple(order))


def _arange(I, name, a, k):
    if len(a) == 1:
        st, sp, step = 0, a[0], 1
    else:
        st, sp = a[0], a[1]
        step = a[2] if len(a) > 2 else k.get("step", 1)
    n = I.binop("Sub", sp, st)
    if step != 1:
        if not isinstance(step, int) or step <= 0:
            raise _U("arange step")
        n = I.binop("FloorDiv", I.binop("Add", n, step - 1), step)
    if isinstance(n, (Frac, float)):
        raise _U("arange with a non-integer")
    if isinstance(n, int) and n < 0 or isinstance(n, Poly) and I.compare("Lt", n, 0):
        n = 0
    c = Frac(to_poly(st) + Poly.const(step) * Poly.atom(A.ax(0)), Poly.const(1))
    return A.alloc(I, "arange", (n,), A.dtype_of(I, k.get("dtype", BT(int))), tn_of(name), content=c, how="arange")


def _where(I, name, a, k):
    if len(a) == 1:
        return A.nonzero(I, a[0])
    return elementwise(I, "where", a)


def _argwhere(I, name, a, k):
    w = A.nonzero(I, a[0])
    n = len(w[0].elems)
    rows = [I.new(A.VecV([v.elems[i] for v in w])) for i in range(n)]
    return I.new(A.NestV(rows))


def _array_equal(I, name, a, k):
    for x in a[:2]:
        if isinstance(x, A.ArrV):
            I.event("read", arr=x)
    x, y = a[:2]
    sx, sy = A.bshape(I, x), A.bshape(I, y)
    if len(sx) != len(sy):
        return False
    return I.choose(("array_equal", vkey(x), vkey(y)), f"array_equal({vrepr(x)}, {vrepr(y)})")


def _prod(I, name, a, k):
    v = a[0]
    if isinstance(v, A.ArrV):
        return A.reduce_(I, v, "prod")
    r = 1
    for x in _concrete(I, v, "prod"):
        r = I.binop("Mult", r, x)
    return r


def _sum(I, name, a, k):
    v = a[0]
    if isinstance(v, A.ArrV):
        return A.reduce_(I, v, "sum")
    r = 0
    for x in _concrete(I, v, "sum"):
        r = I.binop("Add", r, x)
    return r


def _unravel(I, name, a, k):
    i, shape = a[0], A.as_shape(I, a[1] if len(a) > 1 else k.get("shape"))
    order = k.get("order", a[2] if len(a) > 2 else "C")
    if isinstance(i, Term):
        i = Poly.atom(i)
    if isinstance(i, (A.ArrV, A.VecV, ListV)):
        raise _U("unravel_index of an array")
    total = 1
    for s in shape:
        total = I.binop("Mult", total, s)
    if I.compare("Lt", i, 0) or I.compare("GtE", i, total):
        I.raise_(ValueError, "index is out of bounds for array")
    out = []
    seq = list(shape)[::-1] if order == "C" else list(shape)
    for n, s in enumerate(seq):
        if n == len(seq) - 1:
            out.append(i)
        else:
            out.append(I.binop("Mod", i, s))
            i = I.binop("FloorDiv", i, s)
    return tuple(out[::-1] if order == "C" else out)


def _ravel_multi(I, name, a, k):
    shape = A.as_shape(I, a[1])
    r = 0
    for i, s in zip(I.items_of(a[0]), shape):
        r = I.binop("Add", I.binop("Mult", r, s), i)
    return r


def _copyto(I, name, a, k):
    A.write(I, a[0], a[1])


def _isscalar(I, name, a, k):
    return isinstance(a[0], (int, float, Poly, Frac, str, complex))


def _stack(I, name, a, k):
    items = I.items_of(a[0])
    if any(isinstance(x, Rep) for x in items) or not all(isinstance(x, A.ArrV) for x in items):
        raise _U("stack")
    if k.get("axis", a[1] if len(a) > 1 else 0) != 0:
        raise _U("stack axis")
    return A.stack(I, items)


def _dtype(I, name, a, k):
    return A.dtype_of(I, a[0])


def _result_type(I, name, a, k):
    return Term("dtype", ("result_type",) + tuple(I.freeze(x) for x in a), {"nonnull": True})


def _broadcast_to(I, name, a, k):
    return elementwise(I, "broadcast_to", [a[0]])


def _reduce(n):
    def f(I, name, a, k):
        v = a[0]
        if isinstance(v, A.ArrV):
            return A.reduce_(I, v, n)
        if isinstance(v, A.BoolArr):
            return v.m_any(I) if n == "any" else v.m_all(I)
        if n in ("any", "all") and isinstance(v, (ListV, tuple, A.VecV)):
            return B.anyall(I, v, n == "any")
        if n in ("min", "max", "amin", "amax") and isinstance(v, (ListV, tuple, A.VecV)):
            return B.minmax(I, [tuple(I.items_of(v))], {}, "min" in n)
        return Term(n, (I.freeze(v),))
    return f


def _dt64(I, name, a, k):
    if len(a) == 0:
        return Term("NaT", ())
    return Term("datetime64", tuple(I.freeze(x) for x in a), {"nonnull": True, "type": ExtV("numpy.datetime64")})


def _td64(I, name, a, k):
    return Term("timedelta64", tuple(I.freeze(x) for x in a), {"nonnull": True, "type": ExtV("numpy.timedelta64")})


def _atleast(I, name, a, k):
    v = A.asarray(I, a[0])
    if isinstance(v, A.VecV) or (isinstance(v, A.ArrV) and v.axes):
        return v
    return A.getitem(I, v, (None,))


NP = {
    "empty": np_alloc("empty"), "zeros": np_alloc("zeros"), "ones": np_alloc("ones"), "full": np_alloc("full"),
    "empty_like": np_like("empty"), "zeros_like": np_like("zeros"), "ones_like": np_like("ones"), "full_like": np_like("full"),
    "array": np_asarray(True), "asarray": np_asarray(), "asanyarray": np_asarray(), "ascontiguousarray": np_ascontig, "asfortranarray": np_asfortran,
    "asnumpy": np_asnumpy, "require": np_ascontig,
    "copy": lambda I, n, a, k: A.copy_arr(I, a[0]) if isinstance(a[0], (A.ArrV, A.VecV)) else np_asarray(True)(I, n, a, k),
    "copyto": _copyto,
    "rot90": _view(A.rot90), "flip": _view(A.flip), "fliplr": _view(lambda I, v: A.flip(I, v, 1)),
    "flipud": _view(lambda I, v: A.flip(I, v, 0)), "transpose": _view(A.transpose), "swapaxes": _view(A._swapaxes),
    "moveaxis": _view(_moveaxis), "squeeze": _view(A._squeeze), "reshape": _view(lambda I, v, s, **k: A.reshape(I, v, s)),
    "ravel": _view(lambda I, v, *a: A._flat(I, v, False)),
    "expand_dims": _view(lambda I, v, axis: A.getitem(I, v, (slice(None),) * axis + (None,))),
    "where": _where, "nonzero": lambda I, n, a, k: A.nonzero(I, a[0] if isinstance(a[0], A.BoolArr) else A.compare(I, "NotEq", a[0], 0)),
    "flatnonzero": lambda I, n, a, k: A.nonzero(I, a[0])[0],
    "argwhere": _argwhere, "arange": _arange, "array_equal": _array_equal, "allclose": _array_equal,
    "prod": _prod, "product": _prod, "sum": _sum, "unravel_index": _unravel, "ravel_multi_index": _ravel_multi,
    "isscalar": _isscalar, "stack": _stack, "dtype": _dtype, "result_type": _result_type, "promote_types": _result_type,
    "broadcast_to": _broadcast_to, "datetime64": _dt64, "timedelta64": _td64,
    "any": _reduce("any"), "all": _reduce("all"), "min": _reduce("min"), "max": _reduce("max"), "amin": _reduce("min"),
    "amax": _reduce("max"), "mean": _reduce("mean"),
    "ndim": lambda I, n, a, k: len(A.bshape(I, a[0])), "shape": lambda I, n, a, k: A.bshape(I, a[0]),
    "size": lambda I, n, a, k: A.size(I, a[0]), "atleast_1d": _atleast,
    "issubdtype": lambda I, n, a, k: I.choose(("issubdtype", vkey(a[0]), vkey(a[1])), f"issubdtype({vrepr(a[0])}, {vrepr(a[1])})"),
    "iterable": lambda I, n, a, k: isinstance(a[0], (ListV, tuple, DictV, SetV, A.ArrV, A.VecV, str)),
    "may_share_memory": lambda I, n, a, k: a[0].buf is a[1].buf, "shares_memory": lambda I, n, a, k: a[0].buf is a[1].buf,
    "index_exp": None,
}
NP = {k: v for k, v in NP.items() if v}
