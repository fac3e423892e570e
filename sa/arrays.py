"""Abstract arrays: views are affine maps into buffers; contents are rational
expressions over element atoms and axis indices."""
from .poly import Poly, Sym
from .values import *

HOST = "numpy.ndarray"


def _U(msg):
    from .interp import Unsupported
    return Unsupported(msg)


class Buf(Heap):
    """one block of array memory"""

    def __init__(self, label, shape, dtype, typename=HOST, order="C", fresh=True, content=None):
        self.label, self.shape, self.dtype = label, tuple(shape), dtype
        self.typename = typename
        self.order = order          # 'C' when known to be C-ordered, else None
        self.fresh = fresh          # allocated by the analysed code
        self.content = content      # Frac over el atoms / axis atoms of the whole buffer
        self.version = 0
        self.alloc_site = None

    @property
    def key(self):
        return ("buf", self.oid)

    def __repr__(self):
        return self.label


class Axis:
    __slots__ = ("src", "start", "step", "length")

    def __init__(self, src, start, step, length):
        self.src, self.start, self.step, self.length = src, start, step, length

    @property
    def key(self):
        return (self.src, vkey(self.start), vkey(self.step), vkey(self.length))


class ArrV(Heap):
    def __init__(self, buf, axes, fixed=()):
        self.buf = buf
        self.axes = tuple(axes)
        self.fixed = dict(fixed)
        self.writeable = True
        self.base = None

    @property
    def key(self):
        return ("arr", self.buf.oid) + tuple(a.key for a in self.axes) + tuple(sorted((k, vkey(v)) for k, v in self.fixed.items()))

    @property
    def shape(self):
        return tuple(a.length for a in self.axes)

    def __repr__(self):
        parts = {}
        for pos, a in enumerate(self.axes):
            if a.src is None:
                continue
            stop = mk(to_poly(a.start) + to_poly(a.length) * to_poly(a.step)) if is_num(a.start) else "?"
            if a.start == 0 and a.step == 1 and vkey(a.length) == vkey(self.buf.shape[a.src]):
                s = ":"
            else:
                s = f"{vrepr(a.start)}:{vrepr(stop)}" + ("" if a.step == 1 else f":{a.step}")
            parts[a.src] = (s, pos)
        out = []
        for k in range(len(self.buf.shape)):
            if k in parts:
                out.append(parts[k][0])
            elif k in self.fixed:
                out.append(vrepr(self.fixed[k]))
            else:
                out.append("?")
        order = [a.src for a in self.axes]
        t = "" if order == sorted(order, key=lambda x: -1 if x is None else x) else f".T{order}"
        return f"{self.buf.label}[{', '.join(out)}]{t}"


class VecV(Heap):
    """small array given element by element"""

    def __init__(self, elems, dtype=None):
        self.elems = list(elems)
        self.dtype = dtype

    @property
    def key(self):
        return ("vec",) + tuple(vkey(e) for e in self.elems)

    def __repr__(self):
        return "array([" + ", ".join(vrepr(e) for e in self.elems) + "])"


class BoolArr(Obj):
    label = "boolean array"
    typename = HOST

    def __init__(self, op, a, b, shape):
        self.op, self.a, self.b, self.shape = op, a, b, tuple(shape)

    @property
    def key(self):
        return ("boolarr", self.op, vkey(self.a), vkey(self.b))

    def __repr__(self):
        return f"({vrepr(self.a)} {self.op} {vrepr(self.b)})"

    def truth(self, I):
        return I.choose(("truth",) + self.key, repr(self))

    def p_shape(self, I):
        return self.shape

    def m_any(self, I, *a, **k):
        return I.choose(("any",) + self.key, f"any{self!r}")

    def m_all(self, I, *a, **k):
        return I.choose(("all",) + self.key, f"all{self!r}")

    def m_nonzero(self, I):
        return nonzero(I, self)

    def binop(self, I, op, other, swapped):
        a, b = (other, self) if swapped else (self, other)
        return BoolArr(op, a, b, self.shape)


# ----------------------------------------------------------------- construction
def dtype_of(I, d):
    if isinstance(d, Term) and d.op == "dtype":
        return d
    if isinstance(d, BT):
        n = {int: "int64", float: "float64", bool: "bool", complex: "complex128", str: "str"}.get(d.t, d.t.__name__)
        return Term("dtype", (n,), {"nonnull": True})
    if isinstance(d, str):
        return Term("dtype", (d,), {"nonnull": True})
    if isinstance(d, ExtV):
        return Term("dtype", (d.name.split(".")[-1],), {"nonnull": True})
    if d is None:
        return Term("dtype", ("float64",), {"nonnull": True})
    if isinstance(d, Term) and d.info.get("dtype"):
        return d
    if isinstance(d, Term):
        return Term("dtype", (d,), {"nonnull": True})
    return Term("dtype", (str(d),), {"nonnull": True})


def as_shape(I, s):
    if isinstance(s, (int, Poly)):
        return (s,)
    if isinstance(s, Term):
        if s.info.get("items") is None and s.info.get("kind") != "int":
            raise _U(f"array of unknown shape {s!r}")
        if s.info.get("kind") == "int":
            return (Poly.atom(s),)
    out = []
    for x in I.items_of(s):
        if isinstance(x, Rep):
            raise _U("array of unknown rank")
        if isinstance(x, Term):
            x = Poly.atom(x)
        if isinstance(x, Frac) or isinstance(x, float):
            I.raise_(TypeError, "'float' object cannot be interpreted as an integer")
        out.append(x)
    return tuple(out)


def full(I, buf):
    return I.new(ArrV(buf, [Axis(i, 0, 1, n) for i, n in enumerate(buf.shape)]))


def alloc(I, label, shape, dtype, typename=HOST, content=None, order="C", how=None):
    b = I.new(Buf(label, shape, dtype, typename, order, True, content))
    b.alloc_site = I.site()
    a = full(I, b)
    I.event("alloc", buf=b, arr=a, how=how or label)
    return a


def external(I, label, shape, dtype=None, typename=HOST):
    """array supplied by the caller: unknown memory layout"""
    b = I.new(Buf(label, shape, dtype or Term("dtype", (label + ".dtype",), {"nonnull": True}), typename, None, False))
    return full(I, b)


# -------------------------------------------------------------------- content
AX = {}


def ax(i):
    s = AX.get(i)
    if s is None:
        s = AX[i] = Sym(f"@{i}")
    return s


def el_atom(arr):
    """element of a view, as a function of the view's axis indices"""
    b = arr.buf
    axes = tuple((a.src, a.start, a.step) for a in arr.axes)
    fixed = tuple(sorted(arr.fixed.items()))
    return Term("el", ((b.label, b.oid, b.version), axes, fixed))


def content_of(I, arr):
    """value of the array as a Frac over atoms; axis k of the result is @k"""
    if isinstance(arr, ArrV):
        b = arr.buf
        if b.content is not None:
            return compose(b.content, arr)
        return Frac(Poly.atom(el_atom(arr)), Poly.const(1))
    if isinstance(arr, (int, float, Poly, Frac)):
        return to_frac(arr)
    if isinstance(arr, Term):
        return Frac(Poly.atom(arr), Poly.const(1))
    if isinstance(arr, VecV) and len(arr.elems) == 1:
        return content_of(I, arr.elems[0])
    return None


def compose(content, arr):
    """content of a whole buffer, read through the view `arr`"""
    mp = {}
    for k, a in enumerate(arr.axes):
        if a.src is not None:
            mp[a.src] = (a.start, a.step, k)
    for k, v in arr.fixed.items():
        mp[k] = (v, 0, None)

    def conv(atom):
        if isinstance(atom, Sym) and atom.name.startswith("@"):
            st, step, k = mp[int(atom.name[1:])]
            p = to_poly(st)
            if k is not None:
                p = p + to_poly(step) * Poly.atom(ax(k))
            return p
        if isinstance(atom, Term) and atom.op == "el":
            who, axes, fixed = atom.args
            fx = dict(fixed)
            out = [None] * len(arr.axes)
            for i, (src, st, step) in enumerate(axes):
                if i not in mp:
                    continue
                s2, step2, k = mp[i]
                if src is None:
                    continue
                new = mk(to_poly(st) + to_poly(step) * to_poly(s2)) if True else None
                if k is None:
                    fx[src] = new
                else:
                    out[k] = (src, new, mk(to_poly(step) * to_poly(step2)))
            out = tuple(o if o is not None else (None, 0, 1) for o in out)
            return Poly.atom(Term("el", (who, out, tuple(sorted(fx.items())))))
        return None

    def sub(p):
        m = {}
        for a in p.atoms():
            q = conv(a)
            if q is not None:
                m[a] = q
        return p.subst(m) if m else p
    return Frac(sub(content.num), sub(content.den), content.ops)


def scalar_of(I, arr):
    """value of a 0-d selection"""
    c = content_of(I, arr)
    if c is None:
        return Term("scalar", (arr,))
    r = mkf(c)
    if isinstance(r, Poly):
        r = mk(I.facts.norm(r))
        if isinstance(r, Poly) and len(r.t) == 1:
            (m, co), = r.t.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], Term):
                return m[0][0]
    return r


# ------------------------------------------------------------------- indexing
def norm_bound(I, v, n, default):
    if v is None:
        return default
    if isinstance(v, Term):
        v = Poly.atom(v)
    if isinstance(v, Frac) or isinstance(v, float):
        I.raise_(TypeError, "slice indices must be integers or None or have an __index__ method")
    if I.compare("Lt", v, 0):
        v = I.binop("Add", v, n)
        if I.compare("Lt", v, 0):
            return 0
        return v
    if vkey(v) == vkey(n):
        return n
    if I.compare("Gt", v, n):
        I.event("clip", bound=v, length=n)
        return n
    return v


def clip_slice(I, s, n):
    """(start, stop) of a slice on an axis of length n, step +1"""
    st = norm_bound(I, s.start, n, 0)
    sp = norm_bound(I, s.stop, n, n)
    return st, sp


def slice_axis(I, a, s):
    step = s.step
    if step is None:
        step = 1
    n = a.length
    if not isinstance(step, int) or step == 0:
        raise _U("symbolic slice step")
    if step > 0:
        st, sp = clip_slice(I, s, n)
        if vkey(st) == vkey(0) and vkey(sp) == vkey(n):
            ln = n
        else:
            d = I.binop("Sub", sp, st)
            if I.compare("Lt", d, 0):
                d = 0
            ln = d
        if step != 1:
            ln = I.binop("FloorDiv", I.binop("Add", ln, step - 1), step)
        return Axis(a.src, mk(to_poly(a.start) + to_poly(a.step) * to_poly(st)), mk(to_poly(a.step) * Poly.const(step)), ln)
    # negative step
    last = I.binop("Sub", n, 1)
    if s.start is None:
        st = last
    else:
        st = s.start
        if I.compare("Lt", st, 0):
            st = I.binop("Add", st, n)
        if I.compare("Gt", st, last):
            st = last
    if s.stop is None:
        ln = I.binop("Add", st, 1)
    else:
        sp = s.stop
        if I.compare("Lt", sp, 0):
            sp = I.binop("Add", sp, n)
            if I.compare("Lt", sp, 0):
                sp = -1
        ln = I.binop("Sub", st, sp)
        if I.compare("Lt", ln, 0):
            ln = 0
    if step != -1:
        ln = I.binop("FloorDiv", I.binop("Add", ln, -step - 1), -step)
    return Axis(a.src, mk(to_poly(a.start) + to_poly(a.step) * to_poly(st)), mk(to_poly(a.step) * Poly.const(step)), ln)


def index_axis(I, a, i):
    if isinstance(i, bool):
        raise _U("boolean index")
    if isinstance(i, Term):
        i = Poly.atom(i)
    if isinstance(i, (Frac, float, str)):
        I.raise_(IndexError, "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if not isinstance(i, (int, Poly)):
        raise _U(f"array index {vrepr(i)}")
    if I.compare("Lt", i, 0):
        i = I.binop("Add", i, a.length)
        if I.compare("Lt", i, 0):
            I.raise_(IndexError, "index out of bounds")
    elif I.compare("GtE", i, a.length):
        I.raise_(IndexError, "index out of bounds")
    if a.src is None:
        return None
    return mk(to_poly(a.start) + to_poly(a.step) * to_poly(i))


def view_of(I, o, axes, fixed):
    v = I.new(ArrV(o.buf, axes, fixed))
    v.writeable = o.writeable
    v.base = o
    return v


def getitem(I, o, i):
    if isinstance(o, VecV):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return I.new(VecV(o.elems[i]))
            raise _U("symbolic slice of a vector")
        if isinstance(i, (int,)):
            return o.elems[I.B.norm_index(I, i, len(o.elems))]
        if isinstance(i, Poly):
            return I.B.getitem(I, tuple(o.elems), i)
        if isinstance(i, (VecV, ListV)):
            return I.new(VecV([getitem(I, o, k) for k in I.items_of(i)]))
        if i is Ellipsis or i == ():
            return o
        raise _U(f"vector index {vrepr(i)}")
    if isinstance(o, BoolArr):
        raise _U("indexing a boolean array")
    h = I.hooks.get("arr_getitem")
    if h:
        r = h(I, o, i)
        if r is not None:
            return r
    if isinstance(i, InstV) and "__tuple__" in i.attrs:
        i = i.attrs["__tuple__"]
    if isinstance(i, ListV):
        if any(isinstance(x, slice) for x in i.items):
            I.raise_(IndexError, "unsupported list index")
        i = (I.new(VecV(i.items)),)
    idx = i if isinstance(i, tuple) else (i,)
    if any(isinstance(x, (VecV, BoolArr)) or isinstance(x, ArrV) for x in idx):
        return fancy(I, o, idx)
    n_used = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if n_used > len(o.axes):
        I.raise_(IndexError, "too many indices for array")
    if Ellipsis in [x for x in idx if x is Ellipsis]:
        k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        idx = idx[:k] + (slice(None),) * (len(o.axes) - n_used) + idx[k + 1:]
    else:
        idx = idx + (slice(None),) * (len(o.axes) - n_used)
    axes, fixed = [], dict(o.fixed)
    src = iter(o.axes)
    for x in idx:
        if x is None:
            axes.append(Axis(None, 0, 1, 1))
            continue
        a = next(src)
        if isinstance(x, slice):
            axes.append(slice_axis(I, a, x))
        else:
            p = index_axis(I, a, x)
            if a.src is not None:
                fixed[a.src] = p
    v = view_of(I, o, axes, fixed)
    if not axes and not any(x is Ellipsis for x in (i if isinstance(i, tuple) else (i,))):
        I.event("read", arr=v)
        return scalar_of(I, v)
    return v


def fancy(I, o, idx):
    """advanced indexing: all axes given by index vectors of one length"""
    vecs = [x for x in idx if isinstance(x, VecV)]
    if len(vecs) == len(idx) == len(o.axes) and len({len(v.elems) for v in vecs}) == 1:
        n = len(vecs[0].elems)
        out = []
        for k in range(n):
            out.append(getitem(I, o, tuple(v.elems[k] for v in vecs)))
        return I.new(VecV(out))
    if len(idx) == 1 and isinstance(idx[0], BoolArr):
        w = nonzero(I, idx[0])
        return fancy(I, o, w)
    if len(idx) == 1 and isinstance(idx[0], VecV) and len(o.axes) == 1:
        return I.new(VecV([getitem(I, o, e) for e in idx[0].elems]))
    raise _U("advanced indexing")


def setitem(I, o, i, v):
    if isinstance(i, ListV):
        i = tuple(i.items) if any(isinstance(x, slice) for x in i.items) else i
    idx = i if isinstance(i, tuple) else (i,)
    if len(o.axes) and any(isinstance(x, (VecV, BoolArr, ArrV)) for x in idx):
        raise _U("assignment through an index array")
    n_used = sum(1 for x in idx if x is not None and x is not Ellipsis)
    if n_used > len(o.axes):
        I.raise_(IndexError, "too many indices for array")
    # select with every scalar index kept as a 0-d view
    if all(not isinstance(x, slice) and x is not Ellipsis and x is not None for x in idx) and len(idx) == len(o.axes):
        fixed = dict(o.fixed)
        for a, x in zip(o.axes, idx):
            p = index_axis(I, a, x)
            if a.src is not None:
                fixed[a.src] = p
        t = view_of(I, o, [], fixed)
    else:
        t = getitem(I, o, i if isinstance(i, tuple) else (i,))
    write(I, t, v)


def bshape(I, v):
    if isinstance(v, ArrV):
        return v.shape
    if isinstance(v, VecV):
        return (len(v.elems),)
    if isinstance(v, BoolArr):
        return v.shape
    return ()


def check_broadcast(I, target, vshape):
    """assignment of a value of shape vshape to a view"""
    t = target.shape
    extra = len(vshape) - len(t)
    if extra > 0:
        for n in vshape[:extra]:
            if not I.eq(n, 1):
                I.raise_(ValueError, "could not broadcast input array from shape")
        vshape = vshape[extra:]
    for n, m in zip(reversed(vshape), reversed(t)):
        if vkey(n) == vkey(m):
            continue
        if I.eq(n, m):
            continue
        if I.eq(n, 1):
            continue
        I.raise_(ValueError, f"could not broadcast input array from shape {vrepr(vshape)} into shape {vrepr(t)}")


def write(I, arr, value):
    """arr[...] = value"""
    if isinstance(arr, (Term, Poly, int, float, Frac)):
        raise _U("assignment to a scalar selection")
    if not arr.writeable:
        I.raise_(ValueError, "assignment destination is read-only")
    if isinstance(value, (ListV, tuple)):
        value = asarray(I, value)
    check_broadcast(I, arr, bshape(I, value))
    if isinstance(value, ArrV):
        if value.buf.typename != HOST and arr.buf.typename == HOST:
            I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed. Please use `.get()`")
        if value.buf.typename == HOST and arr.buf.typename != HOST and value.axes:
            I.raise_(ValueError, "non-scalar numpy.ndarray cannot be used for setitem")
        I.event("read", arr=value)
    if isinstance(value, BoolArr):
        c = None
    elif isinstance(value, VecV):
        c = content_of(I, value)
    else:
        c = aligned(I, value, len(arr.axes))
    b = arr.buf
    whole = is_whole(I, arr)
    I.event("write", arr=arr, value=value, content=c, whole=whole, version=b.version)
    if arr.buf.oid <= getattr(I, "base_oid", 0):
        raise _U("write to a module-level array")
    b.version += 1
    b.content = None
    if c is not None and whole:
        # content in buffer axis order
        m = {}
        b.content = rebase(c, arr)
    b.written = getattr(b, "written", 0) + 1


def is_whole(I, arr):
    b = arr.buf
    if arr.fixed or len(arr.axes) != len(b.shape):
        return all(_one(I, b.shape[k]) for k in arr.fixed) and False
    if sorted(a.src if a.src is not None else -1 for a in arr.axes) != list(range(len(b.shape))):
        return False
    return all(vkey(a.start) == vkey(0) and a.step == 1 and vkey(a.length) == vkey(b.shape[a.src]) for a in arr.axes)


def _one(I, n):
    return n == 1


def rebase(c, arr):
    """content over the axes of a whole (possibly transposed) view -> over the
    buffer's axes"""
    perm = {k: a.src for k, a in enumerate(arr.axes)}
    if all(k == v for k, v in perm.items()):
        return c

    class V:
        pass
    v = V()
    v.fixed = {}
    inv = {s: k for k, s in perm.items()}
    # reading the content through the inverse permutation
    v.axes = [Axis(inv[j], 0, 1, None) for j in range(len(perm))]
    return compose(c, v)


def aligned(I, value, ndim):
    """content of value with its axes right-aligned in `ndim` axes"""
    c = content_of(I, value)
    if c is None:
        return None
    k = len(bshape(I, value))
    if k == ndim or k == 0:
        if k == 0 and ndim:
            return lift(c, 0, ndim)
        return c
    if k > ndim:
        return None
    return lift(c, k, ndim)


def lift(c, k, ndim):
    off = ndim - k

    def conv(atom):
        if isinstance(atom, Sym) and atom.name.startswith("@"):
            return Poly.atom(ax(int(atom.name[1:]) + off))
        if isinstance(atom, Term) and atom.op == "el":
            who, axes, fixed = atom.args
            return Poly.atom(Term("el", (who, ((None, 0, 1),) * off + tuple(axes), fixed)))
        return None

    def sub(p):
        m = {a: conv(a) for a in p.atoms() if conv(a) is not None}
        return p.subst(m) if m else p
    return Frac(sub(c.num), sub(c.den), c.ops)


# ---------------------------------------------------------------- arithmetic
def broadcast_shapes(I, s1, s2):
    out = []
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    for x, y in zip(a, b):
        if vkey(x) == vkey(y) or I.eq(x, y):
            out.append(x)
        elif I.eq(x, 1):
            out.append(y)
        elif I.eq(y, 1):
            out.append(x)
        else:
            I.raise_(ValueError, f"operands could not be broadcast together with shapes {vrepr(s1)} {vrepr(s2)}")
    return tuple(out)


OPS = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide"}


def result_type(I, a, b):
    for v in (a, b):
        if isinstance(v, ArrV) and v.buf.typename != HOST:
            return v.buf.typename
    return HOST


def binop(I, op, a, b):
    if isinstance(a, (ListV, tuple)):
        a = asarray(I, a)
    if isinstance(b, (ListV, tuple)):
        b = asarray(I, b)
    if isinstance(a, VecV) or isinstance(b, VecV):
        if not isinstance(a, ArrV) and not isinstance(b, ArrV):
            ea = a.elems if isinstance(a, VecV) else None
            eb = b.elems if isinstance(b, VecV) else None
            n = max(len(ea) if ea is not None else 0, len(eb) if eb is not None else 0)
            if ea is not None and eb is not None and len(ea) != len(eb) and 1 not in (len(ea), len(eb)):
                I.raise_(ValueError, "operands could not be broadcast together")
            ga = (lambda k: ea[k if len(ea) > 1 else 0]) if ea is not None else (lambda k: a)
            gb = (lambda k: eb[k if len(eb) > 1 else 0]) if eb is not None else (lambda k: b)
            return I.new(VecV([I.B.binop(I, op, ga(k), gb(k)) for k in range(n)]))
    if isinstance(a, BoolArr) or isinstance(b, BoolArr):
        s = a if isinstance(a, BoolArr) else b
        return BoolArr(op, a, b, s.shape)
    shape = broadcast_shapes(I, bshape(I, a), bshape(I, b))
    for v in (a, b):
        if isinstance(v, ArrV):
            I.event("read", arr=v)
    nd = len(shape)
    ca, cb = aligned(I, a, nd), aligned(I, b, nd)
    c = None
    if ca is not None and cb is not None:
        if op == "Add":
            c = ca.add(cb)
        elif op == "Sub":
            c = ca.add(cb.neg())
        elif op == "Mult":
            c = ca.mul(cb)
        elif op == "Div":
            c = ca.div(cb)
            c = Frac(c.num, c.den, ca.ops + cb.ops)
    if c is None:
        x = Term(op, (a if not isinstance(a, ArrV) else el_atom(a), b if not isinstance(b, ArrV) else el_atom(b)))
        c = None
    dt = [v.buf.dtype for v in (a, b) if isinstance(v, ArrV)]
    dtype = dt[0] if len(dt) == 1 or (len(dt) == 2 and vkey(dt[0]) == vkey(dt[1])) else Term("dtype", ("promoted",) + tuple(dt), {"nonnull": True})
    if op == "Div":
        dtype = Term("dtype", ("true_divide", dtype), {"nonnull": True})
    r = alloc(I, f"{op.lower()}", shape, dtype, result_type(I, a, b), content=c, how="arith", order=None if nd > 1 else "C")
    return r


def unop(I, op, v):
    if isinstance(v, VecV):
        return I.new(VecV([I.unop(op, e) for e in v.elems]))
    if isinstance(v, BoolArr):
        return BoolArr(op, v, None, v.shape)
    I.event("read", arr=v)
    c = content_of(I, v)
    if op == "USub":
        c = c.neg()
    elif op == "Invert":
        c = None
    return alloc(I, op.lower(), v.shape, v.buf.dtype, v.buf.typename, content=c, how="arith", order=None if len(v.axes) > 1 else "C")


def compare(I, op, a, b):
    if isinstance(a, VecV) and isinstance(b, (int, Poly)) and len(a.elems) == 1:
        return I.compare(op, a.elems[0], b)
    if a is None or b is None:
        return op == "NotEq" if op in ("Eq", "NotEq") else I.raise_(TypeError, "bad comparison")
    s = bshape(I, a) or bshape(I, b)
    for v in (a, b):
        if isinstance(v, ArrV):
            I.event("read", arr=v)
    return I.new(BoolArr(op, a, b, s))


def nonzero(I, m):
    """index vectors where a boolean array is true; only unique solutions"""
    if not isinstance(m, BoolArr) or m.op != "Eq":
        raise _U("where() of a general condition")
    arr, val = (m.a, m.b) if isinstance(m.a, ArrV) else (m.b, m.a)
    if isinstance(arr, VecV):
        raise _U("where() of a vector")
    c = content_of(I, arr)
    if isinstance(val, Term):
        val = Poly.atom(val)
    if not isinstance(val, (int, Poly)) or c.den != Poly.const(1) or c.ops:
        raise _U("where() on general data")
    F = I.facts
    p = F.norm(c.num - to_poly(val))
    lens = [a.length for a in arr.axes]
    # p = const + sum coef_k * @k ; turn into sum |coef_k| * u_k = v
    const = {}
    coefs = {}
    for mono, co in p.t.items():
        axs = [a for a, e in mono if isinstance(a, Sym) and a.name.startswith("@")]
        if not axs:
            const[mono] = co
            continue
        if len(axs) > 1 or dict(mono)[axs[0]] != 1:
            raise _U("where() on a non-linear index array")
        rest = tuple((a, e) for a, e in mono if a is not axs[0] and a != axs[0])
        k = int(axs[0].name[1:])
        coefs.setdefault(k, {})
        coefs[k][rest] = coefs[k].get(rest, 0) + co
    v = -Poly(const)
    us = []
    for k in range(len(lens)):
        co = F.norm(Poly(coefs.get(k, {})))
        s = F.sign(co)
        if s == ">":
            us.append([k, co, False])
        elif s == "<":
            # @k = len-1-u  ->  -|c|*(len-1) + |c| u
            v = v - co * (to_poly(lens[k]) - Poly.const(1))
            us.append([k, -co, True])
        elif s == 0 and lens[k] == 1:
            us.append([k, None, False])
        else:
            raise _U("where(): index coefficient of unknown sign")
    v = F.norm(v)
    sol = {}
    weight = Poly.const(1)
    todo = [u for u in us if u[1] is not None]
    for u in us:
        if u[1] is None:
            sol[u[0]] = 0
    total = Poly.const(1)
    for u in todo:
        total = total * to_poly(lens[u[0]])
    if not (F.nonneg_p(v) and F.sign(total - v) == ">"):
        if I.compare("Lt", mk(v), 0) or not I.compare("Lt", mk(v), mk(F.norm(total))):
            return tuple(I.new(VecV([])) for _ in lens)
    cur = v
    while todo:
        nxt = [u for u in todo if F.norm(u[1] - weight).t == {}]
        if not nxt:
            raise _U("where(): not a mixed-radix index array")
        u = nxt[0]
        n = to_poly(lens[u[0]])
        todo.remove(u)
        if not todo:
            val_u = mk(F.norm(cur))
        else:
            val_u = I.binop("Mod", mk(cur), mk(n))
            cur = to_poly(I.binop("FloorDiv", mk(cur), mk(n)))
        weight = F.norm(weight * n)
        sol[u[0]] = I.binop("Sub", I.binop("Sub", mk(n), 1), val_u) if u[2] else val_u
    return tuple(I.new(VecV([sol[k]])) for k in range(len(lens)))


# --------------------------------------------------------------- view makers
def transpose(I, v, axes=None):
    if isinstance(v, VecV):
        return v
    n = len(v.axes)
    if axes is None:
        order = list(range(n))[::-1]
    else:
        order = []
        for x in I.items_of(axes):
            if not isinstance(x, int):
                raise _U("symbolic transpose")
            order.append(x % n if n and -n <= x < n else I.raise_(ValueError, "axis out of bounds"))
    if sorted(order) != list(range(n)):
        I.raise_(ValueError, "axes don't match array")
    return view_of(I, v, [v.axes[i] for i in order], v.fixed)


def flip(I, v, axis=None):
    if isinstance(v, VecV):
        return I.new(VecV(v.elems[::-1]))
    n = len(v.axes)
    if axis is None:
        ks = range(n)
    else:
        ks = [axis] if isinstance(axis, int) else I.items_of(axis)
    axes = list(v.axes)
    for k in ks:
        if not isinstance(k, int):
            raise _U("symbolic axis")
        if k < -n or k >= n:
            I.raise_(ValueError, "axis out of bounds")
        a = axes[k]
        last = mk(to_poly(a.start) + to_poly(a.step) * (to_poly(a.length) - Poly.const(1)))
        axes[k] = Axis(a.src, last, mk(-to_poly(a.step)), a.length)
    return view_of(I, v, axes, v.fixed)


def rot90(I, v, k=1, axes=(0, 1)):
    axes = tuple(I.items_of(axes))
    if len(axes) != 2:
        I.raise_(ValueError, "len(axes) must be 2.")
    n = len(v.axes)
    a0, a1 = axes
    if not (isinstance(a0, int) and isinstance(a1, int)):
        raise _U("rot90 with symbolic axes")
    if a0 == a1 or abs(a0 - a1) == n:
        I.raise_(ValueError, "Axes must be different.")
    if not (-n <= a0 < n and -n <= a1 < n):
        I.raise_(ValueError, "Axes out of range")
    k = I.binop("Mod", k, 4)
    if not isinstance(k, int):
        for c in range(4):
            if c == 3 or I.eq(k, c):
                k = c
                break
    a0, a1 = a0 % n, a1 % n
    if k == 0:
        return view_of(I, v, v.axes, v.fixed)
    if k == 2:
        return flip(I, flip(I, v, a0), a1)
    perm = list(range(n))
    perm[a0], perm[a1] = perm[a1], perm[a0]
    if k == 1:
        return transpose(I, flip(I, v, a1), tuple(perm))
    return flip(I, transpose(I, v, tuple(perm)), a1)


def reshape(I, v, shape):
    shape = as_shape(I, shape)
    if isinstance(v, VecV):
        if len(shape) == 1:
            return v
        c = None
        raise _U("reshape of a vector")
    if len(shape) == len(v.axes) and all(vkey(x) == vkey(y) for x, y in zip(shape, v.shape)):
        return view_of(I, v, v.axes, v.fixed)
    c = v.buf.content
    if c is not None and len(v.axes) == 1 and is_whole(I, v):
        ats = set(c.num.atoms()) | set(c.den.atoms())
        if all(not (isinstance(a, Term) and a.op == "el") for a in ats):
            neg = [k for k, s in enumerate(shape) if s == -1]
            if neg:
                rest = Poly.const(1)
                for k, s in enumerate(shape):
                    if k not in neg:
                        rest = rest * to_poly(s)
                q = I.binop("FloorDiv", v.axes[0].length, mk(rest))
                shape = tuple(q if k in neg else s for k, s in enumerate(shape))
            tot = Poly.const(1)
            for s in shape:
                tot = tot * to_poly(s)
            if not I.eq(mk(tot), v.axes[0].length):
                I.raise_(ValueError, "cannot reshape array")
            flat = Poly({})
            for k, s in enumerate(shape):
                flat = flat * to_poly(s) + Poly.atom(ax(k))
            m = {ax(0): flat}
            # avoid capture: substitute through a temporary
            num = c.num.subst({ax(0): Poly.atom(Sym("@tmp"))}).subst({Sym("@tmp"): flat})
            return alloc(I, v.buf.label, shape, v.buf.dtype, v.buf.typename, content=Frac(num, c.den, c.ops), how="reshape")
    raise _U("reshape of general data")


def asarray(I, v, dtype=None, copy=False, typename=HOST):
    if isinstance(v, ArrV):
        if copy or (dtype is not None and vkey(dtype_of(I, dtype)) != vkey(v.buf.dtype)):
            return copy_arr(I, v, dtype)
        return v
    if isinstance(v, (VecV, BoolArr)):
        return v
    if isinstance(v, (ListV, tuple, RangeLike())):
        items = I.items_of(v)
        if any(isinstance(x, Rep) for x in items):
            n = I.B.length(I, v)
            return alloc(I, "array(list)", (n,), dtype_of(I, dtype), content=None, how="asarray")
        if items and all(isinstance(x, (ArrV,)) for x in items):
            return stack(I, items)
        if any(isinstance(x, (ListV, tuple)) for x in items):
            rows = [asarray(I, x) for x in items]
            return I.new(NestV(rows)) if all(isinstance(r, VecV) for r in rows) else alloc(I, "array(list)", (len(items), Poly.atom(Sym(I.fresh_name("n")))), dtype_of(I, dtype), content=None)
        return I.new(VecV(items))
    if isinstance(v, (int, float, Poly, Frac, bool)):
        return alloc(I, f"array({vrepr(v)})", (), dtype_of(I, dtype) if dtype is not None else Term("dtype", (type(v).__name__,), {"nonnull": True}), content=to_frac(v), how="asarray")
    if isinstance(v, Term):
        return Term("asarray", (v,), {"nonnull": True, "type": ExtV(HOST)})
    if isinstance(v, Obj) and hasattr(v, "as_array"):
        return v.as_array(I)
    if isinstance(v, IterLike()):
        return asarray(I, I.new(ListV(I.items_of(v))))
    raise _U(f"asarray({vrepr(v)})")


def RangeLike():
    from .builtins_ import RangeV
    return RangeV


def IterLike():
    from .interp import GenV
    return (IterV, GenV)


class NestV(VecV):
    """nested small array (vector of vectors)"""


def stack(I, items):
    a = items[0]
    r = alloc(I, "stack", (len(items),) + a.shape, a.buf.dtype, a.buf.typename, how="stack")
    for k, x in enumerate(items):
        write(I, getitem(I, r, (k,)), x)
    return r


def copy_arr(I, v, dtype=None, how="copy", order="C", typename=None):
    if isinstance(v, VecV):
        return I.new(VecV(v.elems))
    I.event("read", arr=v)
    return alloc(I, f"copy({v.buf.label})", v.shape, dtype_of(I, dtype) if dtype is not None else v.buf.dtype,
                 typename or v.buf.typename, content=content_of(I, v), how=how, order=order)


# ----------------------------------------------------------------- contiguity
def contiguous(I, v, order="C"):
    b = v.buf
    lens = [a.length for a in v.axes]
    if b.order == "C":
        srcs = [a.src for a in v.axes]
        if None not in srcs:
            nd = len(b.shape)
            # leading axes fixed, then at most one sliced axis, then whole axes
            lead = 0
            while lead in v.fixed:
                lead += 1
            rest = list(range(lead, nd))
            if srcs == rest and all(a.step == 1 for a in v.axes):
                if all(vkey(a.length) == vkey(b.shape[a.src]) and vkey(a.start) == vkey(0) for a in v.axes[1:]):
                    if order == "C" or len(v.axes) <= 1:
                        return True
    if not v.axes:
        return True
    if b.order == "F" and len(v.axes) > 1 and not v.fixed and all(a.src == k and a.step == 1 and vkey(a.length) == vkey(b.shape[k]) for k, a in enumerate(v.axes)):
        return order == "F"
    h = I.hooks.get("contig")
    if h is not None:
        r = h(I, v, order)
        if r is not None:
            return r
    o = order if len(v.axes) > 1 else "C"
    return I.choose(("contig", o) + v.key, f"{v!r} is {o}-contiguous")


class Flags(Obj):
    label = "flags"

    def __init__(self, arr):
        self.arr = arr

    def _get(self, I, name):
        n = {"C": "C_CONTIGUOUS", "CONTIGUOUS": "C_CONTIGUOUS", "F": "F_CONTIGUOUS", "FORTRAN": "F_CONTIGUOUS"}.get(name, name).upper()
        if n == "C_CONTIGUOUS":
            return contiguous(I, self.arr, "C")
        if n == "F_CONTIGUOUS":
            return contiguous(I, self.arr, "F")
        if n in ("WRITEABLE", "W"):
            return self.arr.writeable
        if n == "OWNDATA":
            return I.choose(("owndata",) + self.arr.key, f"{self.arr!r} owns its data")
        if n == "FORC":
            return contiguous(I, self.arr, "C") or contiguous(I, self.arr, "F")
        if n == "FNC":
            return contiguous(I, self.arr, "F") and not contiguous(I, self.arr, "C")
        raise _U(f"flags[{name}]")

    def getitem(self, I, k):
        return self._get(I, k)

    def getattr(self, I, name):
        if name == "__getitem__":
            return PyFn("flags", lambda I, a, k: self._get(I, a[0]))
        return self._get(I, name)

    def setattr(self, I, name, v):
        if name in ("writeable", "WRITEABLE"):
            self.arr.writeable = I.truth(v)
            I.event("setflags", arr=self.arr, writeable=self.arr.writeable)
            return
        raise _U("flags." + name)

    def setitem(self, I, k, v):
        self.setattr(I, k.lower() if k.upper() in ("WRITEABLE", "W") else k, v)


# ----------------------------------------------------------------- attributes
def size(I, v):
    p = Poly.const(1)
    for n in v.shape:
        p = p * to_poly(n)
    return mk(p)


def getattr_(I, o, name):
    if isinstance(o, VecV):
        if name == "shape":
            return (len(o.elems),)
        if name == "ndim":
            return 1
        if name == "size":
            return len(o.elems)
        if name == "dtype":
            return Term("dtype", ("int64",), {"nonnull": True})
        if name == "T":
            return o
        if name in ("tolist", "copy", "astype", "sum", "prod", "item", "max", "min", "flatten", "ravel", "any", "all", "__len__", "reshape"):
            def f(I, a, k):
                if name == "tolist":
                    return I.new(ListV(o.elems))
                if name == "sum":
                    return I.B.sum_(I, [tuple(o.elems)], {})
                if name == "prod":
                    r = 1
                    for e in o.elems:
                        r = I.binop("Mult", r, e)
                    return r
                if name == "item":
                    return o.elems[a[0] if a else 0]
                if name in ("max", "min"):
                    return I.B.minmax(I, [tuple(o.elems)], {}, name == "min")
                if name == "astype":
                    if isinstance(a[0], BT) and a[0].t is int or "int" in repr(a[0]):
                        return I.new(VecV([I.B.to_int(I, e) for e in o.elems]))
                    return I.new(VecV(o.elems))
                if name == "any":
                    return any(I.truth(e) for e in o.elems)
                if name == "all":
                    return all(I.truth(e) for e in o.elems)
                if name == "__len__":
                    return len(o.elems)
                return I.new(VecV(o.elems))
            return PyFn("ndarray." + name, f)
        raise _U(f"vector attribute {name}")
    b = o.buf
    if name == "shape":
        return o.shape
    if name == "dtype":
        return b.dtype
    if name == "ndim":
        return len(o.axes)
    if name == "size":
        return size(I, o)
    if name == "flags":
        return I.new(Flags(o))
    if name == "T":
        return transpose(I, o)
    if name == "base":
        return o.base
    if name == "__class__":
        return ExtV(b.typename)
    if name == "data":
        return Term("memory", (o,), {"nonnull": True})
    if name in ("nbytes", "itemsize", "strides", "ctypes", "__array_interface__"):
        return Term("attr", (o, name), {"kind": "int"} if name in ("nbytes", "itemsize") else {})
    if name in ("real",):
        return o
    m = METHODS.get(name)
    if m is not None:
        return PyFn("ndarray." + name, lambda I, a, k: m(I, o, *a, **k))
    if name in ("get", "asnumpy") and b.typename != HOST:
        return PyFn("get", lambda I, a, k: copy_arr(I, o, how="to_host", typename=HOST))
    if name in ("backend", "host_to_device", "device_to_host", "gpu_view", "synchronize"):
        return NotImplemented
    if name in NDARRAY_OTHER:
        return PyFn("ndarray." + name, lambda I, a, k: reduce_(I, o, name))
    return NotImplemented


NDARRAY_OTHER = {"sum", "mean", "min", "max", "std", "var", "prod", "argmin", "argmax", "any", "all", "tobytes", "dot", "cumsum",
                 "round", "clip", "ptp"}


def reduce_(I, o, name):
    I.event("read", arr=o)
    return Term(name, (el_atom(o) if o.buf.content is None else o, o.buf.version))


def setattr_(I, o, name, v):
    if name == "shape":
        raise _U("assignment to shape")
    I.event("setattr", obj=o, name=name, value=v)


def _astype(I, o, dtype, **k):
    if k.get("copy", True) is False and vkey(dtype_of(I, dtype)) == vkey(o.buf.dtype):
        return o
    return copy_arr(I, o, dtype)


def _reshape(I, o, *shape, **k):
    s = shape[0] if len(shape) == 1 and not isinstance(shape[0], (int, Poly)) else tuple(shape)
    return reshape(I, o, s)


def _transpose(I, o, *axes):
    if len(axes) == 1 and (axes[0] is None or not isinstance(axes[0], int)):
        return transpose(I, o, axes[0])
    return transpose(I, o, axes if axes else None)


def _fill(I, o, v):
    write(I, o, v)


def _item(I, o, *i):
    if i:
        return getitem(I, o, tuple(i))
    if not o.axes:
        I.event("read", arr=o)
        return scalar_of(I, o)
    raise _U("item() of an array")


def _swapaxes(I, o, a, b):
    order = list(range(len(o.axes)))
    order[a], order[b] = order[b], order[a]
    return transpose(I, o, tuple(order))


def _tolist(I, o):
    return Term("tolist", (o, o.buf.version))


def _squeeze(I, o, axis=None):
    keep = []
    for k, a in enumerate(o.axes):
        if a.length == 1 and (axis is None or axis == k):
            continue
        keep.append(a)
    fixed = dict(o.fixed)
    for k, a in enumerate(o.axes):
        if a not in keep and a.src is not None:
            fixed[a.src] = a.start
    return view_of(I, o, keep, fixed)


def _setflags(I, o, write=None, **k):
    if write is not None:
        o.writeable = I.truth(write)
        I.event("setflags", arr=o, writeable=o.writeable)


METHODS = {"copy": lambda I, o, order="C": copy_arr(I, o), "astype": _astype,
           "view": lambda I, o, *a, **k: view_of(I, o, o.axes, o.fixed),
           "reshape": _reshape, "transpose": _transpose, "fill": _fill, "item": _item, "swapaxes": _swapaxes,
           "tolist": _tolist, "squeeze": _squeeze, "setflags": _setflags,
           "flatten": lambda I, o, *a: _flat(I, o, True), "ravel": lambda I, o, *a: _flat(I, o, False),
           "__array__": lambda I, o, *a, **k: o,
           "__len__": lambda I, o: I.B.length(I, o), "__setitem__": lambda I, o, i, v: setitem(I, o, i, v),
           "__getitem__": lambda I, o, i: getitem(I, o, i),
           "nonzero": lambda I, o: nonzero(I, compare(I, "NotEq", o, 0))}


def _flat(I, o, copy):
    if len(o.axes) == 1:
        return copy_arr(I, o) if copy else o
    c = content_of(I, o)
    t = Term("flatten", (o, o.buf.version))
    return alloc(I, f"flatten({o.buf.label})", (size(I, o),), o.buf.dtype, o.buf.typename, content=Frac(Poly.atom(t), Poly.const(1)), how="copy")


def range_index(I, n):
    """generic element of range(n), n symbolic; a nested loop over the same
    range gets its own index"""
    k = sum(vrepr(n) in e.data.get("idx", ()) for e, _ in I.loops) + I.idx_extra.count(vrepr(n))
    suffix = "'" * k
    h = I.hooks.get("range_index")
    if h:
        r = h(I, n, suffix)
        if r is not None:
            return r
    s = Sym(f"i<{vrepr(n)}{suffix}")
    I.facts.declare(s, lo=0, hi=to_poly(I.binop("Sub", n, 1)))
    return Poly.atom(s)


def iter_array(I, v):
    if not v.axes:
        I.raise_(TypeError, "iteration over a 0-d array")
    n = v.axes[0].length
    if isinstance(n, int) and n <= 64:
        return [getitem(I, v, (k,)) for k in range(n)]
    if I.compare("LtE", n, 0):
        return []
    return [Rep(getitem(I, v, (range_index(I, n),)), Term("range", (0, n, 1)))]
