"""Builtin functions, containers and operators over abstract values."""
import operator
from .poly import Poly, Sym
from .values import *


def _I():
    from . import interp
    return interp


def keyset_of(src):
    """the unordered content an iteration source draws from"""
    if isinstance(src, Term) and src.op in ("iter", "sorted", "setorder"):
        return src.args[-1]
    return src


def order_src(src, how, label=None):
    ks = keyset_of(src)
    if how == "sorted":
        return Term("sorted", (ks,))
    lab = src.args[0] if isinstance(src, Term) and src.op in ("iter", "setorder") else label or "set"
    return Term(how, (lab, ks))


class Base:
    """unknown remainder of a mapping supplied from outside"""

    def __init__(self, label, keyset, factory, has=None, elem=None):
        self.label = label
        self.src = Term("iter", (label, keyset))
        self.keyset = keyset
        self.elem = elem if elem is not None else Term("key", (keyset,), {"kind": "str", "nonnull": True, "truthy": True})
        self.factory = factory
        self.cache = {}
        self.removed = []

    def has(self, I, k):
        if any(I.eq(k, r) for r in self.removed):
            return False
        if vkey(k) == vkey(self.elem):
            return True
        ek = ("eq",) + tuple(sorted((vkey(self.elem), vkey(k)), key=repr))
        if I.known.get(ek):
            return True
        key = ("in", vkey(k), self.keyset if isinstance(self.keyset, str) else vkey(self.keyset))
        known = key in I.known
        v = I.choose(key, f"{vrepr(k)} in {self.label}")
        if not v and not known:
            I.known.setdefault(ek, False)
        return v

    def value(self, I, k):
        k = canon(I, k)
        kk = vkey(k)
        if kk not in self.cache:
            self.cache[kk] = self.factory(I, k)
        return self.cache[kk]

    def clone(self):
        b = Base.__new__(Base)
        b.__dict__.update(self.__dict__)
        b.cache = dict(self.cache)
        b.removed = list(self.removed)
        return b


# ------------------------------------------------------------------- dicts
MISSING = object()


def canon(I, k):
    """the constant a generic key is known to equal on this path, if any"""
    if isinstance(k, Term):
        kb = I.eqc.get(vkey(k))
        if kb is not None and kb[0] == "c" and isinstance(kb[-1], str):
            return kb[-1]
    return k


def known_same(I, a, b):
    return I.known.get(("eq",) + tuple(sorted((vkey(a), vkey(b)), key=repr))) is True


def dict_lookup(I, d, k):
    generic = None
    for e in d.entries:
        kk = e[0]
        if isinstance(kk, Rep):
            if vkey(kk.value) == vkey(k) or known_same(I, kk.value, k):
                return e[1]
            generic = generic or []
            generic.append(e)
        elif vkey(kk) == vkey(k):
            return e[1]
    for e in d.entries:
        if not isinstance(e[0], Rep) and maybe_equal(e[0], k) and I.eq(e[0], k):
            return e[1]
    for e in generic or ():
        if in_src(I, k, e[0]):
            return I.B_rep_value(e, k) if hasattr(I, "B_rep_value") else Term("item", (I.freeze(d), k))
    if d.base is not None and d.base.has(I, k):
        return d.base.value(I, k)
    return MISSING


def maybe_equal(a, b):
    """could the two values be equal?"""
    if isinstance(a, Term) or isinstance(b, Term) or isinstance(a, Poly) or isinstance(b, Poly):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(maybe_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
        return a == b
    return True


def in_src(I, k, rep):
    """is k one of the elements the generic element stands for?"""
    if vkey(rep.value) == vkey(k):
        return True
    if not maybe_equal(rep.value, k):
        return False
    if isinstance(rep.value, tuple) or isinstance(k, tuple):
        if isinstance(rep.value, tuple) != isinstance(k, tuple):
            return False
    src = rep.src
    while isinstance(src, Term) and src.op == "without":
        if I.eq(src.args[1], k):
            return False
        src = src.args[0]
    ek = ("eq",) + tuple(sorted((vkey(rep.value), vkey(k)), key=repr))
    if I.known.get(ek):
        return True
    ks = keyset_of(src)
    key = ("in", vkey(k), ks if isinstance(ks, str) else vkey(ks))
    known = key in I.known
    v = I.choose(key, f"{vrepr(k)} in {vrepr(ks)}")
    if not v and not known:
        I.known.setdefault(ek, False)
    return v


def dict_set(I, d, k, v):
    if isinstance(k, (ListV, DictV, SetV)):
        I.raise_(TypeError, "unhashable type")
    if getattr(d, "is_chain", False):
        raise _U("store into a ChainMap")
    I.touch(d)
    depth = 0
    gen = None
    if isinstance(k, Term) and I.loops:
        for ev, _ in reversed(I.loops):
            if involves(k, ev.data.get("elem")):
                gen = ev
                break
    I.event("dictset", d=d, key=k, value=v)
    if gen is not None:
        for e in d.entries:
            if isinstance(e[0], Rep) and vkey(e[0].value) == vkey(k):
                e[1] = v
                return
        d.entries.append([Rep(k, gen.data["src"]), v])
        return
    for e in d.entries:
        kk = e[0].value if isinstance(e[0], Rep) else e[0]
        if vkey(kk) == vkey(k) or (maybe_equal(kk, k) and not isinstance(e[0], Rep) and I.eq(kk, k)):
            e[1] = v
            return
    d.entries.append([k, v])


def involves(v, elem):
    if elem is None:
        return False
    target = [vkey(elem)]
    if isinstance(elem, tuple):
        target += [vkey(x) for x in elem]
    target = [t for t in target if t[0] in ("term", "poly")]

    def rec(k):
        if k in target:
            return True
        return isinstance(k, tuple) and any(rec(x) for x in k if isinstance(x, tuple))
    return rec(vkey(v))


def dict_update(I, d, other):
    if isinstance(other, DictV):
        I.touch(d)
        for k, v in other.entries:
            if isinstance(k, Rep):
                I.event("dictset", d=d, key=k.value, value=v, generic=k.src)
                for e in d.entries:
                    if isinstance(e[0], Rep) and vkey(e[0].value) == vkey(k.value):
                        e[1] = v
                        break
                else:
                    d.entries.append([k, v])
            else:
                dict_set(I, d, k, v)
        if other.base is not None:
            if d.base is None and not d.entries:
                d.base = other.base.clone()
            elif d.base is None:
                # later base overrides earlier entries: keep entries that the
                # base may not contain
                d.entries = [e for e in d.entries if not (isinstance(e[0], str) and other.base.has(I, e[0]))]
                d.base = other.base.clone()
            else:
                b = other.base
                I.event("dictset", d=d, key=b.elem, value=b.value(I, b.elem), generic=b.src)
                d.entries.append([Rep(b.elem, b.src), b.value(I, b.elem)])
        return
    if isinstance(other, Term):
        d.entries.append([Rep(Term("key", (other,)), Term("iter", ("dict", other))), Term("item", (other, Term("key", (other,))))])
        return
    if isinstance(other, Obj):
        for k, v in pairs_of(I, I.call(I.getattr(other, "items"), [], {})):
            dict_set(I, d, k, v)
        return
    for k, v in pairs_of(I, other):
        dict_set(I, d, k, v)


def pairs_of(I, it):
    out = []
    for x in items_of(I, it):
        if isinstance(x, Rep):
            if isinstance(x.value, tuple) and len(x.value) == 2:
                out.append((Rep(x.value[0], x.src), x.value[1]))
            else:
                raise _I().Unsupported("pairs")
        else:
            p = items_of(I, x)
            if len(p) != 2:
                I.raise_(ValueError, "dictionary update sequence element")
            out.append((p[0], p[1]))
    return out


def dict_keys(d):
    out = [k for k, _ in d.entries]
    if d.base is not None and not any(isinstance(k, Rep) and vkey(k.value) == vkey(d.base.elem) for k in out):
        out.insert(0, Rep(d.base.elem, d.base.src))
    return out


def dict_items(I, d):
    out = []
    for k in dict_keys(d):
        if isinstance(k, Rep):
            v = MISSING
            for e in d.entries:
                if e[0] is k:
                    v = e[1]
            if v is MISSING:
                v = dict_lookup(I, d, k.value)
            out.append(Rep((k.value, v), k.src))
        else:
            v = [e[1] for e in d.entries if e[0] is k or vkey(e[0]) == vkey(k)][0]
            out.append((k, v))
    return out


def dict_pop(I, d, k, default):
    I.touch(d)
    for i, e in enumerate(d.entries):
        kk = e[0].value if isinstance(e[0], Rep) else e[0]
        if vkey(kk) == vkey(k) or (maybe_equal(kk, k) and not isinstance(e[0], Rep) and I.eq(kk, k)):
            del d.entries[i]
            I.event("dictdel", d=d, key=k)
            if d.base is not None:
                d.base.removed.append(k)
            return e[1]
    if d.base is not None and d.base.has(I, k):
        v = d.base.value(I, k)
        d.base = d.base.clone()
        d.base.removed.append(k)
        I.event("dictdel", d=d, key=k)
        return v
    if default is MISSING:
        I.raise_(KeyError, k)
    return default


# -------------------------------------------------------------------- sets
def set_add(I, s, x):
    I.touch(s)
    v = x.value if isinstance(x, Rep) else x
    for y in s.items:
        w = y.value if isinstance(y, Rep) else y
        if vkey(w) == vkey(v):
            return
        if not isinstance(y, Rep) and not isinstance(x, Rep) and maybe_equal(w, v) and I.eq(w, v):
            return
    if isinstance(x, Rep) and not (isinstance(x.src, Term) and x.src.op == "setorder"):
        x = Rep(x.value, order_src(x.src, "setorder"))
    s.items.append(x)


def make_set(I, items, frozen=False):
    s = I.new(SetV(frozen=frozen))
    for x in items:
        set_add(I, s, x)
    return s


def set_filter(I, items, other, keep):
    out = []
    for x in items:
        v = x.value if isinstance(x, Rep) else x
        if contains(I, other, v) == keep:
            out.append(x)
    return out


# ---------------------------------------------------------------- iteration
def set_order(I, items):
    """the order of a set is arbitrary (and differs between processes): where
    processes are compared, one has its sets in ascending and the other in
    descending order"""
    how = I.hooks.get("set_order")
    if not how:
        return list(items)
    if all(isinstance(x, str) for x in items):
        return sorted(items, reverse=how == "descending")
    return list(items)[::-1] if how == "descending" else list(items)


def items_of(I, it):
    A = I.A
    if isinstance(it, tuple):
        return list(it)
    if isinstance(it, SetV):
        return set_order(I, it.items)
    if isinstance(it, ListV):
        return list(it.items)
    if isinstance(it, DictV):
        return dict_keys(it)
    if isinstance(it, str):
        return list(it)
    if isinstance(it, (bytes, range, frozenset)):
        return list(it)
    if isinstance(it, IterV):
        r = it.items[it.pos:]
        it.pos = len(it.items)
        return r
    if isinstance(it, _I().GenV):
        out = []
        depth = len(I.loops)
        I.iterate(it, lambda v: out.append(I._repwrap(depth, v)))
        return out
    if isinstance(it, RangeV):
        return it.items(I)
    if isinstance(it, A.VecV):
        return list(it.elems)
    if isinstance(it, A.ArrV):
        return A.iter_array(I, it)
    if isinstance(it, InstV):
        if "__tuple__" in it.attrs:
            return list(it.attrs["__tuple__"])
        if I.class_lookup(it.cls, "__iter__") is not None or I.class_lookup(it.cls, "__next__") is not None:
            out = []
            depth = len(I.loops)
            I.iterate(it, lambda v: out.append(I._repwrap(depth, v)))
            return out
        I.raise_(TypeError, f"'{it.cls.name}' object is not iterable")
    if isinstance(it, Obj):
        f = getattr(it, "iter", None)
        if f is not None:
            return f(I)
        I.raise_(TypeError, f"{it!r} is not iterable")
    if isinstance(it, Term):
        if it.info.get("items") is not None:
            return list(it.info["items"])
        h = I.hooks.get("iter_term")
        if h:
            r = h(I, it)
            if r is not None:
                return r
        return [Rep(Term("elem", (it,)), Term("iter", ("term", it)))]
    if isinstance(it, ClassV):
        # Enum classes
        return [v for k, v in it.ns.items() if isinstance(v, InstV) and v.cls is it]
    if isinstance(it, (int, float, Poly, Frac)) or it is None:
        I.raise_(TypeError, f"{vrepr(it)} is not iterable")
    raise _I().Unsupported(f"iteration over {vrepr(it)}")


class RangeV(Obj):
    label = "range"

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        return f"range({vrepr(self.a)}, {vrepr(self.b)}, {vrepr(self.c)})"

    @property
    def key(self):
        return ("range", vkey(self.a), vkey(self.b), vkey(self.c))

    def items(self, I):
        a, b, c = self.a, self.b, self.c
        if all(isinstance(x, int) for x in (a, b, c)):
            if abs((b - a) // (c or 1)) > 5000:
                raise _I().Unsupported("long concrete range")
            return list(range(a, b, c))
        lay = I.len_layout.get(vkey(to_poly(b))) if a == 0 and c == 1 and isinstance(b, Poly) else None
        if lay is not None and any(x is not None and x.op != "range" for x in lay):
            out, off = [], Poly.const(0)
            for x in lay:
                out.append(mk(off) if x is None else Rep(mk(off + src_index(I, x)), x))
                off = off + (Poly.const(1) if x is None else src_len(I, x))
            return out
        if c == 1 or c == -1:
            n = I.binop("Sub", b, a) if c == 1 else I.binop("Sub", a, b)
            if I.compare("LtE", n, 0):
                return []
            src = Term("range", (a, b, c))
            s = I.A.range_index(I, n)
            v = I.binop("Add", a, s) if c == 1 else I.binop("Sub", a, s)
            return [Rep(v, src)]
        if isinstance(c, int) and c > 1 or isinstance(c, Poly):
            # a + c*k
            s = Sym(I.fresh_name("k"))
            I.facts.declare(s, lo=0)
            return [Rep(I.binop("Add", a, I.binop("Mult", c, Poly.atom(s))), Term("range", (a, b, c)))]
        raise _I().Unsupported("range with unknown step")

    def iter(self, I):
        return self.items(I)

    def length(self, I):
        if all(isinstance(x, int) for x in (self.a, self.b, self.c)):
            return len(range(self.a, self.b, self.c))
        if self.c == 1:
            return I.binop("Sub", self.b, self.a)
        return Term("len", (self,), {"kind": "int"})

    def contains(self, I, x):
        if self.c == 1 and isinstance(x, (int, Poly)):
            return I.compare("LtE", self.a, x) and I.compare("Lt", x, self.b)
        raise _I().Unsupported("in range")

    def getitem(self, I, i):
        return I.binop("Add", self.a, I.binop("Mult", i, self.c))


def length(I, v):
    A = I.A
    if isinstance(v, (tuple, str, bytes, frozenset)):
        return len(v)
    if isinstance(v, (ListV, SetV)):
        if any(isinstance(x, Rep) for x in v.items):
            return rep_len(I, v.items, v)
        return len(v.items)
    if isinstance(v, DictV):
        ks = dict_keys(v)
        if any(isinstance(x, Rep) for x in ks):
            return rep_len(I, ks, v)
        return len(ks)
    if isinstance(v, A.VecV):
        return len(v.elems)
    if isinstance(v, A.ArrV):
        if not v.axes:
            I.raise_(TypeError, "len() of unsized object")
        return v.axes[0].length
    if isinstance(v, RangeV):
        return v.length(I)
    if isinstance(v, InstV):
        if "__tuple__" in v.attrs:
            return len(v.attrs["__tuple__"])
        f = I.class_lookup(v.cls, "__len__")
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    if isinstance(v, Obj) and hasattr(v, "length"):
        return v.length(I)
    if isinstance(v, Term):
        return len_term(I, Term("len", (v,), {"kind": "int"}))
    I.raise_(TypeError, f"object of type {vrepr(v)} has no len()")


def len_term(I, t):
    I.facts.lo.setdefault(t, 0)
    return Poly.atom(t)


def src_len(I, src):
    """number of elements a generic element stands for"""
    if isinstance(src, Term) and src.op == "range" and src.args[2] in (1, -1) and not isinstance(src.args[2], bool):
        a, b, c = src.args
        return to_poly(I.binop("Sub", b, a) if c == 1 else I.binop("Sub", a, b))
    t = Term("len", (src,), {"kind": "int"})
    # a generic element is present: the container is not empty
    I.facts.lo[t] = max(I.facts.lo.get(t, 0), 1)
    return Poly.atom(t)


def rep_len(I, items, v):
    n = Poly.const(0)
    for x in items:
        n = n + (src_len(I, x.src) if isinstance(x, Rep) else Poly.const(1))
    # range(len(items)) runs over the positions of these elements
    I.len_layout[vkey(n)] = [x.src if isinstance(x, Rep) else None for x in items]
    return mk(n)


def src_index(I, src):
    """generic position among the elements of src"""
    s = Sym(f"at<{vrepr(src)}")
    n = src_len(I, src)
    I.facts.declare(s, lo=0, hi=n - Poly.const(1))
    I.idx_src[s] = src
    return Poly.atom(s)


def nth_of(I, items, i):
    """element at symbolic position i of a list with generic elements, or MISSING"""
    i = to_poly(i)
    off = Poly.const(0)
    if i is None:
        return MISSING
    for x in items:
        d = i - off
        if isinstance(x, Rep):
            n = src_len(I, x.src)
            ats = d.atoms()
            if len(ats) == 1 and d == Poly.atom(ats[0]) and ats[0] in I.idx_src and vkey(I.idx_src[ats[0]]) == vkey(x.src):
                for ev, _ in reversed(I.loops):
                    el = ev.data.get("elem")
                    if involves(Poly.atom(ats[0]), el):
                        # the loop runs over these elements, by position
                        ev.data["elem"] = (*(el if isinstance(el, tuple) else (el,)), x.value)
                        break
                return x.value
            if isinstance(x.src, Term) and x.src.op == "range" and isinstance(x.value, (int, Poly)):
                if I.facts.sign(d) in (0, ">", ">=") and I.facts.sign(n - d) == ">":
                    g = x.value if isinstance(x.value, Poly) else Poly.const(x.value)
                    k = I.binop("Mult", x.src.args[2], mk(d))
                    if any(isinstance(y, Sym) and y.name.startswith("i<") for y in g.atoms()) and g.linear_in(next(y for y in g.atoms() if isinstance(y, Sym) and y.name.startswith("i<"))):
                        own = next(y for y in g.atoms() if isinstance(y, Sym) and y.name.startswith("i<"))
                        return mk(g.subst({own: d}))
                    return I.binop("Add", x.src.args[0], k)
            off = off + n
        else:
            if not d.t:
                return x
            off = off + Poly.const(1)
    return MISSING


def contains(I, c, x):
    A = I.A
    if isinstance(c, tuple):
        return any(I.eq(y, x) for y in c if maybe_equal(y, x))
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return I.choose(("in", vkey(x), c), f"{vrepr(x)} in {c!r}")
    if isinstance(c, (ListV, SetV)):
        for y in c.items:
            if not isinstance(y, Rep) and vkey(y) == vkey(x):
                return True
        for y in c.items:
            if isinstance(y, Rep) and vkey(y.value) == vkey(x):
                return True
        for y in c.items:
            if not isinstance(y, Rep) and maybe_equal(y, x) and I.eq(y, x):
                return True
        for y in c.items:
            if isinstance(y, Rep) and in_src(I, x, y):
                return True
        return False
    if isinstance(c, DictV):
        return dict_lookup(I, c, x) is not MISSING
    if isinstance(c, Obj):
        f = getattr(c, "contains", None)
        if f is not None:
            return I.truth(f(I, x))
    if isinstance(c, InstV):
        f = I.class_lookup(c.cls, "__contains__")
        if f is not None:
            return I.truth(I.call(BoundV(f, c), [x], {}))
        return any(I.eq(y, x) for y in items_of(I, c))
    if isinstance(c, Term):
        return I.choose(("in", vkey(x), vkey(c)), f"{vrepr(x)} in {c!r}")
    if isinstance(c, (_I().GenV, IterV)):
        if isinstance(c, IterV):
            while c.pos < len(c.items):
                y = c.items[c.pos]
                c.pos += 1
                if not isinstance(y, Rep):
                    if I.eq(y, x):
                        return True
                elif in_src(I, x, y):
                    return True
            return False
        found = []

        def body(v):
            if I.eq(v, x):
                found.append(1)
                return _I().BREAK
        I.iterate(c, body)
        return bool(found)
    if isinstance(c, A.VecV):
        return any(I.eq(y, x) for y in c.elems)
    I.raise_(TypeError, f"argument of type {vrepr(c)} is not iterable")


# ------------------------------------------------------------------- items
def norm_index(I, i, n):
    """normalise an int index into a sequence of concrete length n"""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if i < -n or i >= n:
            I.raise_(IndexError, "index out of range")
        return i % n
    return None


def getitem(I, o, i):
    A = I.A
    if isinstance(o, (A.ArrV, A.VecV, A.BoolArr)):
        return A.getitem(I, o, i)
    if isinstance(o, (tuple, ListV, str)):
        items = o.items if isinstance(o, ListV) else o
        if isinstance(i, slice):
            if any(isinstance(x, Rep) for x in (items if not isinstance(items, str) else ())):
                if i == slice(None, None, None):
                    return I.new(ListV(items))
                if len(items) == 1:
                    return I.new(ListV([Rep(items[0].value, Term("slice", (items[0].src, i)))]))
                raise _I().Unsupported("slice of a list of unknown length")
            if all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                r = items[i]
                return I.new(ListV(r)) if isinstance(o, ListV) else r
            raise _I().Unsupported("symbolic slice of a sequence")
        if isinstance(items, list) and any(isinstance(x, Rep) for x in items):
            if isinstance(i, int):
                # concrete prefix
                if i >= 0 and all(not isinstance(x, Rep) for x in items[:i + 1]) and i < len(items):
                    return items[i]
                if i < 0 and all(not isinstance(x, Rep) for x in items[i:]) and -i <= len(items):
                    return items[i]
            v = nth_of(I, items, i)
            if v is not MISSING:
                return v
            if len(items) == 1:
                return Term("nth", (items[0].src, i if not isinstance(i, Poly) else i))
            raise _I().Unsupported("index into a list of unknown length")
        if isinstance(i, (int, bool)):
            return items[norm_index(I, i, len(items))]
        if isinstance(i, Poly) or (isinstance(i, Term) and not isinstance(o, str)):
            for k in range(len(items)):
                if I.eq(i, k):
                    return items[k]
            for k in range(1, len(items) + 1):
                if I.eq(i, -k):
                    return items[-k]
            I.raise_(IndexError, "index out of range")
        if isinstance(i, (str, float, type(None), tuple)):
            I.raise_(TypeError, f"indices must be integers, not {vrepr(i)}")
        raise _I().Unsupported(f"index {vrepr(i)}")
    if isinstance(o, DictV):
        v = dict_lookup(I, o, i)
        if v is MISSING:
            miss = getattr(o, "default_factory", None)
            if miss is not None:
                v = I.call(miss, [], {})
                dict_set(I, o, i, v)
                return v
            I.raise_(KeyError, i)
        return v
    if isinstance(o, InstV):
        if "__tuple__" in o.attrs:
            return getitem(I, o.attrs["__tuple__"], i)
        f = I.class_lookup(o.cls, "__getitem__")
        if f is not None:
            return I.call(BoundV(f, o), [i], {})
        I.raise_(TypeError, f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, Obj):
        f = getattr(o, "getitem", None)
        if f is not None:
            return f(I, i)
    if isinstance(o, Term):
        h = I.hooks.get("item_term")
        if h:
            r = h(I, o, i)
            if r is not None:
                return r
        if o.op == "pair" and isinstance(i, int):
            return o.args[i]
        if o.op == "shape":
            return len_term(I, Term("item", (o, i), {"kind": "int"}))
        return Term("item", (o, I.freeze(i)), {k: v for k, v in o.info.items() if k in ("uniform",)})
    if isinstance(o, (ExtV, ClassV, BT)):
        return o          # typing subscripts
    I.raise_(TypeError, f"{vrepr(o)} is not subscriptable")


def setitem(I, o, i, v):
    A = I.A
    if isinstance(o, A.ArrV):
        return A.setitem(I, o, i, v)
    if isinstance(o, A.VecV):
        I.touch(o)
        if isinstance(i, int):
            o.elems[norm_index(I, i, len(o.elems))] = v
            return
        raise _I().Unsupported("vector assignment")
    if isinstance(o, DictV):
        return dict_set(I, o, i, v)
    if isinstance(o, ListV):
        I.touch(o)
        if isinstance(i, slice):
            if any(isinstance(x, Rep) for x in o.items) and i != slice(None, None, None):
                raise _I().Unsupported("slice assignment")
            o.items[i] = items_of(I, v)
            I.event("mutate", target=o, how="setitem", args=(i, v))
            return
        if isinstance(i, Poly) or isinstance(i, Term):
            # unknown position
            I.event("mutate", target=o, how="setitem", args=(i, v))
            for k in range(len(o.items)):
                if I.eq(i, k):
                    o.items[k] = v
                    return
            I.raise_(IndexError, "list assignment index out of range")
        if any(isinstance(x, Rep) for x in o.items):
            I.event("mutate", target=o, how="setitem", args=(i, v))
            if isinstance(i, int) and 0 <= i < len(o.items) and not isinstance(o.items[i], Rep):
                o.items[i] = v
            return
        if not isinstance(i, int):
            I.raise_(TypeError, "list indices must be integers")
        o.items[norm_index(I, i, len(o.items))] = v
        I.event("mutate", target=o, how="setitem", args=(i, v))
        return
    if isinstance(o, InstV):
        f = I.class_lookup(o.cls, "__setitem__")
        if f is not None:
            I.call(BoundV(f, o), [i, v], {})
            return
        I.raise_(TypeError, f"'{o.cls.name}' object does not support item assignment")
    if isinstance(o, Obj):
        f = getattr(o, "setitem", None)
        if f is not None:
            f(I, i, v)
            return
        I.raise_(TypeError, f"{o!r} does not support item assignment")
    if isinstance(o, Term):
        I.event("setitem", obj=o, index=i, value=v)
        return
    I.raise_(TypeError, f"{vrepr(o)} does not support item assignment")


def delitem(I, o, i):
    if isinstance(o, DictV):
        dict_pop(I, o, i, MISSING)
    elif isinstance(o, ListV):
        I.touch(o)
        if isinstance(i, slice):
            del o.items[i]
        else:
            del o.items[norm_index(I, i, len(o.items))]
    elif isinstance(o, Obj) and hasattr(o, "delitem"):
        o.delitem(I, i)
    elif isinstance(o, InstV) and I.class_lookup(o.cls, "__delitem__"):
        I.call(BoundV(I.class_lookup(o.cls, "__delitem__"), o), [i], {})
    else:
        raise _I().Unsupported(f"del {vrepr(o)}[...]")


# --------------------------------------------------------------- operators
PYOP = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "FloorDiv": operator.floordiv,
        "Mod": operator.mod, "Div": operator.truediv, "Pow": operator.pow, "LShift": operator.lshift,
        "RShift": operator.rshift, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "FloorDiv": "floordiv", "Mod": "mod", "Div": "truediv",
          "Pow": "pow", "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul"}


def binop(I, op, a, b):
    A = I.A
    arr = (A.ArrV, A.VecV, A.BoolArr)
    if isinstance(a, arr) or isinstance(b, arr):
        if not (isinstance(a, (InstV, Obj)) or isinstance(b, (InstV, Obj))):
            return A.binop(I, op, a, b)
    nat = (int, float, str, bytes, bool)
    if isinstance(a, nat) and isinstance(b, nat):
        try:
            r = PYOP[op](a, b)
        except Exception as e:
            I.raise_(type(e) if isinstance(e, (ZeroDivisionError, TypeError, ValueError, OverflowError)) else TypeError, str(e))
        if op == "Div" and isinstance(a, int) and isinstance(b, int):
            f = Frac(Poly.const(a), Poly.const(b))
            if f.den != Poly.const(1):
                return Frac(f.num, f.den, 1)
            return Frac(f.num, f.den, 0) if False else r
        return r
    if isinstance(a, str) and op == "Mod":
        t = b if isinstance(b, tuple) else (b,)
        if all(isinstance(x, nat) for x in t):
            return a % (tuple(t))
        return Term("fmt", (a, I.freeze(b)), {"nonnull": True, "kind": "str"})
    num = (int, float, Poly, Frac)
    isn = lambda v: isinstance(v, num) or (isinstance(v, Term) and v.info.get("kind") != "str")
    if isinstance(a, num) and isn(b) or isinstance(b, num) and isn(a) or (
            isinstance(a, Term) and isinstance(b, Term) and op in ("Sub", "Mult", "FloorDiv", "Mod", "Div")
            and not (a.info.get("kind") == "str" or b.info.get("kind") == "str")):
        return num_op(I, op, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == "Mult":
        return a * b
    if isinstance(b, tuple) and isinstance(a, int) and op == "Mult":
        return a * b
    if isinstance(a, ListV) and isinstance(b, ListV) and op == "Add":
        return I.new(ListV(a.items + b.items))
    if op == "Mult" and (isinstance(a, ListV) or isinstance(b, ListV)):
        l, n = (a, b) if isinstance(a, ListV) else (b, a)
        if isinstance(n, int):
            return I.new(ListV(l.items * n))
        if len(l.items) == 1:
            return I.new(ListV([Rep(l.items[0], Term("range", (0, n, 1)))]))
    if op == "Mult" and isinstance(a, tuple) or op == "Mult" and isinstance(b, tuple):
        raise _I().Unsupported("tuple repeated a symbolic number of times")
    if isinstance(a, SetV) and isinstance(b, SetV) or isinstance(a, SetV) and isinstance(b, ListV):
        if op == "Sub":
            return make_set(I, set_filter(I, a.items, b, False))
        if op == "BitAnd":
            return make_set(I, set_filter(I, a.items, b, True))
        if op == "BitOr":
            return make_set(I, a.items + b.items)
        if op == "BitXor":
            return make_set(I, set_filter(I, a.items, b, False) + set_filter(I, b.items, a, False))
    if isinstance(a, DictV) and isinstance(b, DictV) and op == "BitOr":
        d = copy_dict(I, a)
        dict_update(I, d, b)
        return d
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, InstV):
            f = I.class_lookup(x.cls, f"{pre}{DUNDER.get(op, '?')}__")
            if f is not None:
                return I.call(BoundV(f, x), [y], {})
            if "__tuple__" in x.attrs:
                return binop(I, op, x.attrs["__tuple__"] if x is a else a, b if x is a else x.attrs["__tuple__"])
        if isinstance(x, Obj) and hasattr(x, "binop"):
            r = x.binop(I, op, y, x is b)
            if r is not NotImplemented:
                return r
    if isinstance(a, (Term, Obj, str, ListV, tuple)) and isinstance(b, (Term, Obj, str, ListV, tuple)) and (isinstance(a, (Term, Obj)) or isinstance(b, (Term, Obj))):
        if isinstance(a, ListV) or isinstance(b, ListV):
            if op == "Add":
                return I.new(ListV(items_of(I, a) + items_of(I, b)))
        info = {}
        if isinstance(a, str) or isinstance(b, str) or any(isinstance(x, Term) and x.info.get("kind") == "str" for x in (a, b)):
            info = {"kind": "str", "nonnull": True}
            if op == "Add":
                return Term("fstr", _merge_str(a, b), info)
        return Term(op, (I.freeze(a), I.freeze(b)), info)
    I.raise_(TypeError, f"unsupported operand types for {op}: {vrepr(a)} and {vrepr(b)}")


def _merge_str(a, b):
    out = []
    for x in (a, b):
        parts = x.args if isinstance(x, Term) and x.op == "fstr" else (x if isinstance(x, str) else Term("str", (x, "")),)
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
    return out


def num_op(I, op, a, b):
    F = I.facts
    real = any(isinstance(x, (float, Frac)) for x in (a, b)) or any(isinstance(x, Term) and x.info.get("kind") in ("float", "time") for x in (a, b))
    if op == "Div" or real:
        fa, fb = to_frac(a), to_frac(b)
        if fa is None or fb is None:
            return Term(op, (a, b))
        rnd = 1 if fa.ops or fb.ops else 0
        if op == "Add":
            r = fa.add(fb)
        elif op == "Sub":
            r = fa.add(fb.neg())
        elif op == "Mult":
            r = fa.mul(fb)
        elif op == "Div":
            if fb.num.is_const() and fb.num.constval() == 0:
                I.raise_(ZeroDivisionError, "division by zero")
            r = fa.div(fb)
        elif op in ("FloorDiv", "Mod"):
            return Term(op, (a, b))
        elif op == "Pow" and isinstance(b, int) and 0 <= b <= 6:
            r = Frac(Poly.const(1), Poly.const(1))
            for _ in range(b):
                r = r.mul(fa)
        else:
            return Term(op, (a, b))
        # a chain of several roundings is what loses exactness
        if op in ("Add", "Sub", "Mult") and rnd:
            r = Frac(r.num, r.den, fa.ops + fb.ops + (1 if op == "Mult" or True else 0))
        if real and r.ops == 0:
            r = Frac(r.num, r.den, 0)
            if r.den != Poly.const(1) or r.num.is_const():
                return r if not (r.num.is_const() and r.den.is_const()) else r.num.constval() / r.den.constval()
        return r
    pa, pb = to_poly(a), to_poly(b)
    if op == "Add":
        return mk(F.norm(pa + pb)) if F.eq else mk(pa + pb)
    if op == "Sub":
        return mk(F.norm(pa - pb)) if F.eq else mk(pa - pb)
    if op == "Mult":
        return mk(pa * pb)
    if op in ("FloorDiv", "Mod"):
        if isinstance(b, int) and b == 0:
            I.raise_(ZeroDivisionError, "division by zero")
        r = F.divmod(pa, pb)
        if r is None:
            q = Term("floordiv", (mk(F.norm(pa)), mk(F.norm(pb))), {"kind": "int"})
            m = Term("mod", (mk(F.norm(pa)), mk(F.norm(pb))), {"kind": "int"})
            if F.sign(pb) == ">":
                if m not in F.lo:
                    F.declare(m, 0, pb - Poly.const(1))
                if F.nonneg_p(pa) and q not in F.lo:
                    F.declare(q, 0)
            return Poly.atom(q if op == "FloorDiv" else m)
        return mk(r[0] if op == "FloorDiv" else r[1])
    if op == "Pow" and isinstance(b, int) and 0 <= b <= 6:
        r = Poly.const(1)
        for _ in range(b):
            r = r * pa
        return mk(r)
    if op == "Pow" and isinstance(a, int) and a in (1,):
        return 1
    return Term(op, (a, b), {"kind": "int"})


def to_int(I, v):
    """int(v)"""
    if isinstance(v, (bool, int, float)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            I.raise_(type(e), str(e))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            I.raise_(ValueError, str(e))
    if isinstance(v, Poly):
        return v
    if isinstance(v, Frac):
        F = I.facts
        num, den = F.norm(v.num), F.norm(v.den)
        if v.ops <= 1:
            if den == Poly.const(1):
                return mk(num)
            r = F.divmod(num, den)
            if r is not None and not r[1].t:
                return mk(r[0])
            if r is not None and F.nonneg_p(num):
                return mk(r[0])      # truncation = floor for nonnegative values
            return Term("trunc", (v,), {"kind": "int"})
        return Term("inexact_int", (v,), {"kind": "int", "why": "integer taken from a float computed with several roundings"})
    if isinstance(v, Term):
        if v.info.get("kind") == "int":
            return Poly.atom(v)
        return Poly.atom(Term("int", (v,), {"kind": "int"}))
    if isinstance(v, I.A.VecV) and len(v.elems) == 1:
        return to_int(I, v.elems[0])
    if isinstance(v, InstV):
        f = I.class_lookup(v.cls, "__int__")
        if f is not None:
            return I.call(BoundV(f, v), [], {})
    I.raise_(TypeError, f"int() argument must be a number, not {vrepr(v)}")


def copy_dict(I, d):
    r = I.new(DictV(d.entries))
    r.base = d.base.clone() if d.base is not None else None
    r.label = d.label
    return r


# ------------------------------------------------------------------ classes
def call_type(I, f, args, kwargs):
    t = f.t
    A = I.A
    if issubclass(t, BaseException):
        return I.make_exc(f, args)
    if t is int:
        if not args:
            return 0
        return to_int(I, args[0])
    if t is float:
        v = args[0] if args else 0.0
        if isinstance(v, (int, float, str)):
            try:
                return float(v)
            except ValueError as e:
                I.raise_(ValueError, str(e))
        if isinstance(v, (Poly, Frac)):
            return to_frac(v)
        return Term("float", (v,), {"kind": "float"})
    if t is bool:
        return I.truth(args[0]) if args else False
    if t is str:
        if not args:
            return ""
        v = args[0]
        if isinstance(v, (str, int, float)) or v is None:
            return str(v)
        if isinstance(v, InstV) and isinstance(v.cls, ClassV) and I.class_lookup(v.cls, "__str__"):
            return I.call(BoundV(I.class_lookup(v.cls, "__str__"), v), [], {})
        if isinstance(v, InstV) and "args" in v.attrs and len(v.attrs["args"]) == 1:
            return call_type(I, f, [v.attrs["args"][0]], {})
        if isinstance(v, Term) and v.info.get("kind") == "str":
            return v
        return Term("str", (I.freeze(v),), {"kind": "str", "nonnull": True})
    if t is tuple:
        if not args:
            return ()
        if isinstance(args[0], Term) and not args[0].info.get("items"):
            return Term("tuple", (args[0],), {"nonnull": True})
        items = items_of(I, args[0])
        if any(isinstance(x, Rep) for x in items):
            # a tuple of unknown length: keep list representation
            l = I.new(ListV(items))
            l.is_tuple = True
            return l
        return tuple(items)
    if t is list:
        if not args:
            return I.new(ListV())
        return I.new(ListV(items_of(I, args[0])))
    if t in (set, frozenset):
        return make_set(I, items_of(I, args[0]) if args else [], t is frozenset)
    if t is dict:
        d = I.new(DictV())
        if args:
            dict_update(I, d, args[0])
        for k, v in kwargs.items():
            if k == "**":
                dict_update(I, d, v)
            else:
                dict_set(I, d, k, v)
        return d
    if t is slice:
        a = list(args)
        if len(a) == 1:
            return slice(None, a[0], None)
        return slice(*a)
    if t is range:
        a = list(args)
        a = [x.elems[0] if isinstance(x, A.VecV) else (Poly.atom(x) if isinstance(x, Term) else x) for x in a]
        if len(a) == 1:
            return I.new(RangeV(0, a[0], 1))
        if len(a) == 2:
            return I.new(RangeV(a[0], a[1], 1))
        return I.new(RangeV(*a))
    if t is type:
        if len(args) == 1:
            return type_of(I, args[0])
        raise _I().Unsupported("type() with three arguments")
    if t is object:
        return I.new(InstV(ClassV("object", [], {}, None, "object")))
    if t is property:
        return I.new(PropertyV(args[0] if args else kwargs.get("fget"), args[1] if len(args) > 1 else kwargs.get("fset")))
    if t is staticmethod:
        return I.new(StaticV(args[0]))
    if t is classmethod:
        return I.new(ClassMethodV(args[0]))
    if t is bytes:
        return Term("bytes", tuple(args), {"nonnull": True})
    if t is complex:
        return Term("complex", tuple(args))
    raise _I().Unsupported(f"call of {t.__name__}")


def type_of(I, v):
    A = I.A
    if isinstance(v, InstV):
        return v.cls
    if isinstance(v, bool):
        return BT(bool)
    if v is None:
        return BT(type(None))
    if isinstance(v, (int, Poly)):
        return BT(int)
    if isinstance(v, (float, Frac)):
        return BT(float)
    if isinstance(v, (str, tuple, slice, bytes, frozenset)):
        return BT(type(v))
    if isinstance(v, ListV):
        return BT(tuple if getattr(v, "is_tuple", False) else list)
    if isinstance(v, SetV):
        return BT(frozenset if v.frozen else set)
    if isinstance(v, DictV):
        return BT(dict)
    if isinstance(v, A.ArrV):
        return ExtV(v.buf.typename)
    if isinstance(v, (A.VecV, A.BoolArr)):
        return ExtV("numpy.ndarray")
    if isinstance(v, ClassV):
        return BT(type)
    if isinstance(v, (FuncV, BoundV, LruV)):
        return ExtV("types.FunctionType")
    if isinstance(v, Obj) and hasattr(v, "typename"):
        return ExtV(v.typename)
    if isinstance(v, Term) and v.info.get("type"):
        return v.info["type"]
    if isinstance(v, Term) and v.info.get("kind") == "str":
        return BT(str)
    return Term("type", (v,), {"nonnull": True})


ABCS = {
    "Iterable": (ListV, DictV, SetV, tuple, str, frozenset, IterV, RangeV),
    "Sequence": (ListV, tuple, str, RangeV),
    "Mapping": (DictV,),
    "MutableMapping": (DictV,),
    "Collection": (ListV, DictV, SetV, tuple, str, frozenset, RangeV),
    "Sized": (ListV, DictV, SetV, tuple, str, frozenset, RangeV),
    "Container": (ListV, DictV, SetV, tuple, str, frozenset, RangeV),
    "Hashable": (str, int, tuple, float),
    "Callable": (FuncV, BoundV, LruV, PyFn, ClassV, PartialV),
    "Set": (SetV,), "MutableSequence": (ListV,),
    "Number": (int, float, Poly, Frac), "Integral": (int, Poly), "Real": (int, float, Poly, Frac),
}


def isinstance_(I, v, t):
    A = I.A
    if isinstance(t, tuple):
        return any(isinstance_(I, v, x) for x in t)
    if isinstance(t, BT) and t.t is object:
        return True
    if isinstance(t, InstV):
        # no class: type(t).__instancecheck__, or whatever asking it for __bases__ does
        if I.class_lookup(t.cls, "__instancecheck__") is not None:
            return I.truth(I.meth(t, "__instancecheck__", v))
        try:
            I.getattr(t, "__bases__")
        except _I().AbsRaise as e:
            if I.issub(e.exc.cls, BT(AttributeError)) is not True:
                raise
        I.raise_(TypeError, "isinstance() arg 2 must be a type, a tuple of types, or a union")
    if isinstance(t, ExtV):
        last = t.name.split(".")[-1]
        if t.name.split(".")[0] in ("typing", "collections", "numbers", "types") and last in ABCS:
            if isinstance(v, ABCS[last]):
                return True
            if isinstance(v, _I().GenV) and last == "Iterable":
                return True
            if isinstance(v, A.ArrV) and last in ("Iterable", "Sized", "Collection", "Container"):
                return True
            if isinstance(v, InstV) and last in ("Iterable", "Callable"):
                return I.class_lookup(v.cls, {"Iterable": "__iter__", "Callable": "__call__"}[last]) is not None
            if isinstance(v, Term):
                return I.choose(("isinstance", v.key, t.key), f"isinstance({v!r}, {t!r})")
            return False
        if t.name in ("typing.Tuple", "typing.List", "typing.Dict"):
            return isinstance_(I, v, BT({"Tuple": tuple, "List": list, "Dict": dict}[last]))
    if isinstance(v, Obj) and hasattr(v, "isinstance_"):
        r = v.isinstance_(I, t)
        if r is not None:
            return r
    if isinstance(v, Term):
        ty = v.info.get("type")
        if ty is not None:
            return I.issub(ty, t)
        if v.info.get("kind") in ("int", "str", "float") and isinstance(t, BT):
            return I.issub(BT({"int": int, "str": str, "float": float}[v.info["kind"]]), t)
        if v.info.get("notbuiltin") and isinstance(t, BT):
            return False
        return I.choose(("isinstance", v.key, vkey(t)), f"isinstance({v!r}, {t!r})")
    ty = type_of(I, v)
    if isinstance(t, BT) and t.t is bool and isinstance(ty, BT):
        return ty.t is bool
    if isinstance(ty, Term):
        if isinstance(t, (ClassV, BT)):
            return False
        return I.choose(("isinstance", vkey(v), vkey(t)), f"isinstance({v!r}, {t!r})")
    return I.issub(ty, t)


# -------------------------------------------------------------- method tables
def getattr_builtin(I, o, name):
    if isinstance(o, ListV):
        m = LIST.get(name)
        if m is None and name == "__len__":
            return PyFn("len", lambda I, a, k: length(I, o))
        if m is None:
            return NotImplemented
        return PyFn("list." + name, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, DictV):
        m = DICT.get(name)
        if m is None:
            return NotImplemented
        return PyFn("dict." + name, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, SetV):
        m = SET.get(name)
        if m is None:
            return NotImplemented
        return PyFn("set." + name, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, tuple):
        if name == "__class__":
            return BT(tuple)
        if name == "index":
            def index(I, a, k):
                for i, x in enumerate(o):
                    if maybe_equal(x, a[0]) and I.eq(x, a[0]):
                        return i
                I.raise_(ValueError, "tuple.index(x): x not in tuple")
            return PyFn("tuple.index", index)
        if name == "count":
            return PyFn("tuple.count", lambda I, a, k: sum(1 for x in o if I.eq(x, a[0])))
        if name == "__len__":
            return PyFn("len", lambda I, a, k: len(o))
        if name in ("__getitem__",):
            return PyFn("getitem", lambda I, a, k: getitem(I, o, a[0]))
        return NotImplemented
    if isinstance(o, slice):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        if name == "indices":
            def indices(I, a, k):
                n = a[0]
                s = I.A.clip_slice(I, o, n)
                return (s[0], s[1], o.step if o.step is not None else 1)
            return PyFn("slice.indices", indices)
        return NotImplemented
    if isinstance(o, str):
        if name == "join":
            def join(I, a, k):
                items = items_of(I, a[0])
                if all(isinstance(x, str) for x in items):
                    return o.join(items)
                return Term("join", (o, I.freeze(I.new(ListV(items)))), {"kind": "str", "nonnull": True})
            return PyFn("str.join", join)
        if hasattr(str, name):
            def sm(I, a, k):
                if all(isinstance(x, (str, int, tuple, type(None), bool, float)) for x in list(a) + list(k.values())):
                    try:
                        r = getattr(o, name)(*a, **k)
                    except (TypeError, ValueError, IndexError, KeyError) as e:
                        I.raise_(type(e), str(e))
                    return I.new(ListV(r)) if isinstance(r, list) else r
                return Term("strm", (o, name) + tuple(I.freeze(x) for x in a) + tuple((kk, I.freeze(v)) for kk, v in k.items()), {"kind": "str", "nonnull": True})
            return PyFn("str." + name, sm)
        return NotImplemented
    if isinstance(o, (int, Poly)) and not isinstance(o, bool) or isinstance(o, bool):
        if name == "real" or name == "numerator":
            return o
        if name == "is_integer":
            return PyFn("is_integer", lambda I, a, k: True)
        if name in ("item", "astype", "__index__", "__int__", "copy"):
            # numpy integer scalars behave like integers
            return PyFn(name, lambda I, a, k: o)
        if name == "__class__":
            return BT(int)
        return NotImplemented
    if isinstance(o, float):
        if hasattr(o, name):
            r = getattr(o, name)
            return PyFn("float." + name, lambda I, a, k: r(*a)) if callable(r) else r
        return NotImplemented
    if isinstance(o, Frac):
        if name == "item":
            return PyFn("item", lambda I, a, k: o)
        if name == "astype":
            return PyFn("astype", lambda I, a, k: to_int(I, o) if isinstance(a[0], BT) and a[0].t is int else o)
        return NotImplemented
    if isinstance(o, BT):
        if name == "__name__":
            return o.t.__name__
        if name == "fromkeys" and o.t is dict:
            def fromkeys(I, a, k):
                d = I.new(DictV())
                for x in items_of(I, a[0]):
                    if isinstance(x, Rep):
                        d.entries.append([x, a[1] if len(a) > 1 else None])
                    else:
                        dict_set(I, d, x, a[1] if len(a) > 1 else None)
                return d
            return PyFn("dict.fromkeys", fromkeys)
        if hasattr(o.t, name):
            def unbound(I, a, k):
                if o.t is object and name == "__setattr__":
                    return I.raw_setattr(a[0], a[1], a[2])
                if o.t is object and name == "__new__":
                    return I.new(InstV(a[0]))
                if name == "__init__":
                    if a and isinstance(a[0], InstV) and issubclass(o.t, BaseException):
                        a[0].attrs["args"] = tuple(a[1:])
                    return None
                f = I.getattr(a[0], name)
                return I.call(f, a[1:], k)
            return PyFn(f"{o.t.__name__}.{name}", unbound)
        return NotImplemented
    if isinstance(o, (_I().GenV,)):
        def send(I, a, k):
            kk, v = o.co.resume("send", a[0] if a else None)
            if kk == "return":
                I.raise_(StopIteration)
            return v
        if name in ("__next__", "send"):
            return PyFn("next", send)
        if name == "close":
            return PyFn("close", lambda I, a, k: I.close_gen(o))
        if name == "throw":
            def throw(I, a, k):
                v = a[0]
                if isinstance(v, (BT, ClassV)):
                    v = a[1] if len(a) > 1 and a[1] is not None else I.call(v, [], {})
                kk, r = o.co.resume("throw", _I().AbsRaise(v, site=I.site()))
                if kk == "return":
                    I.raise_(StopIteration)
                return r
            return PyFn("throw", throw)
        return NotImplemented
    if isinstance(o, (StaticV, ClassMethodV)):
        if name == "__func__":
            return o.f
        return NotImplemented
    if isinstance(o, PyFn):
        if name == "__name__":
            return o.name
        return NotImplemented
    return NotImplemented


def _append_value(I, l, x):
    if isinstance(x, Rep):
        return x
    return x


def loop_rep(I, obj_depth, x):
    """wrap x as a generic element if we are inside a generic loop"""
    if I.loops:
        outer = I.loops
        src = outer[-1][0].data["src"] if len(outer) == 1 else outer[-1][0].data["src"]
        return Rep(x, src)
    return x


def list_append(I, l, x):
    I.touch(l)
    I.event("mutate", target=l, how="append", args=(x,))
    d = getattr(l, "depth", None)
    if len(I.loops) > _depth(I, l):
        opened = I.loops[_depth(I, l):]
        src = opened[0][0].data["src"] if len(opened) == 1 else Term("nest", tuple(o[0].data["src"] for o in opened))
        l.items.append(Rep(x, src))
    else:
        l.items.append(x)


def _depth(I, obj):
    """number of generic loops open when the object was created: loops whose
    begin event has a smaller serial than the object"""
    n = 0
    for ev, _ in I.loops:
        if ev.data.get("oid0", -1) < obj.oid and ev.data.get("oid0") is not None:
            n += 1
        else:
            break
    return n


def list_extend(I, l, it):
    items = items_of(I, it)
    for x in items:
        if isinstance(x, Rep):
            I.touch(l)
            l.items.append(x)
            I.event("mutate", target=l, how="append", args=(x,))
        else:
            list_append(I, l, x)


def list_remove(I, l, x):
    I.touch(l)
    I.event("mutate", target=l, how="remove", args=(x,))
    for i, y in enumerate(l.items):
        if not isinstance(y, Rep) and maybe_equal(y, x) and I.eq(y, x):
            del l.items[i]
            return
    for i, y in enumerate(l.items):
        if isinstance(y, Rep) and in_src(I, x, y):
            if I.eq(y.value, x):
                del l.items[i]
            else:
                l.items[i] = Rep(y.value, Term("without", (y.src, x)))
            return
    I.raise_(ValueError, "list.remove(x): x not in list")


def list_pop(I, l, i=-1):
    I.touch(l)
    I.event("mutate", target=l, how="pop", args=(i,))
    if any(isinstance(x, Rep) for x in l.items):
        if len(l.items) == 1:
            return Term("nth", (l.items[0].src, i)) if not isinstance(l.items[0].value, (ListV, DictV, InstV, I.A.ArrV)) else l.items[0].value
        if isinstance(l.items[i], Rep):
            raise _I().Unsupported("pop from a list of unknown length")
        return l.items.pop(i)
    if not l.items:
        I.raise_(IndexError, "pop from empty list")
    if isinstance(i, Poly):
        raise _I().Unsupported("pop at a symbolic position")
    return l.items.pop(norm_index(I, i, len(l.items)))


def list_index(I, l, x, *a):
    for i, y in enumerate(l.items):
        if isinstance(y, Rep):
            raise _I().Unsupported("index in a list of unknown length")
        if maybe_equal(y, x) and I.eq(y, x):
            return i
    I.raise_(ValueError, "x not in list")


def list_insert(I, l, i, x):
    I.touch(l)
    I.event("mutate", target=l, how="insert", args=(i, x))
    if isinstance(i, int):
        l.items.insert(i, x)
    else:
        raise _I().Unsupported("insert at a symbolic position")


def list_reverse(I, l):
    I.touch(l)
    l.items.reverse()


def list_sort(I, l, key=None, reverse=False):
    I.touch(l)
    l.items = sorted_(I, [l], {"key": key, "reverse": reverse}).items


def list_clear(I, l):
    I.touch(l)
    I.event("mutate", target=l, how="clear", args=())
    l.items = []


LIST = {"append": list_append, "extend": list_extend, "remove": list_remove, "pop": list_pop, "index": list_index,
        "insert": list_insert, "reverse": list_reverse, "sort": list_sort, "clear": list_clear,
        "copy": lambda I, l: I.new(ListV(l.items)),
        "count": lambda I, l, x: sum(1 for y in l.items if I.eq(y, x)),
        "__len__": lambda I, l: length(I, l),
        "popleft": lambda I, l: list_pop(I, l, 0),
        "appendleft": lambda I, l, x: list_insert(I, l, 0, x)}


def dict_get(I, d, k, default=None):
    v = dict_lookup(I, d, k)
    return default if v is MISSING else v


def dict_setdefault(I, d, k, default=None):
    v = dict_lookup(I, d, k)
    if v is MISSING:
        dict_set(I, d, k, default)
        return default
    return v


def dict_upd(I, d, *a, **k):
    for x in a:
        dict_update(I, d, x)
    for kk, v in k.items():
        dict_set(I, d, kk, v)


def dict_clear(I, d):
    I.touch(d)
    I.event("mutate", target=d, how="clear", args=())
    d.entries = []
    d.base = None


class DictKeys(Obj):
    """live keys/items/values view"""
    label = "dict_view"

    def __init__(self, d, kind):
        self.d, self.kind = d, kind

    def iter(self, I):
        if self.kind == "keys":
            return dict_keys(self.d)
        its = dict_items(I, self.d)
        if self.kind == "items":
            return its
        return [Rep(x.value[1], x.src) if isinstance(x, Rep) else x[1] for x in its]

    def length(self, I):
        return length(I, self.d)

    def contains(self, I, x):
        if self.kind == "keys":
            return dict_lookup(I, self.d, x) is not MISSING
        return contains(I, I.new(ListV(self.iter(I))), x)

    def truth(self, I):
        return I.truth(self.d)

    def eq(self, I, other):
        if isinstance(other, (DictKeys, SetV)):
            o = other.iter(I) if isinstance(other, DictKeys) else other.items
            return I.eq(make_set(I, self.iter(I)), make_set(I, o))
        return False

    def binop(self, I, op, other, swapped):
        a = make_set(I, self.iter(I))
        b = make_set(I, items_of(I, other))
        return binop(I, op, b, a) if swapped else binop(I, op, a, b)

    def m_isdisjoint(self, I, other):
        return not set_filter(I, self.iter(I), other, True)

    def __repr__(self):
        return f"{self.d!r}.{self.kind}()"


DICT = {"get": dict_get, "setdefault": dict_setdefault, "update": dict_upd, "clear": dict_clear,
        "items": lambda I, d: I.new(DictKeys(d, "items")),
        "keys": lambda I, d: I.new(DictKeys(d, "keys")),
        "values": lambda I, d: I.new(DictKeys(d, "values")),
        "copy": copy_dict,
        "pop": lambda I, d, k, default=MISSING: dict_pop(I, d, k, default),
        "popitem": lambda I, d: (lambda e: (dict_pop(I, d, e[0], None), (e[0], e[1]))[1])(d.entries[-1]) if d.entries and not isinstance(d.entries[-1][0], Rep) else I.raise_(KeyError, "popitem"),
        "__contains__": lambda I, d, k: dict_lookup(I, d, k) is not MISSING,
        "__getitem__": lambda I, d, k: getitem(I, d, k),
        "__len__": lambda I, d: length(I, d),
        "__setitem__": lambda I, d, k, v: dict_set(I, d, k, v)}


def _others(I, others):
    out = []
    for o in others:
        out += items_of(I, o)
    return I.new(ListV(out))


def _set_inplace(fn):
    def f(I, s, *o):
        r = fn(I, s, *o)
        I.touch(s)
        s.items = r.items
    return f


_diff = lambda I, s, *o: make_set(I, set_filter(I, s.items, _others(I, o), False), s.frozen)
_inter = lambda I, s, *o: make_set(I, set_filter(I, s.items, _others(I, o), True), s.frozen)
_union = lambda I, s, *o: make_set(I, s.items + _others(I, o).items, s.frozen)


def set_remove(I, s, x, must=True):
    I.touch(s)
    for i, y in enumerate(s.items):
        if not isinstance(y, Rep) and maybe_equal(y, x) and I.eq(y, x):
            del s.items[i]
            return
    for i, y in enumerate(s.items):
        if isinstance(y, Rep) and in_src(I, x, y):
            if I.eq(y.value, x):
                del s.items[i]
            else:
                s.items[i] = Rep(y.value, Term("without", (y.src, x)))
            return
    if must:
        I.raise_(KeyError, x)


SET = {"difference": _diff, "intersection": _inter, "union": _union, "add": set_add,
       "difference_update": _set_inplace(_diff), "intersection_update": _set_inplace(_inter), "update": _set_inplace(_union),
       "symmetric_difference": lambda I, s, o: make_set(I, set_filter(I, s.items, o, False) + set_filter(I, items_of(I, o), s, False)),
       "remove": set_remove, "discard": lambda I, s, x: set_remove(I, s, x, False),
       "copy": lambda I, s: I.new(SetV(s.items)),
       "issubset": lambda I, s, o: all(contains(I, o, x.value if isinstance(x, Rep) else x) for x in s.items),
       "issuperset": lambda I, s, o: all(contains(I, s, x.value if isinstance(x, Rep) else x) for x in items_of(I, o)),
       "isdisjoint": lambda I, s, o: not set_filter(I, s.items, o, True),
       "pop": lambda I, s: s.items.pop(s.items.index(set_order(I, s.items)[-1])) if s.items else I.raise_(KeyError, "pop from an empty set"),
       "clear": lambda I, s: s.items.clear()}


# ------------------------------------------------------------ builtin functions
def sorted_(I, a, k):
    items = items_of(I, a[0])
    key = k.get("key")
    if any(isinstance(x, Rep) for x in items):
        # a sorted sequence of unknown elements: the order is a function of
        # the set of keys, provided the sort key is the element (or its name)
        ok = True
        if key is not None:
            for x in items:
                kv = I.call(key, [x.value if isinstance(x, Rep) else x], {})
                v = x.value if isinstance(x, Rep) else x
                first = v[0] if isinstance(v, tuple) else v
                if vkey(kv) != vkey(first) and vkey(kv) != vkey(v):
                    ok = False
        out = [Rep(x.value, order_src(x.src, "sorted") if ok else Term("sortedby", (x.src,))) if isinstance(x, Rep) else x for x in items]
        return I.new(ListV(out))
    ks = [I.call(key, [x], {}) if key is not None else x for x in items]
    rev = bool(k.get("reverse", False))
    if len(items) < 2:
        return I.new(ListV(items))
    if all(isinstance(x, (int, float)) for x in ks) or all(isinstance(x, str) for x in ks):
        return I.new(ListV([x for _, x in sorted(zip(ks, items), key=lambda p: p[0], reverse=rev)]))
    if all(isinstance(x, tuple) for x in ks):
        try:
            return I.new(ListV([x for _, x in sorted(zip(ks, items), key=lambda p: p[0], reverse=rev)]))
        except TypeError:
            pass
    # insertion sort with decided comparisons
    out = []
    for kx, x in zip(ks, items):
        i = 0
        while i < len(out) and not I.truth(I.compare("Lt", kx, out[i][0])):
            i += 1
        out.insert(i, (kx, x))
    if rev:
        out.reverse()
    return I.new(ListV([x for _, x in out]))


def minmax(I, a, k, is_min):
    items = items_of(I, a[0]) if len(a) == 1 else list(a)
    key = k.get("key")
    if not items:
        if "default" in k:
            return k["default"]
        I.raise_(ValueError, "min() arg is an empty sequence")
    if any(isinstance(x, Rep) for x in items):
        return Term("min" if is_min else "max", (I.freeze(I.new(ListV(items))),), {"kind": "int"})
    best = items[0]
    for x in items[1:]:
        kx, kb = (I.call(key, [x], {}), I.call(key, [best], {})) if key is not None else (x, best)
        if I.truth(I.compare("Lt" if is_min else "Gt", kx, kb)):
            best = x
    return best


def sum_(I, a, k):
    items = items_of(I, a[0])
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in items:
        if isinstance(x, Rep):
            return Term("sum", (I.freeze(I.new(ListV(items))),), {"kind": "int"})
        r = binop(I, "Add", r, x)
    return r


def anyall(I, it, want):
    res = [not want]

    def body(v):
        if I.truth(v) == want:
            res[0] = want
            return _I().BREAK
    if isinstance(it, _I().GenV):
        I.iterate(it, body)
        return res[0]
    for x in items_of(I, it):
        v = x.value if isinstance(x, Rep) else x
        if I.truth(v) == want:
            return want
    return not want


def lazily(I, sources, make):
    """an iterator over values made of one element of every source, taken one by one as it is advanced; None unless
    one of the sources is a generator and the others are known sequences"""
    m = _I()
    if not any(isinstance(x, m.GenV) and x.lazy for x in sources):
        return None
    steps = []
    for x in sources:
        if isinstance(x, m.GenV) and x.lazy:
            steps.append(x)
        else:
            items = items_of(I, x)
            if any(isinstance(y, Rep) for y in items):
                return None
            steps.append(iter(items))

    def run(co):
        while True:
            row = []
            for x in steps:
                if isinstance(x, m.GenV):
                    kind, v = x.co.resume("send", None)
                    if kind == "return":
                        return None
                    row.append(v)
                else:
                    try:
                        row.append(next(x))
                    except StopIteration:
                        return None
            keep, v = make(row)
            if keep:
                try:
                    co.yield_(v)
                except BaseException:
                    for x in steps:
                        if isinstance(x, m.GenV) and not x.co.done:
                            I.close_gen(x)
                    raise
    out = I.new(m.GenV(m.Coroutine(I, run, "iterator"), "<iterator>"))
    out.lazy = True
    return out


def zip_(I, a, k):
    g = lazily(I, a, lambda row: (True, tuple(row)))
    if g is not None:
        return g
    lists = [items_of(I, x) for x in a]
    if not lists:
        return I.new(IterV([]))
    if any(isinstance(x, Rep) for l in lists for x in l):
        if all(len(l) == 1 and isinstance(l[0], Rep) for l in lists):
            return I.new(IterV([Rep(tuple(l[0].value for l in lists), lists[0][0].src)]))
        # align position by position while shapes agree
        if len({len(l) for l in lists}) == 1:
            out = []
            for tup in zip(*lists):
                reps = [x for x in tup if isinstance(x, Rep)]
                if reps:
                    out.append(Rep(tuple(x.value if isinstance(x, Rep) else x for x in tup), reps[0].src))
                else:
                    out.append(tup)
            return I.new(IterV(out))
        # infinite/unknown partner
        n = min((len(l) for l in lists if not any(isinstance(x, Rep) for x in l)), default=None)
        if n is not None:
            rows = []
            for i in range(n):
                rows.append(tuple((l[i] if not any(isinstance(x, Rep) for x in l) else Term("nth", (l[0].src, i))) for l in lists))
            return I.new(IterV(rows))
        raise _I().Unsupported("zip of sequences of unknown length")
    if k.get("strict") and len({len(l) for l in lists}) > 1:
        I.raise_(ValueError, "zip() argument lengths differ")
    return I.new(IterV([t for t in zip(*lists)]))


def enumerate_(I, a, k):
    count = [a[1] if len(a) > 1 else k.get("start", 0)]

    def numbered(row):
        n, count[0] = count[0], binop(I, "Add", count[0], 1)
        return True, (n, row[0])
    g = lazily(I, a[:1], numbered)
    if g is not None:
        return g
    items = items_of(I, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    out = []
    n = start
    gen = False
    for x in items:
        if isinstance(x, Rep) and isinstance(x.src, Term) and x.src.op == "range" and x.src.args[2] == 1:
            ln = binop(I, "Sub", x.src.args[1], x.src.args[0])
            out.append(Rep((binop(I, "Add", n, I.A.range_index(I, ln)), x.value), x.src))
            n = binop(I, "Sub", binop(I, "Add", n, ln), 1)
        elif isinstance(x, Rep):
            out.append(Rep((binop(I, "Add", n, src_index(I, x.src)), x.value), x.src))
            n = binop(I, "Sub", binop(I, "Add", n, src_len(I, x.src)), 1)
        else:
            out.append((n, x))
        n = binop(I, "Add", n, 1)
    return I.new(IterV(out))


def map_(I, a, k):
    f, its = a[0], a[1:]
    g = lazily(I, its, lambda row: (True, I.call(f, row, {})))
    if g is not None:
        return g
    rows = items_of(I, zip_(I, its, {})) if len(its) > 1 else [x if isinstance(x, Rep) else (x,) for x in items_of(I, its[0])]
    out = []
    for r in rows:
        if isinstance(r, Rep):
            v = r.value if len(its) > 1 else (r.value,)
            e = I.begin_loop(r.src, elem=r.value)
            try:
                out.append(Rep(I.call(f, list(v), {}), r.src))
            finally:
                I.end_loop(e)
        else:
            out.append(I.call(f, list(r), {}))
    return I.new(IterV(out))


def filter_(I, a, k):
    g = lazily(I, a[1:2], lambda row: (I.truth(I.call(a[0], row, {}) if a[0] is not None else row[0]), row[0]))
    if g is not None:
        return g
    out = []
    for x in items_of(I, a[1]):
        v = x.value if isinstance(x, Rep) else x
        if I.truth(I.call(a[0], [v], {}) if a[0] is not None else v):
            out.append(x)
    return I.new(IterV(out))


def next_(I, a, k):
    it = a[0]
    if isinstance(it, IterV):
        if it.pos < len(it.items):
            x = it.items[it.pos]
            if isinstance(x, Rep):
                # first element of an unknown sequence
                if getattr(it, "began", False):
                    raise _U("an unknown sequence advanced by next")
                if I.choose(("nonempty", vkey(x.src)), f"{vrepr(x.src)} is not empty"):
                    it.began = True
                    return x.value
                it.pos += 1
            else:
                it.pos += 1
                return x
        if len(a) > 1:
            return a[1]
        I.raise_(StopIteration)
    if isinstance(it, _I().GenV):
        kk, v = it.co.resume("send", None)
        if kk == "return":
            if len(a) > 1:
                return a[1]
            I.raise_(StopIteration)
        return v
    if isinstance(it, InstV):
        f = I.class_lookup(it.cls, "__next__")
        if f is not None:
            try:
                return I.call(BoundV(f, it), [], {})
            except _I().AbsRaise as e:
                if len(a) > 1 and I.exc_matches(e.exc, BT(StopIteration)):
                    return a[1]
                raise
    if isinstance(it, Obj) and hasattr(it, "next"):
        return it.next(I)
    if isinstance(it, Term):
        I.event("call", fn=ExtV("builtins.next"), args=(it,), kwargs={})
        return Term("next", (it, I.seq))
    I.raise_(TypeError, "not an iterator")


def iter_(I, a, k):
    it = a[0]
    if isinstance(it, (IterV, _I().GenV)):
        return it
    if isinstance(it, InstV):
        f = I.class_lookup(it.cls, "__iter__")
        if f is not None:
            return I.call(BoundV(f, it), [], {})
    return I.new(IterV(items_of(I, it)))


def getattr_(I, a, k):
    if not isinstance(a[1], str):
        return Term("getattr", tuple(a))
    try:
        return I.getattr(a[0], a[1], a[2] if len(a) > 2 else NotImplemented)
    except _I().AbsRaise as e:
        if len(a) > 2 and I.exc_matches(e.exc, BT(AttributeError)):
            return a[2]
        raise


def setattr_(I, a, k):
    if not isinstance(a[1], str):
        I.event("setattr", obj=a[0], name=a[1], value=a[2])
        return
    I.setattr(a[0], a[1], a[2])


def divmod_(I, a, k):
    return (binop(I, "FloorDiv", a[0], a[1]), binop(I, "Mod", a[0], a[1]))


def abs_(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Poly):
        if I.compare("GtE", v, 0):
            return v
        return mk(-v)
    return Term("abs", (v,))


def hash_(I, a, k):
    return Term("hash", (I.freeze(a[0]),), {"kind": "int"})


def round_(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)) and len(a) == 1:
        return round(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, Frac) and len(a) == 1:
        r = I.facts.divmod(v.num, v.den)
        if r is not None and not r[1].t:
            return mk(r[0])      # nearest integer of an exact integer, small error
    return Term("round", tuple(a), {"kind": "int"})


def print_(I, a, k):
    I.event("print", args=tuple(a))


def callable_(I, a, k):
    v = a[0]
    if isinstance(v, InstV):
        return I.class_lookup(v.cls, "__call__") is not None
    if isinstance(v, Term):
        return I.choose(("callable", v.key), f"callable({v!r})")
    return isinstance(v, (FuncV, BoundV, LruV, PyFn, ClassV, BT, ExtV, CMFactory, PartialV))


def dir_(I, a, k):
    v = a[0]
    if isinstance(v, ExtV):
        return I.new(ListV([Rep(Term("attrname", (v,), {"kind": "str"}), Term("dir", (v,)))]))
    if isinstance(v, InstV):
        return I.new(ListV(list(v.attrs)))
    return Term("dir", (v,))


def reversed_(I, a, k):
    items = items_of(I, a[0])
    return I.new(IterV(items[::-1]))


def vars_(I, a, k):
    from .interp import AttrDict, NsDict
    if isinstance(a[0], InstV):
        return I.new(AttrDict(a[0]))
    if isinstance(a[0], ModV):
        return I.new(NsDict(a[0]))
    raise _I().Unsupported("vars()")


def pow_(I, a, k):
    return binop(I, "Pow", a[0], a[1])


def make_builtins():
    fns = {
        "len": lambda I, a, k: length(I, a[0]),
        "sorted": sorted_, "sum": sum_, "zip": zip_, "enumerate": enumerate_, "map": map_, "filter": filter_,
        "min": lambda I, a, k: minmax(I, a, k, True), "max": lambda I, a, k: minmax(I, a, k, False),
        "any": lambda I, a, k: anyall(I, a[0], True), "all": lambda I, a, k: anyall(I, a[0], False),
        "next": next_, "iter": iter_, "getattr": getattr_, "setattr": setattr_,
        "hasattr": lambda I, a, k: I.hasattr(a[0], a[1]),
        "isinstance": lambda I, a, k: isinstance_(I, a[0], a[1]),
        "issubclass": lambda I, a, k: I.issub(a[0], a[1]),
        "divmod": divmod_, "abs": abs_, "hash": hash_, "round": round_, "print": print_, "callable": callable_,
        "dir": dir_, "reversed": reversed_, "vars": vars_, "pow": pow_,
        "repr": lambda I, a, k: repr(a[0]) if isinstance(a[0], (int, str, float)) else Term("repr", (I.freeze(a[0]),), {"kind": "str", "nonnull": True}),
        "id": lambda I, a, k: Term("id", (a[0],), {"kind": "int"}),
        "format": lambda I, a, k: format(*a) if all(isinstance(x, (int, str, float)) for x in a) else Term("format", tuple(I.freeze(x) for x in a), {"kind": "str"}),
        "ord": lambda I, a, k: ord(a[0]), "chr": lambda I, a, k: chr(a[0]),
        "open": lambda I, a, k: I.call(ExtV("builtins.open"), a, k),
        "delattr": lambda I, a, k: a[0].attrs.pop(a[1], None) and None,
        "input": lambda I, a, k: Term("input", ()),
    }
    d = {n: PyFn(n, f) for n, f in fns.items()}
    for t in (int, float, str, bool, tuple, list, set, frozenset, dict, slice, range, type, object, property, staticmethod,
              classmethod, bytes, complex, bytearray):
        d[t.__name__] = BT(t)
    import builtins
    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = BT(v)
    d["IOError"] = BT(OSError)
    d["EnvironmentError"] = BT(OSError)
    d["NotImplemented"] = NotImplemented
    d["Ellipsis"] = Ellipsis
    d["__debug__"] = True
    d["__name__"] = "module"
    return d
