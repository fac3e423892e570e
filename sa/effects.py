"""What a call modified: snapshots of caller objects before and after it, as
far as a caller can observe them."""
from .world import *

PUBLIC = {"Quantity": ("dims", "units", "origin", "extent", "data", "attrs", "gt4py_backend")}


def freeze(I, v, depth=0):
    """observable value of an object: metadata by value, arrays by region"""
    if depth > 12:
        return "..."
    f = lambda x: freeze(I, x, depth + 1)
    if isinstance(v, InstV):
        names = next((PUBLIC[c.name] for c in v.cls.mro() if isinstance(c, ClassV) and c.name in PUBLIC), None)
        if names is None:
            return ("inst", v.cls.name, id(v)) + tuple((n, f(x)) for n, x in sorted(v.attrs.items()) if not n.startswith("_"))
        return ("inst", v.cls.name) + tuple((n, f(I.getattr(v, n))) for n in names)
    if isinstance(v, DictV):
        if v.base is not None:
            raise Unsupported("unknown dictionary")
        return ("dict",) + tuple((f(k), f(x), id(x) if isinstance(x, InstV) else 0) for k, x in v.entries)
    if isinstance(v, (ListV, SetV)):
        return (type(v).__name__,) + tuple(f(x) for x in v.items)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(f(x) for x in v)
    if isinstance(v, A.ArrV):
        return ("array", v.buf.label, tuple((a.src, vkey(a.start), vkey(a.step), vkey(a.length)) for a in v.axes), tuple(sorted((k, vkey(x)) for k, x in v.fixed.items())), v.writeable)
    if isinstance(v, slice):
        return ("slice", f(v.start), f(v.stop), f(v.step))
    return vkey(v)


def change(a, b, path=""):
    """first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "dict":
        ka, kb = {repr(e[0]): e for e in a[1:]}, {repr(e[0]): e for e in b[1:]}
        for k in kb:
            if k not in ka:
                return f"{path}: entry {k} is added"
        for k in ka:
            if k not in kb:
                return f"{path}: entry {k} is removed"
            if ka[k] != kb[k]:
                return change(ka[k][1], kb[k][1], f"{path}[{k}]") or f"{path}[{k}] is replaced"
        return f"{path}: the order of its entries"
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "inst":
        for x, y in zip(a[2:], b[2:]):
            if x != y:
                return change(x[1], y[1], f"{path}.{x[0]}") if isinstance(x, tuple) and len(x) == 2 else f"{path}.{x}"
    return f"{path} from {a!r} to {b!r}"


def writes(p, bufs, lo=0, hi=None):
    """events that write to one of the buffers"""
    return [e for e in walk_events(p.events, ("write",)) if e.seq > lo and (hi is None or e.seq <= hi) and any(e.arr.buf is b for b in bufs)]
