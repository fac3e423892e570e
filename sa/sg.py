"""Scatter / gather worlds: the root and a generic client of one communicator
are run one after the other in the abstract domain; the values the root
broadcasts are handed to the client."""
from .halo import *

DIMS = [("y", "x"), ("z", "y", "x"), ("x", "z", "y"), ("y_interface", "x"), ("x_interface", "y_interface", "z_interface"), ("z",), ("y", "year", "x_interface")]


def world(I, S, cube):
    """layout, partitioner, number of ranks; loops over all ranks get the
    (tile, row, column) decomposition of their generic index"""
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    S["cube"] = cube
    S["n_ranks"] = S["ny"] * S["nx"] * (6 if cube else 1)
    S["part"] = I.call_name("partitioner.CubedSpherePartitioner", tp) if cube else tp
    S["generic"] = {}

    def range_index(I, n, suffix):
        if peq(I.facts, n, mk(S["n_ranks"])) is not True:
            return None
        if suffix not in S["generic"]:
            j = I.sym("rj" + suffix, 0, S["ny"] - ONE)
            i = I.sym("ri" + suffix, 0, S["nx"] - ONE)
            t = I.sym("rt" + suffix, 0, 5) if cube else Poly.const(0)
            S["generic"][suffix] = (t, j, i)
        t, j, i = S["generic"][suffix]
        return t * S["ny"] * S["nx"] + j * S["nx"] + i
    I.hooks["range_index"] = range_index


def communicator(I, S, rank, label="comm", root_values=None):
    comm = I.new(CommObj(rank, S["n_ranks"], label, root_values))
    I.hooks["set_order"] = "descending" if label.startswith("client") else "ascending"
    cls = "CubedSphereCommunicator" if S["cube"] else "TileCommunicator"
    return comm, I.call_name("communicator." + cls, comm, S["part"])


def client_rank(I, S):
    """any rank but the root"""
    if not I.cmp_num(">", mk(S["n_ranks"]), 1):
        return None
    return I.sym("client", 1, S["n_ranks"] - ONE)


def sizes(I, S, dims, label=""):
    """points per rank m_d, and extents of the rank and global compute domains"""
    r, g = {}, {}
    for d in dims:
        base = d.replace("_interface", "")
        s = Poly.const(int(d in INTERFACE))
        m = S.setdefault("cells", {}).get(base)
        if m is None:
            m = S["cells"][base] = I.sym(f"m_{base}", 1)
        k = S["nx"] if d in X_DIMS else S["ny"] if d in Y_DIMS else ONE
        r[d], g[d] = m + s, m * k + s
    return r, g


def make(I, S, label, dims, ext, units=None, dtype=None):
    """quantity with the given extents and arbitrary halos"""
    o, sh = [], []
    for d in dims:
        od, pd = (I.sym(f"{label}.{c}_{d}", S.get("halo_min", 0)) for c in "op")
        o.append(od), sh.append(od + to_poly(ext[d]) + pd)
    arr = A.external(I, label, tuple(sh), dtype, S.get("typename", A.HOST))
    units = units if units is not None else Term(f"{label}.units", (), {"nonnull": True, "kind": "str"})
    q = I.call_name("quantity.Quantity", arr, tuple(dims), units, origin=tuple(o), extent=tuple(mk(to_poly(ext[d])) for d in dims))
    S[label] = {"o": dict(zip(dims, o)), "e": {d: to_poly(ext[d]) for d in dims}, "shape": dict(zip(dims, sh)), "arr": arr, "q": q,
                "dims": tuple(dims), "units": units, "version": arr.buf.version}
    return q


def rank_dims(dims):
    return tuple(dims)


def global_dims(S, dims):
    return (("tile",) if S["cube"] else ()) + tuple(dims)


def global_ext(S, g):
    return {**({"tile": Poly.const(6)} if S["cube"] else {}), **g}


def overlap_region(S, dims, idx):
    """intervals of the global compute domain that belong to a rank (its
    overlapping region), and fixed tile index"""
    t, j, i = idx
    out = []
    if S["cube"]:
        out.append((t, t + ONE, "tile"))
    for d in dims:
        m = S["cells"][d.replace("_interface", "")]
        s = Poly.const(int(d in INTERFACE))
        if d in X_DIMS:
            out.append((i * m, i * m + m + s, d))
        elif d in Y_DIMS:
            out.append((j * m, j * m + m + s, d))
        else:
            out.append((Poly.const(0), m + s, d))
    return out


def sent_values(p_events, comm):
    return [e.data.get("sent") for e in comm_events(p_events, ("bcast",)) if e.comm is comm]


def compute_region(info):
    return [(info["o"][d], info["o"][d] + info["e"][d]) for d in info["dims"]]


def region_content(I, S, info, reg, fixed=()):
    """content of the region of a caller's array, as it was at the start"""
    axes = [A.Axis(k, mk(to_poly(lo)), 1, mk(to_poly(hi) - to_poly(lo))) for k, (lo, hi) in reg]
    v = I.new(A.ArrV(info["arr"].buf, axes, dict(fixed)))
    buf = info["arr"].buf
    ver, c = buf.version, buf.content
    buf.version, buf.content = info["version"], None
    try:
        return v, A.content_of(I, v)
    finally:
        buf.version, buf.content = ver, c


# ---------------------------------------------------------------- state dicts
def trace(events, comm, ops=COLLECTIVE):
    """nested trace of the collectives of one communicator object (and of the
    communicators split from it)"""
    mine = [comm]

    def walk(evs):
        out = []
        for e in evs:
            if e.kind == "comm" and any(e.comm is c for c in mine):
                if e.op == "Split":
                    mine.append(e.data["new"])
                if e.op in ops:
                    out.append((e.op, vkey(e.data.get("root")), mine.index(next(c for c in mine if c is e.comm)), f"{e.site[0]}:{e.site[1]}"))
            elif e.body is not None:
                b = walk(e.body)
                if b:
                    out.append(("loop", e.src, b, f"{e.site[0]}:{e.site[1]}"))
        return out
    return walk(events)


def trace_diff(a, b, path="start"):
    """first difference of two traces, or None"""
    for k in range(max(len(a), len(b))):
        x = a[k] if k < len(a) else None
        y = b[k] if k < len(b) else None
        if x is None or y is None:
            z = x or y
            return f"only {'the root' if x else 'the other ranks'} perform{'s' if x else ''} {z[0]} at {z[3]}", z[3]
        if (x[0] == "loop") != (y[0] == "loop"):
            return f"the root performs {tdesc(x)} at {x[3]} while the other ranks perform {tdesc(y)} at {y[3]}", x[3]
        if x[0] == "loop":
            if vkey(x[1]) != vkey(y[1]):
                return f"the root iterates over {vrepr(x[1])} ({x[3]}) while the other ranks iterate over {vrepr(y[1])} ({y[3]})", x[3]
            d = trace_diff(x[2], y[2])
            if d:
                return d
        elif x[:3] != y[:3]:
            return f"the root performs {tdesc(x)} at {x[3]} while the other ranks perform {tdesc(y)} at {y[3]}", x[3]
    return None


def tdesc(x):
    if x[0] == "loop":
        return "collectives in a loop"
    r = x[1]
    return f"{x[0]}(root={r[1] if isinstance(r, tuple) and len(r) > 1 else r})" + (" on a sub-communicator" if x[2] else "")


def state(I, S, label, keyset, dims_of, ext_of, dtype):
    """dictionary of unknown names with quantity values; one generic name"""
    from .builtins_ import Base

    def factory(I, k):
        if k == "time" or I.eq(k, "time"):
            return Term(label + ".time", (), {"nonnull": True})
        name = f"{label}[{vrepr(k)}]"
        return make(I, S, name, dims_of, ext_of, units=Term(f"{label} units[{vrepr(k)}]", (), {"nonnull": True, "kind": "str"}), dtype=dtype)
    return I.new(DictV(base=Base(label, keyset, factory)))
