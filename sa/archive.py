"""Archive worlds: the root and a generic client of one ZarrMonitor are run one
after the other on sequences of snapshots; handles the root broadcasts reach
the client in the state they had then."""
from .sg import *
from .io_models import CfTime, Store

STORE = "gs://bucket/archive.zarr"


def begin(I, client=True):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    world(I, S, True)
    I.hooks.pop("range_index", None)
    S["crank"] = None
    if client:
        S["ct"], S["cj"], S["ci"] = I.sym("ct", 0, 5), I.sym("cj", 0, S["ny"] - ONE), I.sym("ci", 0, S["nx"] - ONE)
        r = S["ct"] * S["ny"] * S["nx"] + S["cj"] * S["nx"] + S["ci"]
        if not I.cmp_num(">", mk(r), 0):
            S["skip"] = True
            return False
        S["crank"] = r
    S["seq"] = {}
    return True


def roles(S):
    out = [("root", Poly.const(0), (Poly.const(0),) * 3)]
    if S["crank"] is not None:
        out.append(("client", S["crank"], (S["ct"], S["cj"], S["ci"])))
    return out


def monitor(I, S, role, rank, sent, mode="w"):
    S["role"] = role
    comm = I.new(CommObj(rank, S["n_ranks"], role, sent))
    I.hooks["set_order"] = "descending" if role == "client" else "ascending"
    kw = {"mode": mode} if mode is not None else {}
    return comm, I.call_name("zarr_monitor.ZarrMonitor", STORE, S["part"], mpi_comm=comm, **kw)


def date(tag, cls="DatetimeJulian"):
    return CfTime(cls, [Poly.atom(Sym(f"{tag}.{f}")) for f in ("year", "month", "day", "hour", "minute", "second")])


def variable(I, S, label, dims, units=None, dtype=None, grow=None, typename=None):
    """one rank's quantity"""
    r, g = sizes(I, S, dims)
    if grow:
        r = {**r, grow: r[grow] + ONE}
    S["typename"] = typename or A.HOST
    try:
        return make(I, S, label, dims, r, units=units, dtype=dtype)
    finally:
        S.pop("typename")


def snapshot(I, entries, role):
    """state dictionary; the ranks' dictionaries are filled in different order"""
    e = list(entries)
    return I.new(DictV([[k, v] for k, v in (e if role == "root" else e[::-1])]))


def zarr_events(p_events, lo=0, hi=None, ops=None):
    return [e for e in walk_events(p_events, ("zarr",)) if e.seq > lo and (hi is None or e.seq <= hi) and (ops is None or e.op in ops)]


def own_region(S, dims, idx):
    """the rank's non-overlapping region of its tile: [(start, length)]"""
    t, j, i = idx
    out = []
    for d in dims:
        m = S["cells"][d.replace("_interface", "")]
        s = Poly.const(int(d in INTERFACE))
        if d in X_DIMS or d in Y_DIMS:
            k, n = (i, S["nx"]) if d in X_DIMS else (j, S["ny"])
            out.append((k * m, m, s, k, n))
        else:
            out.append((Poly.const(0), m + s, Poly.const(0), Poly.const(0), ONE))
    return out


# ------------------------------------------------------- arbitrarily many snapshots
def counters(I, root):
    """integers reachable from a monitor, and lengths of its containers:
    {path: (value, setter or None)}"""
    from .io_models import ZArr
    out, seen = {}, set()

    def visit(path, v, put):
        if isinstance(v, bool):
            return
        if isinstance(v, int):
            out[path] = (v, put)
        elif isinstance(v, tuple):
            for k, x in enumerate(v):
                visit(path + (k,), x, lambda n, k=k, v=v, put=put: put(v[:k] + (n,) + v[k + 1:]))
        elif isinstance(v, Heap):
            if v.oid in seen:
                return
            seen.add(v.oid)
            if isinstance(v, InstV):
                for a in list(v.attrs):
                    visit(path + (a,), v.attrs[a], lambda n, a=a: v.attrs.__setitem__(a, n))
            elif isinstance(v, DictV) and v.base is None:
                out[path + ("len",)] = (len(v.entries), None)
                for e in v.entries:
                    visit(path + (repr(vkey(e[0])),), e[1], lambda n, e=e: e.__setitem__(1, n))
            elif isinstance(v, ListV):
                out[path + ("len",)] = (len(v.items), None)
                for k, x in enumerate(v.items):
                    visit(path + (k,), x, lambda n, k=k: v.items.__setitem__(k, n))
            elif isinstance(v, SetV):
                out[path + ("len",)] = (len(v.items), None)
            elif isinstance(v, ZArr):
                visit(path + ("shape",), v.shape, lambda n: setattr(v, "shape", n))
                if id(v.store) not in seen:
                    seen.add(id(v.store))
                    visit(path + ("stored shape",), v.store.shape, lambda n: setattr(v.store, "shape", n))
    visit((), root, None)
    return out


def generalise(I, root, history, T):
    """put the monitor into the state it has after T snapshots, when its
    counters went up by one with each of the snapshots seen; False when they
    did not"""
    now = counters(I, root)
    for path, (v, put) in now.items():
        vs = [h[path][0] for h in history if path in h]
        if all(x == v for x in vs):
            continue
        steps = {b - a for a, b in zip(vs, vs[1:])}
        if len(vs) != len(history) or steps != {1} or put is None:
            return False
    # one at a time: setters of tuples hold the tuple they replace
    for path in list(now):
        cur = counters(I, root)
        vs = [h[path][0] for h in history if path in h]
        v, put = cur.get(path, (None, None))
        if v is not None and any(x != v for x in vs):
            put(mk(T + Poly.const(v - len(history))))
    return True
