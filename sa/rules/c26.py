"""C26: repeated queries are independent of history."""
from ..halo import *

FLOOR = 400
DIMSETS = [("y", "x"), ("z", "y_interface", "x"), ("x_interface", "y")]


def run(R):
    R.rule("answer", "the answer after any of the histories equals the answer of fresh objects in an empty history (numbers as polynomials, exceptions by class)")
    R.rule("mutate", "the histories overwrite every attribute or entry of the objects that partitioners and quantities returned")
    R.rule("apart", "answers of objects with other layouts, ranks, shapes or origins, asked before, do not leak into each other")
    R.assume("0 <= rank < total ranks; the mapping a communicator hands out is read-only (it is annotated Mapping)")
    W = World(R)
    for kind in ("tile", "cube0", "cube1"):
        for hist in ("sweep", "other rank", "other layout") + (("other layout, transposed",) if kind == "tile" else ()):
            for b in BOUNDARIES:
                W.run("answer", f"{kind} {b} {hist}", lambda I, a=(kind, b, hist): boundary(I, *a), lambda p, a=(kind, b, hist): judge(R, W.I, p, "partitioner", a))
    for kind in ("tile", "cube"):
        for hist in ("other rank", "other layout", "other layout, transposed", "other dims", "other extent", "other overlap"):
            for dims in DIMSETS:
                W.run("answer", f"{kind} {dims} regions {hist}", lambda I, a=(kind, dims, hist): regions(I, *a), lambda p, a=(kind, dims, hist): judge(R, W.I, p, "regions", a))
    for kind in ("tile", "cube0", "cube1"):
        for hist in ("other rank", "other layout") + (("other layout, transposed",) if kind == "tile" else ()):
            W.run("answer", f"{kind} predicates {hist}", lambda I, a=(kind, hist): predicates(I, *a), lambda p, a=(kind, hist): judge(R, W.I, p, "predicates", a))
    for dims in DIMSETS:
        for b in BOUNDARIES:
            for hist in ("other quantity", "other depth", "other side", "other boundary", "other dims"):
                W.run("answer", f"{dims} {b} {hist}", lambda I, a=(dims, b, hist): views(I, *a, R.tier == "thorough"), lambda p, a=(dims, b, hist): judge(R, W.I, p, "views", a))
        for hist in ("repeat", "other quantity", "after update"):
            W.run("answer", f"{dims} quantity {hist}", lambda I, a=(dims, hist): quantity(I, *a), lambda p, a=(dims, hist): judge(R, W.I, p, "quantity", a))
    for t in (0, 1):
        for hist in ("repeat", "other communicator", "other communicator, changed", "after update"):
            W.run("answer", f"communicator tile {t} {hist}", lambda I, a=(t, hist): communicator(I, *a), lambda p, a=(t, hist): judge(R, W.I, p, "communicator", a))


# ------------------------------------------------------------------ answers
def ask(I, f):
    """(kind, value) of a query"""
    try:
        return "value", f()
    except AbsRaise as e:
        c = e.exc.cls
        return "raise", getattr(c, "name", None) or repr(c)


def snap(v):
    """an immutable copy of an answer"""
    if isinstance(v, InstV):
        return ("inst", v.cls.name) + tuple((n, snap(x)) for n, x in sorted(v.attrs.items()) if not n.startswith("__"))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(snap(x) for x in v)
    if isinstance(v, ListV):
        return ("list",) + tuple(snap(x) for x in v.items)
    if isinstance(v, DictV):
        return ("dict",) + tuple((snap(k), snap(x)) for k, x in v.entries)
    if isinstance(v, slice):
        return ("slice", snap(v.start), snap(v.stop), snap(v.step))
    if isinstance(v, A.ArrV):
        return ("view", v.buf.label if hasattr(v.buf, "label") else "?") + tuple((a.src, snap(a.start), snap(a.step), snap(a.length)) for a in v.axes) + tuple(sorted((k, snap(x)) for k, x in v.fixed.items()))
    return v


def same(F, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(F, x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if is_num(a) and is_num(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return peq(F, a, b) is True
    try:
        return vkey(a) == vkey(b)
    except AttributeError:
        return a == b


def spoil(I, v):
    """overwrite everything a caller can overwrite in an answer"""
    if isinstance(v, InstV):
        for n in list(v.attrs):
            try:
                I.setattr(v, n, -7)
            except AbsRaise:
                pass
    elif isinstance(v, ListV):
        I.touch(v)
        v.items[:] = [-7]
    elif isinstance(v, DictV):
        I.touch(v)
        v.entries[:] = [[-7, -7]]


def collect(I, S, items):
    """remember (label, fresh answer) then forget all state"""
    return {n: (k, snap(v)) for n, (k, v) in items}


def judge(R, I, p, what, a):
    S = p.S
    key = f"C26:{what}:{':'.join(str(x) for x in a)}"
    anchor = {"partitioner": "partitioner.CubedSpherePartitioner.boundary" if "cube" in str(a[0]) else "partitioner.TilePartitioner.boundary",
              "regions": "partitioner.subtile_slice", "predicates": "partitioner.TilePartitioner.subtile_index", "views": "boundary.SimpleBoundary._view",
              "quantity": "quantity.Quantity.view", "communicator": "communicator.CubedSphereCommunicator.boundaries"}[what]
    try:
        anchor = fwhere(I, anchor)
    except AnchorMissing:
        pass
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{what} {a}: {exc_desc(p)}", p.desc())
        return
    want = S["want"]
    for label, n, got in S["got"]:
        k, v = got
        ok = k == want[n][0] and same(p.facts, want[n][1], snap_of(got))
        R.check(ok, "mutate" if "changed" in label else "apart" if "other" in str(a[-1]) else "answer", f"{a} {n} {label}", f"{key}:{n}:{label}", anchor,
                f"{n}, asked {label}, is {show(got)}, but {show(want[n])} when asked first", p.desc())


def snap_of(got):
    return got[1]


def show(x):
    return f"{x[0]} {x[1]!r}"[:200]


def record(I, S, label, n, f, change=True):
    r = ask(I, f)
    S.setdefault("got", []).append((label, n, (r[0], snap(r[1]))))
    if change and r[0] == "value":
        spoil(I, r[1])
    return r


def fresh(I, S, items):
    """answers of the queries in an empty history, each on its own"""
    S["want"] = {}
    for n, f in items:
        r = ask(I, f)
        S["want"][n] = (r[0], snap(r[1]))
        I._rollback()
    S["got"] = []


# ------------------------------------------------------------------ partitioners
def setup(I, S, kind):
    I.hooks.clear()
    I.inject = None
    tile_layout(I, S, square=kind.startswith("cube"))
    S["rank"] = S["tile_rank"]
    if kind.startswith("cube"):
        t = int(kind[4:] or 0)
        S["rank"] = Poly.const(t) * S["L"] * S["L"] + S["tile_rank"]


def part(I, S, kind, layout=None):
    tp = I.call_name("partitioner.TilePartitioner", layout or S["layout"])
    return I.call_name("partitioner.CubedSpherePartitioner", tp) if kind.startswith("cube") else tp


def other_layout(I, S, kind, hist=""):
    """another layout, of more ranks or (transposed) of as many"""
    if "transposed" in hist:
        return (mk(S["nx"]), mk(S["ny"]))
    if kind.startswith("cube"):
        return (mk(S["L"] + ONE),) * 2
    return (mk(S["ny"] + ONE), mk(S["nx"] + I.sym("more", 1)))


def boundary(I, kind, b, hist):
    S = I.S
    setup(I, S, kind)
    T = {n: const(I, n) for n in BOUNDARIES}
    r = mk(S["rank"])
    if hist.startswith("other layout"):
        r = 0
    fresh(I, S, [(b, lambda: I.meth(part(I, S, kind), "boundary", T[b], r))])
    p = part(I, S, kind)
    if hist == "sweep":
        for n in BOUNDARIES:
            x = ask(I, lambda: I.meth(p, "boundary", T[n], r))
            if x[0] == "value":
                spoil(I, x[1])
    elif hist == "other rank":
        # the ranks in the same position of the other tiles, or the first rank
        n = S["L"] * S["L"] if kind.startswith("cube") else None
        for q in ([S["tile_rank"] + Poly.const(t) * n for t in (2, 5)] if n is not None else [Poly.const(0), S["ny"] * S["nx"] - ONE]):
            for m in (b, BOUNDARIES[(BOUNDARIES.index(b) + 1) % 8]):
                x = ask(I, lambda: I.meth(p, "boundary", T[m], mk(q)))
                if x[0] == "value" and m != b:
                    spoil(I, x[1])
    else:
        o = part(I, S, kind, other_layout(I, S, kind, hist))
        x = ask(I, lambda: I.meth(o, "boundary", T[b], r))
        if x[0] == "value":
            spoil(I, x[1])
    record(I, S, "again", b, lambda: I.meth(p, "boundary", T[b], r))
    record(I, S, "after its answer was changed", b, lambda: I.meth(p, "boundary", T[b], r))
    record(I, S, "of a second partitioner", b, lambda: I.meth(part(I, S, kind), "boundary", T[b], r))


def predicates(I, kind, hist):
    S = I.S
    setup(I, S, kind)
    if hist.startswith("other layout"):
        S["rank"] = S["tile_rank"] = Poly.const(0)
    r = mk(S["rank"])
    tile = [("on_tile_" + n, (lambda q, n=n, rr=None: I.meth(q, "on_tile_" + n, mk(S["tile_rank"]) if rr is None else rr))) for n in ("top", "bottom", "left", "right")]
    if kind == "tile":
        qs = tile + [("subtile_index", lambda q, rr=None: I.meth(q, "subtile_index", r if rr is None else rr)),
                     ("total_ranks", lambda q, rr=None: I.getattr(q, "total_ranks"))]
    else:
        qs = [("tile_index", lambda q, rr=None: I.meth(q, "tile_index", r if rr is None else rr)),
              ("tile_root_rank", lambda q, rr=None: I.meth(q, "tile_root_rank", r if rr is None else rr)),
              ("total_ranks", lambda q, rr=None: I.getattr(q, "total_ranks"))]
    fresh(I, S, [(n, lambda f=f: f(part(I, S, kind))) for n, f in qs])
    p = part(I, S, kind)
    for n, f in qs:
        if hist == "other rank":
            ask(I, lambda: f(p, rr=0))
        else:
            ask(I, lambda: f(part(I, S, kind, other_layout(I, S, kind, hist))))
        record(I, S, "again", n, lambda: f(p))
        record(I, S, "once more", n, lambda: f(p))


def regions(I, kind, dims, hist):
    S = I.S
    setup(I, S, kind)
    if hist.startswith("other layout"):
        S["rank"] = Poly.const(0)
    cells = {d.replace("_interface", ""): I.sym("m_" + d, 1) for d in dims}
    # divisible by both layouts that are used
    lay2 = other_layout(I, S, kind, hist)

    def ext(dims, extra=0):
        out = []
        for d in dims:
            k = {"x": to_poly(S["nx"]) * to_poly(lay2[1]), "y": to_poly(S["ny"]) * to_poly(lay2[0])}.get(d.replace("_interface", ""), ONE)
            out.append(mk((cells.get(d.replace("_interface", ""), ONE) + Poly.const(extra)) * k + Poly.const(int(d in INTERFACE))))
        return tuple(out)
    glob = lambda dims, e: ((("tile",) + tuple(dims), (6,) + tuple(e)) if kind == "cube" else (tuple(dims), tuple(e)))

    def meta(dims, e):
        arr = A.external(I, "m", tuple(e))
        return I.getattr(I.call_name("quantity.Quantity", arr, tuple(dims), "m"), "metadata")

    def queries(p, dims, extra=0, rank=None, swap=False):
        e = ext(dims, extra)
        r = mk(S["rank"]) if rank is None else rank
        g, ge = glob(dims, e)
        return [(f"subtile_slice overlap={o}", lambda o=o: I.meth(p, "subtile_slice", r, g, ge, overlap=o != swap)) for o in (False, True)] + [
            ("subtile_extent", lambda: I.meth(p, "subtile_extent", meta(g, ge))), ("global_extent", lambda: I.meth(p, "global_extent", meta(dims, e)))]
    fresh(I, S, [(n, f) for n, f in queries(part(I, S, kind), dims)])
    p = part(I, S, kind)
    if hist == "other rank":
        pre = queries(p, dims, rank=0)
    elif hist.startswith("other layout"):
        pre = queries(part(I, S, kind, lay2), dims)
    elif hist == "other dims":
        swapped = tuple({"x": "x_interface", "x_interface": "x", "y": "y_interface", "y_interface": "y"}.get(d, d) for d in dims)
        pre = queries(p, swapped) + queries(p, tuple(reversed(dims)))
    elif hist == "other extent":
        pre = queries(p, dims, 1)
    else:
        pre = queries(p, dims, swap=True)
    for n, f in pre:
        x = ask(I, f)
        if x[0] == "value":
            spoil(I, x[1])
    for n, f in queries(p, dims):
        record(I, S, "again", n, f)
    for n, f in queries(p, dims):
        record(I, S, "after its answer was changed", n, f)


# ------------------------------------------------------------------ quantities
def views(I, dims, b, hist, deep):
    S = I.S
    S["deep"] = deep
    I.hooks.clear()
    I.inject = None
    n = S["n"] = I.sym("n", 1)
    T = {x: const(I, x) for x in BOUNDARIES}

    def q(label, dims=dims):
        info = S.get(label)
        if info is None:
            o = [I.sym(f"{label}.o_{d}", 0) for d in dims]
            e = [I.sym(f"{label}.e_{d}", 1) for d in dims]
            h = [I.sym(f"{label}.p_{d}", 0) for d in dims]
            S[label] = info = (o, e, h)
        o, e, h = info
        arr = A.external(I, label, tuple(mk(x + y + z) for x, y, z in zip(o, e, h)))
        return I.call_name("quantity.Quantity", arr, tuple(dims), "m", origin=tuple(map(mk, o)), extent=tuple(map(mk, e)))

    def bnd(b=b):
        return I.call_name("boundary.SimpleBoundary", from_rank=0, to_rank=1, n_clockwise_rotations=0, boundary_type=T[b])

    qs = lambda Q, b=b, m=mk(n): [(v, lambda v=v: I.meth(bnd(b), v, Q, m)) for v in ("send_view", "recv_view")]
    fresh(I, S, qs(q("a")))
    a = q("a")
    if hist == "other quantity":
        # same dims and extent, another origin and allocation
        S["b"] = ([I.sym(f"b.o_{d}", 0) for d in dims], S["a"][1], [I.sym(f"b.p_{d}", 0) for d in dims])
        pre = qs(q("b"))
    elif hist == "other depth":
        pre = qs(a, m=mk(n + ONE))
    elif hist == "other side":
        pre = list(reversed(qs(a)))
    elif hist == "other boundary":
        pre = [x for c in BOUNDARIES if c != b for x in qs(a, c)]
        pre = pre[:2] + pre[-2:] if not S["deep"] else pre
    else:
        other = tuple({"x": "x_interface", "x_interface": "x", "y": "y_interface", "y_interface": "y"}.get(d, d) for d in dims)
        S["c"] = S["a"]
        pre = qs(q("c", other))
    for _, f in pre:
        ask(I, f)
    for m, f in qs(a):
        record(I, S, "again", m, f)
    for m, f in qs(a):
        record(I, S, "once more", m, f)


def quantity(I, dims, hist):
    S = I.S
    I.hooks.clear()
    I.inject = None
    m = I.sym("m", 2)

    def q(label):
        info = S.get(label)
        if info is None:
            S[label] = info = tuple([I.sym(f"{label}.{c}_{d}", lo) for d in dims] for c, lo in (("o", 1), ("e", 2), ("p", 1)))
        o, e, h = info
        arr = A.external(I, label, tuple(mk(x + y + z) for x, y, z in zip(o, e, h)))
        return I.call_name("quantity.Quantity", arr, tuple(dims), "m", origin=tuple(map(mk, o)), extent=tuple(map(mk, e)))

    def qs(Q):
        out = [(n, lambda n=n: I.getattr(Q, n)) for n in ("dims", "origin", "extent", "units", "values")]
        out.append(("view[:]", lambda: I.B.getitem(I, I.getattr(Q, "view"), slice(None, None, None))))
        for c in ("northwest", "northeast", "southwest", "southeast", "interior"):
            out.append((f"view.{c}[:]", lambda c=c: I.B.getitem(I, I.getattr(I.getattr(Q, "view"), c), slice(None, None, None))))
        for c in ("northwest", "northeast", "southwest", "southeast"):
            out.append((f"view.{c}[:2]", lambda c=c: I.B.getitem(I, I.getattr(I.getattr(Q, "view"), c), (slice(0, 2, None),) * len(dims))))
        out.append(("attrs", lambda: I.getattr(Q, "attrs")))
        return out
    fresh(I, S, qs(q("a")))
    a = q("a")
    if hist == "other quantity":
        for n, f in qs(q("b")):
            x = ask(I, f)
            if x[0] == "value":
                spoil(I, x[1])
    elif hist == "after update":
        for v in ("view", "northeast", "interior"):
            view = I.getattr(a, "view")
            view = view if v == "view" else I.getattr(view, v)
            I.setitem(view, slice(None, None, None), 0)
            ask(I, lambda: I.B.getitem(I, view, (slice(0, 1, None),) * len(dims)))
    for n, f in qs(a):
        record(I, S, "again", n, f)
    for n, f in qs(a):
        record(I, S, "after its answer was changed", n, f)


# ------------------------------------------------------------------ communicators
def communicator(I, t, hist):
    S = I.S
    setup(I, S, f"cube{t}")
    if hist == "after update":
        S["rank"] = Poly.const(t) * S["L"] * S["L"]
    r = mk(S["rank"])
    p = part(I, S, "cube")

    def make(rank, p=None):
        return I.call_name("communicator.CubedSphereCommunicator", I.new(CommObj(rank, mk(Poly.const(6) * S["L"] * S["L"]))), p or part(I, S, "cube"))
    q = lambda c: [("boundaries", lambda: I.getattr(c, "boundaries")), ("rank", lambda: I.getattr(c, "rank"))]
    fresh(I, S, q(make(r)))
    c = make(r, p)
    if hist == "other communicator":
        other = make(mk(S["tile_rank"] + Poly.const(3 - t) * S["L"] * S["L"]), p)
        ask(I, q(other)[0][1])
        for b in ("NORTH", "WEST"):
            x = ask(I, lambda: I.meth(p, "boundary", const(I, b), r))
            if x[0] == "value":
                spoil(I, x[1])
    elif hist == "other communicator, changed":
        # a second communicator of the same rank and partitioner, whose boundaries the caller changes
        x = ask(I, q(make(r, p))[0][1])
        for _, b in (x[1].entries if x[0] == "value" and isinstance(x[1], DictV) else ()):
            spoil(I, b)
        fresh_p = part(I, S, "cube")
        for b in BOUNDARIES:
            n = f"boundary {b} of the partitioner"
            k, v = ask(I, lambda: I.meth(fresh_p, "boundary", const(I, b), r))
            S["want"][n] = (k, snap(v))
            record(I, S, "after", n, lambda: I.meth(p, "boundary", const(I, b), r), change=False)
    elif hist == "after update":
        fix_contig(I, False)
        n = I.sym("n", 1)
        m = n + ONE + I.sym("m", 0)
        Q = horizontal_quantity(I, S, "q", ("y", "x"), n, m)
        I.meth(I.meth(c, "start_halo_update", Q, mk(n)), "wait")
        x = horizontal_quantity(I, S, "u", ("y_interface", "x"), n, m)
        y = horizontal_quantity(I, S, "v", ("y", "x_interface"), n, m)
        I.meth(I.meth(c, "start_synchronize_vector_interfaces", x, y), "wait")
    for label in ("again", "once more"):
        for n, f in q(c):
            record(I, S, label, n, f, change=False)
