"""C28: invalid requests raise the documented error before anything happens."""
from ..sg import *
from ..effects import freeze, change, writes

FLOOR = 150
HALO = [("y", "x"), ("z", "y_interface", "x"), ("x", "y", "year"), ("z", "y")]
VECS = [(("y", "x"), ("y", "x")), (("z", "y_interface", "x"), ("z", "y", "x_interface"))]
GOOD = (("y_interface", "x"), ("y", "x_interface"))
XY = [("y", "x"), ("y_interface", "x"), ("y", "x_interface"), ("y_interface", "x_interface")]


def run(R):
    R.rule("halo", "a halo update of zero points, scalar or vector, started or complete, raises ValueError")
    R.rule("grid", "synchronising components that are not on the C-grid raises ValueError")
    R.rule("root", "scattering without the root's quantity or state raises TypeError")
    R.rule("ranks", "a number of ranks that is not a multiple of six raises ValueError")
    R.rule("layout", "neighbours on a cube whose tiles are not divided squarely raise NotImplementedError, what is no tile partitioner TypeError, a global quantity without leading tile dimension NotImplementedError")
    R.rule("corners", "corner filling whose first dimension is not along x or second not along y raises ValueError, along another direction TypeError")
    R.rule("removed", "removed operations raise NotImplementedError")
    R.rule("nothing", "before the error nothing was sent, received or posted, no array written, and no argument modified")
    W = World(R)
    go = lambda rule, label, key, want, f, *a: W.run(rule, label, lambda I: f(I, *a), lambda p: judge(R, W.I, p, rule, label, key, want))
    for t in range(6):
        for zero in (0, "symbolic"):
            for dims in HALO:
                for op in ("halo_update", "start_halo_update"):
                    go("halo", f"{op} of {zero} points of {dims} on tile {t}", f"C28:{op}", "ValueError", halo, t, op, (dims,), zero)
            for v in VECS:
                for op in ("vector_halo_update", "start_vector_halo_update"):
                    go("halo", f"{op} of {zero} points of {v} on tile {t}", f"C28:{op}", "ValueError", halo, t, op, v, zero)
        for a in XY:
            for b in XY:
                if (a, b) == GOOD:
                    continue
                for lead in ((), ("z",)):
                    for op in ("synchronize_vector_interfaces", "start_synchronize_vector_interfaces"):
                        go("grid", f"{op} of {lead + a} and {lead + b} on tile {t}", f"C28:{op}:{a}:{b}", "ValueError", halo, t, op, (lead + a, lead + b), None)
        for a, b in ((("y_interface",), GOOD[1]), (("x",), GOOD[1]), (("z",), GOOD[1]), (GOOD[0], ("y",)), (GOOD[0], ("x_interface",)), (GOOD[0], ("z",))):
            go("grid", f"synchronising {a} and {b} on tile {t}", f"C28:synchronise:{a}:{b}", "ValueError", halo, t, "start_synchronize_vector_interfaces", (a, b), None)
        for op in ("finish_halo_update", "finish_vector_halo_update"):
            go("removed", f"{op} on tile {t}", f"C28:{op}", "NotImplementedError", halo, t, op, GOOD[:1] if op == "finish_halo_update" else GOOD, 1)
    for cube in (False, True):
        for given in (False, True):
            go("root", f"{'cube' if cube else 'tile'} scatter without quantity, receiver {given}", f"C28:scatter:{cube}", "TypeError", scatter, cube, given, False)
            go("root", f"{'cube' if cube else 'tile'} scatter_state without state, receiver {given}", f"C28:scatter_state:{cube}", "TypeError", scatter, cube, given, True)
    for f in ("partitioner.get_tile_index", "partitioner.get_tile_number", "_legacy_restart.get_rank_suffix"):
        for rem in range(1, 6):
            go("ranks", f"{f} with 6k+{rem} ranks", f"C28:{f}", "ValueError", ranks, f, rem)
    for b in BOUNDARIES:
        for t in (0, 1, None):
            go("layout", f"boundary {b} of tile {t} with another layout", f"C28:layout:{b}", "NotImplementedError", layout, b, t)
    for op in ("halo_update", "vector_halo_update"):
        go("layout", f"{op} with another layout", f"C28:layout:{op}", "NotImplementedError", layout_update, op)
    for what in ("None", "layout", "cube"):
        go("layout", f"cube partitioner of {what}", f"C28:cube:{what}", "TypeError", no_tile, what)
    for dims in (("y", "tile", "x"), ("y", "x"), ("z", "y", "x", "tile")):
        for m in ("subtile_extent", "subtile_slice"):
            go("layout", f"{m} of {dims}", f"C28:{m}", "NotImplementedError", no_lead, dims, m)
    for d in ("x", "y", "z", 0, None):
        for dims in (("x", "y"), ("y", "x"), ("z", "x", "y"), ("x", "z", "y"), ("x_interface", "y"), ("y_interface", "x_interface"), ("x", "x_interface"), ("y", "y_interface"), ("z", "y")):
            bad_dims = dims[0] not in X_DIMS or dims[1] not in Y_DIMS
            if not bad_dims and d in ("x", "y"):
                continue
            want = ("ValueError", "TypeError") if bad_dims and d not in ("x", "y") else "ValueError" if bad_dims else "TypeError"
            go("corners", f"corners of {dims} along {d!r}", f"C28:corners:{dims}:{d}", want, corners, dims, d)


def watch(I, S, roots, bufs):
    """from now on nothing may happen to these objects"""
    S["roots"], S["bufs"] = roots, bufs
    S["frozen"] = [freeze(I, r) for r in roots]
    S["seq0"] = I.seq


def attempt(I, S, f):
    S["raised"] = None
    try:
        S["returned"] = f()
    except AbsRaise as e:
        S["raised"] = e
    S["frozen1"] = [freeze(I, r) for r in S["roots"]]


def halo(I, t, op, dims, n):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)
    part = cube_world(I, S, t)
    comm = I.new(CommObj(S["rank"], 6 * S["L"] * S["L"], "comm"))
    cc = I.call_name("communicator.CubedSphereCommunicator", comm, part)
    m = I.sym("m", 2)
    w = I.sym("w", 1)
    qs = [horizontal_quantity(I, S, l, d, w, m) for l, d in zip(("x", "y"), dims)]
    if n == "symbolic":
        n = I.sym("n", 0)
        if not I.cmp_num("==", n, 0):
            S["skip"] = True
            return
        n = mk(n)
    args = {"finish_halo_update": qs + [n], "halo_update": qs + [n], "start_halo_update": qs + [n]}.get(op, qs + ([n] if n is not None else []))
    watch(I, S, qs, [S[l]["arr"].buf for l in ("x", "y")[:len(qs)]])
    attempt(I, S, lambda: I.meth(cc, op, *args))


def scatter(I, cube, given, state_op):
    S = I.S
    S["halo_min"] = 1
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)
    world(I, S, cube)
    comm, cc = communicator(I, S, 0)
    dims = ("y", "x")
    r, g = sizes(I, S, dims)
    q = make(I, S, "q", dims, r)
    d = I.new(DictV([["air", q]]))
    watch(I, S, [q, d], [S["q"]["arr"].buf])
    if state_op:
        attempt(I, S, lambda: I.meth(cc, "scatter_state", **({"recv_state": d} if given else {})))
    else:
        attempt(I, S, lambda: I.meth(cc, "scatter", **({"recv_quantity": q} if given else {})))


def ranks(I, f, rem):
    S = I.S
    I.hooks.clear()
    I.inject = None
    n = I.sym("k", 0) * Poly.const(6) + Poly.const(rem)
    r = I.sym("r", 0, n - ONE)
    watch(I, S, [], [])
    attempt(I, S, lambda: I.call_name(f, mk(r), mk(n)))


def rect(I, S):
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)
    tile_layout(I, S)
    if I.cmp_num("==", S["ny"], S["nx"]):
        S["skip"] = True
        return None
    return I.call_name("partitioner.CubedSpherePartitioner", tile_partitioner(I, S))


def layout(I, b, t):
    S = I.S
    part = rect(I, S)
    if part is None:
        return
    t = I.sym("t", 0, 5) if t is None else Poly.const(t)
    watch(I, S, [], [])
    attempt(I, S, lambda: I.meth(part, "boundary", const(I, b), mk(t * S["ny"] * S["nx"] + S["tile_rank"])))


def layout_update(I, op):
    S = I.S
    part = rect(I, S)
    if part is None:
        return
    t = I.sym("t", 0, 5)
    comm = I.new(CommObj(t * S["ny"] * S["nx"] + S["tile_rank"], 6 * S["ny"] * S["nx"], "comm"))
    cc = I.call_name("communicator.CubedSphereCommunicator", comm, part)
    n = I.sym("n", 1)
    qs = [horizontal_quantity(I, S, l, d, n, I.sym("m", 2)) for l, d in zip(("x", "y"), (("y", "x"),) * (1 + op.startswith("vector")))]
    watch(I, S, qs, [S[l]["arr"].buf for l in ("x", "y")[:len(qs)]])
    attempt(I, S, lambda: I.meth(cc, op, *qs, mk(n)))


def no_tile(I, what):
    S = I.S
    I.hooks.clear()
    I.inject = None
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    arg = {"None": lambda: None, "layout": lambda: (1, 1), "cube": lambda: I.call_name("partitioner.CubedSpherePartitioner", tp)}[what]()
    watch(I, S, [], [])
    attempt(I, S, lambda: I.call_name("partitioner.CubedSpherePartitioner", arg))


def no_lead(I, dims, m):
    S = I.S
    I.hooks.clear()
    I.inject = None
    tile_layout(I, S)
    part = I.call_name("partitioner.CubedSpherePartitioner", tile_partitioner(I, S))
    ext = tuple(I.sym("e_" + d, 1) for d in dims)
    watch(I, S, [], [])
    if m == "subtile_slice":
        attempt(I, S, lambda: I.meth(part, m, mk(S["tile_rank"]), dims, tuple(mk(e) for e in ext)))
    else:
        md = I.call_name("quantity.QuantityMetadata", origin=tuple(0 for _ in dims), extent=tuple(mk(e) for e in ext), dims=tuple(dims), units="m", data_type=ExtV("numpy.ndarray"), dtype=BT(float))
        attempt(I, S, lambda: I.meth(part, m, md))


def corners(I, dims, d):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    n = I.sym("n", 1)
    q = horizontal_quantity(I, S, "q", dims, n, n + I.sym("m", 1))
    watch(I, S, [q], [S["q"]["arr"].buf])
    attempt(I, S, lambda: I.call_name("_corners.fill_scalar_corners", q, d, tp, mk(S["tile_rank"]), mk(n)))


def judge(R, I, p, rule, label, key, want):
    S = p.S
    if S.get("skip"):
        return
    if p.status == "raise":
        R.violate(key + ":setup", where(p), f"{label}: preparing the request raises {exc_desc(p)}", p.desc())
        return
    e = S["raised"]
    want = want if isinstance(want, tuple) else (want,)
    if key.startswith("C28:layout:") and e is None and S["returned"] is None and key.rpartition(":")[2] in BOUNDARIES[4:]:
        R.check(True, rule, label, key, "", "there is none")
        return
    site = f"{e.site[0]}:{e.site[1]}" if e is not None and e.site else p.S.get("site", "?")
    names = class_names(e.exc.cls) if e is not None else []
    R.check(any(w in names for w in want), rule, label, key, site, f"{label} {'is accepted' if e is None else 'raises ' + (names or ['?'])[0]}, expected {' or '.join(want)}", p.desc())
    cs = [x for x in comm_events(p.events) if x.seq > S["seq0"]]
    R.check(not cs, "nothing", f"{label} messages", key + ":message", where(p, cs[0]) if cs else site, f"{label}: {cs[0].op if cs else ''} is called although the request is invalid", p.desc())
    ws = writes(p, S["bufs"], S["seq0"])
    R.check(not ws, "nothing", f"{label} writes", key + ":write", where(p, ws[0]) if ws else site, f"{label}: data are written although the request is invalid", p.desc())
    for k, (a, b) in enumerate(zip(S["frozen"], S["frozen1"])):
        R.check(a == b, "nothing", f"{label} argument {k}", key + ":modified", site, f"{label}: modifies its argument{change(a, b)}", p.desc())


def class_names(c):
    out = []
    for b in (c.mro() if isinstance(c, ClassV) else [c]):
        if isinstance(b, BT):
            out += [k.__name__ for k in b.t.__mro__]
        else:
            out.append(getattr(b, "name", repr(b)))
    return out
