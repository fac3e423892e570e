"""C01: every rank issues the same collectives, whatever its own arguments.

The source is interpreted once as the root and once as a generic other rank in
the same trace partition (what the root broadcasts is handed to the other
rank), and the two collective traces are compared."""
from ..sg import *
from . import c09, c21
from .. import archive

FLOOR = 30


def run(R):
    R.rule("aligned", "the root and a generic other rank issue the same nested sequence of collectives with the same roots, and loops containing collectives range over the same sequence")
    R.assume("all ranks call the same public operation, in the same order, on states with the same variable names; source arguments that are mandatory on a rank are given there")
    W = World(R)
    fam = DIMS
    for cube in (False, True):
        lab = "cube" if cube else "tile"
        for gr in (False, True):
            for gc in (False, True):
                for op in ("scatter", "gather"):
                    for dims in fam:
                        go(R, W, f"{lab} {op} {dims} given={gr},{gc}", f"C01:{lab}:{op}", f"communicator.Communicator.{op}", quantity_op, cube, dims, op, gr, gc)
                for op in ("scatter_state", "gather_state"):
                    go(R, W, f"{lab} {op} given={gr},{gc}", f"C01:{lab}:{op}", f"communicator.Communicator.{op}", state_op, cube, ("y",), op, gr, gc)
    for dims in fam:
        for time in (False, True):
            go(R, W, f"archive of {dims} time={time}", "C01:archive", "zarr_monitor.ZarrMonitor.store", archive_op, dims, time)
            go(R, W, f"archive of {dims} time={time}, rejected snapshots", "C01:archive:rejected", "zarr_monitor.ZarrMonitor.store", archive_op, dims, time, True)
    for req in ("all", "time only", "none", "iterator"):
        for to_state in (False, True):
            for coupler in (False, True):
                go(R, W, f"restart {req} coupler={coupler} to_state={to_state}", "C01:restart", "_legacy_restart.open_restart", restart_op, req, coupler, to_state)
    for name in ("bcast_metadata", "bcast_metadata_list"):
        for n in (1, 3):
            go(R, W, f"{name} of {n}", "C01:bcast", "communicator." + name, bcast_op, name, n)
    go(R, W, "tile communicator", "C01:tile", "communicator.CubedSphereCommunicator.tile", tile_op)


def go(R, W, label, key, anchor, f, *a):
    W.run("aligned", label, lambda I: f(I, *a), lambda p: judge(R, W.I, p, label, key, anchor))


def quantity_op(I, cube, dims, op, gr, gc):
    S = I.S
    S["halo_min"] = 1
    fix_contig(I, True)
    world(I, S, cube)
    r, g = sizes(I, S, dims)
    gd, ge = global_dims(S, dims), global_ext(S, g)
    dt = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    crank = client_rank(I, S)
    if crank is None:
        S["skip"] = True
        return
    S["comms"] = []
    sent = None
    for role, rank, given in (("root", 0, gr), ("client", crank, gc)):
        comm, cc = communicator(I, S, rank, label=role, root_values=sent)
        S["comms"].append(comm)
        if op == "scatter":
            src = make(I, S, "src", gd, ge, dtype=dt) if role == "root" else None
            dst = make(I, S, role + "dst", dims, r, dtype=dt) if given else None
            args = {"send_quantity": src, "recv_quantity": dst}
        else:
            src = make(I, S, role + "src", dims, r, dtype=dt)
            dst = make(I, S, role + "dst", gd, ge, dtype=dt) if given else None
            args = {"send_quantity": src, "recv_quantity": dst}
        I.meth(cc, op, **{k: v for k, v in args.items() if v is not None})
        sent = sent_values(I.allevents, comm)


def state_op(I, cube, dims, op, gr, gc):
    c09.drive(I, cube, dims, op, gr, gc)
    if "role" in I.S and "raised" not in I.S:
        I.S["comms"] = [I.S["role"][r]["comm"] for r in ("root", "client")]
    elif "raised" in I.S:
        raise I.S["raised"][1]


def bcast_op(I, name, n):
    """the root's metadata reaches every rank, also when a rank has no quantities of its own"""
    S = I.S
    S["halo_min"] = 1
    fix_contig(I, True)
    world(I, S, True)
    crank = client_rank(I, S)
    if crank is None:
        S["skip"] = True
        return
    S["comms"] = []
    sent = None
    for role, rank in (("root", 0), ("client", crank)):
        comm, cc = communicator(I, S, rank, label=role, root_values=sent)
        S["comms"].append(comm)
        qs = [make(I, S, f"{role} q{k}", d, sizes(I, S, d)[0]) for k, d in enumerate(DIMS[:n])]
        arg = (qs[0] if role == "root" else None) if name == "bcast_metadata" else I.new(ListV(qs)) if role == "root" else None
        got = I.call_name("communicator." + name, comm, arg)
        sent = sent_values(I.allevents, comm)


def tile_op(I):
    """`tile` of two ranks: both split, also when used repeatedly"""
    S = I.S
    world(I, S, True)
    crank = client_rank(I, S)
    if crank is None:
        S["skip"] = True
        return
    S["comms"] = []
    for role, rank in (("root", 0), ("client", crank)):
        comm, cc = communicator(I, S, rank, label=role)
        S["comms"].append(comm)
        a = I.getattr(cc, "tile")
        b = I.getattr(cc, "tile")


def archive_op(I, dims, time, bad=False):
    """stores of three snapshots, the ranks' dictionaries in different order"""
    S = I.S
    if not archive.begin(I):
        return
    S["comms"] = []
    sent = None
    u = Term("units", (), {"nonnull": True, "kind": "str"})
    for role, rank, idx in archive.roles(S):
        comm, mon = archive.monitor(I, S, role, rank, sent)
        S["comms"].append(comm)
        for k in range(3):
            st = [(n, archive.variable(I, S, f"{role} {n} {k}", dims, u)) for n in ("zeta", "air", "b")]
            if time:
                st.insert(1, ("time", I.new(archive.date(f"t{k}"))))
            I.meth(mon, "store", archive.snapshot(I, st, role))
            for q in range(2 if bad else 0):
                b = st[1:] if q else [(n, x) for n, x in st[:-1]] + [(st[-1][0], archive.variable(I, S, f"{role} bad {k}", dims[::-1] + ("w",), u))]
                try:
                    I.meth(mon, "store", archive.snapshot(I, b, role))
                except AbsRaise:
                    pass
        sent = sent_values(I.allevents, comm)


def restart_op(I, req, coupler, to_state):
    """loads on the root of a tile and on another rank of it"""
    S = I.S
    S["halo_min"] = 1
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)
    world(I, S, True)
    n_tile = S["ny"] * S["nx"]
    if not I.cmp_num(">", mk(n_tile), 1):
        S["skip"] = True
        return
    loops = {}

    def range_index(I, n, suffix):
        if peq(I.facts, n, mk(n_tile)) is not True:
            return None
        if suffix not in loops:
            loops[suffix] = (I.sym("rj" + suffix, 0, S["ny"] - ONE), I.sym("ri" + suffix, 0, S["nx"] - ONE))
        return loops[suffix][0] * S["nx"] + loops[suffix][1]
    I.hooks["range_index"] = range_index
    S["comms"] = []
    S["restart"] = []
    # a few variables of the registry per file
    reg = c21.registry_of(I)
    one = {}
    for std, (dims, rn, u) in sorted(reg.items()):
        one.setdefault((rn, len(dims)), []).append((std, dims))
    picks = {}
    for (rn, nd), v in sorted(one.items()):
        if len(v) == 1 and {d.replace("_interface", "") for d in v[0][1]} in ({"x", "y"}, {"x", "y", "z"}):
            picks.setdefault(v[0][1], (rn, v[0][0]))
    picks = list(picks.items())[:4]
    files = {}
    for k, n in enumerate(c21.MANDATORY + ("sfc_data",)):
        dims, (rn, std) = picks[k % len(picks)]
        g = sizes(I, S, dims)[1]
        files[f"{c21.DIR}/{n}.tile2.nc"] = (rn, dims, g)
    stds = [std for _, (_, std) in picks]

    def file(I, path, mode):
        if path.endswith("coupler.res"):
            t = lambda k, i: Term("token", (k, i), {"nonnull": True, "kind": "str"})
            return I.new(c21.FileObj(path, mode, lines=[I.new(c21.Line(["2"], 1)), I.new(c21.Line([t(2, i) for i in range(6)], 2)), I.new(c21.Line([t(3, i) for i in range(6)], 3))]))
        if path not in files:
            I.raise_(FileNotFoundError, path)
        rn, dims, g = files[path]
        arr = A.external(I, rn, (1,) + tuple(g[d] for d in dims))
        da = I.new(c21.DataArrayObj(arr, ("Time",) + tuple("axis_" + d for d in dims), I.new(DictV([["long_name", rn]])), rn))
        tm = I.new(c21.DataArrayObj(A.external(I, "Time", (1,)), ("Time",), I.new(DictV()), "Time"))
        return I.new(c21.FileObj(path, mode, dataset=({rn: da}, {"Time": tm})))
    I.hooks["file"] = file
    I.hooks["exists"] = lambda I, path, how: path in files or (coupler and path == f"{c21.DIR}/coupler.res")
    sent = None
    for role in ("root", "client"):
        sub = Poly.const(0) if role == "root" else I.sym("client", 1, n_tile - ONE)
        I.hooks["split"] = lambda I, c, color, key, r=sub, s=sent, l=role: I.new(CommObj(r, n_tile, "tile " + l, s))
        comm, cc = communicator(I, S, n_tile + sub, label=role)
        S["comms"].append(comm)
        kw = {}
        names = {"all": None, "none": [], "time only": ["time"]}.get(req, ["time"] + stds[1:])
        if names is not None:
            kw["only_names"] = I.new(IterV(names)) if req == "iterator" else I.new(ListV(names))
        if to_state:
            pre = [(std, make(I, S, f"{role} {std}", dims, sizes(I, S, dims)[0])) for dims, (rn, std) in picks]
            kw["to_state"] = I.new(DictV([[a, b] for a, b in (pre if role == "root" else pre[::-1])]))
        I.call_name("_legacy_restart.open_restart", c21.DIR, cc, "", **kw)
        tile = [e.data["new"] for e in comm_events(I.allevents, ("Split",)) if e.comm is comm]
        sent = sent_values(I.allevents, tile[-1]) if tile else None


def judge(R, I, p, label, key, anchor):
    S = p.S
    if S.get("skip"):
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{label} raises {exc_desc(p)}", p.desc())
        return
    a, b = (trace(p.events, c) for c in S["comms"])
    if not a and not b:
        R.note("none", label)
        return
    R.note("some", label)
    d = trace_diff(a, b)
    R.check(d is None, "aligned", f"{label}: {len(a)} collectives", key, d[1] if d else fwhere(I, anchor), f"{label}: {d[0] if d else ''}", p.desc())


def conclude(R):
    some = {n[1] for n in R.notes if n[0] == "some"}
    for n in sorted({n[1] for n in R.notes if n[0] == "none"} - some):
        R.undecided("aligned", n, "no collective found")
