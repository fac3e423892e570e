"""C24: interface synchronisation sends the shared edges with their orientation."""
from ..halo import *

FLOOR = 100
DIMS = [(("y_interface", "x"), ("y", "x_interface")), (("y_interface", "x", "z"), ("y", "x_interface", "z")),
        (("z", "y_interface", "x"), ("z", "y", "x_interface")), (("x", "y_interface"), ("x_interface", "y")),
        (("x", "z", "y_interface"), ("x_interface", "z", "y")), (("x_bin", "z_interface", "y_interface", "x"), ("x_bin", "z_interface", "y", "x_interface"))]
BAD = [(("y", "x"), ("y", "x_interface")), (("y_interface", "x"), ("y", "x")), (("y", "x"), ("y", "x")), (("y", "x_interface"), ("y_interface", "x")),
       (("z", "y_interface", "x_interface"), ("z", "y", "x_interface")), (("y_interface", "x"), ("y_interface", "x_interface")), (("y_interface",), ("x_interface",)),
       (("y_interface", "x"), ("y_interface", "x")), (("y", "x_interface"), ("y", "x_interface")), (("x",), ("y", "x_interface")), (("y_interface", "x"), ("y",))]
DIR = {"SOUTH": ("x", "y_interface", "x"), "WEST": ("y", "x_interface", "y"), "NORTH": ("x", "y_interface", "x"), "EAST": ("y", "x_interface", "y")}


def run(R):
    R.rule("send", "across SOUTH (WEST) goes exactly the first row (column) of the x (y) component over the compute extent, turned by the rotation of that "
                   "boundary along the edge and with the sign of the turned component")
    R.rule("receive", "the message of the rank across NORTH (EAST) fills exactly the last row (column) of the x (y) component, point by point")
    R.rule("orientation", "the rank across SOUTH or WEST sees this rank across its NORTH or EAST")
    R.rule("untouched", "nothing but the two receiving edges is written")
    R.rule("grid", "quantities not on a C-grid: ValueError before any message or write")
    W = World(R)
    for t in range(6):
        for dims in DIMS:
            W.run("send", f"tile {t} {dims}", lambda I, a=(t, dims): sync(I, *a), lambda p, a=(t, dims): judge(R, W.I, p, *a))
    for dims in BAD:
        W.run("grid", f"{dims}", lambda I, a=(0, dims): sync(I, *a), lambda p, a=dims: judge_bad(R, W.I, p, a))


def sync(I, t, dims):
    S = I.S
    fix_contig(I, False)
    cube_comm(I, S, t)
    n = S["n"] = Poly.const(0)
    S["m"] = I.sym("m", 1)
    horizontal_quantity(I, S, "x", dims[0], n, S["m"])
    horizontal_quantity(I, S, "y", dims[1], n, S["m"])
    S["bnd"] = boundaries(I, S)
    for f in "xy":
        S[f]["version"] = S[f]["arr"].buf.version
        S[f]["c0"] = A.content_of(I, S[f]["arr"])
    S["seq0"] = I.seq
    S["req"] = I.meth(S["cc"], "start_synchronize_vector_interfaces", S["x"]["q"], S["y"]["q"])
    S["seq1"] = I.seq
    I.meth(S["req"], "wait")


def edge(S, d):
    f, normal, along = DIR[d]
    info = S[f]
    reg = []
    for dim in info["dims"]:
        o, e = info["o"][dim], info["e"][dim]
        if dim == normal:
            reg.append((o, o + ONE) if d in ("SOUTH", "WEST") else (o + e - ONE, o + e))
        else:
            reg.append((o, o + e))
    return f, normal, along, reg


def edge_view(I, S, d, version=None):
    f, normal, along, reg = edge(S, d)
    info = S[f]
    axes, fixed = [], []
    for k, (lo, hi) in enumerate(reg):
        if info["dims"][k] == normal:
            fixed.append((k, mk(lo)))
        else:
            axes.append(A.Axis(k, mk(lo), 1, mk(hi - lo)))
    return I.new(A.ArrV(info["arr"].buf, axes, tuple(fixed)))


def at_version(buf, version, fn):
    v, c = buf.version, buf.content
    buf.version, buf.content = version, None
    try:
        return fn()
    finally:
        buf.version, buf.content = v, c


def judge(R, I, p, t, dims):
    S = p.S
    key = f"C24:{','.join(dims[0])}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"synchronising {dims} on tile {t} raises {exc_desc(p)}", p.desc())
        return
    evs = [e for e in comm_events(p.events) if e.seq > S["seq0"]]
    sends = [e for e in evs if e.op in ("Isend", "Send", "isend")]
    recvs = [e for e in evs if e.op in ("Recv", "Irecv", "recv")]
    for d in ("SOUTH", "WEST"):
        to, k = S["bnd"][d]
        sub = f"tile {t} {dims} {d} k={k}"
        mine = [e for e in sends if peq(p.facts, e.peer, to) is True]
        if not R.check(len(mine) == 1, "send", sub + " one", f"{key}:{d}:{k}:count", where(p, mine[1] if len(mine) > 1 else None) if mine else fwhere(I, "communicator.CubedSphereCommunicator.start_synchronize_vector_interfaces"),
                       f"{len(mine)} messages for the rank across {d}", p.desc()):
            continue
        e = mine[0]
        f, normal, along, reg = edge(S, d)
        view = edge_view(I, S, d)
        rest = [x for x in S[f]["dims"] if x != normal]
        want = turn(I, view, rest, -k)
        out = {"x": (1, 0), "y": (0, 1)}[f if k % 2 == 0 else {"x": "y", "y": "x"}[f]]
        a, b = ccw(out, -k)
        sign = a + b
        wc = at_version(S[f]["arr"].buf, S[f]["version"], lambda: A.content_of(I, want))
        good = e.content is not None and same_content(p, e.content, sign, wc) is True and shape_eq(p, e.array.shape, want.shape) is True
        if e.content is None:
            R.undecided("send", sub, "content not tracked")
        else:
            R.check(good, "send", sub, f"{key}:{d}:{k}", where(p, e),
                    f"across {d} (rotation {k}) goes {e.content!r} of shape {vrepr(e.array.shape)}, expected {'-' if sign < 0 else ''}{wc!r} of shape {vrepr(want.shape)}", p.desc())
        R.check(back_direction(d, k) in ("NORTH", "EAST"), "orientation", sub, f"{key}:{d}:{k}:back", fwhere(I, "partitioner.CubedSpherePartitioner.boundary"),
                f"the rank across {d} with rotation {k} sees this rank across {back_direction(d, k)}", p.desc())
    R.check(len(sends) == 2 and len(recvs) == 2, "send", f"tile {t} {dims} total", key + ":total", where(p, sends[-1] if sends else None) if sends else "",
            f"{len(sends)} sends and {len(recvs)} receives in a synchronisation, expected 2 and 2", p.desc())
    writes = [w for w in walk_events(p.events, ("write",)) if w.seq > S["seq0"] and any(w.arr.buf is S[f]["arr"].buf for f in "xy")]
    for d in ("NORTH", "EAST"):
        fr, k = S["bnd"][d]
        f, normal, along, reg = edge(S, d)
        sub = f"tile {t} {dims} {d} k={k}"
        ev = edge_view(I, S, d)
        ms = [e for e in recvs if peq(p.facts, e.peer, fr) is True and "msg" in e.data]
        hit = [w for w in writes if w.arr.buf is ev.buf and same_points(p, w.arr, S[f]["arr"].buf, reg)]
        good = len(ms) == 1 and len(hit) == 1 and hit[0].content is not None
        if good:
            good = same_content(p, hit[0].content, 1, A.content_of(I, ms[0].msg)) is True
        R.check(good, "receive", sub, f"{key}:{d}:receive", where(p, hit[0]) if hit else (where(p, ms[0]) if ms else ""),
                f"the edge {d} of {f} {regr(reg)} is filled by {[vrepr(w.arr) + ' = ' + repr(w.content) for w in writes]}; expected the message of rank {vrepr(fr)} "
                f"(messages from it: {len(ms)})", p.desc())
        for w in hit:
            writes.remove(w)
    R.check(not writes, "untouched", f"tile {t} {dims}", key + ":extra-write", where(p, writes[0]) if writes else "",
            f"synchronisation also writes {vrepr(writes[0].arr) if writes else ''}", p.desc())


def regr(reg):
    return "[" + ", ".join(f"{vrepr(mk(to_poly(a)))}:{vrepr(mk(to_poly(b)))}" for a, b in reg) + "]"


def same_points(p, v, buf, reg):
    got = {}
    for a in v.axes:
        if a.src is None or a.step != 1:
            return False
        got[a.src] = (to_poly(a.start), to_poly(a.start) + to_poly(a.length))
    for k, x in v.fixed.items():
        got[k] = (to_poly(x), to_poly(x) + ONE)
    return set(got) == set(range(len(reg))) and all(peq(p.facts, mk(got[k][0]), mk(to_poly(lo))) is True and peq(p.facts, mk(got[k][1]), mk(to_poly(hi))) is True
                                                    for k, (lo, hi) in enumerate(reg))


def judge_bad(R, I, p, dims):
    key = f"C24:grid:{dims}"
    anchor = fwhere(I, "communicator.CubedSphereCommunicator.start_synchronize_vector_interfaces")
    good = p.status == "raise" and exc_is(I, p, "ValueError")
    R.check(good, "grid", f"{dims}", key, where(p) if p.status == "raise" else anchor,
            f"synchronising dims {dims}, not on a C-grid, " + (f"raises {exc_desc(p)}" if p.status == "raise" else "is accepted"), p.desc())
    evs = [e for e in comm_events(p.events) if e.seq > p.S["seq0"]] + [w for w in walk_events(p.events, ("write",)) if w.seq > p.S["seq0"]]
    R.check(not evs, "grid", f"{dims} effects", key + ":effects", where(p, evs[0]) if evs else anchor, f"dims {dims} are rejected only after {evs[:1]}", p.desc())
