"""C03: halo updates read exactly the compute points next to a boundary and
write exactly the halo outside it."""
from ..halo import *

FLOOR = 400

DIMS = [("y", "x"), ("x", "y"), ("y_interface", "x_interface"), ("y_interface", "x"), ("x_interface", "z", "y"), ("z_interface", "y", "x_interface"),
        ("z", "y", "x", "x_bin"), ("x",), ("y_interface",), ("z",)]


def run(R):
    R.rule("region", "send_view/recv_view at each boundary = the n layers next to it per horizontal dimension (shared point skipped), whole compute "
                     "domain along the others; a view of the quantity's own data")
    R.rule("bounds", "OutOfBoundsError exactly when that region leaves the allocated array; no other error, no clipping or wrapping")
    R.rule("update-read", "each message of a halo update carries exactly the send region of the boundary it is addressed across")
    R.rule("update-write", "the update writes exactly the receive region of every boundary once, and nothing else of the quantity")
    R.rule("shape", "a message has the shape of the region it is received into")
    R.assume("n >= 1 halo points; origins, extents and array sizes arbitrary (array at least origin+extent)")
    R.assume("end-to-end rules: equal cell counts per rank in x and y, at least n+1 cells, halo at least n wide (otherwise the request is rejected or its source lies outside the compute domain)")
    W = World(R)
    anchor = fwhere(W.I, "boundary.SimpleBoundary._view") if False else fwhere(W.I, "boundary.Boundary.send_view")
    for dims in DIMS:
        for d in BOUNDARIES:
            for interior in (True, False):
                W.run("region", f"{d} {dims} {'send' if interior else 'recv'}", lambda I, a=(dims, d, interior): view(I, *a),
                      lambda p, a=(dims, d, interior): judge_view(R, p, *a, anchor))
    dims = SCALAR_DIMS
    vdims = VECTOR_DIMS
    for t in range(6):
        for kind, fam in (("scalar", dims), ("vector", vdims)):
            for ds in fam:
                W.run("update", f"tile {t} {kind} {ds}", lambda I, a=(t, kind, ds): halo_scenario(I, *a),
                      lambda p, a=(t, kind, ds): judge_update(R, W.I, p, *a))


def view(I, dims, d, interior):
    S = I.S
    q = quantity(I, S, "q", dims)
    n = S["n"] = I.sym("n", 1)
    b = I.call_name("boundary.SimpleBoundary", from_rank=0, to_rank=1, n_clockwise_rotations=0, boundary_type=const(I, d))
    S["reg"] = reg = region(S["q"], d, n, interior)
    S["inside"] = True
    for dim, (lo, hi) in zip(dims, reg):
        if I.cmp_num("<", mk(lo), 0) or I.cmp_num("<", S["q"]["shape"][dim], mk(hi)):
            S["inside"] = False
            break
    S["got"] = I.meth(b, "send_view" if interior else "recv_view", q, mk(n))


def judge_view(R, p, dims, d, interior, anchor):
    what = "send" if interior else "recv"
    key = f"C03:{what}_view:{d}:{','.join(dims)}"
    S = p.S
    if not S["inside"]:
        good = p.status == "raise" and exc_name(p) == "OutOfBoundsError"
        R.check(good, "bounds", f"{what} {d} {dims}", key + ":bounds", where(p) if p.status == "raise" else anchor,
                f"{what}_view({d}) of a region outside the array " + (f"raises {exc_desc(p)}" if p.status == "raise" else f"returns {vrepr(S['got'])}"), p.desc())
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{what}_view({d}) for dims {dims} raises {exc_desc(p)} although the region lies in the array", p.desc())
        return
    got = S["got"]
    R.check(view_is(p, got, S["q"]["arr"].buf, S["reg"]), "region", f"{what} {d} {dims}", key, anchor,
            f"{what}_view({d}) for dims {dims} is {vrepr(got)}, expected {regrepr(S['reg'])}", p.desc())


def regrepr(reg):
    return "[" + ", ".join(f"{vrepr(mk(to_poly(a)))}:{vrepr(mk(to_poly(b)))}" for a, b in reg) + "]"


def judge_update(R, I, p, t, kind, dims):
    S = p.S
    key = f"C03:update:{kind}:{dims}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{kind} halo update of {dims} on tile {t} raises {exc_desc(p)}", p.desc())
        return
    sends, recvs = classify(p)
    n = S["n"]
    # what is read
    for e in sends:
        ds = direction_of(p, e)
        if len(ds) != 1:
            continue    # pairing is C02's obligation
        d = ds[0]
        bufs = source_regions(p, e)
        if bufs is None:
            R.undecided("update-read", f"{kind} {dims} {d}", "content of the message is not tracked")
            continue
        for f, reg in bufs:
            info = S[f] if f in S else None
            good = info is not None and reg_eq(p, reg, region(info, d, n, True))
            R.check(good, "update-read", f"tile {t} {kind} {dims} {d}", f"{key}:read:{d}:{f}", where(p, e),
                    f"message across {d} carries {f}{reg_desc(reg)}, expected {regrepr(region(info, d, n, True)) if info else '?'}", p.desc())
        # shape on the receiving side (same sizes on every rank)
        k = S["bnd"][d][1]
        back = None
        for f in S["fields"]:
            pass
    # what is written
    want = {f: [d for d in BOUNDARIES if S["bnd"][d] is not None] for f in S["fields"]}
    for e in walk_events(p.events, ("write",)):
        if e.seq <= S["seq0"]:
            continue
        for f in S["fields"]:
            if e.arr.buf is S[f]["arr"].buf:
                hit = [d for d in want[f] if covers(p, e.arr, S[f]["arr"].buf, region(S[f], d, n, False))]
                if R.check(len(hit) == 1, "update-write", f"tile {t} {kind} {dims} {f}", f"{key}:write:{f}", where(p, e),
                           f"halo update writes {vrepr(e.arr)} of {f}, which is no halo region still to be filled", p.desc()):
                    want[f].remove(hit[0])
                    check_source(R, p, e, f, hit[0], key)
    for f in S["fields"]:
        R.check(not want[f], "update-write", f"tile {t} {kind} {dims} {f} all", f"{key}:unwritten:{f}", "fv3gfs/util/communicator.py",
                f"halo regions {want[f]} of {f} are not written by the update", p.desc())


def check_source(R, p, e, f, d, key):
    """the halo region is filled with the message from the rank across d"""
    S = p.S
    c = e.content
    atoms = [a for a in c.num.atoms() if isinstance(a, Term) and a.op == "el"] if c is not None else []
    msgs = [m for m in comm_events(p.events, ("Recv", "Irecv")) if "msg" in m.data and any(a.args[0][1] == m.msg.buf.oid for a in atoms)]
    good = len(msgs) == 1 and peq(p.facts, msgs[0].peer, S["bnd"][d][0]) is True
    if good:
        want = A.content_of(None, msgs[0].msg)
        good = same_content(p, c, 1, want) is True
    R.check(good, "shape", f"{key} {d} {f}", f"{key}:source:{f}:{d}", where(p, e),
            f"halo {d} of {f} is filled from {c!r}, expected the message of the rank across {d} point by point", p.desc())


def source_regions(p, e):
    """[(field, [(start, length)])] of the quantities whose elements a message
    carries"""
    c = e.content
    if c is None:
        return None
    out = []
    S = p.S
    shape = e.array.shape
    for a in c.num.atoms():
        if isinstance(a, Term) and a.op == "el":
            who, axes, fixed = a.args
            f = next((f for f in S["fields"] if S[f]["arr"].buf.oid == who[1]), who[0])
            reg = {}
            for k, (s, st, step) in enumerate(axes):
                if s is None:
                    continue
                ln = to_poly(shape[k])
                lo = to_poly(st) if step == 1 else to_poly(st) - ln + ONE
                reg[s] = (lo, lo + ln) if step in (1, -1) else None
            for s, v in fixed:
                reg[s] = (to_poly(v), to_poly(v) + ONE)
            out.append((f, reg))
    return out


def reg_eq(p, reg, want):
    if set(reg) != set(range(len(want))):
        return False
    return all(reg[k] is not None and peq(p.facts, mk(reg[k][0]), mk(to_poly(a))) is True and peq(p.facts, mk(reg[k][1]), mk(to_poly(b))) is True
               for k, (a, b) in enumerate(want))


def reg_desc(reg):
    return "[" + ", ".join(f"{vrepr(mk(reg[k][0]))}:{vrepr(mk(reg[k][1]))}" if reg[k] else "strided" for k in sorted(reg)) + "]"
