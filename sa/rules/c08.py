"""C08: scatter and gather route each rank's region to that rank."""
from ..sg import *
from .c13 import gpu_models

FLOOR = 60


def run(R):
    R.rule("route", "scatter: row r of the buffer given to Scatter holds, for every rank r, exactly rank r's overlapping region of the root's compute domain; "
                    "gather: row r of what Gather delivered is written to exactly that region of the root's result")
    R.rule("deliver", "the row a rank receives fills exactly its compute domain; a rank sends exactly its compute domain")
    R.rule("result", "supplied receive objects are filled and returned; allocated ones carry dims, units, dtype and extent; non-root gather returns None")
    R.rule("collective", "one Scatter (Gather) with the root rank as root, of matching shapes and dtypes")
    R.assume("at least one dimension; extents divisible by the layout; all ranks use the same partitioner and send the same dtype")
    W = World(R)
    G = World(R, absent=())
    fam = DIMS
    for cube in (False, True):
        for dims in fam:
            for role in ("root", "client"):
                for given in (False, True):
                    for op in ("scatter", "gather"):
                        if op == "gather" and role == "client" and given:
                            continue
                        W.run("route", f"{'cube' if cube else 'tile'} {op} {role} {dims} given={given}", lambda I, a=(cube, dims, role, given, op): drive(I, *a),
                              lambda p, a=(cube, dims, role, given, op): judge(R, W.I, p, *a))
        for dims in (("y", "x"), ("z", "y_interface", "x")):
            for op, role in (("scatter", "root"), ("scatter", "client"), ("gather", "root")):
                a = (cube, dims, role, False, op)
                G.run("result", f"{'cube' if cube else 'tile'} {op} {role} {dims} with backend", lambda I, a=a: drive(I, *a, backend="numpy"), lambda p, a=a: judge_backend(R, G.I, p, *a))


def judge_backend(R, I, p, cube, dims, role, given, op):
    S = p.S
    if S.get("skip"):
        return
    name = ("Cubed" if cube else "Tile") + f" {op} on the {role} of {dims} with a backend"
    key = f"C08:{'cube' if cube else 'tile'}:{op}:{role}:{','.join(dims)}:backend"
    anchor = fwhere(I, f"communicator.Communicator.{op}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    q = S["out"]
    b = I.getattr(q, "gt4py_backend") if isinstance(q, InstV) else None
    R.check(b == "numpy", "result", name, key, anchor, f"{name} gives a quantity with backend {vrepr(b)}, expected that of the sender, 'numpy'", p.desc())


def drive(I, cube, dims, role, given, op, backend=None):
    S = I.S
    if backend is not None:
        gpu_models(I)
    world(I, S, cube)
    r, g = sizes(I, S, dims)
    gd = global_dims(S, dims)
    ge = global_ext(S, g)
    rank = 0 if role == "root" else client_rank(I, S)
    if rank is None:
        S["skip"] = True
        return
    dt = S["dtype"] = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    if op == "scatter":
        src = make(I, S, "src", gd, ge, dtype=dt) if role == "root" or True else None
        # a quantity given may have a type of its own, which does not change what is sent to the others
        dst = make(I, S, "dst", dims, r, dtype=Term("dtype given", (), {"nonnull": True, "kind": "dtype"})) if given else None
        if backend is not None:
            I.setattr(I.getattr(src, "metadata"), "gt4py_backend", backend)
        S["comm"], cc = communicator(I, S, rank, root_values=None if role == "root" else [I.getattr(src, "metadata")])
        S["seq0"] = I.seq
        if role == "root":
            S["out"] = I.meth(cc, "scatter", src, dst)
        else:
            S["out"] = I.meth(cc, "scatter", recv_quantity=dst)
    else:
        src = make(I, S, "src", dims, r, dtype=dt)
        if backend is not None:
            I.setattr(I.getattr(src, "metadata"), "gt4py_backend", backend)
        # a quantity given to gather may have a type of its own: values are converted when they are put there
        dst = make(I, S, "dst", gd, ge, dtype=Term("dtype given", (), {"nonnull": True, "kind": "dtype"})) if given else None
        S["comm"], cc = communicator(I, S, rank)
        S["seq0"] = I.seq
        S["out"] = I.meth(cc, "gather", src, dst) if given else I.meth(cc, "gather", src)
    S["dst_q"] = dst


def judge(R, I, p, cube, dims, role, given, op):
    S = p.S
    if S.get("skip"):
        return
    name = ("Cubed" if cube else "Tile") + f" {op} on the {role} of {dims}" + (" into a given quantity" if given else "")
    key = f"C08:{'cube' if cube else 'tile'}:{op}:{role}:{','.join(dims)}:{int(given)}"
    anchor = fwhere(I, f"communicator.Communicator.{op}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    coll = [e for e in comm_events(p.events) if e.seq > S["seq0"] and e.op in ("Scatter", "Gather", "scatter", "gather", "Scatterv", "Gatherv")]
    if not R.check(len(coll) == 1 and coll[0].op == ("Scatter" if op == "scatter" else "Gather") and coll[0].root == 0, "collective", name, key + ":collective",
                   where(p, coll[0]) if coll else anchor, f"{name} performs {[(e.op, e.root) for e in coll]}", p.desc()):
        return
    e = coll[0]
    if op == "scatter":
        judge_scatter(R, I, p, e, name, key, anchor, dims, role, given)
    else:
        judge_gather(R, I, p, e, name, key, anchor, dims, role, given)


def shape_of_rank(S, dims):
    return tuple(mk(S["cells"][d.replace("_interface", "")] + Poly.const(int(d in INTERFACE))) for d in dims)


def check_result(R, I, p, q, name, key, anchor, dims, ext, given):
    S = p.S
    if given:
        R.check(q is S["dst_q"], "result", name, key + ":identity", anchor, f"{name} returns {vrepr(q)}, not the receive quantity given", p.desc())
        return S["dst"]["arr"].buf, [S["dst"]["o"][d] for d in dims], None
    if not isinstance(q, InstV):
        R.violate(key + ":result", anchor, f"{name} returns {vrepr(q)}", p.desc())
        return None, None, None
    got = {a: I.getattr(q, a) for a in ("dims", "units", "extent", "origin", "data")}
    R.check(got["dims"] == tuple(dims), "result", name + " dims", key + ":dims", anchor, f"{name} gives dims {vrepr(got['dims'])}, expected {dims}", p.desc())
    R.check(vkey(got["units"]) == vkey(S["src"]["units"]), "result", name + " units", key + ":units", anchor, f"{name} gives units {vrepr(got['units'])}", p.desc())
    ok = len(got["extent"]) == len(ext) and all(peq(p.facts, a, b) is True for a, b in zip(got["extent"], ext))
    R.check(ok, "result", name + " extent", key + ":extent", anchor, f"{name} gives extent {vrepr(got['extent'])}, expected {vrepr(tuple(ext))}", p.desc())
    d = got["data"]
    if not isinstance(d, A.ArrV):
        R.undecided("result", name, f"data is {vrepr(d)}")
        return None, None, None
    R.check(vkey(d.buf.dtype) == vkey(S["dtype"]), "result", name + " dtype", key + ":dtype", anchor, f"{name} gives dtype {vrepr(d.buf.dtype)}", p.desc())
    R.check(d.buf is not S["src"]["arr"].buf and getattr(d.buf, "fresh", True), "result", name + " fresh", key + ":fresh", anchor, f"{name} returns a quantity on memory {d.buf!r}", p.desc())
    return d.buf, list(got["origin"]), d


def judge_scatter(R, I, p, e, name, key, anchor, dims, role, given):
    S = p.S
    rs = shape_of_rank(S, dims)
    if role == "root":
        sb = e.array
        if not isinstance(sb, A.ArrV):
            R.violate(key + ":sendbuf", where(p, e), f"{name}: Scatter is given {vrepr(sb)}", p.desc())
        else:
            ok = shape_eq(p, sb.shape, (mk(S["n_ranks"]),) + rs) is True
            R.check(ok, "collective", name + " shape", key + ":shape", where(p, e), f"{name}: Scatter sends shape {vrepr(sb.shape)}, expected "
                    f"{vrepr((mk(S['n_ranks']),) + rs)}", p.desc())
            R.check(vkey(sb.buf.dtype) == vkey(S["dtype"]), "collective", name + " dtype", key + ":sdtype", where(p, e), f"{name}: Scatter sends dtype {vrepr(sb.buf.dtype)}", p.desc())
            rows(R, I, p, e, sb, name, key, dims)
    elif e.array is not None:
        R.violate(key + ":client-send", where(p, e), f"{name}: a client passes {vrepr(e.array)} as send buffer", p.desc())
    buf, origin, _ = check_result(R, I, p, S["out"], name, key, anchor, dims, rs, given)
    if buf is None or "msg" not in e.data:
        R.check("msg" in e.data, "deliver", name, key + ":norecv", where(p, e), f"{name}: nothing is received", p.desc())
        return
    R.check(shape_eq(p, e.msg.shape, rs) is True, "collective", name + " recv shape", key + ":rshape", where(p, e), f"{name}: receives shape {vrepr(e.msg.shape)}, expected {vrepr(rs)}", p.desc())
    reg = [(to_poly(o), to_poly(o) + to_poly(n)) for o, n in zip(origin, rs)]
    filled(R, I, p, e.msg, buf, reg, name, key, anchor)


def filled(R, I, p, msg, buf, reg, name, key, anchor):
    """exactly the region is written, with the message, and nothing else"""
    ws = [w for w in walk_events(p.events, ("write",)) if w.arr.buf is buf and w.seq > p.S["seq0"]]
    good = [w for w in ws if view_is(p, w.arr, buf, reg) and w.content is not None and same_content(p, w.content, 1, A.content_of(None, msg)) is True]
    R.check(len(good) == 1 and len(ws) == 1, "deliver", name, key + ":deliver", where(p, ws[0]) if ws else anchor,
            f"{name}: the received data is written as {[vrepr(w.arr) + ' = ' + repr(w.content) for w in ws]}, expected {msg!r} into the compute domain {regrepr(reg)}", p.desc())


def regrepr(reg):
    return "[" + ", ".join(f"{vrepr(mk(to_poly(a)))}:{vrepr(mk(to_poly(b)))}" for a, b in reg) + "]"


def rank_loop(R, p, bufs, name, key, want_loop=True):
    """[(write event, loop)] of writes to a buffer, with the loop around them"""
    out = []

    def walk(events, loop):
        for e in events:
            if e.kind == "write" and any(e.arr.buf is b for b in bufs):
                out.append((e, loop))
            if e.body is not None:
                walk(e.body, e if e.kind == "loop" else loop)
    walk(p.events, None)
    return out


def rows(R, I, p, e, sb, name, key, dims):
    """contents of the rows of the send buffer"""
    S = p.S
    ws = [(w, l) for w, l in rank_loop(R, p, [sb.buf], name, key) if w.seq < e.seq]
    src = S["src"]
    if not ws:
        R.undecided("route", name, "rows of the send buffer are not written individually")
        return
    idx = S["generic"].get("")
    if len(ws) != 1 or ws[0][1] is None or idx is None:
        R.undecided("route", name, f"the send buffer is filled by {len(ws)} writes")
        return
    w, loop = ws[0]
    if not full_range(R, p, S, loop, name, key, w):
        return
    v = w.arr
    r = rank_index(S, idx)
    rowok = len(v.fixed) == 1 and 0 in v.fixed and peq(p.facts, v.fixed[0], mk(r)) is True and [a.src for a in v.axes] == list(range(1, 1 + len(dims))) \
        and all(a.step == 1 and peq(p.facts, a.start, 0) is True and peq(p.facts, a.length, n) is True for a, n in zip(v.axes, sb.shape[1:]))
    R.check(rowok, "route", name + " row", key + ":row", where(p, w), f"{name}: for rank {vrepr(mk(r))} the part {vrepr(v)} of the send buffer is written", p.desc())
    want = overlap_region(S, dims, idx)
    view, c = source_view(I, S, src, want)
    R.check(w.content is not None and same_content(p, w.content, 1, c) is True and value_shape_ok(p, w, view), "route", name, key + ":route", where(p, w),
            f"{name}: rank {vrepr(mk(r))} is sent {w.content!r}, expected {view!r}", p.desc())


def value_shape_ok(p, w, view):
    v = w.value
    return not isinstance(v, A.ArrV) or shape_eq(p, v.shape, view.shape) is True


def source_view(I, S, info, want):
    reg, fixed = [], {}
    for k, (lo, hi, d) in enumerate(want):
        o = info["o"][d]
        if d == "tile":
            fixed[k] = mk(o + lo)
        else:
            reg.append((k, (o + lo, o + hi)))
    return region_content(I, S, info, reg, fixed)


def rank_index(S, idx):
    t, j, i = idx
    return t * S["ny"] * S["nx"] + j * S["nx"] + i


def full_range(R, p, S, loop, name, key, w):
    src = loop.src
    if isinstance(src, Term) and src.op == "range":
        a, b, c = src.args
        lo, hi = (a, b) if c == 1 else (mk(to_poly(b) + ONE), mk(to_poly(a) + ONE))
        good = c in (1, -1) and peq(p.facts, lo, 0) is True and peq(p.facts, hi, mk(S["n_ranks"])) is True
        R.check(good, "route", name + " all ranks", key + ":ranks", where(p, w), f"{name}: only ranks {vrepr(lo)} to {vrepr(hi)} (exclusive) are served, of {vrepr(mk(S['n_ranks']))}", p.desc())
        return good
    R.undecided("route", name, f"loop over {vrepr(src)}")
    return False


def judge_gather(R, I, p, e, name, key, anchor, dims, role, given):
    S = p.S
    rs = shape_of_rank(S, dims)
    src = S["src"]
    # what is sent
    view, c = region_content(I, S, src, list(enumerate(compute_region(src))))
    if e.content is None:
        R.undecided("deliver", name, "content of the send buffer is not tracked")
    else:
        R.check(same_content(p, e.content, 1, c) is True and shape_eq(p, e.array.shape, rs) is True, "deliver", name + " send", key + ":send", where(p, e),
                f"{name}: sends {e.content!r} of shape {vrepr(e.array.shape)}, expected {view!r}", p.desc())
    if role == "client":
        R.check(S["out"] is None, "result", name, key + ":none", anchor, f"{name} returns {vrepr(S['out'])}", p.desc())
        R.check(e.recv is None, "collective", name + " recv", key + ":client-recv", where(p, e), f"{name}: a client passes {vrepr(e.recv)} as receive buffer", p.desc())
        return
    rb = e.recv
    if not isinstance(rb, A.ArrV) or "msg" not in e.data:
        R.violate(key + ":recvbuf", where(p, e), f"{name}: Gather receives into {vrepr(rb)}", p.desc())
        return
    R.check(shape_eq(p, rb.shape, (mk(S["n_ranks"]),) + rs) is True, "collective", name + " shape", key + ":shape", where(p, e),
            f"{name}: Gather receives shape {vrepr(rb.shape)}, expected {vrepr((mk(S['n_ranks']),) + rs)}", p.desc())
    R.check(vkey(rb.buf.dtype) == vkey(S["dtype"]), "collective", name + " dtype", key + ":rdtype", where(p, e), f"{name}: Gather receives dtype {vrepr(rb.buf.dtype)}", p.desc())
    gd = global_dims(S, dims)
    ge = [mk(S["cells"][d.replace("_interface", "")] * (S["nx"] if d in X_DIMS else S["ny"] if d in Y_DIMS else ONE) + Poly.const(int(d in INTERFACE))) for d in dims]
    ext = ([6] if S["cube"] else []) + ge
    buf, origin, _ = check_result(R, I, p, S["out"], name, key, anchor, gd, ext, given)
    if buf is None:
        return
    ws = rank_loop(R, p, [buf], name, key)
    ws = [(w, l) for w, l in ws if w.seq > S["seq0"]]
    idx = S["generic"].get("")
    if not ws:
        R.violate(key + ":unwritten", anchor, f"{name}: the result is never written", p.desc())
        return
    if len(ws) != 1 or ws[0][1] is None or idx is None:
        R.undecided("route", name, f"the result is filled by {len(ws)} writes")
        return
    w, loop = ws[0]
    if not full_range(R, p, S, loop, name, key, w):
        return
    want = overlap_region(S, dims, idx)
    r = rank_index(S, idx)
    good = True
    v = w.arr
    axes = {a.src: a for a in v.axes}
    for k, (lo, hi, d) in enumerate(want):
        o = to_poly(origin[k])
        if d == "tile":
            if k in v.fixed:
                good = good and peq(p.facts, v.fixed[k], mk(o + lo)) is True
            else:
                good = good and k in axes and peq(p.facts, axes[k].start, mk(o + lo)) is True and peq(p.facts, axes[k].length, 1) is True
        else:
            good = good and k in axes and axes[k].step == 1 and peq(p.facts, axes[k].start, mk(o + lo)) is True and peq(p.facts, axes[k].length, mk(hi - lo)) is True
    order = [a.src for a in v.axes if not (S["cube"] and a.src == 0)]
    good = good and order == sorted(order) and len(v.axes) + len(v.fixed) == len(want)
    R.check(good, "route", name + " target", key + ":target", where(p, w), f"{name}: the data of rank {vrepr(mk(r))} is written to {vrepr(v)}, expected "
            + regrepr([(to_poly(o) + lo, to_poly(o) + hi) for o, (lo, hi, d) in zip(origin, want)]), p.desc())
    # source row
    mv = I.new(A.ArrV(e.msg.buf, [A.Axis(k + 1, 0, 1, n) for k, n in enumerate(rs)], {0: mk(r)}))
    c = A.content_of(I, mv)
    R.check(w.content is not None and same_content(p, w.content, 1, c) is True, "route", name + " row", key + ":row", where(p, w),
            f"{name}: into the region of rank {vrepr(mk(r))} goes {w.content!r}, expected {mv!r}", p.desc())
