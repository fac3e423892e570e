"""C04: rotations of scalars and vectors are exact quarter turns."""
from ..halo import *
import itertools

FLOOR = 250

SC = [("y", "x"), ("x", "y"), ("z", "y", "x"), ("y", "z", "x"), ("x", "z_soil", "y"), ("y_interface", "x_interface"), ("x", "y_interface"),
      ("x_interface", "y", "z_interface"), ("x_bin", "x", "z", "y_interface"), ("x",), ("y",), ("z", "x_interface"), ("y_interface", "z"), ("z",),
      ("z", "x_bin")]
VEC_DIMS = [("y", "x"), ("x", "y"), ("z", "y", "x"), ("y_interface", "x", "z"), ("x", "z", "y"), ("x_interface", "y_interface"), ("x",), ("y", "z")]


def run(R):
    R.rule("scalar", "rotate_scalar_data by n = 4m+c (any integer m) moves every element as c clockwise quarter turns in the x-y plane; a lone "
                     "horizontal axis is reversed exactly when its direction turns against the axis it becomes")
    R.rule("vector", "rotate_vector_data yields the turned components (x, y) -> combination exchanged and negated by the same turn")
    R.rule("cancel", "rotating by n then -n, and four times by 1, gives back every element with its sign")
    R.rule("pure", "rotation writes to none of its inputs")
    R.rule("message", "every halo message carries the field turned by the rotation of its boundary, in the shape of the receiving halo region")
    R.assume("both components of a vector have x and y axes at the same positions")
    R.assume("end to end: same cell count per rank in x and y, at least n+1; halo at least n wide")
    W = World(R)
    s_anchor, v_anchor = fwhere(W.I, "rotate.rotate_scalar_data"), fwhere(W.I, "rotate.rotate_vector_data")
    for dims in SC:
        for c in range(4):
            for as_list in ((False, True) if len(dims) == 2 else (False,)):
                W.run("scalar", f"{dims} c={c}", lambda I, a=(dims, c, as_list): scalar(I, *a), lambda p, a=(dims, c): judge_scalar(R, W.I, p, *a, s_anchor))
    for dims in VEC_DIMS:
        for c in range(4):
            W.run("vector", f"{dims} c={c}", lambda I, a=(dims, c): vector(I, *a), lambda p, a=(dims, c): judge_vector(R, W.I, p, *a, v_anchor))
            W.run("cancel", f"{dims} c={c}", lambda I, a=(dims, c): cancel(I, *a), lambda p, a=(dims, c): judge_cancel(R, p, *a, v_anchor))
    for t in range(6):
        for kind, fam in (("scalar", SCALAR_DIMS), ("vector", VECTOR_DIMS)):
            for ds in fam:
                W.run("message", f"tile {t} {kind} {ds}", lambda I, a=(t, kind, ds): halo_scenario(I, *a, wait=False),
                      lambda p, a=(t, kind, ds): judge_messages(R, W.I, p, *a))


def turns(I, c):
    m = I.sym("m")
    return mk(Poly.const(4) * m + Poly.const(c))


def field(I, label, dims):
    return A.external(I, label, tuple(I.sym(f"{label}.n{k}", 1) for k in range(len(dims))))


def scalar(I, dims, c, as_list):
    S = I.S
    v = S["v"] = field(I, "f", dims)
    S["c0"] = A.content_of(I, v)
    d = I.new(ListV(dims)) if as_list else dims
    S["got"] = I.call_name("rotate.rotate_scalar_data", v, d, ExtV("numpy"), turns(I, c))


def wrote(p, bufs):
    return [e for e in walk_events(p.events, ("write",)) if any(e.arr.buf is b for b in bufs)]


def judge_scalar(R, I, p, dims, c, anchor):
    key = f"C04:scalar:{','.join(dims)}:{c}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"rotating {dims} by {c} (mod 4) raises {exc_desc(p)}", p.desc())
        return
    S = p.S
    want = turn(I, S["v"], dims, c)
    good = isinstance(S["got"], A.ArrV) and shape_eq(p, S["got"].shape, want.shape) is True
    good = good and same_content(p, A.content_of(I, S["got"]), 1, A.content_of(I, want)) is True
    R.check(good, "scalar", f"{dims} c={c}", key, anchor, f"rotate_scalar_data of dims {dims} by {c} (mod 4) clockwise turns gives "
            f"{vrepr(S['got'])}, expected {want!r}", p.desc())
    w = wrote(p, [S["v"].buf])
    R.check(not w, "pure", f"scalar {dims} {c}", key + ":pure", where(p, w[0]) if w else anchor, "rotate_scalar_data modifies its input", p.desc())


def vector(I, dims, c):
    S = I.S
    S["x"], S["y"] = field(I, "u", dims), field(I, "v", dims)
    S["got"] = I.B.items_of(I, I.call_name("rotate.rotate_vector_data", S["x"], S["y"], turns(I, c), dims, ExtV("numpy")))


def judge_vector(R, I, p, dims, c, anchor):
    key = f"C04:vector:{','.join(dims)}:{c}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"rotating a vector of {dims} by {c} (mod 4) raises {exc_desc(p)}", p.desc())
        return
    S = p.S
    want = rotated_pair(I, S["x"], S["y"], dims, c)
    for k, comp in enumerate("xy"):
        g = S["got"][k] if len(S["got"]) == 2 else None
        sign, v = want[k]
        good = isinstance(g, A.ArrV) and shape_eq(p, g.shape, v.shape) is True and same_content(p, A.content_of(I, g), sign, A.content_of(I, v)) is True
        R.check(good, "vector", f"{dims} c={c} {comp}", key + ":" + comp, anchor,
                f"{comp} component after {c} (mod 4) clockwise turns of dims {dims} is {describe(I, g)}, expected {'-' if sign < 0 else ''}{v!r}", p.desc())
    w = wrote(p, [S["x"].buf, S["y"].buf])
    R.check(not w, "pure", f"vector {dims} {c}", key + ":pure", where(p, w[0]) if w else anchor, "rotate_vector_data modifies its input", p.desc())


def describe(I, g):
    return repr(A.content_of(I, g)) if isinstance(g, A.ArrV) and g.buf.content is not None else vrepr(g)


def cancel(I, dims, c):
    S = I.S
    S["x"], S["y"] = field(I, "u", dims), field(I, "v", dims)
    n = turns(I, c)
    both = len([d for d in dims if d in X_DIMS + Y_DIMS]) == 2

    def rot(pair, k):
        return I.B.items_of(I, I.call_name("rotate.rotate_vector_data", pair[0], pair[1], k, dims, ExtV("numpy")))
    S["both"] = both
    if not both:
        return
    S["back"] = rot(rot((S["x"], S["y"]), n), I.unop("USub", n))
    if c == 1:
        pair = (S["x"], S["y"])
        for _ in range(4):
            pair = rot(pair, 1)
        S["four"] = pair


def judge_cancel(R, p, dims, c, anchor):
    key = f"C04:cancel:{','.join(dims)}:{c}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"rotating back {dims} raises {exc_desc(p)}", p.desc())
        return
    S = p.S
    if not S["both"]:
        return
    for name in ("back", "four"):
        if name not in S:
            continue
        for g, v in zip(S[name], (S["x"], S["y"])):
            good = isinstance(g, A.ArrV) and same_content(p, A.content_of(None, g), 1, A.content_of(None, v)) is True
            R.check(good, "cancel", f"{dims} c={c} {name}", key + ":" + name, anchor,
                    f"{'rotating by n and -n' if name == 'back' else 'four quarter turns'} of {v!r} gives {describe(None, g)}", p.desc())


def judge_messages(R, I, p, t, kind, dims):
    S = p.S
    key = f"C04:message:{kind}:{dims}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{kind} halo update of {dims} on tile {t} raises {exc_desc(p)}", p.desc())
        return
    sends, recvs = classify(p)
    n = S["n"]
    for e in sends:
        ds = direction_of(p, e)
        if len(ds) != 1:
            continue
        d = ds[0]
        k = S["bnd"][d][1]
        # candidates: the field, or either component, as the receiver expects it
        if kind == "scalar":
            want = [(1, turn(I, region_view(I, S["q"], d, n, True), S["q"]["dims"], -k))]
        else:
            vx, vy = region_view(I, S["x"], d, n, True), region_view(I, S["y"], d, n, True)
            want = rotated_pair(I, vx, vy, S["x"]["dims"], -k)
        if e.content is None:
            R.undecided("message", f"tile {t} {kind} {dims} {d}", "content of the message is not tracked")
            continue
        which = [i for i, (s, v) in enumerate(want) if same_content(p, e.content, s, A.content_of(I, v)) is True and shape_eq(p, e.array.shape, v.shape) is True]
        if not R.check(len(which) >= 1, "message", f"tile {t} {kind} {dims} {d}", f"{key}:{d}:{k}", where(p, e),
                       f"message across {d} (rotation {k}) carries {e.content!r}, expected " + " or ".join(f"{'-' if s < 0 else ''}{v!r}" for s, v in want), p.desc()):
            continue
        # the receiver's region over the corresponding boundary has that shape
        f = S["fields"][which[0]]
        back = back_of(d, k)
        reg = region(S[f], back, n, False)
        R.check(all(peq(p.facts, a, mk(hi - lo)) is True for a, (lo, hi) in zip(e.array.shape, reg)), "message", f"tile {t} {kind} {dims} {d} shape",
                f"{key}:{d}:{k}:shape", where(p, e), f"message across {d} has shape {vrepr(e.array.shape)}, the halo region {back} of {f} it is received into "
                f"has {[vrepr(mk(hi - lo)) for lo, hi in reg]}", p.desc())


def back_of(d, k):
    if d in CORNERS:
        a, b = CORNERS[d]
        s = {back_direction(a, k), back_direction(b, k)}
        return next(c for c, ab in CORNERS.items() if set(ab) == s)
    return back_direction(d, k)
