"""C19: corner filling copies adjacent halo data into tile corners only."""
from ..halo import *
from .c24 import at_version

FLOOR = 60
DIMS = [("x", "y"), ("x_interface", "y"), ("x", "y_interface", "z"), ("x_interface", "y_interface"), ("x", "y", "z", "x_bin"), ("x_interface", "y", "z_interface")]
CORNER = {"SOUTHWEST": (-1, -1), "SOUTHEAST": (1, -1), "NORTHWEST": (-1, 1), "NORTHEAST": (1, 1)}


def run(R):
    R.rule("corner", "with a, b = 0..n-1 the distances of a corner point from the compute domain along the stencil direction and across it: the point gets the halo value at depth b across the stencil direction's "
                     "edge and a points (plus one if that dimension is staggered) into the compute domain, over the compute domain of the other dimensions")
    R.rule("where", "exactly the corners that are corners of the tile face on that rank are filled, once each, and nothing else is written")
    R.assume("n >= 1, the halo is at least n wide and the compute domain at least n+1 points wide (otherwise the regions do not exist)")
    W = World(R)
    for dims in DIMS:
        for direction in "xy":
            W.run("corner", f"{direction} {dims}", lambda I, a=(dims, direction): fill(I, *a), lambda p, a=(dims, direction): judge(R, W.I, p, *a))


def fill(I, dims, direction):
    S = I.S
    I.hooks.clear()
    fix_contig(I, False)
    tile_layout(I, S)
    S["part"] = tile_partitioner(I, S)
    n = S["n"] = I.sym("n", 1)
    q = corner_quantity(I, S, dims, n)
    S["seq0"] = I.seq
    S["out"] = I.call_name("_corners.fill_scalar_corners", q, direction, S["part"], mk(S["tile_rank"]), mk(n))
    S["at"] = {"SOUTH": I.cmp_num("==", mk(S["j"]), 0), "NORTH": I.cmp_num("==", mk(S["j"] - S["ny"] + ONE), 0),
               "WEST": I.cmp_num("==", mk(S["i"]), 0), "EAST": I.cmp_num("==", mk(S["i"] - S["nx"] + ONE), 0)}


def corner_quantity(I, S, dims, n):
    o, e, sh = [], [], []
    for d in dims:
        if d in X_DIMS or d in Y_DIMS:
            od, pd = n + I.sym(f"h_{d}", 0), n + I.sym(f"p_{d}", 0)
            ed = n + ONE + I.sym(f"m_{d}", 0)
        else:
            od, pd, ed = I.sym(f"o_{d}", 0), I.sym(f"p_{d}", 0), I.sym(f"e_{d}", 1)
        o.append(od), e.append(ed), sh.append(od + ed + pd)
    arr = A.external(I, "q", tuple(sh))
    q = I.call_name("quantity.Quantity", arr, tuple(dims), "m", origin=tuple(o), extent=tuple(e))
    S["q"] = {"o": dict(zip(dims, o)), "e": dict(zip(dims, e)), "arr": arr, "dims": tuple(dims), "shape": dict(zip(dims, sh))}
    return q


def judge(R, I, p, dims, direction):
    S = p.S
    key = f"C19:{direction}:{','.join(dims)}"
    anchor = fwhere(I, "_corners.fill_scalar_corners")
    name = f"filling corners of {dims} along {direction}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    writes = [w for w in walk_events(p.events, ("write",)) if w.arr.buf is S["q"]["arr"].buf]
    n, buf = S["n"], S["q"]["arr"].buf
    for c, (sx, sy) in CORNER.items():
        here = all(S["at"][e] for e in CORNERS[c])
        reg = region(S["q"], c, n, False)
        hit = [w for w in writes if covers(p, w.arr, buf, reg)]
        if not R.check(len(hit) == int(here), "where", f"{name} {c}", f"{key}:{c}:where", where(p, hit[0]) if hit else anchor,
                       f"{name}: the {c} corner is filled {len(hit)} times on a rank that is {'' if here else 'not '}at that corner", p.desc()):
            writes = [w for w in writes if w not in hit]
            continue
        for w in hit:
            writes.remove(w)
            # in the axis order of the write
            want = [oracle_axis(S, d, k, dims, direction, sx, sy) for k, d in enumerate(dims)]
            ax = []
            for a in w.arr.axes:
                x = want[a.src]
                ax.append(x if a.step == 1 else A.Axis(x.src, mk(to_poly(x.start) + to_poly(x.step) * (to_poly(x.length) - ONE)), -x.step, x.length))
            src = I.new(A.ArrV(buf, ax))
            wc = at_version(buf, w.version, lambda: A.content_of(I, src))
            if w.content is None:
                R.undecided("corner", f"{name} {c}", "content not tracked")
            else:
                R.check(same_content(p, normver(p, w.content, buf), 1, normver(p, wc, buf)) is True, "corner", f"{name} {c}", f"{key}:{c}:source", where(p, w),
                        f"{name}: the {c} corner gets {w.content!r}, expected {vrepr(src)}", p.desc())
    R.check(not writes, "where", name + " rest", key + ":extra", where(p, writes[0]) if writes else anchor, f"{name} also writes {vrepr(writes[0].arr) if writes else ''}", p.desc())


def normver(p, c, buf):
    """corner blocks do not overlap the halo edges the values come from, so
    which of the previous corners had been filled does not matter"""
    m = {}
    for a in c.num.atoms():
        if isinstance(a, Term) and a.op == "el" and a.args[0][1] == buf.oid:
            m[a] = Poly.atom(Term("el", ((buf.label, buf.oid, 0),) + a.args[1:]))
    return type(c)(c.num.subst(m), c.den, c.ops) if m else c


def oracle_axis(S, d, k, dims, direction, sx, sy):
    """axis of the source region shown along output axis k"""
    o, e, n = S["q"]["o"], S["q"]["e"], S["n"]
    if k > 1:
        return A.Axis(k, mk(o[d]), 1, mk(e[d]))
    s = (sx, sy)[k]                       # which end of this axis the corner is at
    main = 0 if direction == "x" else 1   # stencil axis
    other = 1 - main
    so = (sx, sy)[other]
    if k == main:
        # a grows away from the domain along k; the source runs into the
        # domain along the other axis
        od, ed = o[dims[other]], e[dims[other]]
        sh = Poly.const(int(dims[other] in INTERFACE))
        near, step = (od + sh, 1) if so < 0 else (od + ed - ONE - sh, -1)      # a = 0
        src = other
    else:
        # b grows away from the domain along k; the source runs outwards
        # along the stencil axis
        sm = (sx, sy)[main]
        od, ed = o[dims[main]], e[dims[main]]
        near, step = (od - ONE, -1) if sm < 0 else (od + ed, 1)                # b = 0
        src = main
    if s < 0:        # index 0 of the output axis is the farthest point
        return A.Axis(src, mk(near + Poly.const(step) * (n - ONE)), -step, mk(n))
    return A.Axis(src, mk(near), step, mk(n))
