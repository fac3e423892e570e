"""Halo-update scenarios on one generic rank of the cubed sphere, and the
region / rotation oracles they are judged against."""
from .comm import *


def horizontal_quantity(I, S, label, dims, n, m, units=None, typename=A.HOST, dtype=None):
    """quantity whose horizontal compute domain has m cells per axis and whose
    halo is at least n points wide on both sides"""
    o, e, sh = [], [], []
    for d in dims:
        if d in X_DIMS or d in Y_DIMS:
            od = n + I.sym(f"{label}.h_{d}", 0)
            ed = m + Poly.const(int(d in INTERFACE))
            pd = n + I.sym(f"{label}.p_{d}", 0)
        else:
            od, pd = I.sym(f"{label}.o_{d}", 0), I.sym(f"{label}.p_{d}", 0)
            # components of a vector share their other extents
            base = d.replace("_interface", "")
            cells = S.setdefault("cells", {})
            if base not in cells:
                cells[base] = I.sym(f"e_{base}", 1)
            ed = cells[base] + Poly.const(int(d in INTERFACE))
        o.append(od), e.append(ed), sh.append(od + ed + pd)
    arr = A.external(I, label, tuple(sh), dtype, S.get("typename", typename))
    units = units if units is not None else Term(f"{label}.units", (), {"nonnull": True, "kind": "str"})
    q = I.call_name("quantity.Quantity", arr, tuple(dims), units, origin=tuple(o), extent=tuple(e))
    S[label] = {"o": dict(zip(dims, o)), "e": dict(zip(dims, e)), "shape": dict(zip(dims, sh)), "arr": arr, "q": q,
                "dims": tuple(dims), "units": units, "version": arr.buf.version}
    return q


def axis_region(info, d, dirn, n, interior):
    """(start, stop) along dimension d of the n-point region at boundary
    `dirn` (edge or corner name)"""
    o, e = info["o"][d], info["e"][d]
    s = Poly.const(int(d in INTERFACE))
    parts = CORNERS.get(dirn, (dirn,))
    start = ("WEST" in parts and d in X_DIMS) or ("SOUTH" in parts and d in Y_DIMS)
    end = ("EAST" in parts and d in X_DIMS) or ("NORTH" in parts and d in Y_DIMS)
    if start:
        return (o + s, o + s + n) if interior else (o - n, o)
    if end:
        return (o + e - s - n, o + e - s) if interior else (o + e, o + e + n)
    return o, o + e


def region(info, dirn, n, interior):
    return [axis_region(info, d, dirn, n, interior) for d in info["dims"]]


def region_view(I, info, dirn, n, interior):
    """the oracle's own view of the region"""
    axes = []
    for k, (a, b) in enumerate(region(info, dirn, n, interior)):
        axes.append(A.Axis(k, mk(a), 1, mk(b - a)))
    v = I.new(A.ArrV(info["arr"].buf, axes))
    return v


def turn(I, v, dims, n):
    """v turned n times clockwise in the x-y plane (x to the right, y up)"""
    xs = [k for k, d in enumerate(dims) if d in X_DIMS]
    ys = [k for k, d in enumerate(dims) if d in Y_DIMS]
    px, py = (xs[0] if xs else None), (ys[0] if ys else None)
    axes = list(v.axes)

    def signed(k, s):
        a = v.axes[k]
        if s > 0:
            return a
        last = mk(to_poly(a.start) + to_poly(a.step) * (to_poly(a.length) - ONE))
        return A.Axis(a.src, last, mk(-to_poly(a.step)), a.length)
    for me, vec in ((px, (1, 0)), (py, (0, 1))):
        if me is None:
            continue
        a, b = ccw(vec, n)        # input direction shown along this output axis
        other = px if a else py
        if px is not None and py is not None:
            axes[me] = signed(other, a + b)
        else:
            # a single edge: where its positive direction points after n
            # clockwise turns
            c = ccw(vec, -n)
            axes[me] = signed(me, c[0] + c[1])
    return I.new(A.ArrV(v.buf, axes, v.fixed))


def rotated_pair(I, vx, vy, dims, n):
    """components of a vector field after n clockwise turns: list of (sign, view)"""
    src = {"x": vx, "y": vy}
    out = []
    for vec in ((1, 0), (0, 1)):
        a, b = ccw(vec, n)
        out.append((a + b, turn(I, src["x" if a else "y"], dims, n)))
    return out


def same_content(p, c, sign, view_content):
    """content polynomial equality, with sign, modulo the path's facts"""
    if c is None:
        return None
    w = view_content if sign > 0 else view_content.neg()
    if c.ops:
        return False
    num = normterm(p.facts, c.num * w.den - w.num * c.den)
    return not num.t


def normterm(F, poly):
    """normalise index polynomials inside element atoms"""
    m = {}
    for a in poly.atoms():
        b = norm_atom(F, a)
        if b is not a:
            m[a] = Poly.atom(b)
    return F.norm(poly.subst(m) if m else poly)


def norm_atom(F, a):
    if isinstance(a, Term) and a.op == "el":
        who, axes, fixed = a.args

        def n(v):
            return mk(F.norm(to_poly(v))) if isinstance(v, (Poly, Term)) else v
        ax2 = tuple((s, n(st), stp) if s is not None else (None, 0, 1) for s, st, stp in axes)
        fx2 = tuple((k, n(v)) for k, v in fixed)
        return Term("el", (who, ax2, fx2))
    return a


def shape_eq(p, s1, s2):
    if len(s1) != len(s2):
        return False
    r = True
    for a, b in zip(s1, s2):
        q = peq(p.facts, a, b)
        if q is not True:
            r = q if r is True else r
            if q is False:
                return False
    return r


def view_is(p, v, buf, reg):
    """is the view exactly the region [start, stop) per axis of buf, axes in order"""
    if not isinstance(v, A.ArrV) or v.buf is not buf or v.fixed or len(v.axes) != len(reg):
        return False
    for k, (a, (lo, hi)) in enumerate(zip(v.axes, reg)):
        if a.src != k or a.step != 1:
            return False
        if peq(p.facts, a.start, mk(to_poly(lo))) is not True or peq(p.facts, a.length, mk(to_poly(hi) - to_poly(lo))) is not True:
            return False
    return True


def covers(p, v, buf, reg):
    """same point set as the region, any axis order or direction"""
    if not isinstance(v, A.ArrV) or v.buf is not buf or v.fixed or len(v.axes) != len(reg):
        return False
    seen = set()
    for a in v.axes:
        if a.src is None or a.src in seen:
            return False
        seen.add(a.src)
        lo, hi = reg[a.src]
        st = to_poly(a.start)
        if a.step == -1:
            st = st - to_poly(a.length) + ONE
        elif a.step != 1:
            return False
        if peq(p.facts, mk(st), mk(to_poly(lo))) is not True or peq(p.facts, a.length, mk(to_poly(hi) - to_poly(lo))) is not True:
            return False
    return len(seen) == len(buf.shape)


def fix_contig(I, value):
    """decide contiguity of caller arrays uniformly (None: explore both)"""
    if I.S.get("own_contig"):
        return
    if value is None:
        I.hooks.pop("contig", None)
    else:
        I.hooks["contig"] = lambda I, v, order: value if not (v.buf.order == "C" and whole(v)) else None


def whole(v):
    return not v.fixed and all(a.src == k and a.step == 1 and a.start == 0 and vkey(a.length) == vkey(v.buf.shape[k]) for k, a in enumerate(v.axes))


def cube_comm(I, S, t, parity_rank=None):
    """communicator of a generic rank (t, j, i) with symbolic layout"""
    cp = cube_world(I, S, t)
    size = Poly.const(6) * S["L"] * S["L"]
    comm = I.new(CommObj(S["rank"], size))
    S["comm"], S["cp"] = comm, cp
    S["cc"] = I.call_name("communicator.CubedSphereCommunicator", comm, cp)
    return S["cc"]


def boundaries(I, S):
    """{direction: (to_rank, rotations)} from the partitioner"""
    out = {}
    for d in BOUNDARIES:
        b = attrs_of(I.meth(S["cp"], "boundary", const(I, d), mk(S["rank"])))
        out[d] = None if b is None else (b["to_rank"], b["n_clockwise_rotations"] % 4)
    return out


def halo_scenario(I, t, kind, dims, contig=False, cases=True, wait=True):
    """kind: 'scalar' (dims of q) or 'vector' (dims of x and y)"""
    S = I.S
    fix_contig(I, contig)
    cc = cube_comm(I, S, t)
    n = S["n"] = I.sym("n", 1)
    # at least n+1 cells per rank, so that interior regions exist
    m = S["m"] = n + ONE + I.sym("m'", 0)
    if kind == "scalar":
        q = horizontal_quantity(I, S, "q", dims, n, m)
        S["fields"] = ["q"]
        start = lambda: I.meth(cc, "start_halo_update", q, mk(n))
    else:
        x = horizontal_quantity(I, S, "x", dims[0], n, m)
        y = horizontal_quantity(I, S, "y", dims[1], n, m)
        S["fields"] = ["x", "y"]
        start = lambda: I.meth(cc, "start_vector_halo_update", x, y, mk(n))
    S["bnd"] = boundaries(I, S)
    for f in S["fields"]:
        S[f]["version"] = S[f]["arr"].buf.version
    S["seq0"] = I.seq
    req = S["req"] = start()
    S["seq1"] = I.seq
    if wait:
        I.meth(req, "wait")
    S["seq2"] = I.seq


def classify(p):
    """sends and receives of a scenario, in order, with the direction whose
    neighbour they address"""
    S = p.S
    sends, recvs = [], []
    for e in comm_events(p.events):
        if e.seq <= S["seq0"]:
            continue
        if e.op in ("Isend", "Send", "isend", "send"):
            sends.append(e)
        elif e.op in ("Recv", "Irecv", "recv"):
            recvs.append(e)
    return sends, recvs


def direction_of(p, e):
    """directions whose neighbour rank is the peer of a message"""
    return [d for d, b in p.S["bnd"].items() if b is not None and peq(p.facts, e.peer, b[0]) is True]


SCALAR_DIMS = [("y", "x"), ("z", "y", "x"), ("x", "z", "y"), ("y_interface", "x_interface"), ("x_interface", "y_interface", "z_interface")]
VECTOR_DIMS = [(("y", "x"), ("y", "x")), (("z", "y_interface", "x"), ("z", "y", "x_interface")), (("y", "x_interface"), ("y_interface", "x")),
               (("x", "y", "z"), ("x", "y", "z"))]
