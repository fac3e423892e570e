"""C18: operations modify only what they are documented to modify."""
from ..archive import *
from ..io_models import FileObj
from ..effects import freeze, change
from . import c21
from .c24 import edge

FLOOR = 400
VIEWS = ("plain", "reversed", "sliced")
SHARING = ("separate", "same object", "shared array", "halves")
XFAM = [("y", "x"), ("z", "y", "x"), ("x", "y_interface"), ("x_interface", "z", "y")]
VECS = [(("y", "x"), ("y", "x")), (("z", "y_interface", "x"), ("z", "y", "x_interface"))]
SYNC = [(("y_interface", "x"), ("y", "x_interface")), (("z", "x", "y_interface"), ("z", "x_interface", "y"))]
SG = [("y", "x"), ("z", "y_interface", "x"), ("x_interface", "x_bin")]


def run(R):
    R.rule("inputs", "sending, gathering, scattering from the root, computing tendencies, writing, storing, allocating, converting, transposing and rotating write no point of their inputs' memory and leave dictionaries, lists, dimensions, units, origins, extents and attributes as they were")
    R.rule("confined", "nudging writes only compute-domain points of the nudged variables, halo updates only points outside the compute domain, synchronisation only the last row or column of a component, scatter and gather only the compute domain of the receiving quantity")
    R.rule("entries", "state scatter and gather change the receiving dictionary only at the names transferred, and quantities given for receiving stay in place")
    W = World(R)
    deep = R.tier == "thorough"

    def go(label, key, f, *a):
        W.run("inputs", label, lambda I: f(I, *a), lambda p: judge(R, W.I, p, label, key))
    for dims in XFAM if deep else XFAM[1:3]:
        for share in SHARING:
            for how in ("get_nudging_tendencies", "apply_nudging"):
                for scales in (("a",), ("a", "b"), ()) if deep else (("a",), ("a", "b")):
                    go(f"{how} of {scales} on {dims}, {share}", f"C18:{how}", nudging, how, dims, share, scales)
    for t in range(6) if deep else (0, 3):
        for view in VIEWS:
            for dims in XFAM if deep else XFAM[1:3]:
                go(f"halo update of {dims} on tile {t}, {view} array", "C18:halo_update", halo, t, view, (dims,))
            for v in VECS:
                go(f"vector halo update of {v} on tile {t}, {view} arrays", "C18:vector_halo_update", halo, t, view, v)
            for v in SYNC:
                go(f"synchronisation of {v} on tile {t}, {view} arrays", "C18:synchronize", sync, t, view, v)
    for cube in (False, True):
        for dims in SG:
            for op in ("scatter", "gather"):
                for role in ("root", "client"):
                    for given in (False, True):
                        for view in VIEWS if deep else VIEWS[1:] if role == "root" else VIEWS[:1]:
                            go(f"{'cube' if cube else 'tile'} {op} of {dims} on the {role}{', receiver given' if given else ''}, {view} array", f"C18:{op}:{role}", scatter_gather, cube, dims, op, role, given, view)
        for op in ("scatter_state", "gather_state"):
            for role in ("root", "client"):
                for given in ("none", "empty", "partial"):
                    go(f"{'cube' if cube else 'tile'} {op} on the {role}, receiver {given}", f"C18:{op}:{role}", state_op, cube, op, role, given)
    for what in ("write_state", "to_dataset", "data_array", "accessors", "view reads"):
        for dims in ((), ("x",), ("z", "y_interface", "x")):
            go(f"{what} of {dims}", f"C18:{what}", convert, what, dims)
    for dims in (("y", "x"), ("x_interface", "z", "y"), ("y", "z"), ("x_bin", "x")):
        for target in ("reversed", "rotated", "groups", "list"):
            for np_ in (False, True):
                go(f"transpose of {dims} {target}", "C18:transpose", transpose, dims, target, np_)
        for n in range(-3, 5):
            for vector in (False, True):
                if vector and len([d for d in dims if d in X_DIMS + Y_DIMS]) < 2:
                    continue
                go(f"rotation of a {'vector' if vector else 'scalar'} on {dims} by {n}", "C18:rotate", rotate, dims, n, vector)
    for cls in ("partitioner.TilePartitioner", "partitioner.CubedSpherePartitioner", "initialization.sizer.SubtileGridSizer"):
        go(f"{cls} from namelist", f"C18:namelist:{cls}", namelist, cls)
    for how in ("tile parameters", "directly"):
        for dims in (("y", "x"), ("soil", "z", "x_interface"), ()):
            go(f"allocation of {dims}, sizer made {how}", "C18:allocate", allocation, how, dims)
    for how in ("array", "data array"):
        go(f"construction from {how}", f"C18:construct:{how}", construct, how)
    for fn in ("utils.ensure_contiguous", "utils.is_contiguous", "buffer.send_buffer", "utils.assign_array"):
        for contig in (False, True):
            go(f"{fn} of a {'contiguous' if contig else 'strided'} array", f"C18:{fn}", helper, fn, contig)
    for n in (1, 2):
        for lead in ((), ("z",)):
            for who in ("root", "client"):
                go(f"{n} snapshots of {lead + ('y', 'x')} stored by the {who}", "C18:store", store, n, lead + ("y", "x"), who)
    for req in ("list", "all"):
        for to_state in (False, True):
            go(f"restart with {req} requested, state given {to_state}", "C18:restart", restart, req, to_state)



class Watch:
    """objects that must stay as they are, and memory with what may be written"""

    def __init__(self, I, roots, bufs):
        """bufs: [(label, buffer, allowed region or None, 'inside'|'outside')]"""
        S = I.S
        S["roots"] = roots
        S["bufs"] = bufs
        S["f0"] = [freeze(I, r) for _, r in roots]
        S["seq0"] = I.seq
        S["entries"] = []

    @staticmethod
    def done(I):
        S = I.S
        S["seq1"] = I.seq
        S["f1"] = [freeze(I, r) for _, r in S["roots"]]


def view_of(I, S, label, view):
    """replace the memory of a quantity by a view of larger memory: axes in
    reverse order, or every part a slice of a bigger array"""
    info = S[label]
    q = info["q"]
    if view == "plain":
        info["base"], info["map"] = info["arr"].buf, [(k, Poly.const(0)) for k in range(len(info["dims"]))]
        return q
    sh = [to_poly(info["shape"][d]) for d in info["dims"]]
    n = len(sh)
    if view == "reversed":
        base = A.external(I, label + ".base", tuple(mk(s) for s in sh[::-1]), info["arr"].buf.dtype)
        arr = A.getattr_(I, base, "T")
        mp = [(n - 1 - k, Poly.const(0)) for k in range(n)]
    else:
        lo = [I.sym(f"{label}.lo{k}", 1) for k in range(n)]
        base = A.external(I, label + ".base", tuple(mk(l + s + I.sym(f"{label}.hi{k}", 1)) for k, (l, s) in enumerate(zip(lo, sh))), info["arr"].buf.dtype)
        arr = A.getitem(I, base, tuple(slice(mk(l), mk(l + s)) for l, s in zip(lo, sh)))
        mp = [(k, l) for k, l in enumerate(lo)]
    q = I.call_name("quantity.Quantity", arr, info["dims"], info["units"], origin=tuple(mk(info["o"][d]) for d in info["dims"]), extent=tuple(mk(info["e"][d]) for d in info["dims"]))
    info.update(q=q, arr=arr, base=base.buf, map=mp, version=base.buf.version)
    return q


def on_base(info, reg):
    """region of a quantity's array in the axes of its memory"""
    out = [None] * len(reg)
    for (k, off), (lo, hi) in zip(info["map"], reg):
        out[k] = (to_poly(lo) + off, to_poly(hi) + off)
    return out


def compute(info):
    return [(info["o"][d], info["o"][d] + info["e"][d]) for d in info["dims"]]


def start(I, contig=False):
    I.hooks.clear()
    I.inject = None
    fix_contig(I, contig)


def plain(info):
    info.setdefault("base", info["arr"].buf)
    info.setdefault("map", [(k, Poly.const(0)) for k in range(len(info["dims"]))])
    return info


# --- nudging ---------------------------------------------------------------------

def nudging(I, how, dims, share, scales):
    S = I.S
    start(I)
    ext = {d: I.sym("m_" + d, 2) for d in dims}
    for n in ("a", "b", "c", "ra", "rb"):
        make(I, S, n, dims, ext)
        plain(S[n])
    ref = {n: S["r" + n]["q"] for n in "ab"}
    if share == "same object":
        ref["a"] = S["a"]["q"]
    elif share == "shared array":
        a = S["a"]
        ref["a"] = I.call_name("quantity.Quantity", a["arr"], dims, a["units"], origin=tuple(mk(a["o"][d]) for d in dims), extent=tuple(mk(a["e"][d]) for d in dims))
    elif share == "halves":
        # state and reference are the two halves of one array
        a = S["a"]
        base = A.external(I, "pair", (2,) + tuple(mk(to_poly(a["shape"][d])) for d in dims))
        org = dict(origin=tuple(mk(a["o"][d]) for d in dims), extent=tuple(mk(a["e"][d]) for d in dims))
        a["arr"] = A.getitem(I, base, 0)
        a["q"] = I.call_name("quantity.Quantity", a["arr"], dims, a["units"], **org)
        ref["a"] = I.call_name("quantity.Quantity", A.getitem(I, base, 1), dims, a["units"], **org)
        a["base"], a["map"], a["half"] = base.buf, [(k + 1, Poly.const(0)) for k in range(len(dims))], 0
    t = Term("time", (), {"nonnull": True})
    state = I.new(DictV([["a", S["a"]["q"]], ["c", S["c"]["q"]], ["b", S["b"]["q"]], ["time", t]]))
    reference = I.new(DictV([["b", ref["b"]], ["a", ref["a"]], ["c", S["c"]["q"]]]))
    sc = I.new(DictV([[n, I.call(ExtV("datetime.timedelta"), [], {"seconds": mk(I.sym("T" + n, 1))})] for n in scales]))
    bufs = []
    for n in ("a", "b", "c", "ra", "rb"):
        i = S[n]
        reg = None
        if how == "apply_nudging" and n in scales:
            reg = on_base2(i, compute(i))
        bufs.append((n, i["base"], reg, "inside"))
    Watch(I, [("state", state), ("reference", reference), ("timescales", sc)], bufs)
    if how == "apply_nudging":
        I.call_name("nudging.apply_nudging", state, reference, sc, timestep=I.call(ExtV("datetime.timedelta"), [], {"seconds": mk(I.sym("dt", 0))}))
    else:
        I.call_name("nudging.get_nudging_tendencies", state, reference, sc)
    Watch.done(I)


def on_base2(info, reg):
    out = on_base(dict(info, map=[(k - ("half" in info), o) for k, o in info["map"]]), reg)
    return [(Poly.const(0), ONE)] + out if "half" in info else out


# --- halo ------------------------------------------------------------------------

def cubed(I, t):
    S = I.S
    start(I)
    part = cube_world(I, S, t)
    S["comm"] = I.new(CommObj(S["rank"], 6 * S["L"] * S["L"], "comm"))
    return I.call_name("communicator.CubedSphereCommunicator", S["comm"], part)


def halo(I, t, view, dims):
    S = I.S
    cc = cubed(I, t)
    n = I.sym("n", 1)
    m = n + I.sym("m", 1)
    qs = []
    for l, d in zip("xy", dims):
        horizontal_quantity(I, S, l, d, n, m)
        qs.append(view_of(I, S, l, view))
    Watch(I, [(l, q) for l, q in zip("xy", qs)], [(l, S[l]["base"], on_base(S[l], compute(S[l])), "outside") for l in "xy"[:len(qs)]])
    I.meth(cc, "halo_update" if len(qs) == 1 else "vector_halo_update", *qs, mk(n))
    Watch.done(I)


def sync(I, t, view, dims):
    S = I.S
    cc = cubed(I, t)
    m = I.sym("m", 1)
    qs = []
    for l, d in zip("xy", dims):
        horizontal_quantity(I, S, l, d, Poly.const(0), m)
        qs.append(view_of(I, S, l, view))
    Watch(I, [(l, q) for l, q in zip("xy", qs)],
          [(l, S[l]["base"], on_base(S[l], edge(S, d)[3]), "inside") for l, d in (("x", "NORTH"), ("y", "EAST"))])
    I.meth(cc, "synchronize_vector_interfaces", *qs)
    Watch.done(I)


# --- scatter and gather --------------------------------------------------------------

def scatter_gather(I, cube, dims, op, role, given, view):
    S = I.S
    start(I)
    world(I, S, cube)
    r, g = sizes(I, S, dims)
    gd, ge = global_dims(S, dims), global_ext(S, g)
    rank = 0 if role == "root" else client_rank(I, S)
    if rank is None:
        S["skip"] = True
        return
    sd, se, rd, re_ = (gd, ge, dims, r) if op == "scatter" else (dims, r, gd, ge)
    make(I, S, "src", sd, se)
    src = view_of(I, S, "src", view)
    dst = None
    if given:
        make(I, S, "dst", rd, re_)
        dst = view_of(I, S, "dst", view)
    S["comm"], cc = communicator(I, S, rank, root_values=None if role == "root" else [I.getattr(src, "metadata")])
    bufs = [("sent quantity", S["src"]["base"], None, "inside")]
    roots = [("sent quantity", src)]
    if given:
        receives = op == "scatter" or role == "root"
        bufs.append(("receiving quantity", S["dst"]["base"], on_base(S["dst"], compute(S["dst"])) if receives else None, "inside"))
        roots.append(("receiving quantity", dst))
    Watch(I, roots, bufs)
    if op == "scatter":
        I.meth(cc, "scatter", **({"send_quantity": src} if role == "root" else {}), **({"recv_quantity": dst} if given else {}))
    else:
        I.meth(cc, "gather", src, **({"recv_quantity": dst} if given else {}))
    Watch.done(I)


def state_op(I, cube, op, role, given):
    S = I.S
    start(I)
    world(I, S, cube)
    dims = ("y", "x")
    r, g = sizes(I, S, dims)
    gd, ge = global_dims(S, dims), global_ext(S, g)
    rank = 0 if role == "root" else client_rank(I, S)
    if rank is None:
        S["skip"] = True
        return
    scatter = op == "scatter_state"
    sd, se, rd, re_ = (gd, ge, dims, r) if scatter else (dims, r, gd, ge)
    for n in ("air", "wind"):
        plain(make(I, S, n, sd, se) and S[n])
    send = I.new(DictV([["wind", S["wind"]["q"]], ["time", I.new(date("t"))], ["air", S["air"]["q"]]]))
    roots, bufs = [], []
    if not scatter or role == "root":
        roots.append(("the sent state", send))
    bufs += [("sent " + n, S[n]["base"], None, "inside") for n in ("air", "wind")]
    recv = None
    if given != "none":
        es = []
        if given == "partial":
            for n, l in (("rair", "air"), ("other", "other")):
                make(I, S, n, rd, re_)
                plain(S[n])
                es.append([l, S[n]["q"]])
            receives = scatter or role == "root"
            bufs += [("received air", S["rair"]["base"], on_base(S["rair"], compute(S["rair"])) if receives else None, "inside"), ("another entry", S["other"]["base"], None, "inside")]
            roots += [("the quantity received into", S["rair"]["q"]), ("another entry", S["other"]["q"])]
        recv = I.new(DictV(es))
        if not scatter and role == "client":
            roots.append(("the receiving state of a client", recv))
    names = I.new(ListV(["wind", "air"]))
    metas = [I.getattr(S[n]["q"], "metadata") for n in ("wind", "air")]
    S["comm"], cc = communicator(I, S, rank, root_values=None if role == "root" or not scatter else [names] + metas + [I.new(date("t"))])
    Watch(I, roots, bufs)
    kw = {"recv_state": recv} if recv is not None else {}
    if not scatter or role == "root":
        kw["send_state"] = send
    I.meth(cc, op, **kw)
    Watch.done(I)
    if recv is not None and given == "partial":
        now = {k: v for k, v in recv.entries}
        want = {"air": S["rair"]["q"], "other": S["other"]["q"]}
        for k, v in want.items():
            S["entries"].append((f"entry {k} of the receiving state is {vrepr(now.get(k))}", now.get(k) is v))
        extra = set(map(str, now)) - {"air", "other", "wind", "time"}
        S["entries"].append((f"the receiving state has the new entries {sorted(extra)}", not extra))


# --- conversions ---------------------------------------------------------------------

def simple(I, S, label, dims):
    make(I, S, label, dims, {d: I.sym("m_" + d, 1) for d in dims})
    return plain(S[label])["q"]


def convert(I, what, dims):
    S = I.S
    start(I)
    S["files"] = []
    q = simple(I, S, "q", dims)
    q2 = simple(I, S, "q2", dims[:1])
    state = I.new(DictV([["air", q], ["time", I.new(date("t"))], ["second", q2]]))
    if what == "to_dataset":
        state.entries.pop(1)
    Watch(I, [("state", state)], [(l, S[l]["base"], None, "inside") for l in ("q", "q2")])
    if what == "write_state":
        I.call_name("io.write_state", state, "gs://bucket/state.nc")
    elif what == "to_dataset":
        I.call_name("_xarray.to_dataset", state)
    elif what == "data_array":
        I.getattr(q, "data_array")
    elif what == "accessors":
        for n in ("units", "gt4py_backend", "attrs", "dims", "values", "view", "data", "origin", "extent", "metadata", "np"):
            I.getattr(q, n)
        I.str_of(q) if hasattr(I, "str_of") else None
    else:
        v = I.getattr(q, "view")
        for c in (None, "northwest", "southeast", "interior"):
            if c and len([d for d in dims if d in X_DIMS + Y_DIMS]) < 2:
                continue
            w = I.getattr(v, c) if c else v
            I.B.getitem(I, w, slice(None, None, None))
            if c and c != "interior":
                I.meth(w, "sel", **{dims[-1]: -1 if c == "southeast" else 0})
    Watch.done(I)


def transpose(I, dims, target, lists):
    S = I.S
    start(I)
    q = simple(I, S, "q", dims)
    to = dims[::-1] if target == "reversed" else dims[1:] + dims[:1]
    if target == "groups":
        to = tuple(I.new(ListV(list(X_DIMS))) if d in X_DIMS else I.new(ListV(list(Y_DIMS))) if d in Y_DIMS else d for d in to)
    if target == "list" or lists:
        to = I.new(ListV(list(to)))
    Watch(I, [("quantity", q), ("target dimensions", to)], [("q", S["q"]["base"], None, "inside")])
    I.meth(q, "transpose", to)
    Watch.done(I)


def rotate(I, dims, n, vector):
    S = I.S
    start(I)
    xs = [A.external(I, l, tuple(mk(I.sym(f"{l}{k}", 1)) for k in range(len(dims)))) for l in ("x", "y")]
    dl = I.new(ListV(list(dims)))
    np_ = ExtV("numpy")
    Watch(I, [("dims", dl), ("x", xs[0]), ("y", xs[1])], [("x", xs[0].buf, None, "inside"), ("y", xs[1].buf, None, "inside")])
    if vector:
        I.call_name("rotate.rotate_vector_data", xs[0], xs[1], n, dl, np_)
    else:
        I.call_name("rotate.rotate_scalar_data", xs[0], dl, np_, n)
    Watch.done(I)


def namelist(I, cls):
    S = I.S
    start(I)
    n = lambda s: mk(I.sym(s, 1))
    d = I.new(DictV([["fv_core_nml", I.new(DictV([["layout", I.new(ListV([n("ly"), n("lx")]))], ["npx", n("npx")], ["npy", n("npy")], ["npz", n("npz")]]))]]))
    Watch(I, [("namelist", d)], [])
    if cls.endswith("Sizer"):
        I.meth(I.func(cls), "from_namelist", d)
    else:
        I.meth(I.func(cls), "from_namelist", d)
    Watch.done(I)


def allocation(I, how, dims):
    S = I.S
    start(I)
    n = lambda s, lo=1: mk(I.sym(s, lo))
    extra = I.new(DictV([["soil", n("n_soil")], ["year", n("n_year")]]))
    asked = I.new(ListV(list(dims)))
    layout = I.new(ListV([2, 3]))
    Watch(I, [("extra dimension lengths", extra), ("dimensions", asked), ("layout", layout)], [])
    if how == "directly":
        sizer = I.call_name("initialization.sizer.SubtileGridSizer", nx=n("nx"), ny=n("ny"), nz=n("nz"), n_halo=n("h", 0), extra_dim_lengths=extra)
    else:
        sizer = I.call(I.getattr(I.func("initialization.sizer.SubtileGridSizer"), "from_tile_params"), [],
                       dict(nx_tile=mk(I.sym("nx", 1) * Poly.const(3)), ny_tile=mk(I.sym("ny", 1) * Poly.const(2)), nz=n("nz"), n_halo=n("h", 0), extra_dim_lengths=extra, layout=layout))
    I.getattr(sizer, "dim_extents")
    for fn in ("get_origin", "get_extent", "get_shape"):
        I.meth(sizer, fn, asked)
    factory = I.call(I.func("initialization.allocator.QuantityFactory"), [sizer, I.import_module("numpy")], {})
    for fn in ("empty", "zeros", "ones"):
        I.meth(factory, fn, asked, "m")
    Watch.done(I)


def construct(I, how):
    S = I.S
    start(I)
    dims = ("z", "y", "x")
    o, e = [I.sym("o_" + d, 0) for d in dims], [I.sym("e_" + d, 1) for d in dims]
    arr = A.external(I, "data", tuple(mk(a + b + ONE) for a, b in zip(o, e)))
    lists = [I.new(ListV(list(x))) for x in (dims, map(mk, o), map(mk, e))]
    roots = [("origin", lists[1]), ("extent", lists[2])]
    if how == "array":
        Watch(I, roots + [("dims", lists[0])], [("data", arr.buf, None, "inside")])
        q = I.call_name("quantity.Quantity", arr, lists[0], "m", origin=lists[1], extent=lists[2])
    else:
        attrs = I.new(DictV([["units", "m"], ["long_name", "a"]]))
        da = I.call(ExtV("xarray.DataArray"), [arr], {"dims": dims, "attrs": attrs})
        Watch(I, roots + [("attributes", I.getattr(da, "attrs"))], [("data", arr.buf, None, "inside")])
        q = I.meth(I.func("quantity.Quantity"), "from_data_array", da, origin=lists[1], extent=lists[2])
    # and what it hands out is not what it was given
    a = I.getattr(q, "attrs")
    I.setitem(a, "units", "changed")
    Watch.done(I)


def helper(I, fn, contig):
    S = I.S
    start(I, contig)
    arr = A.external(I, "array", (I.sym("a", 1), I.sym("b", 1)))
    if fn == "utils.assign_array":
        to = A.external(I, "to", arr.shape)
        Watch(I, [("source", arr)], [("source", arr.buf, None, "inside")])
        I.call_name(fn, to, arr)
    elif fn == "buffer.send_buffer":
        Watch(I, [("array", arr)], [("array", arr.buf, None, "inside")])
        en, ex = I.cm_protocol(I.call_name(fn, ExtV("numpy.empty"), arr))
        en()
        ex(None)
    else:
        Watch(I, [("array", arr)], [("array", arr.buf, None, "inside")])
        try:
            I.call_name(fn, arr)
        except AbsRaise:
            if fn != "utils.ensure_contiguous" or contig:
                raise
    Watch.done(I)


# --- archives and restarts ---------------------------------------------------------------

def store(I, n, dims, who):
    S = I.S
    if not begin(I):
        return
    sent = []
    for role, rank, idx in roles(S)[:1 + (who == "client")]:
        comm, mon = monitor(I, S, role, rank, sent)
        bufs, states = [], []
        for k in range(n):
            es = []
            for v in ("a", "b"):
                q = variable(I, S, f"{v}{k}", dims, units=v + " units")
                bufs.append((f"{v}{k}", plain(S[f"{v}{k}"])["base"], None, "inside"))
                es.append([v, q])
            es.insert(1, ["time", I.new(date(f"t{k}"))])
            states.append((f"state {k}", I.new(DictV(es))))
        Watch(I, states, bufs)
        for _, s in states:
            I.meth(mon, "store", s)
        Watch.done(I)
        sent = sent_values(I.allevents, comm)


def restart(I, req, to_state):
    """the requested names, the tracer properties and other entries of the
    state given to open_restart"""
    S = I.S
    real = I.call_name

    def call_name(name, *a, **k):
        if name != "_legacy_restart.open_restart":
            return real(name, *a, **k)
        roots = [(n, v) for n, v in k.items() if n in ("only_names", "tracer_properties") and isinstance(v, (ListV, DictV))]
        Watch(I, roots, [])
        try:
            return real(name, *a, **k)
        finally:
            Watch.done(I)
    I.call_name = call_name
    try:
        c21.load(I, 2, "", c21.OPTIONAL, True, req, True, to_state)
    finally:
        del I.call_name


# --- verdict ---------------------------------------------------------------------------------

def nonneg(F, x):
    return F.nonneg_p(to_poly(x)) is True


def bounds(a):
    st, ln, sp = to_poly(a.start), to_poly(a.length), a.step
    if sp == 1:
        return st, st + ln
    if sp == -1:
        return st - ln + ONE, st + ONE
    return None


def axes_of(w):
    out = {}
    for a in w.axes:
        if a.src is not None:
            out[a.src] = bounds(a)
    for k, v in dict(w.fixed).items():
        out[k] = (to_poly(v), to_poly(v) + ONE)
    return out


def inside(p, arr, reg):
    ax = axes_of(arr)
    for k, (lo, hi) in enumerate(reg):
        b = ax.get(k)
        if b is None or not nonneg(p.facts, b[0] - to_poly(lo)) or not nonneg(p.facts, to_poly(hi) - b[1]):
            return False
    return True


def outside(p, arr, reg):
    ax = axes_of(arr)
    for k, (lo, hi) in enumerate(reg):
        b = ax.get(k)
        if b is not None and (nonneg(p.facts, to_poly(lo) - b[1]) or nonneg(p.facts, b[0] - to_poly(hi))):
            return True
    return False


def unchanged(I, p, w):
    """stores what is there already (second half of an augmented assignment)"""
    b = w.arr.buf
    if w.content is None:
        return False
    v, c = b.version, b.content
    b.version, b.content = w.version, None
    try:
        return same_content(p, w.content, 1, A.content_of(I, w.arr)) is True
    finally:
        b.version, b.content = v, c


def judge(R, I, p, label, key):
    S = p.S
    if S.get("skip"):
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{label} raises {exc_desc(p)}", p.desc())
        return
    for (n, _), a, b in zip(S["roots"], S["f0"], S["f1"]):
        R.check(a == b, "inputs", f"{label}: {n}", f"{key}:{n}", "fv3gfs/util", f"{label} modifies {n}: {change(a, b)}", p.desc())
    for m, ok in S["entries"]:
        R.check(ok, "entries", f"{label}: {m.split(' is ')[0]}", key + ":entries", "fv3gfs/util", f"{label}: {m}", p.desc())
    for n, buf, reg, how in S["bufs"]:
        ws = [w for w in walk_events(p.events, ("write",)) if w.arr.buf is buf and w.seq > S["seq0"] and w.seq <= S["seq1"] + 1 and not unchanged(I, p, w)]
        if reg is None:
            R.check(not ws, "inputs", f"{label}: memory of {n}", f"{key}:memory", where(p, ws[0]) if ws else "", f"{label} writes {vrepr(ws[0].arr) if ws else ''} in the memory of {n}", p.desc())
            continue
        test = inside if how == "inside" else outside
        bad = next((w for w in ws if not test(p, w.arr, reg)), None)
        R.check(bad is None, "confined", f"{label}: {len(ws)} writes to {n}", f"{key}:confined", where(p, bad) if bad else "",
                f"{label} writes {vrepr(bad.arr) if bad else ''} of {n}, {'beyond' if how == 'inside' else 'within'} {' x '.join(f'[{vrepr(mk(to_poly(a)))}, {vrepr(mk(to_poly(b)))})' for a, b in reg)}", p.desc())
