"""C20: allocated fields have room for halo and staggering."""
from itertools import permutations
from ..world import *
from .c13 import StorageObj

FLOOR = 100
SPATIAL = ("x", "y", "z", "x_interface", "y_interface", "z_interface")
FAMILIES = [("z", "y", "x"), ("x", "y", "z"), ("y_interface", "x_interface"), ("z_interface", "y", "x_interface"), ("x_interface", "z", "y_interface"), ("y", "x"), ("x", "y"), ("z",), ("z_interface",),
            ("soil", "y", "x"), ("y_interface", "year", "x"), ("year", "soil"), ("x",), ("y_interface",), ("soil_interface", "z_interface", "y_interface", "x_interface"), ()]


def run(R):
    R.rule("origin", "get_origin: the halo width along horizontal dimensions, zero along others")
    R.rule("extent", "get_extent: the sizer's cell counts, one more along staggered dimensions, the given lengths along extra dimensions")
    R.rule("shape", "get_shape: the same along a staggered and the centred dimension, at least halo + staggered extent + halo along horizontal, at least the staggered extent along vertical, the given length along extra dimensions")
    R.rule("params", "from_tile_params and from_namelist: y size divided by the layout's rows and x size by its columns, on every rank; nz, halo and extra lengths as given (three halo points from a namelist, whose npx, npy count edges)")
    R.rule("allocate", "QuantityFactory.empty/zeros/ones: dims, units, dtype as requested; origin, extent and data shape those of the sizer; zeros and ones are filled; a factory made for a backend allocates storages of that backend")
    R.rule("partitioner", "partitioners made from a namelist have its layout: rows * columns ranks on a tile (six times that on the cube), the rank in row j and column i at subtile (j, i)")
    R.assume("tile sizes divisible by the layout")
    W = World(R)
    fams = FAMILIES + [d for k in (2, 3) for d in permutations(SPATIAL, k)]
    for dims in fams:
        for kind in (tuple, list, "iter"):
            W.run("shape", f"{kind} {dims}", lambda I, a=(dims, kind): sizes(I, *a), lambda p, a=(dims,): judge_sizes(R, W.I, p, *a))
    for how in ("default", "given", "namelist", "namelist given"):
        W.run("params", how, lambda I, a=how: params(I, a), lambda p, a=how: judge_params(R, W.I, p, a))
    for dims in FAMILIES:
        for fn in ("empty", "zeros", "ones"):
            for dt in (None, "float32", "int64"):
                for alloc in ("numpy", "origin"):
                    W.run("allocate", f"{fn} {dims} {dt} {alloc}", lambda I, a=(dims, fn, dt, alloc): allocate(I, *a), lambda p, a=(dims, fn, dt, alloc): judge_allocate(R, W.I, p, *a))


    G = World(R, absent=())
    for dims in FAMILIES[:4]:
        for fn in ("empty", "zeros", "ones"):
            for dt in (None, "float32"):
                for alloc in ("gtx86", "gtcuda"):
                    G.run("allocate", f"{fn} {dims} {dt} {alloc}", lambda I, a=(dims, fn, dt, alloc): allocate(I, *a), lambda p, a=(dims, fn, dt, alloc): judge_allocate(R, G.I, p, *a))
    for cube in (False, True):
        W.run("partitioner", f"from_namelist {'cube' if cube else 'tile'}", lambda I, a=cube: from_namelist(I, a), lambda p, a=cube: judge_from_namelist(R, W.I, p, a))


def storage_models(I):
    def make(kind):
        def call(I, a, k):
            names = ("backend", "default_origin", "shape", "dtype", "mask")
            given = dict(zip(names, a))
            if set(given) & set(k) or set(k) - set(names) - {"managed_memory"}:
                I.raise_(TypeError, f"gt4py.storage.{kind}: unexpected or repeated argument")
            k = {**given, **k}
            if not isinstance(k.get("backend"), str) or "default_origin" not in k:
                I.raise_(TypeError, f"gt4py.storage.{kind}: missing argument")
            arr = A.alloc(I, kind, A.as_shape(I, k["shape"]), A.dtype_of(I, k.get("dtype")), "cupy.ndarray" if k["backend"] == "gtcuda" else A.HOST,
                          content={"zeros": to_frac(0), "ones": to_frac(1)}.get(kind), how=kind)
            return I.new(StorageObj(arr, k["backend"], k["default_origin"]))
        return call
    for n in ("empty", "zeros", "ones"):
        I.ext_models["gt4py.storage.storage." + n] = I.ext_models["gt4py.storage." + n] = make(n)


def from_namelist(I, cube):
    S = I.S
    I.hooks.clear()
    ly, lx = S["ly"], S["lx"] = I.sym("ly", 1), I.sym("lx", 1)
    core = I.new(DictV([("npx", mk(I.sym("npx", 2))), ("npy", mk(I.sym("npy", 2))), ("layout", I.new(ListV([mk(ly), mk(lx)]))), ("ntiles", 6)]))
    nml = I.new(DictV([("fv_core_nml", core), ("coupler_nml", I.new(DictV([])))]))
    p = I.call(I.getattr(I.func("partitioner." + ("CubedSpherePartitioner" if cube else "TilePartitioner")), "from_namelist"), [nml], {})
    S["total"] = I.getattr(p, "total_ranks")
    S["layout"] = I.getattr(p, "layout")
    tile = I.getattr(p, "tile") if cube else p
    j, i = S["j"], S["i"] = I.sym("r_j", 0, ly - ONE), I.sym("r_i", 0, lx - ONE)
    S["index"] = I.meth(tile, "subtile_index", mk(j * lx + i))


def judge_from_namelist(R, I, p, cube):
    S = p.S
    c = "CubedSpherePartitioner" if cube else "TilePartitioner"
    key = f"C20:{c}.from_namelist"
    anchor = fwhere(I, f"partitioner.{c}.from_namelist")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{c}.from_namelist: {exc_desc(p)}", p.desc())
        return
    n = S["ly"] * S["lx"] * (Poly.const(6) if cube else ONE)
    R.check(peq(p.facts, S["total"], mk(n)) is True, "partitioner", f"{c} ranks", key + ":ranks", anchor, f"{c}.from_namelist has {vrepr(S['total'])} ranks, expected {vrepr(mk(n))}", p.desc())
    for what, got, want in (("layout", S["layout"], (S["ly"], S["lx"])), ("subtile index", S["index"], (S["j"], S["i"]))):
        got = tup(got)
        ok = got is not None and len(got) == 2 and all(peq(p.facts, a, mk(b)) is True for a, b in zip(got, want))
        R.check(ok, "partitioner", f"{c} {what}", f"{key}:{what}", anchor, f"{c}.from_namelist: {what} {vrepr(got)}, expected {vrepr(tuple(map(mk, want)))}", p.desc())


def sizer(I, S):
    for n in ("nx", "ny", "nz"):
        S[n] = I.sym(n, 1)
    S["h"] = I.sym("n_halo", 0)
    S["extra"] = {d: I.sym(d, 1) for d in ("soil", "year", "soil_interface")}
    S["extra_dict"] = I.new(DictV([(k, mk(v)) for k, v in S["extra"].items()]))
    S["sizer"] = I.call_name("initialization.sizer.SubtileGridSizer", nx=mk(S["nx"]), ny=mk(S["ny"]), nz=mk(S["nz"]), n_halo=mk(S["h"]), extra_dim_lengths=S["extra_dict"])
    return S["sizer"]


def want(S, d):
    """(origin, extent, least length, exact length or None)"""
    base = d.replace("_interface", "")
    s = Poly.const(int(d in INTERFACE))
    if base in ("x", "y"):
        n = S["n" + base]
        return S["h"], n + s, n + ONE + S["h"] * Poly.const(2)
    if base == "z":
        return Poly.const(0), S["nz"] + s, S["nz"] + ONE
    return Poly.const(0), S["extra"][d], S["extra"][d]


def seq(I, dims, kind):
    if kind is tuple:
        return tuple(dims)
    if kind is list:
        return I.new(ListV(list(dims)))
    return I.new(IterV(list(dims)))


def sizes(I, dims, kind):
    S = I.S
    I.hooks.clear()
    s = sizer(I, S)
    S["got"] = {n: I.meth(s, "get_" + n, seq(I, dims, kind)) if kind != "iter" or n != "shape" else I.meth(s, "get_" + n, seq(I, dims, kind)) for n in ("origin", "extent", "shape")}
    S["pair"] = {}
    for d in dims:
        base = d.replace("_interface", "")
        if base in ("x", "y", "z"):
            S["pair"][base] = (I.meth(s, "get_shape", (base,)), I.meth(s, "get_shape", (base + "_interface",)))
    S["left"] = {k: v for k, v in S["extra_dict"].entries}


def tup(v):
    return tuple(v.items) if isinstance(v, ListV) else v if isinstance(v, tuple) else None


def at_least(facts, a, b):
    return facts.sign(to_poly(a) - to_poly(b)) in (0, ">", ">=")


def judge_sizes(R, I, p, dims):
    S = p.S
    key = f"C20:{','.join(dims)}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"sizes of {dims}: {exc_desc(p)}", p.desc())
        return
    got = {n: tup(v) for n, v in S["got"].items()}
    for n, v in got.items():
        an = fwhere(I, "initialization.sizer.SubtileGridSizer.get_" + n)
        if not R.check(v is not None and len(v) == len(dims), n, f"{dims} length", f"{key}:{n}:len", an, f"get_{n}({dims}) is {vrepr(S['got'][n])}", p.desc()):
            return
    for k, d in enumerate(dims):
        o, e, least = want(S, d)
        an = "initialization.sizer.SubtileGridSizer.get_"
        R.check(peq(p.facts, got["origin"][k], mk(o)) is True, "origin", f"{dims} {d}", f"{key}:origin:{d}", fwhere(I, an + "origin"), f"origin along {d} is {vrepr(got['origin'][k])}, expected {vrepr(mk(o))}", p.desc())
        R.check(peq(p.facts, got["extent"][k], mk(e)) is True, "extent", f"{dims} {d}", f"{key}:extent:{d}", fwhere(I, an + "extent"), f"extent along {d} is {vrepr(got['extent'][k])}, expected {vrepr(mk(e))}", p.desc())
        sh = got["shape"][k]
        exact = d in S["extra"]
        ok = peq(p.facts, sh, mk(least)) is True if exact else to_poly(sh) is not None and at_least(p.facts, sh, mk(least))
        R.check(ok, "shape", f"{dims} {d}", f"{key}:shape:{d}", fwhere(I, an + "shape"), f"length along {d} is {vrepr(sh)}, expected {'' if exact else 'at least '}{vrepr(mk(least))}", p.desc())
    for b, (c, i) in S["pair"].items():
        R.check(peq(p.facts, tup(c)[0], tup(i)[0]) is True, "shape", f"{b} pair", f"{key}:pair:{b}", fwhere(I, "initialization.sizer.SubtileGridSizer.get_shape"), f"length along {b} is {vrepr(c)} but {vrepr(i)} for the staggered dimension", p.desc())
    R.check(S["left"] == {k: mk(v) for k, v in S["extra"].items()}, "shape", f"{dims} extra lengths", key + ":mutated", fwhere(I, "initialization.sizer.SubtileGridSizer.dim_extents"), "the extra lengths given to the sizer are modified", p.desc())


def params(I, how):
    S = I.S
    I.hooks.clear()
    ly, lx = S["ly"], S["lx"] = I.sym("ly", 1), I.sym("lx", 1)
    S["ny"], S["nx"] = I.sym("my", 1), I.sym("mx", 1)
    S["nz"] = I.sym("nz", 1)
    S["h"] = I.sym("n_halo", 0)
    S["extra"] = {"soil": I.sym("soil", 1)}
    layout = (mk(ly), mk(lx))
    kw = {}
    if "given" in how:
        kw = {"tile_partitioner": I.call_name("partitioner.TilePartitioner", layout), "tile_rank": mk(I.sym("r_j", 0, ly - ONE) * lx + I.sym("r_i", 0, lx - ONE))}
    cls = I.func("initialization.sizer.SubtileGridSizer")
    if "namelist" in how:
        core = I.new(DictV([("layout", I.new(ListV(list(layout)))), ("npx", mk(S["nx"] * lx + ONE)), ("npy", mk(S["ny"] * ly + ONE)), ("npz", mk(S["nz"])), ("ntiles", 6)]))
        nml = S["nml"] = I.new(DictV([("fv_core_nml", core), ("coupler_nml", I.new(DictV([])))]))
        S["h"], S["extra"] = Poly.const(3), {}
        S["sizer"] = I.call(I.getattr(cls, "from_namelist"), [nml], kw)
    else:
        ex = I.new(DictV([(k, mk(v)) for k, v in S["extra"].items()]))
        S["sizer"] = I.call(I.getattr(cls, "from_tile_params"), [], {"nx_tile": mk(S["nx"] * lx), "ny_tile": mk(S["ny"] * ly), "nz": mk(S["nz"]), "n_halo": mk(S["h"]), "extra_dim_lengths": ex, "layout": layout, **kw})
    dims = SPATIAL + tuple(S["extra"])
    S["dims"] = dims
    S["got"] = {n: I.meth(S["sizer"], "get_" + n, dims) for n in ("origin", "extent", "shape")}


def judge_params(R, I, p, how):
    S = p.S
    key = f"C20:params:{how}"
    anchor = fwhere(I, "initialization.sizer.SubtileGridSizer." + ("from_namelist" if "namelist" in how else "from_tile_params"))
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"a sizer from {how} parameters: {exc_desc(p)}", p.desc())
        return
    got = {n: tup(v) for n, v in S["got"].items()}
    for k, d in enumerate(S["dims"]):
        o, e, least = want(S, d)
        for n, w in (("origin", o), ("extent", e)):
            R.check(peq(p.facts, got[n][k], mk(w)) is True, "params", f"{how} {n} {d}", f"{key}:{n}:{d}", anchor, f"with {how} parameters the {n} along {d} is {vrepr(got[n][k])}, expected {vrepr(mk(w))}", p.desc())
        R.check(at_least(p.facts, got["shape"][k], mk(least)), "params", f"{how} shape {d}", f"{key}:shape:{d}", anchor, f"with {how} parameters the length along {d} is {vrepr(got['shape'][k])}, expected at least {vrepr(mk(least))}", p.desc())


def allocate(I, dims, fn, dt, alloc):
    S = I.S
    I.hooks.clear()
    s = sizer(I, S)
    if alloc.startswith("gt"):
        storage_models(I)
        f = I.call(I.getattr(I.func("initialization.allocator.QuantityFactory"), "from_backend"), [s, alloc], {})
    else:
        np_ = I.import_module("numpy") if alloc == "numpy" else I.new(Library())
        f = I.call_name("initialization.allocator.QuantityFactory", s, np_)
    S["units"] = Term("units", (), {"nonnull": True, "kind": "str"})
    kw = {} if dt is None else {"dtype": ExtV("numpy." + dt)}
    S["out"] = I.meth(f, fn, dims, S["units"], **kw)
    S["got"] = {a: I.getattr(S["out"], a) for a in ("dims", "units", "origin", "extent", "data", "gt4py_backend")}
    S["got"]["storage"] = I.getattr(S["out"], "storage") if alloc.startswith("gt") else None
    S["want"] = {n: I.meth(s, "get_" + n, dims) for n in ("origin", "extent", "shape")}


class Library(Obj):
    """an array library whose allocators take the origin"""
    label = "storage library"

    def make(self, I, kind, shape, dtype, default_origin):
        I.event("origin", origin=default_origin, shape=shape)
        return A.alloc(I, kind, tup(shape), A.dtype_of(I, dtype), content={"zeros": to_frac(0), "ones": to_frac(1)}.get(kind), how=kind)

    def m_empty(self, I, shape, dtype=BT(float), default_origin=None):
        return self.make(I, "empty", shape, dtype, default_origin)

    def m_zeros(self, I, shape, dtype=BT(float), default_origin=None):
        return self.make(I, "zeros", shape, dtype, default_origin)

    def m_ones(self, I, shape, dtype=BT(float), default_origin=None):
        return self.make(I, "ones", shape, dtype, default_origin)


def judge_allocate(R, I, p, dims, fn, dt, alloc):
    S = p.S
    key = f"C20:{fn}:{','.join(dims)}:{dt}"
    anchor = fwhere(I, "initialization.allocator.QuantityFactory." + fn)
    name = f"QuantityFactory.{fn}({dims}, dtype={dt})"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name}: {exc_desc(p)}", p.desc())
        return
    g, w = S["got"], {n: tup(v) for n, v in S["want"].items()}
    R.check(tup(g["dims"]) == dims, "allocate", name + " dims", key + ":dims", anchor, f"{name} has dims {vrepr(g['dims'])}", p.desc())
    R.check(vkey(g["units"]) == vkey(S["units"]), "allocate", name + " units", key + ":units", anchor, f"{name} has units {vrepr(g['units'])}", p.desc())
    for n in ("origin", "extent"):
        ok = tup(g[n]) is not None and len(tup(g[n])) == len(dims) and all(peq(p.facts, a, b) is True for a, b in zip(tup(g[n]), w[n]))
        R.check(ok, "allocate", f"{name} {n}", f"{key}:{n}", anchor, f"{name} has {n} {vrepr(g[n])}, the sizer says {vrepr(w[n])}", p.desc())
    d = g["data"]
    if not isinstance(d, A.ArrV):
        R.undecided("allocate", name, f"data is {vrepr(d)}")
        return
    ok = len(d.shape) == len(dims) and all(peq(p.facts, a, b) is True for a, b in zip(d.shape, w["shape"]))
    R.check(ok, "allocate", name + " shape", key + ":shape", anchor, f"{name} has data of shape {vrepr(d.shape)}, the sizer says {vrepr(w['shape'])}", p.desc())
    dtype = A.dtype_of(None, ExtV("numpy." + (dt or "float64")))
    R.check(vkey(d.buf.dtype) == vkey(dtype), "allocate", name + " dtype", key + ":dtype", anchor, f"{name} has dtype {vrepr(d.buf.dtype)}, expected {vrepr(dtype)}", p.desc())
    if alloc.startswith("gt"):
        st = g["storage"]
        ok = isinstance(st, StorageObj) and st.backend == alloc and st.arr.buf is d.buf and g["gt4py_backend"] == alloc
        R.check(ok, "allocate", f"{name} {alloc}", f"{key}:{alloc}", anchor, f"{name} of a factory for {alloc} has backend {vrepr(g['gt4py_backend'])}, storage {vrepr(st)}", p.desc())
    c = A.content_of(None, d)
    if fn != "empty":
        v = to_frac(0 if fn == "zeros" else 1)
        R.check(c is not None and c.ops == 0 and not (c.num * v.den - v.num * c.den).t, "allocate", name + " values", key + ":values", anchor, f"{name} contains {c!r}", p.desc())
