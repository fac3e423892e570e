"""C07: subtile regions tile the domain; extents are exact."""
from ..world import *

FLOOR = 150

DIMS = [("y", "x"), ("y_interface", "x_interface"), ("z", "y", "x"), ("x_interface", "z_interface", "y"), ("y", "x_interface", "z_soil"),
        ("x",), ("y_interface",), ("z",), ("x", "y_interface", "year"), ()]


def run(R):
    R.rule("extent", "global extent and rank extent are the exact integer maps n*ranks(+1) <-> n(+1) per dimension, for every layout")
    R.rule("region", "subtile_slice(rank) = [i*n, (i+1)*n) per horizontal dimension, plus the shared point when overlapping or last; whole axis otherwise: consecutive non-overlapping regions then abut, the first starts at 0 and the last ends at the extent")
    R.rule("coverage", "length of the overlapping region equals the rank extent")
    R.assume("horizontal extents divisible by the layout (plus one shared point on staggered dimensions); extents >= 0 and layout >= 1")
    W = World(R)
    for cube in (False, True):
        cls = "CubedSpherePartitioner" if cube else "TilePartitioner"
        for dims in DIMS:
            for m in ("global_extent", "subtile_extent"):
                W.run("extent", f"{cls}.{m} {dims}", lambda I, a=(cube, dims, m): extent(I, *a),
                      lambda p, a=(cube, dims, m), c=cls: judge_extent(R, p, *a, c, fwhere(W.I, f"partitioner.{c}.{a[2]}")))
            for overlap in (False, True, None):
                W.run("region", f"{cls} {dims} overlap={overlap}", lambda I, a=(cube, dims, overlap): region(I, *a),
                      lambda p, a=(cube, dims, overlap), c=cls: judge_region(R, p, *a, c, fwhere(W.I, f"partitioner.{c}.subtile_slice")))


def world(I, cube, dims):
    """partitioner, per-dimension (ranks, index, n, interface)"""
    S = I.S
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    S["dimdata"] = []
    for d in dims:
        n = I.sym(f"n_{d}", 0)
        if d in X_DIMS:
            S["dimdata"].append((S["nx"], S["i"], n, int(d in INTERFACE), True))
        elif d in Y_DIMS:
            S["dimdata"].append((S["ny"], S["j"], n, int(d in INTERFACE), True))
        else:
            S["dimdata"].append((ONE, Poly.const(0), n, int(d in INTERFACE), False))
    S["rank_extent"] = tuple(n + Poly.const(s) for _, _, n, s, _ in S["dimdata"])
    S["tile_extent"] = tuple(k * n + Poly.const(s) for k, _, n, s, _ in S["dimdata"])
    S["rank"] = S["tile_rank"]
    if cube:
        t = I.sym("t", 0, 5)
        S["t"] = t
        S["rank"] = t * S["ny"] * S["nx"] + S["tile_rank"]
        return I.call_name("partitioner.CubedSpherePartitioner", tp)
    return tp


def metadata(I, dims, extent):
    return I.call_name("quantity.QuantityMetadata", origin=tuple(0 for _ in dims), extent=tuple(mk(e) for e in extent), dims=tuple(dims),
                       units="m", data_type=ExtV("numpy.ndarray"), dtype=BT(float))


def extent(I, cube, dims, m):
    S = I.S
    part = world(I, cube, dims)
    if m == "global_extent":
        S["got"] = I.meth(part, m, metadata(I, dims, S["rank_extent"]))
        S["want"] = ((6,) if cube else ()) + S["tile_extent"]
    else:
        d, e = dims, S["tile_extent"]
        if cube:
            d, e = ("tile",) + tuple(dims), (Poly.const(6),) + e
        S["got"] = I.meth(part, m, metadata(I, d, e))
        S["want"] = S["rank_extent"]


def ints(v):
    return isinstance(v, (int, Poly)) and not isinstance(v, bool)


def judge_extent(R, p, cube, dims, m, cls, anchor):
    key = f"C07:extent:{cls}.{m}:{','.join(dims)}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{cls}.{m} for dims {dims} raises {exc_desc(p)}", p.desc())
        return
    got, want = p.S["got"], p.S["want"]
    if not isinstance(got, tuple):
        R.violate(key + ":type", anchor, f"{m} returns {vrepr(got)} instead of a tuple", p.desc())
        return
    good = len(got) == len(want) and all(exact(p, a, b) for a, b in zip(got, want))
    why = "" if good or not any(isinstance(g, (Frac, Term)) or (isinstance(g, Poly) and any(isinstance(a, Term) for a in g.atoms())) for g in got) \
        else " (computed through inexact floating point)"
    R.check(good, "extent", f"{cls}.{m} {dims}", key, anchor, f"{m} for dims {dims} is {vrepr(got)}, expected {vrepr(tuple(mk(w) for w in want))}{why}", p.desc())


def exact(p, a, b):
    return ints(a) and peq(p.facts, a, b) is True


def region(I, cube, dims, overlap):
    S = I.S
    part = world(I, cube, dims)
    d, e = tuple(dims), tuple(mk(x) for x in S["tile_extent"])
    if cube:
        d, e = ("tile",) + d, (6,) + e
    kw = {} if overlap is None else {"overlap": overlap}
    S["got"] = I.meth(part, "subtile_slice", mk(S["rank"]), d, e, **kw)
    S["last"] = []
    for k, i, n, s, hor in S["dimdata"]:
        S["last"].append(I.cmp_num("==", i, k - ONE) if s and not overlap else None)


def judge_region(R, p, cube, dims, overlap, cls, anchor):
    key = f"C07:region:{cls}:{','.join(dims)}:{overlap}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{cls}.subtile_slice for dims {dims} raises {exc_desc(p)}", p.desc())
        return
    S = p.S
    got = S["got"]
    if cube:
        if not (isinstance(got, tuple) and got and exact(p, got[0], S["t"])):
            R.violate(key + ":tile", anchor, f"first entry of the region of a rank on tile t is {vrepr(got[0]) if isinstance(got, tuple) and got else vrepr(got)}", p.desc())
            return
        got = got[1:]
    if not isinstance(got, tuple) or len(got) != len(dims):
        R.violate(key + ":len", anchor, f"subtile_slice returns {vrepr(got)} for dims {dims}", p.desc())
        return
    for d, g, (k, i, n, s, hor), last in zip(dims, got, S["dimdata"], S["last"]):
        lo = i * n
        hi = (i + ONE) * n + Poly.const(1 if s and (overlap or last) else 0)
        full = k * n + Poly.const(s)
        st = 0 if isinstance(g, slice) and g.start is None else getattr(g, "start", None)
        sp = full if isinstance(g, slice) and g.stop is None else getattr(g, "stop", None)
        good = isinstance(g, slice) and g.step in (None, 1) and exact(p, st, lo) and exact(p, sp, hi)
        R.check(good, "region", f"{cls} {dims} {d} overlap={overlap} last={last}", key + ":" + d, anchor,
                f"region along {d} is {vrepr(g)}, expected {mk(lo)!r}:{mk(hi)!r} (n points per rank, subtile index from rank)", p.desc())
        if not good:
            continue
        if overlap:
            R.check(exact(p, mk(to_poly(sp) - to_poly(st)), n + Poly.const(s)), "coverage", f"{cls} {dims} {d}", key + ":cov:" + d, anchor,
                    f"overlapping region along {d} has {vrepr(mk(to_poly(sp) - to_poly(st)))} points, the rank extent is {n + Poly.const(s)!r}", p.desc())
