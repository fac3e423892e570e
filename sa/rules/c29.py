"""C29: calendar, tile and direction tables are complete and consistent."""
from ..halo import *
from ..io_models import TextFile, Line, CfTime

FLOOR = 230
# codes of the Fortran time_manager
CALENDARS = {1: "Datetime360Day", 2: "DatetimeJulian", 3: "DatetimeGregorian", 4: "DatetimeNoLeap"}
DIMSETS = [("y", "x"), ("x", "y"), ("y_interface", "x"), ("x_interface", "z", "y_interface"), ("z", "year"), ("x",), ("z_interface", "y_interface")]


def run(R):
    R.rule("calendar", "each calendar code of the time manager selects the cftime class of that calendar; another code raises")
    R.rule("date", "the date is made of the first six tokens of the third line, in order, whatever text follows them, and the calendar is the first token of the first line")
    R.rule("tile", "rank t*m + k of 6*m ranks, 0 <= k < m, is on tile t (number t+1), with root rank t*m; a rank count that is no multiple of six raises ValueError")
    R.rule("constants", "eight different boundary types, the edges and corners among them; horizontal, x, y, z and interface dimension names as used by every table")
    R.rule("direction", "the boundary a partitioner returns for a type is labelled with it and lies in its direction; the region of a type touches exactly the sides in its name, a corner those of both its edges")
    R.assume("the lines of a coupler file consist of blank-separated tokens")
    W = World(R)
    I = W.I
    for code in list(CALENDARS) + [0, 5, 7]:
        for tail in (0, 1, 4):
            W.run("date", f"code {code}, {tail} words after the numbers", lambda I, a=(code, tail): date(I, *a), lambda p, a=(code, tail): judge_date(R, W.I, p, *a))
    for t in range(6):
        W.run("tile", f"tile {t}", lambda I, t=t: tile(I, t), lambda p, t=t: judge_tile(R, W.I, p, t))
    for r in range(1, 6):
        for fn in ("get_tile_index", "get_tile_number"):
            W.run("tile", f"{fn}, 6*m + {r} ranks", lambda I, a=(fn, r): bad_count(I, *a), lambda p, a=(fn, r): judge_bad(R, W.I, p, *a))
    W.run("constants", "names", constants, lambda p: judge_constants(R, W.I, p))
    for kind in ("tile", "cube0", "cube1"):
        for b in BOUNDARIES:
            W.run("direction", f"{kind} {b}", lambda I, a=(kind, b): direction(I, *a), lambda p, a=(kind, b): judge_direction(R, W.I, p, *a))
    for dims in DIMSETS:
        for b in BOUNDARIES:
            for v in ("send_view", "recv_view"):
                W.run("direction", f"{dims} {b} {v}", lambda I, a=(dims, b, v): area(I, *a), lambda p, a=(dims, b, v): judge_area(R, W.I, p, *a))


def date(I, code, tail):
    S = I.S
    I.hooks.clear()
    words = [f"word{k}" for k in range(tail)]
    tok = lambda k, i: Term("token", (k, i), {"nonnull": True, "kind": "str"})
    lines = [I.new(Line([str(code)] + words, 1)), I.new(Line([tok(2, i) for i in range(6)] + words, 2)), I.new(Line([tok(3, i) for i in range(6)] + words, 3))]
    S["tokens"] = [Poly.atom(Term("int", (tok(3, i),), {"kind": "int"})) for i in range(6)]
    S["got"] = I.call_name("io.get_current_date_from_coupler_res", I.new(TextFile(lines)))


def judge_date(R, I, p, code, tail):
    key = f"C29:date:{code}"
    anchor = fwhere(I, "io.get_current_date_from_coupler_res")
    if code not in CALENDARS:
        R.check(p.status == "raise", "calendar", f"code {code}", key + ":unknown", anchor, f"calendar code {code} is accepted: {p.S.get('got')!r}", p.desc())
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"a date with calendar code {code}: {exc_desc(p)}", p.desc())
        return
    g = p.S["got"]
    if not R.check(isinstance(g, CfTime), "date", f"code {code} {tail}", key + ":type", anchor, f"the date read is {g!r}", p.desc()):
        return
    R.check(g.cls == CALENDARS[code], "calendar", f"code {code} {tail}", key + ":calendar", anchor, f"calendar code {code} gives a {g.cls}, expected {CALENDARS[code]}", p.desc())
    ok = len(g.fields) == 6 and all(peq(p.facts, a, b) is True for a, b in zip(g.fields, p.S["tokens"]))
    R.check(ok, "date", f"code {code} {tail} fields", key + ":fields", anchor, f"the date read is {g!r}, expected the six numbers of the third line in order", p.desc())


def tile(I, t):
    S = I.S
    I.hooks.clear()
    tile_layout(I, S)
    m = S["m"] = S["ny"] * S["nx"]
    S["k"] = S["tile_rank"]
    r = mk(Poly.const(t) * m + S["k"])
    n = mk(Poly.const(6) * m)
    S["got"] = {"get_tile_index": I.call_name("partitioner.get_tile_index", r, n), "get_tile_number": I.call_name("partitioner.get_tile_number", r, n)}
    cp = I.call_name("partitioner.CubedSpherePartitioner", tile_partitioner(I, S))
    S["got"]["tile_index"] = I.meth(cp, "tile_index", r)
    S["got"]["tile_root_rank"] = I.meth(cp, "tile_root_rank", r)
    S["got"]["total_ranks"] = I.getattr(cp, "total_ranks")
    S["want"] = {"get_tile_index": t, "get_tile_number": t + 1, "tile_index": t, "tile_root_rank": mk(Poly.const(t) * m), "total_ranks": n}


def judge_tile(R, I, p, t):
    if p.status == "raise":
        R.violate(f"C29:tile:{t}:raise", where(p), f"tile of a rank on tile {t}: {exc_desc(p)}", p.desc())
        return
    for n, w in p.S["want"].items():
        R.check(peq(p.facts, p.S["got"][n], w) is True, "tile", f"{t} {n}", f"C29:tile:{t}:{n}", fwhere(I, "partitioner." + (n if n.startswith("get") else "CubedSpherePartitioner." + n)),
                f"{n} of rank {t}*m + k of 6*m ranks is {vrepr(p.S['got'][n])}, expected {vrepr(w)}", p.desc())


def bad_count(I, fn, r):
    S = I.S
    I.hooks.clear()
    n = Poly.const(6) * I.sym("m", 0) + Poly.const(r)
    S["got"] = I.call_name("partitioner." + fn, mk(I.sym("rank", 0, n - ONE)), mk(n))


def judge_bad(R, I, p, fn, r):
    R.check(p.status == "raise" and exc_is(I, p, "ValueError"), "tile", f"{fn} remainder {r}", f"C29:count:{fn}:{r}", fwhere(I, "partitioner." + fn),
            f"{fn} with 6*m + {r} ranks {'raises ' + exc_name(p) if p.status == 'raise' else 'returns ' + vrepr(p.S.get('got'))}, expected ValueError", p.desc())


def constants(I):
    S = I.S
    I.hooks.clear()
    S["got"] = {n: const(I, n) for n in list(BOUNDARIES) + ["INTERIOR", "BOUNDARY_TYPES", "EDGE_BOUNDARY_TYPES", "CORNER_BOUNDARY_TYPES", "X_DIMS", "Y_DIMS", "HORIZONTAL_DIMS", "INTERFACE_DIMS", "Z_DIMS",
                                                           "X_DIM", "X_INTERFACE_DIM", "Y_DIM", "Y_INTERFACE_DIM", "Z_DIM", "Z_INTERFACE_DIM", "TILE_DIM"]}


def judge_constants(R, I, p):
    g = p.S["got"]
    an = "fv3gfs/util/constants.py"

    def ok(c, n, msg):
        R.check(c, "constants", n, "C29:constants:" + n, an, msg, "")
    vals = [g[b] for b in BOUNDARIES] + [g["INTERIOR"]]
    ok(len(set(vals)) == len(vals), "distinct", f"the boundary types {dict(zip(BOUNDARIES, vals))} are not different")
    ok(set(seq(g["BOUNDARY_TYPES"])) == set(vals[:-1]) and len(seq(g["BOUNDARY_TYPES"])) == 8, "BOUNDARY_TYPES", f"BOUNDARY_TYPES is {g['BOUNDARY_TYPES']!r}")
    ok(set(seq(g["EDGE_BOUNDARY_TYPES"])) == {g[b] for b in EDGES}, "EDGE_BOUNDARY_TYPES", f"EDGE_BOUNDARY_TYPES is {g['EDGE_BOUNDARY_TYPES']!r}")
    ok(set(seq(g["CORNER_BOUNDARY_TYPES"])) == {g[b] for b in CORNERS}, "CORNER_BOUNDARY_TYPES", f"CORNER_BOUNDARY_TYPES is {g['CORNER_BOUNDARY_TYPES']!r}")
    want = {"X_DIMS": {"x", "x_interface"}, "Y_DIMS": {"y", "y_interface"}, "Z_DIMS": {"z", "z_interface"}, "HORIZONTAL_DIMS": {"x", "x_interface", "y", "y_interface"}, "INTERFACE_DIMS": {"x_interface", "y_interface", "z_interface"}}
    for n, w in want.items():
        ok(set(seq(g[n])) == w, n, f"{n} is {g[n]!r}, expected {sorted(w)}")
    for n, w in {"X_DIM": "x", "X_INTERFACE_DIM": "x_interface", "Y_DIM": "y", "Y_INTERFACE_DIM": "y_interface", "Z_DIM": "z", "Z_INTERFACE_DIM": "z_interface", "TILE_DIM": "tile"}.items():
        ok(g[n] == w, n, f"{n} is {g[n]!r}, expected {w!r}")


def seq(v):
    return list(v.items) if isinstance(v, (ListV, SetV)) else list(v)


def direction(I, kind, b):
    """on a subtile away from the tile edges the neighbour is the adjacent one"""
    S = I.S
    I.hooks.clear()
    if kind == "tile":
        tile_layout(I, S, square=True)
        part, S["rank"] = tile_partitioner(I, S), S["tile_rank"]
    else:
        part = cube_world(I, S, int(kind[4:]))
    S["type"] = const(I, b)
    dx = sum(VEC[e][0] for e in CORNERS.get(b, (b,)))
    dy = sum(VEC[e][1] for e in CORNERS.get(b, (b,)))
    S["want"] = S["rank"] + S["L"] * Poly.const(dy) + Poly.const(dx)
    S["inside"] = False
    for v, edge in ((S["i"], 0), (S["j"], 0), (S["i"], S["L"] - ONE), (S["j"], S["L"] - ONE)):
        if I.cmp_num("==", v, edge):
            return
    S["inside"] = True
    S["b"] = attrs_of(I.meth(part, "boundary", S["type"], mk(S["rank"])))


def judge_direction(R, I, p, kind, b):
    key = f"C29:direction:{kind}:{b}"
    anchor = fwhere(I, f"partitioner.{'TilePartitioner' if kind == 'tile' else 'CubedSpherePartitioner'}.boundary")
    if p.status != "raise" and not p.S["inside"]:
        return
    if p.status == "raise" or p.S.get("b") is None:
        R.violate(key + ":raise", where(p), f"boundary({b}) inside a tile: {exc_desc(p) if p.status == 'raise' else 'None'}", p.desc())
        return
    x = p.S["b"]
    R.check(x["boundary_type"] == p.S["type"] and peq(p.facts, x["from_rank"], p.S["rank"]) is True, "direction", f"{kind} {b} label", key + ":label", anchor,
            f"boundary({b}) is labelled {x['boundary_type']} from rank {vrepr(x['from_rank'])}", p.desc())
    R.check(peq(p.facts, x["to_rank"], p.S["want"]) is True, "direction", f"{kind} {b}", key, anchor, f"boundary({b}) inside a tile leads to rank {vrepr(x['to_rank'])}, expected {p.S['want']!r}", p.desc())


def area(I, dims, b, v):
    S = I.S
    I.hooks.clear()
    n = S["n"] = I.sym("n", 1)
    q = horizontal_quantity(I, S, "q", dims, n, n + ONE + I.sym("m", 0))
    bd = I.call_name("boundary.SimpleBoundary", from_rank=0, to_rank=1, n_clockwise_rotations=0, boundary_type=const(I, b))
    S["got"] = I.meth(bd, v, q, mk(n))


def judge_area(R, I, p, dims, b, v):
    key = f"C29:area:{','.join(dims)}:{b}:{v}"
    anchor = fwhere(I, "_boundary_utils.get_boundary_slice")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{v} at {b} of {dims}: {exc_desc(p)}", p.desc())
        return
    info = p.S["q"]
    reg = region(info, b, p.S["n"], v == "send_view")
    R.check(view_is(p, p.S["got"], info["arr"].buf, reg), "direction", f"{dims} {b} {v}", key, anchor, f"the {v} at {b} of a quantity with dims {dims} is {p.S['got']!r}", p.desc())
