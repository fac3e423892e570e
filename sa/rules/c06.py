"""C06: the single-tile neighbour relation is the doubly periodic grid."""
from ..world import *

FLOOR = 25
PRED = {"on_tile_top": ("NORTH",), "on_tile_bottom": ("SOUTH",), "on_tile_left": ("WEST",), "on_tile_right": ("EAST",)}


def run(R):
    R.rule("edge", "to_rank = (row, column) of the adjacent subtile, modulo the layout in each axis; no rotation")
    R.rule("corner", "diagonal neighbour = composition of the two edge moves, never None, no rotation")
    R.rule("predicate", "on_tile_top/bottom/left/right(rank) is true exactly for the last/first row, first/last column")
    R.assume("layout = (rows, columns) with rows, columns >= 1; 0 <= rank < rows*columns")
    W = World(R)
    anchor = fwhere(W.I, "partitioner.TilePartitioner.boundary")
    for d in BOUNDARIES:
        W.run("corner" if d in CORNERS else "edge", d, lambda I, d=d: drive(I, d), lambda p, d=d: judge(R, p, d, anchor))
    for m in PRED:
        W.run("predicate", m, lambda I, m=m: pred(I, m), lambda p, m=m: judge_pred(R, p, m, fwhere(W.I, "partitioner.TilePartitioner." + m)))


def at(I, S, d):
    """is the rank in the row/column touching tile edge d"""
    if d == "WEST":
        return I.cmp_num("==", S["i"], 0)
    if d == "EAST":
        return I.cmp_num("==", S["i"], S["nx"] - ONE)
    if d == "SOUTH":
        return I.cmp_num("==", S["j"], 0)
    return I.cmp_num("==", S["j"], S["ny"] - ONE)


def drive(I, d):
    S = I.S
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    S["type"] = const(I, d)
    j, i = S["j"], S["i"]
    for e in CORNERS.get(d, (d,)):
        on = at(I, S, e)
        dx, dy = VEC[e]
        if dx:
            i = (Poly.const(0) if dx > 0 else S["nx"] - ONE) if on else i + Poly.const(dx)
        else:
            j = (Poly.const(0) if dy > 0 else S["ny"] - ONE) if on else j + Poly.const(dy)
    S["want"] = j * S["nx"] + i
    S["b"] = attrs_of(I.meth(tp, "boundary", S["type"], mk(S["tile_rank"])))


def judge(R, p, d, anchor):
    S = p.S
    rule = "corner" if d in CORNERS else "edge"
    key = f"C06:{rule}:{d}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"boundary({d}) raises {exc_desc(p)}", p.desc())
        return
    b = S["b"]
    if b is None:
        R.violate(key + ":none", anchor, f"no boundary {d} in a doubly periodic tile", p.desc())
        return
    R.check(peq(p.facts, b["to_rank"], S["want"]) is True, rule, f"{d} [{p.desc()}]", key + ":rank", anchor,
            f"neighbour across {d} is {vrepr(b['to_rank'])}, expected {S['want']!r}", p.desc())
    R.check(b["n_clockwise_rotations"] == 0 and b["boundary_type"] == S["type"] and peq(p.facts, b["from_rank"], S["tile_rank"]) is True,
            rule, f"{d} labels [{p.desc()}]", key + ":labels", anchor,
            f"boundary {d} has rotations {vrepr(b['n_clockwise_rotations'])}, type {vrepr(b['boundary_type'])}, from {vrepr(b['from_rank'])}", p.desc())


def pred(I, m):
    S = I.S
    tile_layout(I, S)
    tp = tile_partitioner(I, S)
    S["want"] = at(I, S, PRED[m][0])
    S["got"] = I.truth(I.meth(tp, m, mk(S["tile_rank"])))


def judge_pred(R, p, m, anchor):
    if p.status == "raise":
        R.violate(f"C06:pred:{m}:raise", where(p), f"{m} raises {exc_desc(p)}", p.desc())
        return
    R.check(p.S["got"] == p.S["want"], "predicate", f"{m} [{p.desc()}]", f"C06:pred:{m}", anchor,
            f"{m} is {p.S['got']} where it should be {p.S['want']}", p.desc())
