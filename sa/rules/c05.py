"""C05: the neighbour relation of the cubed sphere is the folded cube."""
from ..world import *

FLOOR = 150

# (tile parity, direction) -> (tile offset, clockwise rotations): gnomonic
# cubed sphere of FV3, tiles numbered 0..5
CUBE = {(0, "WEST"): (-2, 1), (0, "EAST"): (1, 0), (0, "NORTH"): (2, 3), (0, "SOUTH"): (-1, 0),
        (1, "WEST"): (-1, 0), (1, "EAST"): (2, 1), (1, "NORTH"): (1, 0), (1, "SOUTH"): (-2, 3)}


def run(R):
    R.rule("edge", "to_rank and rotations across an edge equal the folded-cube neighbour of subtile (tile, j, i), for every layout size L")
    R.rule("return", "crossing back through the neighbour's matching edge returns to the rank with the inverse rotation")
    R.rule("corner", "diagonal neighbour is the composition of two edge crossings, None exactly at the corners of a tile face")
    R.rule("vertex", "three faces meet at each face corner: three crossings around it return to the starting rank")
    R.assume("rank is an integer in [0, 6*L*L); L >= 1")
    W = World(R)
    anchor = fwhere(W.I, "partitioner.CubedSpherePartitioner.boundary")
    for t in range(6):
        for d in EDGES:
            W.run("edge", f"tile {t} {d}", lambda I, t=t, d=d: edge(I, t, d), lambda p, t=t, d=d: judge_edge(R, p, t, d, anchor))
        for c in CORNERS:
            W.run("corner", f"tile {t} {c}", lambda I, t=t, c=c: corner(I, t, c), lambda p, t=t, c=c: judge_corner(R, p, t, c, anchor))
            W.run("vertex", f"tile {t} {c}", lambda I, t=t, c=c: vertex(I, t, c), lambda p, t=t, c=c: judge_vertex(R, p, t, c, anchor))


def bnd(I, cp, d, r):
    I.S.setdefault("type", const(I, d))
    b = I.meth(cp, "boundary", const(I, d), mk(r))
    return attrs_of(b)


def edge(I, t, d):
    S = I.S
    cp = cube_world(I, S, t)
    b = S["b"] = bnd(I, cp, d, S["rank"])
    if b is None:
        return
    k = b["n_clockwise_rotations"]
    if not isinstance(k, int):
        raise Unsupported("symbolic rotation count")
    S["d2"] = d2 = back_direction(d, k)
    S["back"] = bnd(I, cp, d2, b["to_rank"])
    # does the rank touch this edge of the tile?
    S["on"] = on_edge(I, S, d)


def on_edge(I, S, d):
    if d == "WEST":
        return I.cmp_num("==", S["i"], 0)
    if d == "EAST":
        return I.cmp_num("==", S["i"], S["L"] - ONE)
    if d == "SOUTH":
        return I.cmp_num("==", S["j"], 0)
    return I.cmp_num("==", S["j"], S["L"] - ONE)


def expected_edge(S, t, d, on):
    """(rank, rotations) across edge d"""
    L, j, i = S["L"], S["j"], S["i"]
    dx, dy = VEC[d]
    if not on:
        return S["rank"] + L * Poly.const(dy) + Poly.const(dx), 0
    dt, k = CUBE[(t % 2, d)]
    t2 = (t + dt) % 6
    d2 = back_direction(d, k)
    pos = j if dx else i
    tang = (0, 1) if dx else (1, 0)
    tx, ty = ccw(tang, k)
    if tx + ty < 0:
        pos = L - ONE - pos
    j2, i2 = place(L, d2, pos)
    return Poly.const(t2) * L * L + j2 * L + i2, k


def place(L, d, pos):
    """(j, i) of the subtile at position pos along edge d"""
    return {"WEST": (pos, Poly.const(0)), "EAST": (pos, L - ONE), "SOUTH": (Poly.const(0), pos), "NORTH": (L - ONE, pos)}[d]


def judge_edge(R, p, t, d, anchor):
    S, F = p.S, p.facts
    key = f"C05:edge:{t}:{d}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"boundary({d}) on tile {t} raises {exc_desc(p)}", p.desc())
        return
    b = S["b"]
    if b is None:
        R.violate(key + ":none", anchor, f"no boundary {d} on tile {t} although every edge has a neighbour", p.desc())
        return
    want, k = expected_edge(S, t, d, S["on"])
    subj = f"tile {t} {d} {'on' if S['on'] else 'off'} tile edge"
    R.check(peq(F, b["to_rank"], want) is True, "edge", subj + " rank", key + f":{S['on']}:rank", anchor,
            f"neighbour across {d} of subtile (j, i) on tile {t} is {vrepr(b['to_rank'])}, expected {want!r}", p.desc())
    R.check(b["n_clockwise_rotations"] % 4 == k % 4, "edge", subj + " rotation", key + f":{S['on']}:rot", anchor,
            f"rotation across {d} on tile {t} is {b['n_clockwise_rotations']}, expected {k} (mod 4)", p.desc())
    meta_ok(R, p, b, d, key, anchor)
    back = S["back"]
    if back is None:
        R.violate(key + ":noback", anchor, f"the neighbour across {d} of tile {t} has no edge leading back", p.desc())
        return
    R.check(peq(F, back["to_rank"], S["rank"]) is True and (b["n_clockwise_rotations"] + back["n_clockwise_rotations"]) % 4 == 0,
            "return", subj, key + f":{S['on']}:return", anchor,
            f"crossing {d} from tile {t} and coming back over {S['d2']} gives rank {vrepr(back['to_rank'])} and total rotation "
            f"{b['n_clockwise_rotations'] + back['n_clockwise_rotations']}", p.desc())


def meta_ok(R, p, b, d, key, anchor):
    R.check(b["boundary_type"] == p.S["type"] and peq(p.facts, b["from_rank"], p.S["rank"]) is True, "edge", f"{key} labels",
            key + ":labels", anchor, f"boundary is labelled type {b['boundary_type']} from rank {vrepr(b['from_rank'])}, requested {d} of {p.S['rank']!r}", p.desc())


def corner(I, t, c):
    S = I.S
    cp = cube_world(I, S, t)
    d1, d2 = CORNERS[c]
    on1, on2 = on_edge(I, S, d1), on_edge(I, S, d2)
    S["on"] = (on1, on2)
    b = S["b"] = bnd(I, cp, c, S["rank"])
    if b is None or (on1 and on2):
        return
    if on1:
        d1, d2 = d2, d1     # the first step stays inside the tile
    e1 = bnd(I, cp, d1, S["rank"])
    e2 = bnd(I, cp, d2, e1["to_rank"])
    S["want"] = (e2["to_rank"], e1["n_clockwise_rotations"] + e2["n_clockwise_rotations"])


def judge_corner(R, p, t, c, anchor):
    S, F = p.S, p.facts
    key = f"C05:corner:{t}:{c}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"boundary({c}) on tile {t} raises {exc_desc(p)}", p.desc())
        return
    b = S["b"]
    face_corner = all(S["on"])
    if b is None or face_corner:
        R.check((b is None) == face_corner, "corner", f"tile {t} {c} absent", key + ":none", anchor,
                f"boundary across {c} on tile {t} is {'absent' if b is None else 'present'} at "
                f"{'a corner' if face_corner else 'no corner'} of the tile face", p.desc())
        return
    r, k = S["want"]
    R.check(peq(F, b["to_rank"], r) is True and (b["n_clockwise_rotations"] - k) % 4 == 0, "corner", f"tile {t} {c} {S['on']}",
            key + f":{S['on']}", anchor,
            f"diagonal neighbour {c} of tile {t} is {vrepr(b['to_rank'])} with {b['n_clockwise_rotations']} rotations, the composed "
            f"edge crossings give {vrepr(r)} with {k}", p.desc())
    meta_ok(R, p, b, c, key, anchor)


def vertex(I, t, c):
    """walk around the face corner c of tile t"""
    S = I.S
    L = I.sym("L", 1)
    d1, d2 = CORNERS[c]
    S["L"] = L
    S["ny"] = S["nx"] = L
    S["layout"] = (L, L)
    S["j"] = L - ONE if d1 == "NORTH" else Poly.const(0)
    S["i"] = L - ONE if d2 == "EAST" else Poly.const(0)
    S["rank"] = Poly.const(t) * L * L + S["j"] * L + S["i"]
    cp = cube_partitioner(I, S)
    r, cross, side = S["rank"], d1, d2
    S["tiles"] = []
    for _ in range(3):
        b = bnd(I, cp, cross, r)
        if b is None:
            S["end"] = None
            return
        k = b["n_clockwise_rotations"]
        if not isinstance(k, int):
            raise Unsupported("symbolic rotation count")
        entered = back_direction(cross, k)
        # the other edge at the same vertex, in the new frame
        cross = NAME[ccw(VEC[side], k)]
        side = entered
        r = b["to_rank"]
    S["end"] = (r, cross, side, d1, d2)


def judge_vertex(R, p, t, c, anchor):
    key = f"C05:vertex:{t}:{c}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"walking around corner {c} of tile {t} raises {exc_desc(p)}", p.desc())
        return
    e = p.S["end"]
    R.check(e is not None and peq(p.facts, e[0], p.S["rank"]) is True and e[1] == e[3] and e[2] == e[4], "vertex", f"tile {t} {c}", key, anchor,
            f"three edge crossings around corner {c} of tile {t} end at {vrepr(e[0]) if e else None} facing {e[1] if e else None}", p.desc())
