"""C02: halo messages pair one to one and cannot deadlock or cross."""
from ..halo import *

FLOOR = 300
SCALARS = [("y", "x"), ("x", "z", "y")]
VECTORS = [(("y", "x"), ("y", "x")), (("z", "y_interface", "x"), ("z", "y", "x_interface"))]
SYNCS = [(("y_interface", "x"), ("y", "x_interface")), (("y_interface", "x", "z"), ("y", "x_interface", "z"))]
EXPECT_SYNC = {"send": ("SOUTH", "WEST"), "recv": ("NORTH", "EAST")}


def run(R):
    R.rule("pairs", "for each existing boundary (shared edge) and field: exactly one non-blocking send and one receive with the rank across it")
    R.rule("distinct", "ranks across different boundaries of one rank differ, so a (peer, tag) pair names one message per field")
    R.rule("nonblocking", "no blocking operation before the returned request is waited on; no receive posted to block before the last send")
    R.rule("waits", "no wait on a send of an update precedes a receive of that update, so that no cycle of ranks waits on one another's receives")
    R.rule("completed", "after waiting on the request every non-blocking operation it started is complete")
    R.rule("tags", "send and receive across the two sides of a boundary use the same tag for the same field; the components of a vector use different tags")
    R.rule("fresh", "an update started later, with any number of updates in between, uses tags different from those of earlier updates")
    R.assume("every rank performs the same sequence of updates")
    W = World(R)
    for t in range(6):
        for ds in SCALARS:
            W.run("pairs", f"tile {t} scalar {ds}", lambda I, a=(t, "scalar", ds): update(I, *a), lambda p, a=(t, "scalar", ds): judge(R, W.I, p, *a))
        for ds in VECTORS:
            W.run("pairs", f"tile {t} vector {ds}", lambda I, a=(t, "vector", ds): update(I, *a), lambda p, a=(t, "vector", ds): judge(R, W.I, p, *a))
        for ds in SYNCS:
            W.run("pairs", f"tile {t} synchronise {ds}", lambda I, a=(t, "sync", ds): update(I, *a), lambda p, a=(t, "sync", ds): judge(R, W.I, p, *a))
    for first in ("scalar", "vector", "sync"):
        for second in ("scalar", "vector", "sync"):
            W.run("fresh", f"{first} then {second}", lambda I, a=(first, second): history(I, *a), lambda p, a=(first, second): judge_history(R, W.I, p, *a))


def make(I, S, kind, dims, label=""):
    """a starter of one update on fresh quantities; returns (fields, thunk)"""
    cc, n = S["cc"], S["n"]
    if kind == "scalar":
        q = horizontal_quantity(I, S, label + "q", dims, n, S["m"])
        return [label + "q"], lambda: I.meth(cc, "start_halo_update", q, mk(n))
    x = horizontal_quantity(I, S, label + "x", dims[0], n, S["m"])
    y = horizontal_quantity(I, S, label + "y", dims[1], n, S["m"])
    f = [label + "x", label + "y"]
    if kind == "vector":
        return f, lambda: I.meth(cc, "start_vector_halo_update", x, y, mk(n))
    return f, lambda: I.meth(cc, "start_synchronize_vector_interfaces", x, y)


def world(I, t):
    S = I.S
    fix_contig(I, False)
    cube_comm(I, S, t)
    n = S["n"] = I.sym("n", 1)
    S["m"] = n + ONE + I.sym("m'", 0)


def update(I, t, kind, dims):
    S = I.S
    world(I, t)
    S["fields"], start = make(I, S, kind, dims)
    S["bnd"] = boundaries(I, S)
    S["before"] = ints(S["cc"])
    S["seq0"] = I.seq
    S["req"] = start()
    S["seq1"] = I.seq
    I.meth(S["req"], "wait")
    S["seq2"] = I.seq


def ints(o):
    return {k: v for k, v in o.attrs.items() if isinstance(v, (int, Poly)) and not isinstance(v, bool)} if isinstance(o, InstV) else {}


def judge(R, I, p, t, kind, dims):
    S = p.S
    key = f"C02:{kind}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{kind} update of {dims} on tile {t} raises {exc_desc(p)}", p.desc())
        return
    evs = [e for e in comm_events(p.events) if e.seq > S["seq0"]]
    sub = f"tile {t} {kind} {dims} [{p.desc()[-80:]}]"
    sends = [e for e in evs if e.op in ("Isend", "isend")]
    recvs = [e for e in evs if e.op in ("Recv", "recv", "Irecv", "irecv")]
    other = [e for e in evs if e.op in ("Send", "send", "Ssend", "Sendrecv")]
    R.check(not other, "nonblocking", sub, key + ":blocking-send", where(p, other[0]) if other else "", f"{kind} update uses the blocking {other[0].op if other else ''}", p.desc())
    early = [e for e in evs if e.seq <= S["seq1"] and (e.op in BLOCKING or e.op in COLLECTIVE)]
    R.check(not early, "nonblocking", sub, key + ":early", where(p, early[0]) if early else "",
            f"starting a {kind} update performs the blocking operation {early[0].op if early else ''}", p.desc())
    late = [e for e in sends if e.seq > S["seq1"]]
    R.check(not late, "nonblocking", sub, key + ":late-send", where(p, late[0]) if late else "",
            f"a message of a {kind} update is only sent while waiting on the request", p.desc())
    bnd = {d: b for d, b in S["bnd"].items() if b is not None}
    names = list(bnd)
    if kind != "sync":
        for a in range(len(names)):
            for b in range(a):
                r = peq(p.facts, bnd[names[a]][0], bnd[names[b]][0])
                if r is False:
                    R.ok("distinct", f"{sub} {names[a]} {names[b]}")
                elif r is True:
                    R.violate(f"{key}:same-peer:{names[a]}:{names[b]}", fwhere(I, "partitioner.CubedSpherePartitioner.boundary"),
                              f"the boundaries {names[b]} and {names[a]} lead to the same rank {vrepr(bnd[names[a]][0])}", p.desc())
                else:
                    R.undecided("distinct", sub, f"{names[a]} and {names[b]}: {vrepr(bnd[names[a]][0])} vs {vrepr(bnd[names[b]][0])}")
    nf = len(S["fields"]) if kind != "sync" else 1
    out = {}
    for what, es, dirs in (("send", sends, names if kind != "sync" else EXPECT_SYNC["send"]), ("recv", recvs, names if kind != "sync" else EXPECT_SYNC["recv"])):
        left = list(es)
        for d in dirs:
            mine = [e for e in left if peq(p.facts, e.peer, bnd[d][0]) is True]
            if not R.check(len(mine) == nf, "pairs", f"{sub} {what} {d}", f"{key}:{what}:{d}", where(p, mine[-1] if mine else (es[0] if es else None)),
                           f"{kind} update posts {len(mine)} {what}s with rank {vrepr(bnd[d][0])} across {d}, expected {nf}", p.desc()):
                continue
            left = [e for e in left if not any(e is m for m in mine)]
            fs = fields_of(I, p, kind, what, d, bnd[d][1], mine)
            if fs is None:
                R.undecided("tags", f"{sub} {what} {d}", "cannot tell which field each message carries")
                continue
            for f, e in fs.items():
                out[what, d, f] = e
            tg = [e.tag for e in mine]
            if nf == 2:
                r = peq(p.facts, tg[0], tg[1])
                R.check(r is False, "tags", f"{sub} {what} {d} components", f"{key}:{what}:component-tags", where(p, mine[1]),
                        f"both components of a vector {what} across {d} use tag {vrepr(tg[0])}", p.desc())
        for e in left:
            R.violate(f"{key}:{what}:extra", where(p, e), f"{kind} update posts an additional {what} with rank {vrepr(e.peer)}", p.desc())
    # a send may only be waited on once every receive of the update is posted:
    # all ranks run the same code, so a rank waiting earlier waits on a peer that waits too
    if recvs:
        last = max(r.seq for r in recvs)
        held = [e for e in evs if e.op in ("wait", "Wait") and any(e.post is q for q in sends) and e.seq < last]
        R.check(not held, "waits", sub, f"{key}:held-send", where(p, held[0]) if held else "",
                f"a {kind} update waits on a send before it has posted all its receives: with messages too large to be buffered every rank waits on its neighbours", p.desc())
    # completion
    done = [e.post for e in evs if e.op in ("wait", "Wait")]
    for e in sends + [r for r in recvs if r.op in ("Irecv", "irecv")]:
        R.check(any(q is e for q in done), "completed", sub, f"{key}:incomplete:{e.op}", where(p, e),
                f"an {e.op} of a {kind} update is not completed by waiting on the returned request", p.desc())
    # tags seen from both sides
    for (what, d, f), e in out.items():
        tag = e.tag
        own = peq(p.facts, tag, tag)
        if isinstance(tag, int):
            R.note(kind, what, d, bnd[d][1], f, tag, f"{e.site[0]}:{e.site[1]}")
        else:
            mate = next((v for (w, dd, ff), v in out.items() if w != what and dd == d), None)
            if mate is not None and peq(p.facts, mate.tag, tag) is True and depends_on_rank(tag):
                R.violate(f"{key}:rank-tag", where(p, e), f"the {what} tag {vrepr(tag)} depends on the rank it is computed on", p.desc())
            else:
                R.undecided("tags", f"{sub} {what} {d}", f"tag {vrepr(tag)}")


def depends_on_rank(tag):
    q = to_poly(tag)
    return q is not None and any(str(getattr(a, "name", a)).startswith(("j", "i", "comm")) for a in q.atoms())


def fields_of(I, p, kind, what, d, k, es):
    """{field: event}: which field of the receiver each message holds"""
    S = p.S
    if kind == "sync":
        return {"edge": es[0]}
    if len(S["fields"]) == 1:
        return {"0": es[0]}
    if what == "recv":
        out = {}
        for e in es:
            hit = set()
            for w in walk_events(p.events, ("write",)):
                if "msg" in e.data and w.content is not None and any(isinstance(a, Term) and a.op == "el" and a.args[0][1] == e.msg.buf.oid for a in w.content.num.atoms()):
                    hit |= {n for n, f in enumerate(S["fields"]) if S[f]["arr"].buf is w.arr.buf}
            if len(hit) != 1:
                return None
            out[str(hit.pop())] = e
        return out if len(out) == len(es) else None
    src = {}
    for e in es:
        if e.content is None:
            return None
        oids = {a.args[0][1] for a in e.content.num.atoms() if isinstance(a, Term) and a.op == "el"}
        hit = [n for n, f in enumerate(S["fields"]) if S[f]["arr"].buf.oid in oids]
        if len(hit) != 1:
            return None
        # a quarter turn exchanges the components
        src[str(hit[0] ^ (k & 1))] = e
    return src if len(src) == len(es) else None


def conclude(R):
    """send tags against the receive tags of the rank across the boundary"""
    tags = {}
    for kind, what, d, k, f, tag, at in R.notes:
        tags.setdefault((kind, what, d, f), {}).setdefault(tag, at)
    seen = set()
    for kind, what, d, k, f, tag, at in R.notes:
        if what != "send":
            continue
        backs = back_of(d, k)
        other = tags.get((kind, "recv", backs, f), {})
        if (kind, d, k, f, tag) in seen:
            continue
        seen.add((kind, d, k, f, tag))
        if not other:
            R.violate(f"C02:{kind}:unreceived:{d}:{k}", at, f"the rank across {d} (rotation {k}) posts no receive for boundary {backs} of this {kind} update")
            continue
        bad = [t for t in other if t != tag]
        R.check(not bad, "tags", f"{kind} {d} k={k} field {f}", f"C02:{kind}:tag:{d}:{k}:{f}", at,
                f"field {f} of a {kind} update is sent across {d} (rotation {k}) with tag {tag} but received across {backs} with tag {bad[:1]} ({other.get(bad[0]) if bad else ''})")


def back_of(d, k):
    if d in CORNERS:
        a, b = CORNERS[d]
        s = {back_direction(a, k), back_direction(b, k)}
        return next(c for c, ab in CORNERS.items() if set(ab) == s)
    return back_direction(d, k)


# ------------------------------------------------------------- successive updates
def history(I, first, second):
    S = I.S
    world(I, 0)
    # an interior subtile keeps the number of paths small; tags cannot depend on it
    I.meth(S["cc"], "_noop") if False else None
    S["runs"] = []
    dims = {"scalar": SCALARS[0], "vector": VECTORS[0], "sync": SYNCS[0]}

    def go(kind, label):
        f, start = make(I, S, kind, dims[kind], label)
        a = I.seq
        before = ints(S["cc"])
        r = start()
        S["runs"].append((kind, a, I.seq, r, before, ints(S["cc"])))
    go("scalar", "w")
    changed = [k for k, v in S["runs"][0][5].items() if vkey(v) != vkey(S["runs"][0][4].get(k))]
    S["changed"] = changed
    for k in changed:
        I.raw_setattr(S["cc"], k, mk(I.sym("H_" + k, S["runs"][0][5][k])))
    go(first, "a")
    for k in changed:
        v = S["cc"].attrs[k]
        I.raw_setattr(S["cc"], k, mk(to_poly(v) + I.sym("G_" + k, 0)))
    go(second, "b")


def judge_history(R, I, p, first, second):
    S = p.S
    key = f"C02:fresh:{first}:{second}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"a {second} update while a {first} update is in flight raises {exc_desc(p)}", p.desc())
        return
    evs = comm_events(p.events)
    tags = []
    for kind, a, b, r, before, after in S["runs"]:
        tags.append([e for e in evs if a < e.seq <= b and e.op in ("Isend", "isend", "Irecv", "irecv")])
    for k in S["changed"]:
        for kind, a, b, r, before, after in S["runs"]:
            d = to_poly(after[k]) - to_poly(before[k])
            s = p.facts.sign(d)
            if not R.check(s in (0, ">", ">="), "fresh", f"{first} {second} counter {k}", f"C02:fresh:counter:{k}", fwhere(I, "communicator.CubedSphereCommunicator"),
                           f"a {kind} update changes the tag counter {k} from {vrepr(before[k])} to {vrepr(after[k])}, which does not only grow", p.desc()):
                return
    for i in range(len(tags)):
        for j in range(i):
            for e in tags[i]:
                for f in tags[j]:
                    r = peq(p.facts, e.tag, f.tag)
                    if r is None:
                        g = same_after(p, S, e.tag, f.tag)
                        if g is None:
                            R.undecided("fresh", f"{first} {second}", f"{vrepr(e.tag)} vs {vrepr(f.tag)}")
                        else:
                            R.violate(key, where(p, e), f"a {S['runs'][i][0]} update uses tag {vrepr(e.tag)} while a {S['runs'][j][0]} update with tag {vrepr(f.tag)} may be in flight: "
                                      f"these are equal when the updates in between have advanced the counter by {g}", p.desc())
                        return
                    if not R.check(r is False, "fresh", f"{first} {second}", key, where(p, e),
                                   f"a {S['runs'][i][0]} update uses tag {vrepr(e.tag)} while a {S['runs'][j][0]} update with tag {vrepr(f.tag)} may be in flight", p.desc()):
                        return


def same_after(p, S, a, b):
    """how far the updates started between two updates must have advanced the
    tag counter for two tags to be equal, when updates can do that; else None"""
    d = to_poly(a) - to_poly(b)
    gaps = [x for x in d.atoms() if str(x).startswith("G_")]
    if len(gaps) != 1:
        return None
    g = Poly.atom(gaps[0])
    for c in (1, -1):
        rest = d - (g if c == 1 else -g)
        if not rest.is_const():
            continue
        need = -rest.constval() * c
        k = str(gaps[0])[2:]
        steps = {(to_poly(after[k]) - to_poly(before[k])).constval() for _, _, _, _, before, after in S["runs"] if (to_poly(after[k]) - to_poly(before[k])).is_const()}
        reach, todo = {0}, [0]
        while todo:
            x = todo.pop()
            for s in steps:
                if s > 0 and x + s <= need and x + s not in reach:
                    reach.add(x + s), todo.append(x + s)
        return need if need in reach else None
    return None
