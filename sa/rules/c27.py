"""C27: the testing communicator has MPI value and matching semantics.

Histories of calls over the simulated ranks, up to a bounded length, are run in
the abstract domain with symbolic arrays and compared call by call with a
reference of MPI's matching rules."""
from itertools import product
from ..halo import *

FLOOR = 3000
MOD = "testing.dummy_comm.DummyComm"


def run(R):
    deep = R.tier == "thorough"
    R.rule("match", "a receive returns the oldest message from that source to that rank not yet received whose tag is the requested one (any, when none is requested), for every history of sends and receives of length %d between two ranks" % (5 if deep else 4))
    R.rule("value", "received values are those the sender's buffer held at the call, although every buffer is overwritten right after the call; a broadcast object is not shared between ranks")
    R.rule("absent", "a receive without such a message, a broadcast or scatter before the root's and a gather before the other ranks' raise ConcurrencyError and change nothing: the same call succeeds later")
    R.rule("collective", "the k-th broadcast, scatter and gather of every rank belong together, under every schedule of the ranks")
    R.rule("refuse", "broadcast and scatter from another root than 0 raise NotImplementedError; non-contiguous buffers raise ValueError; neither sends nor consumes anything")
    R.rule("split", "the k-th Split of all ranks makes one communicator per color, ranks numbered in order of the calls, with messages of its own")
    R.assume("requests are waited on in the order in which they were posted; Split is called from the lowest to the highest rank")
    W = World(R)
    sends = [("S", 0, 1, 0), ("S", 0, 1, 5), ("S", 1, 0, 5)]
    recvs = [("R", 1, 0, 0), ("R", 1, 0, 5), ("R", 1, 0, None), ("R", 0, 1, 5), ("R", 0, 0, None)]
    acts = sends + recvs
    for mode in ("blocking", "nonblocking"):
        for first in product(acts, repeat=3 if deep else 2):
            hs = [first + rest for rest in product(acts, repeat=2)]
            W.run("match", f"{mode} {show(first)} ...", lambda I, a=(mode, hs): p2p(I, *a), lambda p, a=mode: judge_p2p(R, W.I, p, a))
    for tag in (0, 5, None):
        W.run("match", f"receive posted first, tag {tag}", lambda I, a=tag: early(I, a), lambda p, a=tag: judge_early(R, W.I, p, a))
    kinds = ("bcast", "Scatter", "Gather", "Gather1")
    for n in (2, 3):
        for prog in product(kinds, repeat=2 if n == 2 and not deep else 3 if n == 2 else 2):
            steps = {2: 6 if not deep else 8, 3: 7 if deep else 6}[n]
            scheds = list(product(range(n), repeat=steps))
            if n == 3:
                scheds = [s for s in scheds if s[0] <= 1] if deep else [s for k, s in enumerate(scheds) if k % 5 == 0]
            W.run("collective", f"{n} ranks {prog}", lambda I, a=(n, prog, scheds): collective(I, *a), lambda p, a=(n, prog): judge_collective(R, W.I, p, *a))
    for who in (0, 1):
        W.run("value", f"object broadcast, then changed by rank {who}", lambda I, a=who: alias(I, a), lambda p, a=who: judge_alias(R, W.I, p, a))
    for op in ("bcast", "Scatter"):
        W.run("refuse", f"{op} root 1", lambda I, a=op: refuse_root(I, a), lambda p, a=op: judge_refuse(R, W.I, p, a, "NotImplementedError", "a root other than 0"))
    for op in ("Send", "Isend", "Recv", "Irecv", "Scatter", "Scatter recv", "Gather", "Gather recv"):
        W.run("refuse", f"{op} non-contiguous", lambda I, a=op: refuse_buffer(I, a), lambda p, a=op: judge_refuse(R, W.I, p, a, "ValueError", "a non-contiguous buffer"))
    for colors in product((0, 1), repeat=3):
        W.run("split", f"colors {colors}", lambda I, a=colors: split(I, a), lambda p, a=colors: judge_split(R, W.I, p, a))


def show(h):
    return " ".join(f"{a[0]}{a[1]}{a[2]}t{a[3]}" for a in h)


def comms(I, n):
    b = I.new(DictV([]))
    return [I.call_name(MOD, r, n, b) for r in range(n)]


def start(I):
    I.hooks.clear()
    I.inject = None
    fix_contig(I, True)


def array(I, S, label, lead=()):
    n = S.setdefault("n", I.sym("n", 1))
    return A.external(I, I.fresh_name(label), tuple(lead) + (mk(n),))


def overwrite(I, a):
    I.setitem(a, slice(None, None, None), 0)


def kind_of(e):
    c = e.exc.cls
    return getattr(c, "name", None) or (c.t.__name__ if isinstance(c, BT) else repr(c))


def attempt(f):
    try:
        return None, f()
    except AbsRaise as e:
        return e, None


def p2p(I, mode, hs):
    S = I.S
    start(I)
    S["runs"] = []
    for h in hs:
        cs = comms(I, 2)
        log = []
        S["runs"].append((h, log))
        for a in h:
            buf = array(I, S, "msg" if a[0] == "S" else "dest")
            c0 = A.content_of(I, buf)
            if a[0] == "S":
                kw = {"dest": a[2], "tag": a[3]} if a[3] else {"dest": a[2]}
                op = "Send" if mode == "blocking" else "Isend"
            else:
                kw = {"source": a[2]} if a[3] is None else {"source": a[2], "tag": a[3]}
                op = "Recv" if mode == "blocking" else "Irecv"

            def go():
                r = I.call(I.getattr(cs[a[1]], op), [buf], kw)
                if a[0] == "S":
                    overwrite(I, buf)
                if mode != "blocking":
                    I.meth(r, "wait")
            err, _ = attempt(go)
            log.append((a, err, c0, A.content_of(I, buf)))


def key_of(c):
    return c.key if c is not None else None


def judge_p2p(R, I, p, mode):
    S = p.S
    anchor = fwhere(I, MOD + "._get_send_recv")
    if p.status == "raise":
        R.violate(f"C27:p2p:{mode}:raise", where(p), f"{mode} messages: {exc_desc(p)}", p.desc())
        return
    for h, log in S["runs"]:
        queue = {}
        for k, (a, err, before, after) in enumerate(log):
            name = f"{mode}: {show(h[:k + 1])}"
            raised = kind_of(err) if err is not None else None
            if a[0] == "S":
                R.check(raised is None, "match", name, f"C27:{mode}:send", anchor, f"{name}: the send raises {raised}", p.desc())
                queue.setdefault((a[1], a[2]), []).append((a[3], before))
                continue
            q = queue.get((a[2], a[1]), [])
            hit = next((m for m in q if a[3] is None or m[0] == a[3]), None)
            # the tag matters when the oldest message is not the one asked for
            tagged = ":tag" if q and q[0] is not hit else ""
            if hit is None:
                cls = tagged or (":drained" if (a[2], a[1]) in queue else "")
                what = "returns" if raised is None else raised
                if not R.check(raised == "ConcurrencyError" and key_of(after) == key_of(before), "absent", name, f"C27:{mode}:absent{cls}:{what}", anchor,
                               f"{name}: receiving a message that was not sent {'raises ' + raised if raised else 'returns'}, expected ConcurrencyError and an unchanged buffer", p.desc()):
                    if raised is None or key_of(after) != key_of(before):
                        break
                continue
            q.remove(hit)
            if not R.check(raised is None, "match", name, f"C27:{mode}:recv{tagged}", anchor, f"{name}: the receive raises {raised} although a message is there", p.desc()):
                break
            if not R.check(key_of(after) == key_of(hit[1]), "value", name, f"C27:{mode}:value{tagged}", anchor, f"{name}: received {after!r}, expected {hit[1]!r}", p.desc()):
                break


def early(I, tag):
    S = I.S
    start(I)
    cs = comms(I, 2)
    dest, other, msg = array(I, S, "dest"), array(I, S, "other"), array(I, S, "msg")
    kw = {} if tag is None else {"tag": tag}
    S["want"] = key_of(A.content_of(I, msg))
    S["before"] = key_of(A.content_of(I, dest))
    req = I.call(I.getattr(cs[1], "Irecv"), [dest], {"source": 0, **kw})
    if tag is not None:
        I.meth(cs[0], "Send", other, dest=1, tag=tag + 1)
    s = I.call(I.getattr(cs[0], "Isend"), [msg], {"dest": 1, **kw})
    I.meth(s, "wait")
    overwrite(I, msg)
    S["between"] = key_of(A.content_of(I, dest))
    I.meth(req, "wait")
    S["after"] = key_of(A.content_of(I, dest))


def judge_early(R, I, p, tag):
    S = p.S
    anchor = fwhere(I, MOD + ".Irecv")
    if p.status == "raise":
        R.violate(f"C27:early:{tag}:raise", where(p), f"a receive posted before its message is sent, tag {tag}: {exc_desc(p)}", p.desc())
        return
    R.check(S["after"] == S["want"], "match", f"early {tag}", f"C27:early:{tag}", anchor, f"a receive posted before its message is sent, tag {tag}, does not deliver it", p.desc())


# ------------------------------------------------------------------ collectives
def collective(I, n, prog, scheds):
    S = I.S
    start(I)
    S["runs"] = []
    for sched in scheds:
        cs = comms(I, n)
        pos = [0] * n
        log = []
        S["runs"].append((sched, log))
        for r in sched:
            if pos[r] == len(prog):
                continue
            k, op = pos[r], prog[pos[r]]
            err, before, after = call(I, S, cs[r], r, n, op)
            log.append((r, k, op, err, before, after))
            if err is None:
                pos[r] += 1


def call(I, S, c, r, n, op):
    """(error, what the rank contributes, what it has received)"""
    root = 1 if op == "Gather1" else 0
    if op == "bcast":
        atom = Term("v", (I.fresh_name("v"),), {"nonnull": True})
        val = I.new(DictV([["v", atom]])) if r == 0 else None
        err, got = attempt(lambda: I.meth(c, "bcast", val, root=0))
        out = None
        if err is None:
            out = dict((k, v) for k, v in got.entries).get("v") if isinstance(got, DictV) else got
        return err, atom if r == 0 else None, out
    if op == "Scatter":
        send = array(I, S, "send", (n,)) if r == 0 else None
        rows = [A.content_of(I, I.B.getitem(I, send, i)) for i in range(n)] if r == 0 else None
        recv = array(I, S, "recv")
        c0 = key_of(A.content_of(I, recv))
        err, _ = attempt(lambda: I.meth(c, "Scatter", send, recv, root=0))
        if send is not None:
            overwrite(I, send)
        return err, rows, A.content_of(I, recv) if err is None or key_of(A.content_of(I, recv)) != c0 else None
    send = array(I, S, "send")
    recv = array(I, S, "recv", (n,)) if r == root else None
    mine = A.content_of(I, send)
    rows, writes = {}, []

    def hook(I, e):
        if e.kind == "write" and recv is not None and e.arr.buf is recv.buf:
            writes.append(e)
    I.hooks["event"] = hook
    err, _ = attempt(lambda: I.meth(c, "Gather", send, recv, root=root))
    I.hooks.pop("event")
    overwrite(I, send)
    if recv is None or not writes and err is not None:
        return err, mine, None
    for e in writes:
        if e.whole:
            rows = {i: A.content_of(I, I.B.getitem(I, recv, i)) for i in range(n)}
        elif list(e.arr.fixed) == [0] and isinstance(e.arr.fixed[0], int) and len(e.arr.axes) == 1 and A.is_whole(I, I.new(A.ArrV(send.buf, e.arr.axes and [A.Axis(0, e.arr.axes[0].start, e.arr.axes[0].step, e.arr.axes[0].length)]))):
            rows[e.arr.fixed[0]] = e.content
        else:
            raise Unsupported(f"write to {e.arr!r}")
    return err, mine, [rows.get(i) for i in range(n)]


def judge_collective(R, I, p, n, prog):
    S = p.S
    if p.status == "raise":
        R.violate(f"C27:collective:{prog}:raise", where(p), f"{prog} on {n} ranks: {exc_desc(p)}", p.desc())
        return
    for sched, log in S["runs"]:
        done = {}       # (rank, k) -> contribution
        for i, (r, k, op, err, mine, got) in enumerate(log):
            name = f"{n} ranks run {', '.join(prog)}, scheduled {sched[:i + 1]}"
            root = 1 if op == "Gather1" else 0
            gather = op.startswith("Gather")
            anchor = fwhere(I, f"{MOD}.{'Gather' if gather else op}")
            raised = kind_of(err) if err is not None else None
            later = ":later" if gather and any(x.startswith("Gather") for x in prog[:k]) else ""
            others = [q for q in range(n) if q != root]
            ready = all((q, k) in done for q in others) if gather and r == root else True if gather or r == root else (root, k) in done
            if not ready:
                if not R.check(raised == "ConcurrencyError" and got is None, "absent", name, f"C27:{op}:absent{later}:{raised or 'returns'}", anchor,
                               f"{name}: {op} {'raises ' + raised if raised else 'returns'} before the data are there, expected ConcurrencyError", p.desc()):
                    break
                continue        # tried again when the rank is next scheduled
            if not R.check(raised is None, "collective", name, f"C27:{op}:raise{later}", anchor, f"{name}: {op} raises {raised} although the data are there", p.desc()):
                break
            done[(r, k)] = mine
            # a rank that ran ahead has called a later gather before this one's root
            if any(q != r and k2 > k and o.startswith("Gather") for q, k2, o, *_ in log[:i]):
                later += ":overrun"
            if op == "bcast":
                want = done[(root, k)]
                R.check(vkey(got) == vkey(want) if got is not None else False, "value", name, "C27:bcast:value", anchor, f"{name}: rank {r} receives {got!r}, expected {want!r}", p.desc())
            elif op == "Scatter":
                want = done[(root, k)][r]
                R.check(key_of(got) == key_of(want), "value", name, "C27:Scatter:value", anchor, f"{name}: rank {r} receives {got!r}, expected {want!r}", p.desc())
            elif r == root:
                for q in range(n):
                    want = done[(q, k)]
                    R.check(key_of(got[q]) == key_of(want), "value", f"{name} row {q}", f"C27:{op}:value{later}", anchor, f"{name}: row {q} of the gathered array is {got[q]!r}, expected {want!r}", p.desc())


def alias(I, who):
    """a broadcast object is changed by one of its holders"""
    S = I.S
    start(I)
    cs = comms(I, 2)
    val = I.new(DictV([["v", 1]]))
    got = [I.meth(cs[r], "bcast", val if r == 0 else None, root=0) for r in (0, 1)]
    I.setitem((val, got[1])[who], "v", -7)
    S["seen"] = I.getitem((val, got[1])[1 - who], "v")


def judge_alias(R, I, p, who):
    anchor = fwhere(I, MOD + ".bcast")
    if p.status == "raise":
        R.violate(f"C27:bcast:alias:{who}:raise", where(p), f"broadcast of a dictionary: {exc_desc(p)}", p.desc())
        return
    R.check(p.S["seen"] == 1, "value", f"broadcast object changed by rank {who}", f"C27:bcast:alias:{who}", anchor,
            f"after a broadcast the ranks share one object: changing it on rank {who} changes it on rank {1 - who}", p.desc())


def refuse_root(I, op):
    S = I.S
    start(I)
    cs = comms(I, 2)
    S["log"] = []
    for r in (0, 1):
        send = (I.new(DictV([["v", 1]])) if op == "bcast" else array(I, S, "send", (2,))) if r == 1 else None
        recv = array(I, S, "recv")
        err, _ = attempt(lambda: I.meth(cs[r], "bcast", send, root=1) if op == "bcast" else I.meth(cs[r], "Scatter", send, recv, root=1))
        S["log"].append((f"rank {r}", err, None))
    # nothing was left behind
    for r in (0, 1):
        err, mine, got = call(I, S, cs[r], r, 2, op)
        if r == 0:
            want = mine
        w = want if op == "bcast" else want[r]
        S["log"].append((f"valid call of rank {r}", err, key_same(got, w)))


def key_same(got, want):
    if got is None or want is None:
        return got is want
    return vkey(got) == vkey(want) if not hasattr(got, "num") else key_of(got) == key_of(want)


def refuse_buffer(I, op):
    S = I.S
    start(I)
    fix_contig(I, False)
    I.hooks["contig"] = lambda I, v, order: False if v.buf.label.startswith("bad") else True
    cs = comms(I, 2)
    S["log"] = []
    good = [array(I, S, "good") for _ in range(4)]
    bad = array(I, S, "bad")
    big, badbig = array(I, S, "good", (2,)), array(I, S, "bad", (2,))
    if op in ("Recv", "Irecv"):
        I.meth(cs[0], "Send", good[0], dest=1)
        want = A.content_of(I, good[0])
    before = A.content_of(I, bad), A.content_of(I, badbig)

    def go():
        if op in ("Send", "Isend"):
            r = I.meth(cs[0], op, bad, dest=1)
            if op == "Isend":
                I.meth(r, "wait")
        elif op in ("Recv", "Irecv"):
            r = I.meth(cs[1], op, bad, source=0)
            if op == "Irecv":
                I.meth(r, "wait")
        elif op == "Scatter":
            I.meth(cs[0], "Scatter", badbig, good[1], root=0)
        elif op == "Scatter recv":
            I.meth(cs[0], "Scatter", big, bad, root=0)
        elif op == "Gather":
            I.meth(cs[1], "Gather", bad, None, root=0)
        else:
            I.meth(cs[1], "Gather", good[0], None, root=0)
            I.meth(cs[0], "Gather", good[1], badbig, root=0)
    err, _ = attempt(go)
    S["log"].append(("refused", err, None))
    S["log"].append(("untouched", None, [key_of(x) for x in before] == [key_of(A.content_of(I, bad)), key_of(A.content_of(I, badbig))]))
    # the messages are still there, and only these
    if op in ("Recv", "Irecv"):
        e2, _ = attempt(lambda: I.meth(cs[1], "Recv", good[2], source=0))
        S["log"].append(("valid receive", e2, key_of(A.content_of(I, good[2])) == key_of(want)))
    e3, _ = attempt(lambda: I.meth(cs[1], "Recv", good[3], source=0))
    S["log"].append(("no message", None, e3 is not None))
    if op in ("Scatter", "Scatter recv", "Gather"):
        o = op.split()[0]
        order = (1, 0) if o == "Gather" else (0, 1)
        seen = {}
        for r in order:
            e4, mine, got = call(I, S, cs[r], r, 2, o)
            seen[r] = mine
            if o == "Scatter":
                S["log"].append((f"valid {o} of rank {r}", e4, key_of(got) == key_of(seen[0][r])))
            elif r == 0:
                S["log"].append((f"valid {o}", e4, got is not None and [key_of(x) for x in got] == [key_of(seen[0]), key_of(seen[1])]))


def judge_refuse(R, I, p, op, exc, what):
    S = p.S
    key = f"C27:refuse:{op}:{exc}"
    anchor = fwhere(I, f"{MOD}.{op.split()[0]}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{op} with {what}: {exc_desc(p)}", p.desc())
        return
    for label, err, ok in S["log"]:
        raised = kind_of(err) if err is not None else None
        if ok is None:
            R.check(raised == exc, "refuse", f"{op} {label}", key, anchor, f"{op} with {what} ({label}) {'raises ' + raised if raised else 'is accepted'}, expected {exc}", p.desc())
        else:
            R.check(raised is None and ok, "refuse", f"{op} {label}", f"{key}:{label}", anchor, f"after refusing {op} with {what}, {label}: {'raises ' + raised if raised else 'has other data than expected'}", p.desc())


# ------------------------------------------------------------------ split
def split(I, colors):
    S = I.S
    start(I)
    n = len(colors)
    cs = comms(I, n)
    S["groups"] = []
    for k in range(2):
        S["groups"].append([I.meth(cs[r], "Split", color=colors[r], key=r) for r in range(n)])
    S["ranks"] = [[(I.meth(c, "Get_rank"), I.meth(c, "Get_size")) for c in g] for g in S["groups"]]
    S["parent"] = [(I.meth(c, "Get_rank"), I.meth(c, "Get_size")) for c in cs]
    # a message in every communicator from the first to the last rank of a color
    S["got"] = []
    sent = {}
    worlds = [("parent", cs, [0] * n)] + [(k, g, colors) for k, g in enumerate(S["groups"])]
    order = [(w, c) for w in range(len(worlds)) for c in sorted(set(worlds[w][2]))]
    for w, c in order:
        members = [r for r in range(n) if worlds[w][2][r] == c]
        if len(members) > 1:
            b = array(I, S, "msg")
            sent[(w, c)] = key_of(A.content_of(I, b))
            I.meth(worlds[w][1][members[0]], "Send", b, dest=len(members) - 1)
    for w, c in reversed(order):
        members = [r for r in range(n) if worlds[w][2][r] == c]
        if len(members) > 1:
            d = array(I, S, "dest")
            err, _ = attempt(lambda: I.meth(worlds[w][1][members[-1]], "Recv", d, source=0))
            S["got"].append((worlds[w][0], c, err, key_of(A.content_of(I, d)) == sent[(w, c)]))


def judge_split(R, I, p, colors):
    S = p.S
    key = f"C27:split:{colors}"
    anchor = fwhere(I, MOD + ".Split")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"Split with colors {colors}: {exc_desc(p)}", p.desc())
        return
    want = [([c for c in colors[:r]].count(colors[r]), colors.count(colors[r])) for r in range(len(colors))]
    for k, g in enumerate(S["ranks"]):
        R.check(g == want, "split", f"{colors} call {k}", f"{key}:ranks", anchor, f"call {k} of Split with colors {colors} gives (rank, size) {g}, expected {want}", p.desc())
    R.check(S["parent"] == [(r, len(colors)) for r in range(len(colors))], "split", f"{colors} parent", key + ":parent", anchor, f"after Split the parent communicators have (rank, size) {S['parent']}", p.desc())
    for w, c, err, ok in S["got"]:
        R.check(err is None and ok, "split", f"{colors} message {w} {c}", f"{key}:message", anchor, f"a message in communicator {w}, color {c}, {'is not delivered: ' + kind_of(err) if err else 'is mixed up with another communicator'}", p.desc())
