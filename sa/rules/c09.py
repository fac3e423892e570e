"""C09: state scatter and gather transfer every variable and only those."""
from ..sg import *

FLOOR = 80


def run(R):
    R.rule("variable", "a generic variable of the sending state ends up under its own name, in the pre-allocated quantity of that name if there is one and in a new one otherwise")
    R.rule("all", "the transfer loop ranges over all names of the sending state except time")
    R.rule("time", "time is the root's when the root's state has one; otherwise the receiving state's time is left alone")
    R.rule("others", "entries of the receiving state that are not transferred are unchanged")
    R.rule("return", "the receiving state given is the one returned, a new one otherwise; a gather leaves the state of other ranks alone")
    W = World(R)
    for cube in (False, True):
        for dims in (("y",), ("z", "y_interface", "x")):
            for op in ("scatter_state", "gather_state"):
                for gr in (False, True):
                    for gc in (False, True):
                        for probe in ("key", "time", "other"):
                            W.run("variable", f"{'cube' if cube else 'tile'} {op} {dims} given={gr},{gc} {probe}", lambda I, a=(cube, dims, op, gr, gc, probe): drive(I, *a),
                                  lambda p, a=(cube, dims, op, gr, gc, probe): judge(R, W.I, p, *a))


def drive(I, cube, dims, op, gr, gc, probe=None):
    S = I.S
    S["halo_min"] = 1
    fix_contig(I, False)
    world(I, S, cube)
    r, g = sizes(I, S, dims)
    gd, ge = global_dims(S, dims), global_ext(S, g)
    dt = S["dtype"] = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    crank = client_rank(I, S)
    if crank is None:
        S["skip"] = True
        return
    scatter = op == "scatter_state"
    S["key"] = I.B.Base("x", "sent", None).elem
    other = S["other"] = Term("other name", (), {"kind": "str", "nonnull": True, "truthy": True})
    for x in (S["key"], "time"):
        I.known[("eq",) + tuple(sorted((vkey(other), vkey(x)), key=repr))] = False
    I.known[("in", vkey(other), "sent")] = False
    S["role"] = {}
    probe = {"key": (S["key"],), "time": ("time",), "other": (other,), None: ()}[probe]
    S["key_probed"] = S["key"] in probe
    sent = None
    for role, rank, given in (("root", 0, gr), ("client", crank, gc)):
        comm, cc = communicator(I, S, rank, label=role, root_values=sent)
        d = S["role"][role] = {"comm": comm}
        src = None
        if scatter:
            if role == "root":
                src = state(I, S, "send", "sent", gd, ge, dt)
            dst = state(I, S, role + " recv", role + "-prealloc", dims, r, dt) if given else None
        else:
            src = state(I, S, role + " send", "sent", dims, r, dt)
            dst = state(I, S, role + " recv", role + "-prealloc", gd, ge, dt) if given else None
        d["src"], d["dst"] = src, dst
        # initial contents
        d["before"] = {k: lookup(I, dst, k) for k in probe}
        d["src_before"] = {k: lookup(I, src, k) for k in probe if k is not other} if src is not None else {}
        d["seq0"] = I.seq
        args = {"send_state": src, "recv_state": dst}
        try:
            d["out"] = I.meth(cc, op, **{k: v for k, v in args.items() if v is not None})
        except AbsRaise as e:
            d["raised"] = e
            S["raised"] = (role, e)
            return
        d["seq1"] = I.seq
        d["after"] = {k: lookup(I, d["out"], k) for k in probe} if d["out"] is not None else {}
        d["src_after"] = {k: lookup(I, src, k) for k in d["src_before"]} if src is not None else {}
        d["dst_after"] = {k: lookup(I, dst, k) for k in probe}
        sent = sent_values(I.allevents, comm)
    S["generic_time"] = I.known.get(("eq",) + tuple(sorted((vkey(S["key"]), vkey("time")), key=repr))) is True


def lookup(I, d, k):
    if d is None:
        return None
    if not isinstance(d, DictV):
        raise Unsupported(f"state is {vrepr(d)}")
    v = I.B.dict_lookup(I, d, k)
    return None if v is I.B.MISSING else v


def judge(R, I, p, cube, dims, op, gr, gc, probe=None):
    S = p.S
    if S.get("skip"):
        return
    key = f"C09:{'cube' if cube else 'tile'}:{op}:{int(gr)}{int(gc)}"
    anchor = fwhere(I, f"communicator.Communicator.{op}")
    if p.status == "raise" or "raised" in S:
        ex = p.exc if p.status == "raise" else S["raised"][1]
        e = ex.exc
        R.violate(key + ":raise", f"{ex.site[0]}:{ex.site[1]}" if ex.site else anchor, f"{op} raises {getattr(e.cls, 'name', e.cls)} {e.attrs.get('args', ())}", p.desc())
        return
    scatter = op == "scatter_state"
    root_src = S["role"]["root"]["src_before"]
    generic_time = S["generic_time"]
    for role in ("root", "client"):
        d = S["role"][role]
        name = f"{op} on the {role}"
        k = f"{key}:{role}"
        # the sending state is never touched
        if d["src"] is not None:
            for n in d["src_before"]:
                R.check(same_val(d["src_before"][n], d["src_after"][n]), "others", f"{name} sender {vrepr(n)}", f"{k}:sender:{vrepr(n)}", anchor,
                        f"{name} changes the sending state's {vrepr(n)}", p.desc())
        if not scatter and role == "client":
            for n in d["before"]:
                R.check(same_val(d["before"][n], d["dst_after"][n]), "return", f"{name} {vrepr(n)}", f"{k}:client:{vrepr(n)}", anchor,
                        f"{name} changes the receiving state's {vrepr(n)} from {vrepr(d['before'][n])} to {vrepr(d['dst_after'][n])}", p.desc())
            continue
        if not R.check(d["out"] is d["dst"] if d["dst"] is not None else isinstance(d["out"], DictV), "return", name, f"{k}:return", anchor,
                       f"{name} returns {vrepr(d['out'])}" + (", not the receiving state given" if d["dst"] is not None else ""), p.desc()):
            continue
        # time
        t0 = root_src.get("time")
        if probe != "time":
            pass
        elif isinstance(d["after"]["time"], Term) and d["after"]["time"].op == "item" and not generic_time:
            pass                            # one of the generic names: judged where the generic name is time
        elif t0 is not None:
            R.check(same_val(t0, d["after"]["time"]), "time", f"{name} with time", f"{k}:time", anchor, f"{name} sets time to {vrepr(d['after']['time'])}, expected the root's {vrepr(t0)}", p.desc())
        else:
            R.check(same_val(d["before"]["time"], d["after"]["time"]), "time", f"{name} without time", f"{k}:notime", anchor,
                    f"the root's state has no time, but {name} changes the receiving state's time from {vrepr(d['before']['time'])} to {vrepr(d['after']['time'])}", p.desc())
        # an unrelated entry
        if probe == "other":
            R.check(same_val(d["before"][S["other"]], d["after"][S["other"]]), "others", f"{name}", f"{k}:other", anchor,
                    f"{name} changes an entry that is not transferred from {vrepr(d['before'][S['other']])} to {vrepr(d['after'][S['other']])}", p.desc())
        if generic_time or probe != "key":
            continue
        # the generic variable
        q = d["after"][S["key"]]
        b = d["before"][S["key"]]
        if b is not None:
            R.check(q is b, "variable", f"{name} reuse", f"{k}:reuse", anchor, f"{name} replaces the pre-allocated quantity by {vrepr(q)}", p.desc())
        if not R.check(isinstance(q, InstV), "variable", f"{name} present", f"{k}:present", anchor, f"after {name} a transferred variable is {vrepr(q)}", p.desc()):
            continue
        data = I.getattr(q, "data")
        loops = loops_with(p.events, d["comm"], d["seq0"], d["seq1"])
        if len(loops) != 1:
            R.undecided("all", name, f"{len(loops)} transfer loops")
            continue
        loop = loops[0]
        R.check(covers_all(loop.src), "all", name, f"{k}:all", where(p, loop), f"{name} transfers only {vrepr(loop.src)}", p.desc())
        evs = [e for e in walk_events(loop.body, ("comm",)) if e.comm is d["comm"] and e.op in ("Scatter", "Gather")]
        if not R.check(len(evs) == 1, "variable", f"{name} once", f"{k}:once", where(p, loop), f"{name} transfers a variable {len(evs)} times", p.desc()):
            continue
        e = evs[0]
        src_q = root_src[S["key"]] if scatter else d["src_before"][S["key"]]
        info = next(v for v in S.values() if isinstance(v, dict) and v.get("q") is src_q)
        # what moves: the data of the variable of this name
        if scatter and role == "root":
            atoms = written_atoms(p.events, e.array.buf, e.seq) if isinstance(e.array, A.ArrV) else None
            R.check(atoms == {info["arr"].buf.oid} if atoms is not None else False, "variable", f"{name} data", f"{k}:data", where(p, e),
                    f"{name} sends something else than the variable of that name", p.desc())
        if not scatter:
            at = buf_atoms(e.content)
            R.check(at == {info["arr"].buf.oid}, "variable", f"{name} data", f"{k}:data", where(p, e), f"{name} sends {e.content!r} for a variable", p.desc())
        at = written_atoms(p.events, data.buf, d["seq1"] + 1, d["seq0"]) if isinstance(data, A.ArrV) else None
        want = {e.msg.buf.oid} if "msg" in e.data else None
        R.check(at == want, "variable", f"{name} filled", f"{k}:filled", anchor, f"{name}: the variable is filled from {at}, not from what was received for it", p.desc())
        if b is None:
            got, exp = I.getattr(q, "units"), I.getattr(src_q, "units")
            R.check(vkey(got) == vkey(exp), "variable", f"{name} units", f"{k}:units", anchor, f"{name}: a new variable has units {vrepr(got)}, expected the sender's {vrepr(exp)}", p.desc())


def same_val(a, b):
    return a is b or (a is not None and b is not None and vkey(a) == vkey(b))


def buf_atoms(c):
    return {a.args[0][1] for a in c.num.atoms() if isinstance(a, Term) and a.op == "el"} if c is not None else None


def written_atoms(events, buf, before, after=-1):
    out = set()
    for w in walk_events(events, ("write",)):
        if w.arr.buf is buf and after < w.seq < before:
            b = buf_atoms(w.content)
            if b is None:
                return None
            out |= b
    return out


def loops_with(events, comm, lo, hi):
    out = []

    def has(e):
        return any(x.kind == "comm" and x.comm is comm and x.op in ("Scatter", "Gather") for x in walk_events(e.body or ()))
    for e in events:
        if e.kind == "loop" and lo < e.seq <= hi and has(e):
            out.append(e)
        elif e.kind == "loop" and e.body:
            pass
    return out


def covers_all(src):
    while isinstance(src, Term):
        if src.op == "without" and src.args[1] == "time":
            src = src.args[0]
        elif src.op in ("iter", "sorted", "setorder"):
            return src.args[-1] == "sent"
        else:
            return False
    return False
