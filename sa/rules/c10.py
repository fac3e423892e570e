"""C10: every rank writes exactly its own region and chunks of the archive."""
from ..archive import *

FLOOR = 300
PAIRS = [(("y", "x"), ("z", "y", "x")), (("x", "z", "y"), ("y_interface", "x")), (("x_interface", "y_interface", "z_interface"), ("y", "x")), (("y", "year", "x_interface"), ("x", "y"))]
STEPS = 3


def run(R):
    R.rule("region", "at its k-th snapshot a rank writes, per variable, exactly time index k, its own tile and its own subtile: along each horizontal dimension the points [i*m, (i+1)*m), and the shared last point of a staggered dimension on the last rank only; the other dimensions whole")
    R.rule("value", "what is written is the matching part of the rank's compute domain")
    R.rule("shape", "arrays are made once, with shape (1, 6, global extent of the tile), have room for time index k when it is written, and k+1 times after snapshot k, also after arbitrarily many snapshots (induction over the counters of the monitor)")
    R.rule("chunks", "the regions of two ranks share no chunk: tiles have chunks of their own, and the horizontal chunk size divides the points per rank wherever there is more than one rank")
    R.rule("metadata", "arrays have the quantity's dtype, dimension names time, tile, then the quantity's own, and its units")
    R.rule("time", "the root alone writes each time at index k, encoded with the units and calendar recorded with the array: those of the first time")
    R.rule("open", "the root alone opens the store, with the mode given, and every rank uses that group")
    R.assume("every rank stores the same sequence of snapshots; variables have both horizontal dimensions; all ranks have equal extents (plus the shared point on staggered dimensions)")
    W = World(R)
    pairs = PAIRS if R.tier != "thorough" else [(a, b) for a, _ in PAIRS for _, b in PAIRS] + PAIRS
    for k, pair in enumerate(pairs):
        for time in (True, False):
            W.run("region", f"{pair} time {time}", lambda I, a=(pair, time): store(I, *a), lambda p, a=(pair, time): judge(R, W.I, p, *a))
    for mode in ("w-", "a", None):
        W.run("open", f"mode {mode}", lambda I, m=mode: store(I, PAIRS[0], True, m), lambda p, m=mode: judge(R, W.I, p, PAIRS[0], True, m))
    W.run("region", "without a communicator", lambda I: store(I, PAIRS[0], True, single=True), lambda p: judge(R, W.I, p, PAIRS[0], True, single=True))
    D = World(R, absent=())
    for err in ("TypeError", "ValueError"):
        D.run("value", f"device data, {err}", lambda I, e=err: store(I, PAIRS[0], True, device=e), lambda p, e=err: judge(R, D.I, p, PAIRS[0], True, device=e))


IMPLICIT = {"TypeError": (TypeError, "Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly."),
            "ValueError": (ValueError, "object __array__ method not producing an array")}


def store(I, pair, time, mode="w", single=False, device=None):
    S = I.S
    if not begin(I, client=not single):
        return
    sent = None
    S["dtype"] = {n: Term("dtype " + n, (), {"nonnull": True, "kind": "dtype"}) for n in ("air", "zeta")}
    S["units"] = {n: Term("units " + n, (), {"nonnull": True, "kind": "str"}) for n in ("air", "zeta")}
    if device:
        def refuse(I, z, v):
            if isinstance(v, A.ArrV) and v.buf.typename != A.HOST:
                I.raise_(*IMPLICIT[device])
        I.hooks["zarr_value"] = refuse
    # the snapshots made, then two after an arbitrary number T of them
    T = I.sym("T", STEPS)
    S["index"] = [Poly.const(k) for k in range(STEPS)] + ([] if device or single else [T, T + ONE])
    S["times"] = [date(f"t{k}") for k in range(len(S["index"]))]
    S["arrays"] = {}
    S["done"] = []
    S["span"] = {}
    for role, rank, idx in roles(S):
        lo = I.seq
        if single:
            kw = {"mode": mode}
            comm, mon = None, I.call_name("zarr_monitor.ZarrMonitor", STORE, S["part"], **kw)
        else:
            comm, mon = monitor(I, S, role, rank, sent, mode)
        S["span"][role, "open"] = (lo, I.seq)
        history = []
        for k in range(len(S["index"])):
            if k == STEPS and not generalise(I, mon, history, T):
                S["index"] = S["index"][:STEPS]
                break
            lo = I.seq
            st = []
            for n, dims in zip(("zeta", "air"), pair):
                st.append((n, variable(I, S, f"{role} {n} {k}", dims, S["units"][n], S["dtype"][n], typename="cupy.ndarray" if device else None)))
            if time:
                st.insert(1, ("time", I.new(S["times"][k])))
            I.meth(mon, "store", snapshot(I, st, role))
            S["span"][role, k] = (lo, I.seq)
            if k < STEPS:
                history.append(counters(I, mon))
            if role == "root":
                S["arrays"][k] = {e.name: e.store.shape for e in zarr_events(I.allevents, ops=("create",))}
        S["done"].append(role)
        if comm is not None:
            sent = sent_values(I.allevents, comm)


def judge(R, I, p, pair, time, mode="w", single=False, device=None):
    S = p.S
    if S.get("skip"):
        return
    name = f"archive of {pair}{' without time' if not time else ''}{f' mode {mode}' if mode != 'w' else ''}{' in one process' if single else ''}{f' of device arrays ({device})' if device else ''}"
    key = f"C10:{pair}:{time}:{mode}:{single}:{device}"
    append = fwhere(I, "zarr_monitor._ZarrVariableWriter.append")
    if p.status == "raise":
        done = ("root", "client")[len(S.get("done", ()))]
        R.violate(f"{key}:raise:{done}", where(p), f"{name}: storing on the {done} raises {exc_desc(p)}", p.desc())
        return
    eq = lambda a, b: peq(p.facts, a, b) is True
    opens = zarr_events(p.events, ops=("open",))
    ok = len(opens) == 1 and S["span"]["root", "open"][0] < opens[0].seq <= S["span"]["root", "open"][1]
    want = {"store": STORE, "mode": mode} if mode is not None else {"store": STORE, "mode": "w"}
    R.check(ok, "open", name, key + ":open", where(p, opens[-1]) if opens else fwhere(I, "zarr_monitor.ZarrMonitor.__init__"), f"{name}: the store is opened {len(opens)} times, expected once and on the root", p.desc())
    for o in opens:
        got = {k: v for k, v in o.args.items() if k in ("store", "mode")}
        R.check(got == want, "open", f"{name} mode", key + ":mode", where(p, o), f"{name}: the store is opened with {vrepr(got)}, expected {want}", p.desc())
    dims_of = dict(zip(("zeta", "air"), pair))
    stores = {}
    for e in zarr_events(p.events, ops=("create", "collide")):
        n = e.name
        R.check(e.op == "create" and n not in stores and n in (*dims_of, "time"), "shape", f"{name} {n} created", f"{key}:{n}:created", where(p, e), f"{name}: array {n} is created again or for no variable", p.desc())
        stores[n] = e.store
        if n not in dims_of:
            continue
        dims = dims_of[n]
        g = sizes(I, S, dims)[1]
        full = (1, 6) + tuple(mk(g[d]) for d in dims)
        R.check(shape_eq(p, e.shape, full), "shape", f"{name} {n}", f"{key}:{n}:shape", where(p, e), f"{name}: array {n} has shape {vrepr(e.shape)}, expected {vrepr(full)}", p.desc())
        R.check(vkey(e.dtype) == vkey(S["dtype"][n]), "metadata", f"{name} {n} dtype", f"{key}:{n}:dtype", where(p, e), f"{name}: array {n} has dtype {vrepr(e.dtype)}, expected {vrepr(S['dtype'][n])}", p.desc())
        ch = e.chunks
        if not R.check(isinstance(ch, tuple) and len(ch) == len(dims) + 2 and eq(ch[1], 1), "chunks", f"{name} {n}", f"{key}:{n}:chunks", where(p, e), f"{name}: array {n} has chunks {vrepr(ch)}, tiles share them", p.desc()):
            continue
        for d, c in zip(dims, ch[2:]):
            if d in X_DIMS or d in Y_DIMS:
                m = S["cells"][d.replace("_interface", "")]
                ranks = S["nx"] if d in X_DIMS else S["ny"]
                # the chunk size divides the points of a rank
                whole = eq(c, m) or eq(c, 1) or eq(I.binop("Mod", mk(m), c), 0) or eq(ranks, 1) and (eq(c, mk(to_poly(g[d]))) or True)
                R.check(whole, "chunks", f"{name} {n} {d}", f"{key}:{n}:chunks:{d}", where(p, e), f"{name}: the chunk size of {n} along {d} is {vrepr(c)}, which does not divide the {vrepr(mk(m))} points of a rank", p.desc())
    for n in (*dims_of, "time"):
        if n == "time" and not time:
            R.check(n not in stores, "time", f"{name} no time", f"{key}:notime", append, f"{name}: an array for time is created although no state has one", p.desc())
            continue
        if not R.check(n in stores, "shape", f"{name} {n} exists", f"{key}:{n}:missing", append, f"{name}: no array is created for {n}", p.desc()):
            continue
        at = stores[n].attrs
        if n == "time":
            R.check(list(seq_of(at.get("_ARRAY_DIMENSIONS"))) == ["time"], "metadata", f"{name} time dimensions", f"{key}:time:dims", append, f"{name}: time has dimension names {vrepr(at.get('_ARRAY_DIMENSIONS'))}, expected ['time']", p.desc()) if "_ARRAY_DIMENSIONS" in at or True else None
            continue
        R.check(list(seq_of(at.get("_ARRAY_DIMENSIONS"))) == ["time", "tile", *dims_of[n]], "metadata", f"{name} {n} dimensions", f"{key}:{n}:dims", append,
                f"{name}: {n} has dimension names {vrepr(at.get('_ARRAY_DIMENSIONS'))}, expected {['time', 'tile', *dims_of[n]]}", p.desc())
        R.check("units" in at and vkey(at["units"]) == vkey(S["units"][n]), "metadata", f"{name} {n} units", f"{key}:{n}:units", append, f"{name}: {n} has units {vrepr(at.get('units'))}, expected {vrepr(S['units'][n])}", p.desc())
    if len(S["index"]) == STEPS and not device and not single:
        R.undecided("region", f"{name} step T", "the state of the monitor after T snapshots is not that after one, with counters T")
    for k, at in enumerate(S["index"]):
        for n in stores:
            sh = S["arrays"][k].get(n)
            R.check(sh is not None and eq(sh[0], mk(at + ONE)), "shape", f"{name} {n} times after snapshot {mk(at)}", f"{key}:{n}:length", append,
                    f"{name}: after snapshot {mk(at)} array {n} has {vrepr(sh[0]) if sh else 'not been made'} times", p.desc())
    for role, rank, idx in roles(S):
        for k in range(len(S["index"])):
            lo, hi = S["span"][role, k]
            ws = zarr_events(p.events, lo, hi, ("write",))
            for n, dims in dims_of.items():
                judge_write(R, I, p, S, name, f"{key}:{role}", role, k, n, dims, idx, [w for w in ws if w.store is stores.get(n)], append)
            tw = [w for w in ws if w.store is stores.get("time")] if "time" in stores else []
            if time:
                judge_time(R, I, p, S, name, f"{key}:{role}", role, k, tw, stores.get("time"))
            other = [w for w in ws if w.store not in list(stores.values())]
            R.check(not other, "region", f"{name} {role} {k} other", f"{key}:{role}:other", where(p, other[0]) if other else append, f"{name}: the {role} writes to an array of no variable", p.desc())


def one(r):
    """a slice of length one writes at its start"""
    return r[0] if isinstance(r, tuple) and len(r) == 2 and to_poly(r[1]) == ONE else r


def seq_of(v):
    return v.items if isinstance(v, ListV) else v if isinstance(v, tuple) else ()


def judge_write(R, I, p, S, name, key, role, k, n, dims, idx, ws, anchor):
    eq = lambda a, b: peq(p.facts, a, b) is True
    if not R.check(len(ws) == 1, "region", f"{name} {role} {n} step {k}", f"{key}:{n}:count", where(p, ws[1]) if len(ws) > 1 else anchor, f"{name}: at snapshot {k} the {role} writes {n} {len(ws)} times", p.desc()):
        return
    w = ws[0]
    reg = tuple(map(one, w.region[:2])) + tuple(w.region[2:])
    site = where(p, w)
    at = S["index"][k]
    R.check(len(reg) == len(dims) + 2 and eq(reg[0], mk(S["index"][k])) if not isinstance(reg[0], tuple) else False, "region", f"{name} {role} {n} time index {k}", f"{key}:{n}:index", site, f"{name}: snapshot {mk(at)} of {n} is written at time index {vrepr(reg[0])}", p.desc())
    R.check(p.facts.sign(to_poly(w.shape[0]) - at - ONE) in (0, ">", ">="), "shape", f"{name} {role} {n} room {k}", f"{key}:{n}:room", site, f"{name}: {n} has room for {vrepr(w.shape[0])} times when snapshot {k} is written", p.desc())
    R.check(not isinstance(reg[1], tuple) and eq(reg[1], idx[0]), "region", f"{name} {role} {n} tile", f"{key}:{n}:tile", site, f"{name}: the {role} of tile {vrepr(mk(idx[0]))} writes {n} to tile {vrepr(reg[1])}", p.desc())
    if len(reg) != len(dims) + 2:
        return
    info = S[f"{role} {n} {k}"]
    part = []
    for (lo, m, s, i, cnt), r, (d, kk) in zip(own_region(S, dims, idx), reg[2:], [(d, q) for q, d in enumerate(dims)]):
        ln = m
        if s.t:
            last = p.facts.sign(i - cnt + ONE)
            if last == 0 or eq(i, cnt - ONE):
                ln = m + s
            elif last not in ("<", "<>", ">"):
                R.undecided("region", f"{name} {role} {n} {d}", "last rank or not?")
                return
        if not isinstance(r, tuple):
            R.violate(f"{key}:{n}:{d}:index", site, f"{name}: the {role} writes only index {vrepr(r)} of {n} along {d}", p.desc())
            return
        R.check(eq(r[0], lo) and eq(r[1], ln), "region", f"{name} {role} {n} {d}", f"{key}:{n}:{d}", site,
                f"{name}: the {role} in position {vrepr(mk(i))} writes {vrepr(r[1])} points from {vrepr(r[0])} of {n} along {d}, expected {vrepr(mk(ln))} from {vrepr(mk(lo))}", p.desc())
        o = info["o"][d]
        part.append((kk, (o, o + ln)))
    v, c = region_content(I, S, info, part)
    if not isinstance(w.value, A.ArrV):
        R.violate(f"{key}:{n}:value", site, f"{name}: {vrepr(w.value)} is written", p.desc())
        return
    R.check(w.value.buf.typename == A.HOST and same_content(p, w.content, 1, c) is True, "value", f"{name} {role} {n} step {k}", f"{key}:{n}:value", site,
            f"{name}: at snapshot {k} the {role} writes {w.content!r} to {n}, expected {c!r}", p.desc())


def judge_time(R, I, p, S, name, key, role, k, ws, st):
    anchor = fwhere(I, "zarr_monitor._ZarrTimeWriter.append")
    if role != "root":
        R.check(not ws, "time", f"{name} {role} {k}", f"{key}:time:client", where(p, ws[0]) if ws else anchor, f"{name}: a rank that is not the root writes the time", p.desc())
        return
    if not R.check(len(ws) == 1, "time", f"{name} time {k}", f"{key}:time:count", anchor, f"{name}: at snapshot {k} time is written {len(ws)} times", p.desc()):
        return
    w = ws[0]
    site = where(p, w)
    R.check(len(w.region) == 1 and not isinstance(one(w.region[0]), tuple) and peq(p.facts, one(w.region[0]), mk(S["index"][k])) is True, "time", f"{name} time index {k}", f"{key}:time:index", site, f"{name}: time of snapshot {k} is written at {vrepr(w.region)}", p.desc())
    v = w.value
    u, c = st.attrs.get("units"), st.attrs.get("calendar")
    R.check(isinstance(v, Term) and v.op == "date2num" and vkey(v.args[0]) == vkey(S["times"][k]), "time", f"{name} encoded {k}", f"{key}:time:value", site, f"{name}: at snapshot {k} the time written is {vrepr(v)}", p.desc())
    if not (isinstance(v, Term) and v.op == "date2num"):
        return
    R.check(u is not None and c is not None and vkey(v.args[1]) == vkey(u) and vkey(v.args[2]) == vkey(c), "time", f"{name} encoding {k}", f"{key}:time:encoding", site,
            f"{name}: time {k} is encoded with {vrepr(v.args[1])}, {vrepr(v.args[2])}, but the array records {vrepr(u)}, {vrepr(c)}", p.desc())
    R.check(c == "julian" and mentions(u, S["times"][0]), "time", f"{name} units {k}", f"{key}:time:units", site, f"{name}: the units of time are {vrepr(u)} in calendar {vrepr(c)}, expected those of the first time", p.desc())


def mentions(u, t):
    return repr(vkey(t)) in repr(vkey(u))
