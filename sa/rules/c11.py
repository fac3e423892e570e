"""C11: inconsistent snapshots are rejected on every rank before anything is stored."""
from ..archive import *
from .c10 import judge_write, judge_time, PAIRS

FLOOR = 300
NAMES = ("air", "zeta")
KINDS = ("extra", "missing", "renamed", "dims", "order", "ndim", "extent", "units", "calendar")


def run(R):
    R.rule("reject", "a snapshot that disagrees with the first in its names, or in the dimensions, extent, units or calendar of one variable, raises ValueError on the root and on every other rank")
    R.rule("untouched", "nothing is created, resized, written or recorded for it, and no rank enters a collective for it")
    R.rule("next", "the next valid snapshot is stored completely at the next time index for every variable, time included")
    R.rule("accept", "snapshots that agree are stored whatever the order of their names")
    R.rule("region", "the valid snapshots before and after are written to their own time index, tile and subtile")
    R.rule("value", "with the values of the compute domain")
    R.rule("time", "and their times, in the encoding recorded first")
    R.rule("shape", "and with room for them")
    R.assume("every rank stores the same sequence of snapshots, with the same metadata on every rank")
    W = World(R)
    pairs = PAIRS[:2] if R.tier != "thorough" else PAIRS
    for pair in pairs:
        for time in (True, False):
            for n in NAMES + (("time",) if time else ()):
                for kind in KINDS:
                    if (kind == "calendar") != (n == "time") and kind not in ("missing", "renamed"):
                        continue
                    if kind == "extra" and n != "air":
                        continue
                    for before in ((1,) if R.tier != "thorough" else (1, 2)):
                        a = (pair, time, [(kind, n)], before)
                        W.run("reject", f"{pair} time {time} {kind} {n} after {before}", lambda I, a=a: drive(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
            if not time:
                a = (pair, time, [("extra", "time")], 1)
                W.run("reject", f"{pair} extra time", lambda I, a=a: drive(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
        # several in a row
        a = (pair, True, [("units", "zeta"), ("calendar", "time"), ("missing", "time"), ("extra", "air"), ("extent", "air"), ("extent", "zeta"), ("dims", "air")], 1)
        W.run("reject", f"{pair} several", lambda I, a=a: drive(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
    # whatever the names of the first snapshot, none included
    sets = [(), ("time",), ("air",), ("air", "time"), ("zeta", "air", "time")]
    for first in sets:
        for then in sets + [("zeta",)]:
            if set(then) != set(first):
                W.run("reject", f"{first} then {then}", lambda I, a=(pairs[0], first, then): names_only(I, *a), lambda p, a=(pairs[0], first, then): judge_names(R, W.I, p, *a))


def names_only(I, pair, first, then):
    S = I.S
    if not begin(I):
        return
    dims_of = dict(zip(NAMES, pair))
    units = {n: Term("units " + n, (), {"nonnull": True, "kind": "str"}) for n in NAMES}
    dt = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    S["steps"] = {}
    sent = None
    for role, rank, idx in roles(S):
        comm, mon = monitor(I, S, role, rank, sent)
        for k, names in enumerate((first, then, first)):
            st = [(n, I.new(date(f"t{k}")) if n == "time" else variable(I, S, f"{role} {n} {k}", dims_of[n], units[n], dt)) for n in names]
            lo, err = I.seq, None
            try:
                I.meth(mon, "store", snapshot(I, st, role))
            except AbsRaise as e:
                err = e
            S["steps"][role, k] = (lo, I.seq, err)
        sent = sent_values(I.allevents, comm)


def judge_names(R, I, p, pair, first, then):
    S = p.S
    if S.get("skip"):
        return
    name = f"archive begun with {list(first)}"
    key = f"C11:names:{','.join(first)}:{','.join(then)}"
    anchor = fwhere(I, "zarr_monitor.ZarrMonitor.store")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    for role, rank, idx in roles(S):
        for k, names in enumerate((first, then, first)):
            lo, hi, err = S["steps"][role, k]
            site = f"{err.site[0]}:{err.site[1]}" if err is not None and err.site else anchor
            ev = zarr_events(p.events, lo, hi)
            if k == 1:
                R.check(err is not None and is_value_error(err), "reject", f"{name} then {then} {role}", f"{key}:{role}:error", site,
                        f"{name}: a snapshot of {list(names)} {'is accepted' if err is None else 'raises ' + err_name(err)} on the {role}, expected ValueError", p.desc())
                R.check(not ev, "untouched", f"{name} then {then} {role}", f"{key}:{role}:touched", where(p, ev[0]) if ev else anchor,
                        f"{name}: a snapshot of {list(names)} leads to {ev[0].op if ev else ''} of {vrepr(ev[0].store.name) if ev and ev[0].store else ''} on the {role}", p.desc())
                continue
            R.check(err is None, "next" if k else "accept", f"{name} then {then} {k} {role}", f"{key}:{role}:{k}", site, f"{name}: a snapshot of {list(names)} raises {err_name(err) if err else ''} on the {role}", p.desc())
            if err is None:
                # the time of a snapshot is written by the root alone
                got = sorted({str(w.store.name) for w in ev if w.op == "write"})
                want = sorted(n for n in names if n != "time" or role == "root")
                R.check(got == want, "next" if k else "accept", f"{name} written {k} {role}", f"{key}:{role}:{k}:written", anchor, f"{name}: storing {list(names)} writes {got} on the {role}", p.desc())
                at = {vrepr(first_index(w)) for w in ev if w.op == "write"}
                R.check(at <= {str(k // 2)}, "next" if k else "accept", f"{name} index {k} {role}", f"{key}:{role}:{k}:index", anchor, f"{name}: snapshot {k // 2} is written at time {at} on the {role}", p.desc())


def first_index(w):
    i = w.region[0]
    return i if not isinstance(i, tuple) else i[0] if to_poly(i[1]) == ONE else i


def drive(I, pair, time, bad, before):
    S = I.S
    if not begin(I):
        return
    S["units"] = {n: Term("units " + n, (), {"nonnull": True, "kind": "str"}) for n in NAMES}
    S["units2"] = {n: Term("other units " + n, (), {"nonnull": True, "kind": "str"}) for n in NAMES}
    for n in NAMES:
        known_distinct(I, S["units"][n], S["units2"][n])
    S["dtype"] = {n: Term("dtype " + n, (), {"nonnull": True, "kind": "dtype"}) for n in NAMES}
    dims_of = S["dims_of"] = dict(zip(NAMES, pair))
    S["times"] = [date(f"t{k}") for k in range(before + 1)]
    S["steps"] = {}
    S["index"] = [to_poly(k) for k in range(before + 1)]
    sent = None
    for role, rank, idx in roles(S):
        comm, mon = monitor(I, S, role, rank, sent)

        def valid(k):
            st = [(n, variable(I, S, f"{role} {n} {k}", dims_of[n], S["units"][n], S["dtype"][n])) for n in NAMES]
            if time:
                st.insert(1, ("time", I.new(S["times"][k])))
            if k % 2:
                st = st[::-1]
            return st

        def put(tag, st):
            lo = I.seq
            err = None
            try:
                I.meth(mon, "store", snapshot(I, st, role))
            except AbsRaise as e:
                err = e
            S["steps"][role, tag] = (lo, I.seq, err)
        for k in range(before):
            put(k, valid(k))
            if S["steps"][role, k][2] is not None:
                return
        for q, (kind, n) in enumerate(bad):
            st = valid(before)
            if kind == "extra":
                st.insert(0, ("time", I.new(date("x"))) if n == "time" else ("more", variable(I, S, f"{role} more {q}", pair[0])))
            elif kind == "missing":
                st = [(a, b) for a, b in st if a != n]
            elif kind == "renamed":
                st = [("more" if a == n else a, b) for a, b in st]
            elif kind == "calendar":
                st = [(a, I.new(date("other", "DatetimeNoLeap")) if a == "time" else b) for a, b in st]
            else:
                d = {"dims": other_dims, "order": swapped, "ndim": longer}.get(kind, tuple)(dims_of[n])
                u = S["units2" if kind == "units" else "units"][n]
                v = variable(I, S, f"{role} bad {n} {q}", d, u, S["dtype"][n], grow=d[q % len(d)] if kind == "extent" else None)
                st = [(a, v if a == n else b) for a, b in st]
            put(("bad", q), st)
            if S["steps"][role, ("bad", q)][2] is None:
                break
        else:
            put(before, valid(before))
        sent = sent_values(I.allevents, comm)


def known_distinct(I, a, b):
    I.known[("eq",) + tuple(sorted((vkey(a), vkey(b)), key=repr))] = False


def other_dims(d):
    """another staggering of the last dimension"""
    x = d[-1]
    return d[:-1] + (x.replace("_interface", "") if x in INTERFACE else x + "_interface",)


def swapped(d):
    return d[::-1]


def longer(d):
    return ("z_soil",) + d


def judge(R, I, p, pair, time, bad, before):
    S = p.S
    if S.get("skip"):
        return
    kinds = " and ".join(f"{k} {n}" for k, n in bad)
    name = f"archive of {pair}{' without time' if not time else ''}"
    key = f"C11:{pair}:{time}:{before}:" + ",".join(f"{k}-{n}" for k, n in bad)
    anchor = fwhere(I, "zarr_monitor.ZarrMonitor.store")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    stores = {e.name: e.store for e in zarr_events(p.events, ops=("create",))}
    for role, rank, idx in roles(S):
        for tag in [*range(before), *[("bad", q) for q in range(len(bad))], before]:
            if (role, tag) not in S["steps"]:
                break
            lo, hi, err = S["steps"][role, tag]
            site = f"{err.site[0]}:{err.site[1]}" if err is not None and err.site else anchor
            if isinstance(tag, tuple):
                k, n = bad[tag[1]]
                what = f"{k} {n}"
                kk = f"{key}:{role}:{tag[1]}"
                R.check(err is not None and is_value_error(err), "reject", f"{name} {what} {role}", f"{kk}:error", site,
                        f"{name}: a snapshot with {what} {'is accepted' if err is None else 'raises ' + err_name(err)} on the {role}, expected ValueError", p.desc())
                ev = zarr_events(p.events, lo, hi)
                R.check(not ev, "untouched", f"{name} {what} {role}", f"{kk}:touched", where(p, ev[0]) if ev else anchor,
                        f"{name}: a snapshot with {what} leads to {ev[0].op if ev else ''} of {vrepr(ev[0].store.name) if ev and ev[0].store else ''} on the {role}", p.desc())
                cs = [e for e in comm_events(p.events) if lo < e.seq <= hi and e.op in COLLECTIVE]
                R.check(not cs, "untouched", f"{name} {what} {role} collectives", f"{kk}:collective", where(p, cs[0]) if cs else anchor,
                        f"{name}: the {role} enters {cs[0].op if cs else ''} for a snapshot with {what} that is rejected", p.desc())
                continue
            rule = "next" if tag == before else "accept"
            after = f" after {kinds}" if tag == before else ""
            if not R.check(err is None, rule, f"{name} step {tag} {role}", f"{key}:{role}:{tag}:raise", site, f"{name}: valid snapshot {tag}{after} raises {err_name(err) if err else ''} on the {role}", p.desc()):
                break
            ws = zarr_events(p.events, lo, hi, ("write",))
            for n in NAMES:
                judge_write(R, I, p, S, f"{name}{after}", f"{key}:{role}:{tag}", role, tag, n, S["dims_of"][n], idx, [w for w in ws if w.store is stores.get(n)], anchor)
            if time and "time" in stores:
                judge_time(R, I, p, S, f"{name}{after}", f"{key}:{role}:{tag}", role, tag, [w for w in ws if w.store is stores["time"]], stores["time"])
            R.check(set(stores) == set(NAMES) | ({"time"} if time else set()), rule, f"{name} arrays", f"{key}:arrays", anchor, f"{name}: the archive has arrays {sorted(map(str, stores))}", p.desc())


def is_value_error(e):
    c = e.exc.cls
    for b in (c.mro() if isinstance(c, ClassV) else [c]):
        if isinstance(b, BT) and issubclass(b.t, ValueError):
            return True
    return False


def err_name(e):
    c = e.exc.cls
    return getattr(c, "name", None) or (c.t.__name__ if isinstance(c, BT) else repr(c))
