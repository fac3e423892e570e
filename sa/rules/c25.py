"""C25: nudging relaxes towards the reference, and only as requested."""
from ..sg import *

FLOOR = 100
FAMILIES = [("z", "y", "x"), ("x_interface", "y"), ("x_bin",), ("y", "z_interface", "x")]
# reference of (a, b) relative to the state
REFS = {"separate": ("ra", "rb"), "state": ("a", "b"), "swapped": ("b", "a"), "one": ("a", "a"), "shared": ("ra", "ra")}
SCALES = [("a",), ("a", "b"), ("b", "a"), (), ("b",)]


def run(R):
    R.rule("tendency", "for exactly the variables with a timescale: (reference - state) / timescale in seconds over the compute domain, whatever the halos and origins of the two are; dims of the state variable, its units followed by ' s^-1'")
    R.rule("apply", "apply_nudging adds tendency * timestep in seconds to the compute domain of exactly those variables, once; all tendencies are those of the unmodified state, also when the reference shares quantities with the state")
    R.rule("inputs", "computing tendencies writes nothing; nothing else of state, reference and timescales is modified")
    R.rule("missing", "a timescale for a variable missing in state or reference raises before anything is written")
    R.assume("reference and state variables have the same dimensions and extents")
    W = World(R)
    for dims in FAMILIES:
        for refs in REFS:
            for scales in SCALES:
                for how in ("get", "apply"):
                    for unit in ("seconds", "hours", "days"):
                        if unit != "seconds" and refs != "separate":
                            continue
                        a = (dims, refs, scales, how, unit)
                        W.run("tendency", f"{how} {dims} reference {refs} timescales {scales} in {unit}", lambda I, a=a: nudge(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
    for side in ("state", "reference"):
        for scales in (("a", "missing"), ("missing", "a"), ("missing",)):
            W.run("missing", f"{side} {scales}", lambda I, a=(side, scales): missing(I, *a), lambda p, a=(side, scales): judge_missing(R, W.I, p, *a))


def setup(I, S, dims, refs, scales, unit):
    I.hooks.clear()
    fix_contig(I, False)
    ext = {d: I.sym("m_" + d, 2) for d in dims}
    for n in ("a", "b", "c", "ra", "rb"):
        make(I, S, n, dims, ext)
    S["dims"] = dims
    S["state"] = I.new(DictV([("a", S["a"]["q"]), ("c", S["c"]["q"]), ("b", S["b"]["q"]), ("time", Term("time", (), {"nonnull": True}))]))
    S["refs"] = dict(zip("ab", REFS[refs]))
    S["reference"] = S["state"] if refs == "state" else I.new(DictV([("b", S[S["refs"]["b"]]["q"]), ("a", S[S["refs"]["a"]]["q"]), ("c", S["c"]["q"])]))
    S["T"] = {n: I.sym("T_" + n, 1) for n in scales}
    S["unit"] = {"seconds": 1, "hours": 3600, "days": 86400}[unit]
    S["scales"] = I.new(DictV([(n, I.call(ExtV("datetime.timedelta"), [], {unit: mk(S["T"][n])})) for n in scales]))
    S["dt"] = I.sym("dt", 0)
    S["step"] = I.call(ExtV("datetime.timedelta"), [], {unit: mk(S["dt"])})
    S["before"] = {k: list(map(list, S[k].entries)) for k in ("state", "reference", "scales")}
    S["seq0"] = I.seq


def nudge(I, dims, refs, scales, how, unit):
    S = I.S
    setup(I, S, dims, refs, scales, unit)
    S["versions"] = {n: S[n]["arr"].buf.version for n in ("a", "b", "c", "ra", "rb")}
    args = [S["state"], S["reference"], S["scales"]]
    S["out"] = I.call_name("nudging." + ("get_nudging_tendencies" if how == "get" else "apply_nudging"), *args, **({} if how == "get" else {"timestep": S["step"]}))
    S["tend"] = {}
    if isinstance(S["out"], DictV):
        for k, q in S["out"].entries:
            if isinstance(q, InstV):
                t = S["tend"][k] = {n: I.getattr(q, n) for n in ("dims", "units", "extent", "data")}
                t["view"] = I.B.getitem(I, I.getattr(q, "view"), slice(None, None, None))
    S["units_want"] = {n: I.binop("Add", I.getattr(S[n]["q"], "units"), " s^-1") for n in "ab"}


def original(I, S, n):
    """compute domain of a variable before nudging"""
    info = S[n]
    b = info["arr"].buf
    v, c = b.version, b.content
    b.version, b.content = info["version"], None
    try:
        return A.content_of(I, I.new(A.ArrV(b, [A.Axis(k, mk(info["o"][d]), 1, mk(info["e"][d])) for k, d in enumerate(info["dims"])])))
    finally:
        b.version, b.content = v, c


def same(p, c, want):
    return c is not None and not normterm(p.facts, c.num * want.den - want.num * c.den).t


def judge(R, I, p, dims, refs, scales, how, unit):
    S = p.S
    name = f"{'computing' if how == 'get' else 'applying'} nudging of {dims}, reference {refs}, timescales of {list(scales)} in {unit}"
    key = f"C25:{how}:{refs}"
    anchor = fwhere(I, "nudging." + ("get_nudging_tendencies" if how == "get" else "apply_nudging"))
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    R.check(isinstance(S["out"], DictV) and sorted(map(str, (k for k, v in S["out"].entries))) == sorted(scales) and set(S["tend"]) == set(scales), "tendency", name + " names", key + ":names", anchor,
            f"{name} returns {vrepr(S['out'])}", p.desc())
    want = {}
    for n in scales:
        st, rf = original(I, S, n), original(I, S, S["refs"][n])
        want[n] = rf.add(st.neg()).mul(Frac(Poly.const(1), S["T"][n] * Poly.const(S["unit"])))
        t = S["tend"].get(n)
        if t is None:
            continue
        R.check(tuple(t["dims"]) == dims, "tendency", name + " dims", key + ":dims", anchor, f"{name}: the tendency of {n} has dims {vrepr(t['dims'])}", p.desc())
        R.check(vkey(t["units"]) == vkey(S["units_want"][n]), "tendency", name + " units", key + ":units", anchor, f"{name}: the tendency of {n} has units {vrepr(t['units'])}", p.desc())
        v = t["view"]
        ok = isinstance(v, A.ArrV) and shape_eq(p, v.shape, tuple(mk(S[n]["e"][d]) for d in dims)) is True
        R.check(ok, "tendency", name + " shape", key + ":shape", anchor, f"{name}: the tendency of {n} has the compute domain {vrepr(v)}", p.desc())
        c = A.content_of(I, v) if isinstance(v, A.ArrV) else None
        R.check(same(p, c, want[n]), "tendency", name + " values", key + ":values", anchor, f"{name}: the tendency of {n} is {c!r}, expected {want[n]!r}", p.desc())
    bufs = {S[n]["arr"].buf: n for n in ("a", "b", "c", "ra", "rb")}
    eff = []
    for w in walk_events(p.events, ("write",)):
        if w.seq <= S["seq0"] or w.arr.buf not in bufs:
            continue
        if w.content is not None and same_content(p, w.content, 1, at(I, w)) is True:
            continue          # stores what is there already (second half of an augmented assignment)
        eff.append((bufs[w.arr.buf], w))
    if how == "get":
        R.check(not eff, "inputs", name, key + ":write", where(p, eff[0][1]) if eff else anchor, f"{name} writes {vrepr(eff[0][1].arr) if eff else ''}", p.desc())
    else:
        for n in scales:
            info = S[n]
            mine = [w for b, w in eff if b == n]
            eff = [(b, w) for b, w in eff if b != n]
            reg = [(info["o"][d], info["o"][d] + info["e"][d]) for d in dims]
            good = len(mine) == 1 and covers(p, mine[0].arr, info["arr"].buf, reg)
            total = original(I, S, n).add(want[n].mul(Frac(S["dt"] * Poly.const(S["unit"]), Poly.const(1))))
            good = good and same(p, mine[0].content, total)
            if not mine and same(p, original(I, S, n), total):
                good = True       # relaxing towards itself
            R.check(good, "apply", f"{name} {n}", key + ":apply", where(p, mine[0]) if mine else anchor,
                    f"{name}: {n} is modified by {[vrepr(w.arr) + ' = ' + repr(w.content) for w in mine]}, expected its compute domain to become {total!r}", p.desc())
        R.check(not eff, "inputs", name, key + ":other", where(p, eff[0][1]) if eff else anchor, f"{name} also writes {vrepr(eff[0][1].arr) if eff else ''}", p.desc())
    for k in ("state", "reference", "scales"):
        now = list(map(list, S[k].entries))
        R.check(len(now) == len(S["before"][k]) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(now, S["before"][k])), "inputs", f"{name} {k}", key + ":" + k, anchor, f"{name} changes the {k} dictionary to {vrepr(S[k])}", p.desc())


def at(I, w):
    b = w.arr.buf
    v, c = b.version, b.content
    b.version, b.content = w.version, None
    try:
        return A.content_of(I, w.arr)
    finally:
        b.version, b.content = v, c


def missing(I, side, scales):
    S = I.S
    setup(I, S, ("y", "x"), "separate", [s for s in scales if s != "missing"], "seconds")
    td = I.call(ExtV("datetime.timedelta"), [], {"seconds": 60})
    S["scales"] = I.new(DictV([(n, td) for n in scales]))
    other = S["reference" if side == "state" else "state"]
    I.setitem(other, "missing", S["ra"]["q"])
    S["seq0"] = I.seq
    I.call_name("nudging.apply_nudging", S["state"], S["reference"], S["scales"], S["step"])


def judge_missing(R, I, p, side, scales):
    S = p.S
    anchor = fwhere(I, "nudging.apply_nudging")
    name = f"nudging {list(scales)} with a variable missing in the {side}"
    R.check(p.status == "raise", "missing", name, f"C25:missing:{side}", anchor, f"{name} is accepted", p.desc())
    ws = [w for w in walk_events(p.events, ("write",)) if w.seq > S["seq0"] and any(w.arr.buf is S[n]["arr"].buf for n in ("a", "b", "c", "ra", "rb"))]
    R.check(not ws, "missing", name + " effects", f"C25:missing:{side}:write", where(p, ws[0]) if ws else anchor, f"{name} is rejected only after {vrepr(ws[0].arr) if ws else ''} was written", p.desc())
