"""C12: views address the compute domain."""
from ..halo import *

FLOOR = 150
VIEWS = ("view", "northwest", "northeast", "southwest", "southeast", "interior")
ENDS = {"view": (), "interior": (), "northwest": ("N",), "northeast": ("N", "E"), "southwest": (), "southeast": ("E",)}
FORMS = ("all", "from", "to", "span", "span2", "int")
FAMILY = [("y", "x"), ("x_interface", "z", "y"), ("z_soil", "y_interface"), ("x",), ("z", "y", "x_interface", "year")]


def run(R):
    R.rule("read", "v[index] is a view of the quantity's data with, per dimension, exactly the points the index names relative to the view's reference point")
    R.rule("write", "v[index] = value writes exactly these points")
    R.rule("sel", "sel(**{dim: entry}) and view.<corner>.sel(...) are v[...] with the entries in dimension order and omitted ones open")
    R.rule("too-many", "more indices than dimensions raise IndexError and address nothing")
    R.rule("scalar", "open indices on a 0-d quantity address its data, for reading and assigning alike")
    R.assume("explicit indices stay inside the allocated array and, on the plain view, are not negative; positive slice steps")
    W = World(R)
    fam = FAMILY
    for dims in fam:
        for v in VIEWS:
            for k in range(len(dims)):
                for form in FORMS:
                    if v == "interior" and form == "int":
                        continue
                    for other in ("all", "span") if len(dims) > 1 else ("all",):
                        for op in ("read", "write", "sel"):
                            if op == "sel" and v == "interior" and False:
                                continue
                            a = (dims, v, k, form, other, op)
                            W.run(op, " ".join(map(str, a)), lambda I, a=a: drive(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
            W.run("read", f"{dims} {v} short", lambda I, a=(dims, v): short(I, *a), lambda p, a=(dims, v): judge_short(R, W.I, p, *a))
            for op in ("read", "write"):
                W.run("too-many", f"{dims} {v} {op}", lambda I, a=(dims, v, op): many(I, *a), lambda p, a=(dims, v, op): judge_many(R, W.I, p, *a))
    for v in VIEWS:
        for op in ("read", "write"):
            for ix in ("slice", "empty"):
                W.run("scalar", f"{v} {op} {ix}", lambda I, a=(v, op, ix): scalar(I, *a), lambda p, a=(v, op, ix): judge_scalar(R, W.I, p, *a))


def the_view(I, q, v):
    view = I.getattr(q, "view")
    return view if v == "view" else I.getattr(view, v)


def entry(I, S, v, d, form, tag):
    """(index entry, (start, stop, step) in the array or int position)"""
    info = S["q"]
    o, e, p = info["o"][d], info["e"][d], info["p"][d]
    at_end = ("N" in ENDS[v] and d in Y_DIMS) or ("E" in ENDS[v] and d in X_DIMS)
    base = o + e if at_end else o
    stop_base = o + e if v == "interior" else base
    low = Poly.const(0) if v == "view" else -base        # lowest admissible entry
    if form == "all":
        return slice(None, None, None), (o, o + e, 1)
    if form == "from":
        # start anywhere up to the end of the compute domain
        a = rng(I, tag + "a", low, o + e - base)
        return slice(mk(a), None, None), (base + a, o + e, 1)
    if form == "to":
        lo = o - stop_base
        b = rng(I, tag + "b", lo, o + e + p - stop_base)
        return slice(None, mk(b), None), (o, stop_base + b, 1)
    if form in ("span", "span2"):
        a = rng(I, tag + "a", low, o + e + p - base)
        c = I.sym(tag + "w", 0, o + e + p - base - a)
        b = base + a + c - stop_base
        step = 2 if form == "span2" else None
        return slice(mk(a), mk(b), step), (base + a, base + a + c, step or 1)
    i = rng(I, tag + "i", low, o + e + p - base - ONE)
    return mk(i), (base + i,)


def rng(I, name, lo, hi):
    """a symbolic integer between two polynomials"""
    return lo + I.sym(name, 0, hi - lo)


def drive(I, dims, v, k, form, other, op):
    S = I.S
    q = quantity(I, S, "q", dims)
    view = the_view(I, q, v)
    idx, want = [], []
    for n, d in enumerate(dims):
        a, w = entry(I, S, v, d, form if n == k else other, f"{n}")
        idx.append(a), want.append(w)
    S["want"] = want
    S["idx"] = idx
    # what the allocated array gives for the same points, stated explicitly
    S["ref"] = I.B.getitem(I, S["q"]["arr"], tuple(mk(w[0]) if len(w) == 1 else slice(mk(w[0]), mk(w[1]), w[2]) for w in want))
    S["seq0"] = I.seq
    ix = idx[0] if len(idx) == 1 else tuple(idx)
    if op == "read":
        S["got"] = I.B.getitem(I, view, ix)
    elif op == "write":
        S["value"] = Term("value", (), {"kind": "float", "nonnull": True})
        I.setitem(view, ix, S["value"])
    else:
        kw = {d: a for d, a in zip(dims, idx) if a != slice(None, None, None)}
        target = q if v == "view" else view
        S["got"] = I.meth(target, "sel", **dict(reversed(kw.items())))


def matches(p, arr, buf, want, ref=None):
    """None if arr addresses exactly the wanted points, else a description"""
    if not isinstance(arr, A.ArrV):
        return f"gives {vrepr(arr)}"
    if arr.buf is not buf:
        return f"gives {arr!r}, which is not the quantity's data"
    axes = list(arr.axes)
    for k, w in enumerate(want):
        if len(w) == 1:
            if k not in arr.fixed or peq(p.facts, arr.fixed[k], mk(w[0])) is not True:
                return f"addresses {arr!r}, expected index {vrepr(mk(w[0]))} on axis {k}"
            continue
        if not axes or axes[0].src != k:
            return f"gives {arr!r}: axis {k} is not where it should be"
        a = axes.pop(0)
        ln = w[1] - w[0]
        if w[2] == 1:
            ok = peq(p.facts, a.length, mk(ln)) is True
        else:
            ok = ref is not None and peq(p.facts, a.length, [x for x in ref.axes if x.src == k][0].length) is True
        empty = peq(p.facts, mk(ln), 0) is True and peq(p.facts, a.length, 0) is True
        if not empty and not (a.step == w[2] and ok and peq(p.facts, a.start, mk(w[0])) is True):
            return f"addresses {arr!r}, expected {vrepr(mk(w[0]))}:{vrepr(mk(w[1]))}" + (f":{w[2]}" if w[2] != 1 else "") + f" on axis {k}"
    if axes:
        return f"gives {arr!r} with too many axes"
    return None


def judge(R, I, p, dims, v, k, form, other, op):
    S = p.S
    name = f"{'view' if v == 'view' else 'view.' + v} {op} {form} on {dims[k]} of {dims}"
    key = f"C12:{v}:{op}:{form}:{','.join(dims)}:{k}"
    anchor = fwhere(I, "quantity.Quantity.view") if v == "view" else fwhere(I, f"quantity.BoundedArrayView.{v}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    if op != "write":
        m = matches(p, S["got"], S["q"]["arr"].buf, S["want"], S["ref"]) if isinstance(S["got"], A.ArrV) else scalar_match(p, S)
        R.check(m is None, op, name, key, anchor, f"{name}: {m}", p.desc())
        return
    ws = [e for e in walk_events(p.events, ("write",)) if e.seq > S["seq0"]]
    if not R.check(len(ws) == 1, "write", name, key, anchor, f"{name} performs {len(ws)} writes", p.desc()):
        return
    m = matches(p, ws[0].arr, S["q"]["arr"].buf, S["want"], S["ref"])
    R.check(m is None, "write", name, key, where(p, ws[0]), f"{name}: {m}", p.desc())
    c = ws[0].content
    R.check(c is not None and c == to_frac(S["value"]) if not isinstance(c, Frac) else vkey(mkf(c)) == vkey(mkf(to_frac(S["value"]))), "write", name + " value", key + ":value", where(p, ws[0]),
            f"{name} writes {c!r}", p.desc())


def scalar_match(p, S):
    """all entries were integers: the element itself"""
    got = S["got"]
    if any(len(w) != 1 for w in S["want"]):
        return f"gives {vrepr(got)}"
    c = to_frac(got)
    if c is None:
        return f"gives {vrepr(got)}"
    at = [a for a in c.num.atoms() if isinstance(a, Term) and a.op == "el"]
    if len(at) != 1 or at[0].args[0][1] != S["q"]["arr"].buf.oid:
        return f"gives {vrepr(got)}"
    fx = dict(at[0].args[2])
    for k, w in enumerate(S["want"]):
        if k not in fx or peq(p.facts, fx[k], mk(w[0])) is not True:
            return f"gives {vrepr(got)}, expected index {vrepr(mk(w[0]))} on axis {k}"
    return None


def short(I, dims, v):
    S = I.S
    q = quantity(I, S, "q", dims)
    view = the_view(I, q, v)
    S["got"] = [I.B.getitem(I, view, slice(None, None, None)), I.B.getitem(I, view, ()), I.meth(q if v == "view" else view, "sel")]
    o, e = S["q"]["o"], S["q"]["e"]
    S["want"] = [(o[d], o[d] + e[d], 1) for d in dims]


def judge_short(R, I, p, dims, v):
    name = f"{'view' if v == 'view' else 'view.' + v}[:] of {dims}"
    key = f"C12:{v}:open:{','.join(dims)}"
    anchor = fwhere(I, "quantity.Quantity.view") if v == "view" else fwhere(I, f"quantity.BoundedArrayView.{v}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    for g, w in zip(p.S["got"], ("[:]", "[()]", ".sel()")):
        m = matches(p, g, p.S["q"]["arr"].buf, p.S["want"])
        R.check(m is None, "read", name, key + w, anchor, f"{name} as {w}: {m}", p.desc())


def many(I, dims, v, op):
    S = I.S
    q = quantity(I, S, "q", dims)
    view = the_view(I, q, v)
    ix = (slice(None, None, None),) * (len(dims) + 1)
    S["seq0"] = I.seq
    if op == "read":
        I.B.getitem(I, view, ix)
    else:
        I.setitem(view, ix, 0)


def judge_many(R, I, p, dims, v, op):
    anchor = fwhere(I, "quantity.Quantity.view") if v == "view" else fwhere(I, f"quantity.BoundedArrayView.{v}")
    ws = [e for e in walk_events(p.events, ("write",)) if e.seq > p.S["seq0"]]
    R.check(p.status == "raise" and exc_is(I, p, "IndexError") and not ws, "too-many", f"{v} {op} {dims}", f"C12:{v}:many:{op}:{len(dims)}",
            where(p) if p.status == "raise" else anchor, f"{len(dims) + 1} indices on view {v} of {dims} " + (f"raise {exc_desc(p)}" if p.status == "raise" else "are accepted"), p.desc())


def scalar(I, v, op, ix):
    S = I.S
    q = quantity(I, S, "q", ())
    view = the_view(I, q, v)
    i = slice(None, None, None) if ix == "slice" else ()
    S["seq0"] = I.seq
    if op == "read":
        S["got"] = I.B.getitem(I, view, i)
    else:
        I.setitem(view, i, Term("value", (), {"kind": "float", "nonnull": True}))


def judge_scalar(R, I, p, v, op, ix):
    key = f"C12:{v}:scalar:{op}"
    anchor = fwhere(I, "quantity.Quantity.view") if v == "view" else fwhere(I, f"quantity.BoundedArrayView.{v}")
    if p.status == "raise":
        R.violate(key, where(p), f"{op} of view {v} of a 0-d quantity raises {exc_desc(p)}", p.desc())
        return
    buf = p.S["q"]["arr"].buf
    if op == "read":
        R.check(isinstance(p.S["got"], A.ArrV) and p.S["got"].buf is buf, "scalar", v, key, anchor, f"view {v} of a 0-d quantity gives {vrepr(p.S['got'])}", p.desc())
    else:
        ws = [e for e in walk_events(p.events, ("write",)) if e.seq > p.S["seq0"]]
        R.check(len(ws) == 1 and ws[0].arr.buf is buf, "scalar", v, key, anchor, f"assignment to view {v} of a 0-d quantity writes {[vrepr(e.arr) for e in ws]}", p.desc())
