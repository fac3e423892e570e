"""C15: a pooled buffer has one user at a time and matches its request.

The pool is whatever array memory is reachable from module-level state (names
of modules, closures, default arguments, class attributes); the rule does not
know how it is organised."""
from itertools import product
from ..sg import *
from . import c08, c24

FLOOR = 100
EMPTY = ExtV("numpy.empty")


def run(R):
    R.rule("match", "the array obtained has the requested shape and dtype and was created by the requested allocator")
    R.rule("exclusive", "while its context is open no other context holds the memory and the pool does not contain it, for every history of nested and interleaved uses")
    R.rule("returned", "after its context ended normally the pool contains the memory exactly once, and after an exception at most once")
    R.rule("transfer", "no array given to a message-passing call is in the pool at that time; arrays of unfinished sends stay out of the pool and are not modified before they are waited for")
    R.assume("interleaved operations are analysed with concrete array sizes (layouts stay arbitrary); coinciding and differing requests are enumerated by the histories")
    R.rule("results", "quantities returned by scatter and gather are not memory of the pool, and later operations do not modify them")
    W = World(R)
    G = World(R, absent=("gt4py",))
    depth = 5 if R.tier == "thorough" else 4
    for name, other in VARIANTS.items():
        w = G if name == "device" else W
        for h in histories(depth if name in ("same", "generic") or R.tier == "thorough" else 3):
            w.run("exclusive", f"array_buffer {name}: {show(h)}", lambda I, a=(h, other): history(I, *a), lambda p, a=(h, name), w=w: judge_history(R, w.I, p, *a))
    fam = [("scalar", ("z", "y", "x")), ("vector", (("y", "x_interface"), ("y_interface", "x")))]
    if R.tier == "thorough":
        fam += [("scalar", d) for d in SCALAR_DIMS[2:]] + [("vector", d) for d in VECTOR_DIMS]
    fam.append(("sync", c24.DIMS[1]))
    for (k1, d1), (k2, d2) in product(fam, fam):
        for order in ("12", "21"):
            W.run("transfer", f"{k1} {d1} and {k2} {d2} waited {order}", lambda I, a=(k1, d1, k2, d2, order): overlap(I, *a), lambda p, a=(k1, d1, k2, d2, order): judge_overlap(R, W.I, p, *a))
    for cube in (False, True):
        for dims in (DIMS if R.tier == "thorough" else DIMS[1:4]):
            for role in ("root", "client"):
                for op in ("scatter", "gather"):
                    for contig in (False, True):
                        W.run("results", f"{'cube' if cube else 'tile'} {op} twice on the {role} of {dims} contiguous={contig}", lambda I, a=(cube, dims, role, op, contig): twice(I, *a),
                              lambda p, a=(cube, dims, role, op): judge_twice(R, W.I, p, *a))


# ------------------------------------------------------------------ reachability
LEAF = (str, int, float, bool, type(None), Poly, Term, ExtV, BT, PyFn)
BOX = (ListV, SetV, IterV, DictV, ClassV, InstV, LruV, ModV)


def children(v):
    if isinstance(v, (list, tuple)):
        return v
    if isinstance(v, (ModV, ClassV)):
        return list(v.ns.values())
    if isinstance(v, (ListV, SetV, IterV)):
        return v.items
    if isinstance(v, DictV):
        return [x for e in v.entries for x in e]
    if isinstance(v, InstV):
        return list(v.attrs.values())
    if isinstance(v, FuncV):
        out = list(v.defaults) + list(v.kwdefaults.values()) + list(v.attrs.values())
        e = v.env
        while e is not None and (e.vars or e.parent):
            out += list(e.vars.values())
            e = e.parent
        return out
    if isinstance(v, LruV):
        return [v.func] + list(v.cache.values())
    if isinstance(v, CMFactory):
        return [v.func]
    if isinstance(v, BoundV):
        return [v.func, v.self_]
    if isinstance(v, PropertyV):
        return [v.fget]
    if isinstance(v, (StaticV, ClassMethodV)):
        return [v.f]
    if isinstance(v, PartialV):
        return [v.func] + list(v.args)
    if isinstance(v, Heap) and hasattr(v, "__dict__"):
        return [x for x in vars(v).values() if isinstance(x, (Heap, list, tuple))]
    return ()


def walk(roots, visit, skip):
    seen, todo = set(), list(roots)
    while todo:
        v = todo.pop()
        if isinstance(v, A.ArrV):
            visit(v)
        elif not isinstance(v, LEAF):
            if not isinstance(v, (list, tuple)):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                if skip(v):
                    continue
            todo += children(v)


def pooled(I):
    """{Buf: number of references} from module-level state; functions that
    existed after import only matter by what they close over then"""
    roots = getattr(I, "c15_roots", None)
    if roots is None:
        boxes = []
        walk(I.modules.values(), lambda a: None, lambda v: boxes.append(v) if isinstance(v, BOX) else None)
        roots = I.c15_roots = boxes
    out = {}

    def count(a):
        out[a.buf] = out.get(a.buf, 0) + 1
    walk(roots, count, lambda v: isinstance(v, FuncV) and v.oid <= I.base_oid and not v.attrs)
    return out


# --------------------------------------------------------------------- histories
def variant_same(I, S):
    return ("array",) + S["A"][1:]


def variant_generic(I, S):
    """unrelated shape (may coincide)"""
    return ("array", EMPTY, (I.sym("c", 1), I.sym("d", 1)), S["A"][3])


def variant_swapped(I, S):
    a, b = S["A"][2]
    return ("array", EMPTY, (b, a), S["A"][3])


def variant_rank(I, S):
    a, b = S["A"][2]
    return ("array", EMPTY, (mk(to_poly(a) * to_poly(b)),), S["A"][3])


def variant_dtype(I, S):
    return ("array", EMPTY, S["A"][2], A.dtype_of(I, ExtV("numpy.float32")))


def variant_alloc(I, S):
    return ("array", ExtV("numpy.zeros"), S["A"][2], S["A"][3])


def variant_device(I, S):
    return ("array", ExtV("cupy.empty"), S["A"][2], S["A"][3])


def variant_send(I, S):
    return ("send", EMPTY, A.external(I, "source", S["A"][2], S["A"][3]))


def variant_recv(I, S):
    return ("recv", EMPTY, A.external(I, "target", S["A"][2], S["A"][3]))


VARIANTS = {k[8:]: f for k, f in list(globals().items()) if k.startswith("variant_")}


def histories(depth):
    """sequences of opens (a key) and closes (which open context, how); every
    context may be closed in any order; at most one exception"""
    out = []

    def rec(h, open_, n, exc):
        if h and h[-1][0] != "open":
            out.append(tuple(h))
        if len(h) == depth:
            if h[-1][0] == "open":
                out.append(tuple(h))
            return
        for k in "AX":
            if n == 0 and k == "X":
                continue
            rec(h + [("open", k, n)], open_ + [n], n + 1, exc)
        for i in open_:
            rest = [x for x in open_ if x != i]
            rec(h + [("close", i, None)], rest, n, exc)
            if not exc:
                rec(h + [("raise", i, None)], rest, n, True)
    rec([], [], 0, False)
    return [h for h in out if not any(h == o[:len(h)] for o in out if o is not h)]


def show(h):
    return ", ".join(f"{a} {b}" for a, b, c in h)


def open_cm(I, req):
    if req[0] == "array":
        return I.call_name("buffer.array_buffer", req[1], req[2], req[3])
    return I.call_name(f"buffer.{req[0]}_buffer", req[1], req[2])


def history(I, h, other):
    S = I.S
    I.hooks.clear()
    I.hooks["contig"] = lambda I, v, order: False if v.buf.order != "C" else None
    S["A"] = ("array", EMPTY, (I.sym("a", 1), I.sym("b", 1)), A.dtype_of(I, ExtV("numpy.float64")))
    S["X"] = other(I, S)
    handles, S["log"] = {}, []
    S["allocs"] = {}
    for act, arg, n in h:
        if act == "open":
            en, ex = I.cm_protocol(open_cm(I, S[arg]))
            got = en()
            req = S[arg]
            if req[0] != "array":
                req = ("array", req[1], req[2].shape, req[2].buf.dtype)
            handles[n] = (got, ex, req)
        else:
            got, ex, req = handles.pop(arg)
            if act == "close":
                ex(None)
            else:
                try:
                    ex(AbsRaise(I.make_exc(BT(KeyError), ["failure in the block"])))
                except AbsRaise as e:
                    if not exc_type(e, "KeyError"):
                        raise
        pool = pooled(I)
        S["log"].append((act, arg, {k: (g, r, pool.get(g.buf, 0) if isinstance(g, A.ArrV) else None) for k, (g, x, r) in handles.items()},
                         (got, pool.get(got.buf, 0) if isinstance(got, A.ArrV) else None), max(pool.values(), default=0)))


def exc_type(e, name):
    return getattr(e.exc.cls, "name", None) == name or isinstance(e.exc.cls, BT) and e.exc.cls.t.__name__ == name


def judge_history(R, I, p, h, name):
    S = p.S
    key = f"C15:buffer:{name}"
    anchor = fwhere(I, "buffer.array_buffer")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"buffers of {name} requests, {show(h)}: {exc_desc(p)}", p.desc())
        return
    alloc = {e.buf: e.how for e in walk_events(p.events, ("alloc",))}
    for k, (act, arg, held, (got, count), most) in enumerate(S["log"]):
        desc = f"after {show(h[:k + 1])} ({name} requests)"
        bufs = [g.buf for g, r, c in held.values() if isinstance(g, A.ArrV)]
        R.check(len(set(map(id, bufs))) == len(held), "exclusive", desc, key + ":shared", anchor, f"{desc}: two open contexts hold the same memory {bufs} or no array", p.desc())
        for g, r, c in held.values():
            R.check(c == 0, "exclusive", desc, key + ":inpool", anchor, f"{desc}: {vrepr(g)} is in use and in the pool", p.desc())
            if act == "open" and g is got:
                ok = shape_eq(p, g.shape, r[2]) is True and shape_eq(p, g.buf.shape, r[2]) is True and vkey(g.buf.dtype) == vkey(r[3])
                R.check(ok, "match", desc, key + ":match", anchor, f"{desc}: {vrepr(g)} of shape {vrepr(g.shape)} and dtype {vrepr(g.buf.dtype)} is given for a request of shape {vrepr(r[2])} and dtype {vrepr(r[3])}", p.desc())
                made = alloc.get(g.buf)
                R.check(made is not None and made_by(made, g.buf.typename, r[1]), "match", desc + " allocator", key + ":allocator", anchor, f"{desc}: memory created by {g.buf.typename} {made} is given for a request with allocator {vrepr(r[1])}", p.desc())
        if act == "close":
            R.check(count == 1, "returned", desc, key + ":returned", anchor, f"{desc}: the memory just released is in the pool {count} times", p.desc())
        elif act == "raise":
            R.check(count is not None and count <= 1, "returned", desc, key + ":returned-exception", anchor, f"{desc}: the memory just released is in the pool {count} times", p.desc())
        R.check(most <= 1, "returned", desc + " any", key + ":twice", anchor, f"{desc}: a buffer is in the pool {most} times", p.desc())


def made_by(how, typename, allocator):
    lib, fn = allocator.name.split(".")
    return how == fn and typename.split(".")[0] == lib


# ------------------------------------------------------------------- operations
def watch(I):
    """judge the pool at every message-passing call, as it happens"""
    S = I.S
    S["pending"], S["bad"], S["seen"] = [], [], []

    def hook(I, e):
        if e.kind != "comm":
            return
        pool = pooled(I)
        for n in ("array", "recv"):
            a = e.data.get(n)
            if isinstance(a, A.ArrV):
                S["seen"].append(e.op)
                if pool.get(a.buf):
                    S["bad"].append(("pool", e, f"{e.op} is given {vrepr(a)}, which is in the pool at that time"))
        for post, v in S["pending"]:
            a = post.array
            if pool.get(a.buf):
                S["bad"].append(("pending", post, f"{vrepr(a)} is in the pool before the {post.op} using it is waited for"))
            if a.buf not in S["own"] and a.buf.version != v:
                S["bad"].append(("modified", post, f"{vrepr(a)} is modified before the {post.op} using it is waited for"))
        if e.op in ("Isend", "Issend") and isinstance(e.data.get("array"), A.ArrV):
            S["pending"].append((e, e.array.buf.version))
        if e.op in ("wait", "test"):
            S["pending"] = [(q, v) for q, v in S["pending"] if q is not e.data.get("post")]
    I.hooks["event"] = hook


def overlap(I, k1, d1, k2, d2, order):
    S = I.S
    I.hooks.clear()
    fix_contig(I, False)
    cc = cube_comm(I, S, 0)
    # sizes are concrete here: which requests coincide is part of the histories
    n, m = S["n"], S["m"] = Poly.const(2), Poly.const(5)
    S["cells"] = {"z": Poly.const(7), "x_bin": Poly.const(3)}
    dt = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    S["fields"], reqs, start = [], [], []
    for tag, kind, dims in (("1", k1, d1), ("2", k2, d2)):
        if kind == "scalar":
            qs = [horizontal_quantity(I, S, "q" + tag, dims, n, m, dtype=dt)]
            S["fields"].append("q" + tag)
        else:
            qs = [horizontal_quantity(I, S, f + tag, ds, n, m, dtype=dt) for f, ds in zip("xy", dims)]
            S["fields"] += ["x" + tag, "y" + tag]
        start.append((kind, qs))
    S["own"] = {S[f]["arr"].buf for f in S["fields"]}
    watch(I)
    for kind, qs in start:
        if kind == "sync":
            reqs.append(I.meth(cc, "start_synchronize_vector_interfaces", *qs))
        else:
            reqs.append(I.meth(cc, "start_halo_update" if kind == "scalar" else "start_vector_halo_update", *qs, mk(n)))
    for c in order:
        I.meth(reqs[int(c) - 1], "wait")
    S["end"] = pooled(I)


def report(R, I, p, name, key):
    S = p.S
    for what, e, msg in S["bad"]:
        R.violate(f"{key}:{what}", where(p, e), f"{name}: {msg}", p.desc())
    for op in S["seen"]:
        R.ok("transfer", f"{name} {op}")
    R.check(max(S["end"].values(), default=0) <= 1, "returned", name, key + ":twice", fwhere(I, "buffer.array_buffer"), f"after {name} a buffer is in the pool more than once", p.desc())


def judge_overlap(R, I, p, k1, d1, k2, d2, order):
    name = f"{k1} {d1} overlapping {k2} {d2}, waited for in order {order}"
    key = f"C15:{k1}-{k2}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    report(R, I, p, name, key)
    for f in p.S["fields"]:
        R.check(not p.S["end"].get(p.S[f]["arr"].buf), "results", f"{name} {f}", key + ":user", fwhere(I, "buffer.array_buffer"), f"after {name} the memory of a quantity is in the pool", p.desc())


def twice(I, cube, dims, role, op, contig):
    S = I.S
    I.hooks.clear()
    fix_contig(I, contig)
    world(I, S, cube)
    S["cells"] = {"x": Poly.const(4), "y": Poly.const(5), "z": Poly.const(6), "year": Poly.const(3)}
    r, g = sizes(I, S, dims)
    gd, ge = global_dims(S, dims), global_ext(S, g)
    rank = 0 if role == "root" else client_rank(I, S)
    if rank is None:
        S["skip"] = True
        return
    dt = S["dtype"] = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    S["own"] = set()
    qs = [make(I, S, "src" + k, gd if op == "scatter" else dims, ge if op == "scatter" else r, dtype=dt) for k in "12"]
    S["own"] = {S["src" + k]["arr"].buf for k in "12"}
    values = None if role == "root" or op == "gather" else [I.getattr(q, "metadata") for q in qs]
    S["comm"], cc = communicator(I, S, rank, root_values=values)
    watch(I)
    S["out"] = []
    for q in qs:
        if op == "scatter":
            out = I.meth(cc, "scatter", q) if role == "root" else I.meth(cc, "scatter")
        else:
            out = I.meth(cc, "gather", q)
        d = I.getattr(out, "data") if isinstance(out, InstV) else None
        S["out"].append((d, d.buf.version if isinstance(d, A.ArrV) else None, A.content_of(I, d) if isinstance(d, A.ArrV) else None))
    S["end"] = pooled(I)
    S["later"] = [d.buf.version if isinstance(d, A.ArrV) else None for d, v, c in S["out"]]


def judge_twice(R, I, p, cube, dims, role, op):
    S = p.S
    if S.get("skip"):
        return
    name = f"{'cubed' if cube else 'tile'} {op} of {dims} twice on the {role}"
    key = f"C15:{op}:{role}"
    anchor = fwhere(I, "communicator.Communicator." + op)
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    report(R, I, p, name, key)
    for (d, v, c), later in zip(S["out"], S["later"]):
        if not isinstance(d, A.ArrV):
            continue
        R.check(not S["end"].get(d.buf), "results", name, key + ":pooled", anchor, f"{name}: the returned quantity is memory of the pool", p.desc())
        R.check(v == later, "results", name + " later", key + ":changed", anchor, f"{name}: the second {op} modifies the result of the first", p.desc())
    ds = [d.buf for d, v, c in S["out"] if isinstance(d, A.ArrV)]
    R.check(len(set(map(id, ds))) == len(ds), "results", name + " distinct", key + ":same", anchor, f"{name}: both results use the same memory", p.desc())
    for k in "12":
        R.check(not S["end"].get(S["src" + k]["arr"].buf), "results", name + " source", key + ":user", anchor, f"{name}: the memory of the source is in the pool", p.desc())
