"""C13: quantities are fully initialised and keep their metadata."""
from itertools import permutations
from ..halo import *
from ..models import _U

FLOOR = 120
FAMILY = [("y", "x"), ("x_interface", "z", "y"), ("z_soil", "y_interface"), ("x",), ("z", "y", "x_interface", "year"), ()]
ACCESSORS = ("units", "gt4py_backend", "attrs", "dims", "values", "view", "data", "origin", "extent", "metadata", "np", "data_array", "storage")


def run(R):
    R.rule("construct", "a quantity made from an array, number, list or data array has one origin, extent and dimension name per array dimension, with the given values (origin 0 and extent to the end of the array by default)")
    R.rule("reject", "names, origins or extents that do not match the array raise ValueError, entries that are no integers TypeError or ValueError; no half-made object is returned")
    R.rule("accessors", "every public accessor of every constructed quantity works (storage raises TypeError without a backend)")
    R.rule("immutable", "changing what an accessor returned, or the sequences given to the constructor, does not change the quantity; values is read-only and leaves the data writable")
    R.rule("memory", "data, view and storage are the same memory, and data is the given array when no storage is made")
    R.rule("transpose", "transpose permutes data, dims, origin and extent by one permutation, the requested one, and keeps units and backend")
    R.rule("transpose-reject", "targets that name no, several or repeated dimensions, or leave dimensions out, raise and return nothing")
    W = World(R)
    G = World(R, absent=())
    gpu_models(G.I)
    for dims in FAMILY:
        n = len(dims)
        for of in ("none", "tuple", "list"):
            for ef in ("none", "tuple", "list"):
                if n == 0 and "list" in (of, ef):
                    continue
                W.run("construct", f"array {dims} origin {of} extent {ef}", lambda I, a=(dims, of, ef): make_array(I, *a), lambda p, a=(dims, of, ef): judge_make(R, W.I, p, *a))
        for what in ("dims", "origin", "extent"):
            for delta in (-1, 1, 2):
                if n + delta < 0:
                    continue
                W.run("reject", f"{what} {n + delta} for {dims}", lambda I, a=(dims, what, delta): make_bad(I, *a), lambda p, a=(dims, what, delta): judge_bad(R, W.I, p, *a))
        for what in ("origin", "extent"):
            if n:
                W.run("reject", f"{what} text {dims}", lambda I, a=(dims, what, None): make_bad(I, *a), lambda p, a=(dims, what, None): judge_bad(R, W.I, p, *a))
        W.run("construct", f"data array {dims}", lambda I, d=dims: make_da(I, d, True), lambda p, d=dims: judge_da(R, W.I, p, d, True))
        W.run("reject", f"data array {dims} without units", lambda I, d=dims: make_da(I, d, False), lambda p, d=dims: judge_da(R, W.I, p, d, False))
        W.run("immutable", f"{dims}", lambda I, d=dims: mutate(I, d), lambda p, d=dims: judge_mutate(R, W.I, p, d))
        for backend in (None, "numpy", "gtcuda"):
            for perm in permutations(range(n)):
                if backend is not None and (n > 3 or perm == tuple(range(n))):
                    continue
                for form in ("names", "groups", "iterators") if n else ("names",):
                    w = G if backend else W
                    w.run("transpose", f"{dims} to {perm} by {form} backend {backend}", lambda I, a=(dims, perm, form, backend): drive_t(I, *a), lambda p, a=(dims, perm, form, backend), w=w: judge_t(R, w.I, p, *a))
        for bad in ("missing", "group-none", "group-two", "repeat", "short"):
            if n < {"group-two": 2, "short": 1, "repeat": 2}.get(bad, 1):
                continue
            W.run("transpose-reject", f"{dims} {bad}", lambda I, a=(dims, bad): drive_tbad(I, *a), lambda p, a=(dims, bad): judge_tbad(R, W.I, p, *a))
    for kind in ("int", "float", "list", "nested"):
        for of in ("none", "tuple"):
            W.run("construct", f"{kind} origin {of}", lambda I, a=(kind, of): make_plain(I, *a), lambda p, a=(kind, of): judge_plain(R, W.I, p, *a))
    for backend in ("numpy", "gtcuda"):
        for given in ("array", "storage", "data array"):
            G.run("memory", f"{given} backend {backend}", lambda I, a=(given, backend): make_gt(I, *a), lambda p, a=(given, backend): judge_gt(R, G.I, p, *a))
        G.run("reject", f"storage and backend {backend}", lambda I, b=backend: make_gt(I, "both", b), lambda p, b=backend: judge_gt(R, G.I, p, "both", b))


# ------------------------------------------------------------- gt4py storages
class StorageObj(Obj):
    """gt4py storage: own memory; a host array (CPU) or a device view (GPU)"""
    label = "storage"

    def __init__(self, arr, backend, origin):
        self.arr, self.backend, self.origin = arr, backend, origin
        self.gpu = backend == "gtcuda"

    @property
    def typename(self):
        return "gt4py.storage.storage.GPUStorage" if self.gpu else "gt4py.storage.storage.CPUStorage"

    def isinstance_(self, I, t):
        if isinstance(t, ExtV):
            if t.name == "gt4py.storage.storage.Storage":
                return True
            if t.name.startswith("gt4py.storage.storage."):
                return t.name == self.typename
            if t.name.split(".")[0] in ("numpy", "cupy"):
                return t.name == "numpy.ndarray"
        return False

    def getattr(self, I, name):
        if name == "backend":
            return self.backend
        if name == "gpu_view":
            return self.arr if self.gpu else NotImplemented
        if name == "data":
            return NotImplemented if self.gpu else self.arr
        if name in ("shape", "dtype", "ndim"):
            return A.getattr_(I, self.arr, name)
        if name == "default_origin":
            return self.origin
        return NotImplemented

    def setitem(self, I, i, v):
        if isinstance(v, A.ArrV) and v.buf.typename != self.arr.buf.typename:
            v = A.copy_arr(I, v, how="transfer", typename=self.arr.buf.typename)
        A.setitem(I, self.arr, i, v)

    def getitem(self, I, i):
        return A.getitem(I, self.arr, i)

    def as_array(self, I):
        if self.gpu:
            I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed.")
        return self.arr


def gpu_models(I):
    def empty(I, a, k):
        names = ("backend", "default_origin", "shape", "dtype", "mask", "managed_memory")
        k = {**dict(zip(names, a)), **k}
        arr = A.alloc(I, "storage", A.as_shape(I, k["shape"]), A.dtype_of(I, k.get("dtype")), "cupy.ndarray" if k["backend"] == "gtcuda" else A.HOST, how="storage")
        arr.buf.order = None
        return I.new(StorageObj(arr, k["backend"], k.get("default_origin")))

    for n in ("empty", "zeros", "ones"):
        I.ext_models["gt4py.storage.storage." + n] = empty
        I.ext_models["gt4py.storage." + n] = empty


# ---------------------------------------------------------------- construction
def syms(I, S, dims):
    o, e, p = [], [], []
    for d in dims:
        o.append(I.sym(f"o_{d}", 0)), e.append(I.sym(f"e_{d}", 1)), p.append(I.sym(f"p_{d}", 0))
    sh = tuple(a + b + c for a, b, c in zip(o, e, p))
    S["o"], S["e"], S["sh"] = tuple(o), tuple(e), sh
    S["units"] = Term("units", (), {"nonnull": True, "kind": "str"})
    return o, e, sh


def seq(I, form, v):
    return None if form == "none" else tuple(v) if form == "tuple" else I.new(ListV(list(v)))


def use(I, S, q):
    """every accessor once"""
    acc = S["acc"] = {}
    for n in ACCESSORS:
        if n == "storage" and S.get("backend") is None:
            continue
        if n == "values" and acc_gpu(I, q):
            continue        # values is a host array; device arrays refuse the conversion
        acc[n] = I.getattr(q, n)
    acc["view[:]"] = I.B.getitem(I, acc["view"], slice(None, None, None))
    for c in ("northwest", "northeast", "southwest", "southeast", "interior"):
        acc[c] = I.B.getitem(I, I.getattr(acc["view"], c), slice(None, None, None))
    acc["dim_lengths"] = I.getattr(acc["metadata"], "dim_lengths")
    acc["m.np"] = I.getattr(acc["metadata"], "np")
    acc["sel"] = I.meth(q, "sel")
    S["repr"] = I.call(I.builtins["repr"], [q], {})


def acc_gpu(I, q):
    return I.getattr(q, "data").buf.typename != A.HOST


def make_array(I, dims, of, ef):
    S = I.S
    o, e, sh = syms(I, S, dims)
    arr = S["arr"] = A.external(I, "data", sh)
    q = S["q"] = I.call_name("quantity.Quantity", arr, I.new(ListV(list(dims))), S["units"], origin=seq(I, of, o), extent=seq(I, ef, e))
    use(I, S, q)


def expect(p, of, ef):
    S = p.S
    o = S["o"] if of != "none" else (0,) * len(S["o"])
    e = S["e"] if ef != "none" else tuple(a - to_poly(b) for a, b in zip(S["sh"], o))
    return o, e


def same_ints(p, got, want):
    return isinstance(got, tuple) and len(got) == len(want) and all(peq(p.facts, a, mk(b) if isinstance(b, Poly) else b) is True for a, b in zip(got, want))


def judge_common(R, I, p, name, key, dims, o, e, arr):
    S = p.S
    anchor = fwhere(I, "quantity.Quantity.__init__")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name}: {exc_desc(p)}", p.desc())
        return False
    c = S["acc"]
    R.check(c["dims"] == tuple(dims), "construct", name + " dims", key + ":dims", anchor, f"{name}: dims is {vrepr(c['dims'])}", p.desc())
    R.check(same_ints(p, c["origin"], o), "construct", name + " origin", key + ":origin", anchor, f"{name}: origin is {vrepr(c['origin'])}, expected {vrepr(tuple(map(mkp, o)))}", p.desc())
    R.check(same_ints(p, c["extent"], e), "construct", name + " extent", key + ":extent", anchor, f"{name}: extent is {vrepr(c['extent'])}, expected {vrepr(tuple(map(mkp, e)))}", p.desc())
    R.check(vkey(c["units"]) == vkey(S["units"]), "construct", name + " units", key + ":units", anchor, f"{name}: units is {vrepr(c['units'])}", p.desc())
    m = c["metadata"]
    ok = all(vkey(I_get(m, n)) == vkey(c[n]) for n in ("dims", "origin", "extent", "units", "gt4py_backend"))
    R.check(ok, "construct", name + " metadata", key + ":metadata", anchor, f"{name}: metadata differs from the accessors", p.desc())
    R.check(vkey(I_get(m, "dtype")) == vkey(arr.buf.dtype) and I_get(m, "data_type") == ExtV(c["data"].buf.typename), "construct", name + " dtype", key + ":dtype", anchor,
            f"{name}: dtype {vrepr(I_get(m, 'dtype'))}, data_type {vrepr(I_get(m, 'data_type'))}", p.desc())
    R.check(dict_is(p, c["dim_lengths"], dict(zip(dims, e))), "accessors", name + " dim_lengths", key + ":dim_lengths", anchor, f"{name}: dim_lengths is {vrepr(c['dim_lengths'])}", p.desc())
    at = c["attrs"]
    R.check(isinstance(at, DictV) and dict((k, vkey(v)) for k, v in at.entries) == {"units": vkey(S["units"])}, "accessors", name + " attrs", key + ":attrs", anchor, f"{name}: attrs is {vrepr(at)}", p.desc())
    want = [(to_poly(a), to_poly(a) + to_poly(b), 1) for a, b in zip(o, e)]
    from .c12 import matches
    for v in ("view[:]", "northwest", "northeast", "southwest", "southeast", "interior", "sel"):
        mm = matches(p, c[v], c["data"].buf, want)
        R.check(mm is None, "memory", f"{name} {v}", key + ":view", fwhere(I, "quantity.Quantity.view"), f"{name}: {v} {mm}", p.desc())
    vm = matches(p, c["values"], c["data"].buf, want)
    if vm is not None and isinstance(c["values"], A.ArrV) and vkey2(content(I, p, c["values"])) == vkey2(content(I, p, c["view[:]"])):
        vm = None
    R.check(vm is None and not c["values"].writeable, "immutable", name + " values", key + ":values", fwhere(I, "quantity.Quantity.values"), f"{name}: values {vm or 'is writable'}", p.desc())
    R.check(c["data"].writeable and c["view[:]"].writeable, "immutable", name + " data writable", key + ":writable", fwhere(I, "quantity.Quantity.values"), f"{name}: values makes the data read-only", p.desc())
    da = c["data_array"]
    ok = getattr(da, "typename", None) == "xarray.DataArray" and da.dims == tuple(dims) and dict((k, vkey(v)) for k, v in da.attrs.entries) == {"units": vkey(S["units"])}
    R.check(ok and vkey2(content(I, p, da.arr)) == vkey2(content(I, p, c["view[:]"])), "accessors", name + " data_array", key + ":data_array", fwhere(I, "quantity.Quantity.data_array"), f"{name}: data_array is {vrepr(da)}", p.desc())
    R.check(c["np"] == ExtV("numpy") if c["data"].buf.typename == A.HOST else c["np"] == ExtV("cupy"), "accessors", name + " np", key + ":np", fwhere(I, "quantity.Quantity.np"), f"{name}: np is {vrepr(c['np'])}", p.desc())
    return True


def mkp(x):
    return mk(x) if isinstance(x, Poly) else x


def vkey2(c):
    return None if c is None else (c.num.key, c.den.key)


def content(I, p, arr):
    saved = I.facts
    I.facts = p.facts
    try:
        return A.content_of(I, arr)
    finally:
        I.facts = saved


def I_get(inst, name):
    return inst.attrs.get(name) if isinstance(inst, InstV) else None


def dict_is(p, d, want):
    return isinstance(d, DictV) and d.base is None and len(d.entries) == len(want) and all(k in want and peq(p.facts, v, mkp(want[k])) is True for k, v in d.entries)


def judge_make(R, I, p, dims, of, ef):
    name = f"Quantity of {len(dims)}-d array {dims}, origin {of}, extent {ef}"
    key = f"C13:array:{','.join(dims)}:{of}:{ef}"
    o, e = expect(p, of, ef)
    if judge_common(R, I, p, name, key, dims, o, e, p.S["arr"]):
        R.check(p.S["acc"]["data"] is p.S["arr"] or vkey(p.S["acc"]["data"]) == vkey(p.S["arr"]), "memory", name + " data", key + ":data", fwhere(I, "quantity.Quantity.data"), f"{name}: data is {vrepr(p.S['acc']['data'])}", p.desc())


def make_bad(I, dims, what, delta):
    S = I.S
    o, e, sh = syms(I, S, dims)
    arr = A.external(I, "data", sh)
    d = list(dims)
    o, e = list(o), list(e)
    t = {"dims": d, "origin": o, "extent": e}[what]
    if delta is None:
        t[-1] = "one"
    elif delta < 0:
        t.pop()
    else:
        t.extend(["extra%d" % i if what == "dims" else 1 for i in range(delta)])
    S["q"] = I.call_name("quantity.Quantity", arr, tuple(d), S["units"], origin=tuple(o), extent=tuple(e))


def judge_bad(R, I, p, dims, what, delta):
    n = len(dims)
    name = f"{what} with " + (f"{n + delta} entries for {n} dimensions" if delta is not None else "an entry that is no integer")
    ok = p.status == "raise" and exc_is(I, p, *(("ValueError",) if delta is not None else ("ValueError", "TypeError")))
    R.check(ok, "reject", f"{name} {dims}", f"C13:reject:{what}:{delta}:{n}", where(p) if p.status == "raise" else fwhere(I, "quantity.Quantity.__init__"),
            f"{name}: " + (f"raises {exc_desc(p)}" if p.status == "raise" else "accepted"), p.desc())


def make_plain(I, kind, of):
    S = I.S
    S["units"] = Term("units", (), {"nonnull": True, "kind": "str"})
    if kind in ("int", "float"):
        data, sh = (3 if kind == "int" else 2.5), ()
    elif kind == "list":
        data, sh = I.new(ListV([1.0, 2.0, 3.0])), (3,)
    else:
        data, sh = I.new(ListV([I.new(ListV([1.0, 2.0, 3.0])), I.new(ListV([1.0, 2.0, 4.0]))])), (2, 3)
    S["sh"] = sh
    S["o"] = tuple(1 for _ in sh)
    S["e"] = tuple(x - 1 for x in sh)

    def hook(I, v):
        if v is data:
            r = A.alloc(I, "array(data)", sh, Term("dtype", ("given",), {"nonnull": True}), content=None, how="asarray")
            S["arr"] = r
            return r
    I.hooks["asarray"] = hook
    try:
        dims = S["dims"] = ("y", "x")[:len(sh)]
        S["q"] = I.call_name("quantity.Quantity", data, dims, S["units"], origin=None if of == "none" else S["o"])
        use(I, S, S["q"])
    finally:
        I.hooks.pop("asarray")


def judge_plain(R, I, p, kind, of):
    name = f"Quantity of a {kind}, origin {of}"
    key = f"C13:{kind}:{of}"
    S = p.S
    if p.status != "raise" and "arr" not in S:
        R.violate(key + ":array", fwhere(I, "quantity.Quantity.__init__"), f"{name}: no array is made of it", p.desc())
        return
    o = S["o"] if of != "none" else tuple(0 for _ in S["sh"])
    e = tuple(a - b for a, b in zip(S["sh"], o))
    judge_common(R, I, p, name, key, S.get("dims", ()), o, e, S.get("arr"))


def make_da(I, dims, units):
    S = I.S
    o, e, sh = syms(I, S, dims)
    arr = S["arr"] = A.external(I, "data", sh)
    attrs = I.new(DictV([["long_name", "name"]] + ([["units", S["units"]]] if units else [])))
    da = I.call(ExtV("xarray.DataArray"), [arr], {"dims": dims, "attrs": attrs})
    q = S["q"] = I.meth(I.func("quantity.Quantity"), "from_data_array", da, origin=tuple(o), extent=tuple(e))
    use(I, S, q)
    # without arguments
    q2 = I.meth(I.func("quantity.Quantity"), "from_data_array", da)
    S["o2"], S["e2"] = I.getattr(q2, "origin"), I.getattr(q2, "extent")


def judge_da(R, I, p, dims, units):
    name = f"Quantity of data array {dims}"
    key = f"C13:da:{','.join(dims)}"
    if not units:
        R.check(p.status == "raise" and exc_is(I, p, "ValueError"), "reject", name + " without units", key + ":nounits", fwhere(I, "quantity.Quantity.from_data_array"),
                f"{name} without units: " + (exc_desc(p) if p.status == "raise" else "accepted"), p.desc())
        return
    if judge_common(R, I, p, name, key, dims, p.S["o"], p.S["e"], p.S["arr"]):
        R.check(same_ints(p, p.S["o2"], (0,) * len(dims)) and same_ints(p, p.S["e2"], p.S["sh"]), "construct", name + " defaults", key + ":defaults",
                fwhere(I, "quantity.Quantity.from_data_array"), f"{name}: default origin {vrepr(p.S['o2'])}, extent {vrepr(p.S['e2'])}", p.desc())


# ------------------------------------------------------------------ immutability
def snap(I, q):
    r = {}
    for n in ("units", "attrs", "dims", "origin", "extent"):
        v = I.getattr(q, n)
        r[n] = tuple((k, vkey(x)) for k, x in v.entries) if isinstance(v, DictV) else tuple(map(vkey, v.items)) if isinstance(v, ListV) else vkey(v)
    v = I.B.getitem(I, I.getattr(q, "view"), slice(None, None, None))
    r["view"] = vkey(v)
    m = I.getattr(q, "metadata")
    for n in ("dims", "origin", "extent", "units"):
        x = I.getattr(m, n)
        r["m." + n] = tuple(map(vkey, x.items)) if isinstance(x, ListV) else vkey(x)
    return r


def mutate(I, dims):
    S = I.S
    o, e, sh = syms(I, S, dims)
    arr = A.external(I, "data", sh)
    ld, lo, le = (I.new(ListV(list(x))) for x in (dims, o, e))
    q = I.call_name("quantity.Quantity", arr, ld, S["units"], origin=lo, extent=le)
    S["before"] = snap(I, q)
    # what the caller passed in
    for l in (ld, lo, le):
        I.touch(l)
        l.items = ["changed"] * (len(l.items) + 1)
    # what the accessors handed out
    for n in ("attrs", "dims", "origin", "extent"):
        spoil(I, I.getattr(q, n))
    m = I.getattr(q, "metadata")
    for n in ("dims", "origin", "extent", "dim_lengths"):
        spoil(I, I.getattr(m, n))
    da = I.getattr(q, "data_array")
    spoil(I, I.getattr(da, "attrs"))
    v = I.getattr(q, "view")
    for n in ("origin", "extent"):
        spoil(I, I.getattr(v, n))
    S["after"] = snap(I, q)


def spoil(I, v):
    if isinstance(v, ListV):
        v.items = ["changed"] * (len(v.items) + 1)
    elif isinstance(v, DictV):
        v.entries = [[k, "changed"] for k, _ in v.entries] + [["foreign", 1]]
    elif isinstance(v, SetV):
        v.items = []


def judge_mutate(R, I, p, dims):
    key = f"C13:immutable:{','.join(dims)}"
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"using a quantity after changing what its accessors returned: {exc_desc(p)}", p.desc())
        return
    b, a = p.S["before"], p.S["after"]
    for n in b:
        R.check(a[n] == b[n], "immutable", f"{n} {dims}", key + ":" + n, fwhere(I, "quantity.Quantity." + n.split(".")[-1]),
                f"{n} of a quantity changes when the caller changes a sequence or dictionary it gave or was given", p.desc())


# --------------------------------------------------------------------- transpose
GROUPS = {"x": "X_DIMS", "x_interface": "X_DIMS", "y": "Y_DIMS", "y_interface": "Y_DIMS", "z": "Z_DIMS"}


def drive_t(I, dims, perm, form, backend):
    S = I.S
    o, e, sh = syms(I, S, dims)
    arr = S["arr"] = A.external(I, "data", sh)
    q = S["q"] = I.call_name("quantity.Quantity", arr, dims, S["units"], origin=tuple(o), extent=tuple(e), **({"gt4py_backend": backend} if backend else {}))
    target = []
    for k in perm:
        d = dims[k]
        if form == "names":
            target.append(d)
        elif form == "groups":
            target.append(const(I, GROUPS[d]) if d in GROUPS else I.new(ListV(["other", d])))
        else:
            target.append(I.new(IterV(["other", d, "another"])))
    S["data"] = I.getattr(q, "data")
    S["ref"] = A.content_of(I, A.transpose(I, S["data"], perm))
    S["backend"] = backend
    r = S["r"] = I.meth(q, "transpose", I.new(ListV(target)) if form != "groups" else tuple(target))
    use(I, S, r)
    S["src"] = {n: I.getattr(q, n) for n in ("dims", "origin", "extent", "units")}


def judge_t(R, I, p, dims, perm, form, backend):
    name = f"transpose of {dims} to {tuple(dims[k] for k in perm)} by {form}" + (f", backend {backend}" if backend else "")
    key = f"C13:transpose:{','.join(dims)}:{perm}:{form}:{backend}"
    anchor = fwhere(I, "quantity.Quantity.transpose")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name}: {exc_desc(p)}", p.desc())
        return
    S, c = p.S, p.S["acc"]
    R.check(tuple(c["dims"]) == tuple(dims[k] for k in perm), "transpose", name + " dims", key + ":dims", anchor, f"{name}: dims are {vrepr(c['dims'])}", p.desc())
    for n, w in (("origin", S["o"]), ("extent", S["e"])):
        R.check(same_ints(p, c[n], [w[k] for k in perm]), "transpose", f"{name} {n}", f"{key}:{n}", anchor, f"{name}: {n} is {vrepr(c[n])}, expected {vrepr(tuple(w[k] for k in perm))}", p.desc())
    R.check(vkey(c["units"]) == vkey(S["units"]), "transpose", name + " units", key + ":units", anchor, f"{name}: units become {vrepr(c['units'])}", p.desc())
    R.check(c["gt4py_backend"] == backend, "transpose", name + " backend", key + ":backend", anchor, f"{name}: backend becomes {vrepr(c['gt4py_backend'])}", p.desc())
    d = c["data"]
    shape_ok = isinstance(d, A.ArrV) and same_ints(p, d.shape, [S["sh"][k] for k in perm])
    R.check(shape_ok and vkey2(content(I, p, d)) == vkey2(S["ref"]) and S["ref"] is not None, "transpose", name + " data", key + ":data", anchor, f"{name}: data is {vrepr(d)}", p.desc())
    if backend:
        R.check(c["storage"].arr.buf is d.buf and c["view[:]"].buf is d.buf, "memory", name, key + ":memory", anchor, f"{name}: data, view and storage of the result are different memory", p.desc())
    R.check(S["src"]["dims"] == dims and same_ints(p, S["src"]["origin"], S["o"]) and same_ints(p, S["src"]["extent"], S["e"]), "transpose", name + " source", key + ":source", anchor, f"{name} changes the metadata of its source", p.desc())


def drive_tbad(I, dims, bad):
    S = I.S
    o, e, sh = syms(I, S, dims)
    q = I.call_name("quantity.Quantity", A.external(I, "data", sh), dims, S["units"], origin=tuple(o), extent=tuple(e))
    t = list(dims)
    if bad == "missing":
        t[-1] = "unknown"
    elif bad == "group-none":
        t[0] = ("unknown", "other")
    elif bad == "group-two":
        t[0] = (dims[0], dims[1])
    elif bad == "repeat":
        t[0] = t[1]
    else:
        t.pop()
    S["r"] = I.meth(q, "transpose", I.new(ListV(t)))


def judge_tbad(R, I, p, dims, bad):
    R.check(p.status == "raise" and exc_is(I, p, "ValueError"), "transpose-reject", f"{dims} {bad}", f"C13:transpose:{bad}:{len(dims)}",
            where(p) if p.status == "raise" else fwhere(I, "quantity.Quantity.transpose"),
            f"transpose of {dims} with {bad} target: " + (exc_desc(p) if p.status == "raise" else f"gives {vrepr(p.S.get('r'))}"), p.desc())


# ----------------------------------------------------------------------- storages
def make_gt(I, given, backend):
    S = I.S
    dims = S["dims"] = ("y", "x", "z")
    o, e, sh = syms(I, S, dims)
    S["backend"] = backend
    arr = A.external(I, "data", sh, typename="cupy.ndarray" if backend == "gtcuda" and given in ("storage", "both") else A.HOST)
    S["arr"] = arr
    kw = {"origin": tuple(o), "extent": tuple(e)}
    if given == "data array":
        da = I.call(ExtV("xarray.DataArray"), [arr], {"dims": dims, "attrs": I.new(DictV([["units", S["units"]]]))})
        q = I.meth(I.func("quantity.Quantity"), "from_data_array", da, gt4py_backend=backend, **kw)
    elif given == "array":
        q = I.call_name("quantity.Quantity", arr, dims, S["units"], gt4py_backend=backend, **kw)
    else:
        st = S["st"] = I.new(StorageObj(arr, backend, tuple(o)))
        q = I.call_name("quantity.Quantity", st, dims, S["units"], **kw, **({"gt4py_backend": backend} if given == "both" else {}))
    S["q"] = q
    S["backend_"] = I.getattr(q, "gt4py_backend")
    S["storage"] = I.getattr(q, "storage")
    S["data"] = I.getattr(q, "data")
    S["view"] = I.B.getitem(I, I.getattr(q, "view"), slice(None, None, None))
    m = S["m"] = I.getattr(q, "metadata")
    S["m.np"], S["np"] = I.getattr(m, "np"), I.getattr(q, "np")
    S["dims_"], S["o_"], S["e_"] = I.getattr(q, "dims"), I.getattr(q, "origin"), I.getattr(q, "extent")
    S["c"] = A.content_of(I, S["data"])
    S["want"] = A.content_of(I, arr)


def judge_gt(R, I, p, given, backend):
    name = f"Quantity of {given}, backend {backend}"
    key = f"C13:gt4py:{given}:{backend}"
    anchor = fwhere(I, "quantity.Quantity.__init__")
    if given == "both":
        R.check(p.status == "raise" and exc_is(I, p, "TypeError"), "reject", name, key, anchor, f"{name}: " + (exc_desc(p) if p.status == "raise" else "accepted"), p.desc())
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name}: {exc_desc(p)}", p.desc())
        return
    S = p.S
    st = S["storage"]
    ok = isinstance(st, StorageObj) and st.arr.buf is S["data"].buf and S["view"].buf is S["data"].buf
    R.check(ok, "memory", name, key + ":memory", anchor, f"{name}: data {S['data']!r}, view {S['view']!r} and storage {vrepr(st)} are not the same memory", p.desc())
    R.check(S["backend_"] == backend and getattr(st, "backend", None) == backend, "memory", name + " backend", key + ":backend", anchor, f"{name}: backend is {vrepr(S['backend_'])}", p.desc())
    R.check(vkey2(S["c"]) == vkey2(S["want"]) and S["c"] is not None, "memory", name + " values", key + ":values", anchor, f"{name}: the values given are not in the quantity", p.desc())
    R.check(S["dims_"] == S["dims"] and same_ints(p, S["o_"], S["o"]) and same_ints(p, S["e_"], S["e"]), "construct", name, key + ":meta", anchor, f"{name}: metadata {vrepr(S['dims_'])} {vrepr(S['o_'])} {vrepr(S['e_'])}", p.desc())
    lib = "numpy" if S["data"].buf.typename == A.HOST else "cupy"
    R.check(I_get(S["m"], "data_type") == ExtV(S["data"].buf.typename) and vkey(I_get(S["m"], "dtype")) == vkey(S["arr"].buf.dtype), "construct", name + " type", key + ":type", anchor,
            f"{name}: data_type {vrepr(I_get(S['m'], 'data_type'))}, dtype {vrepr(I_get(S['m'], 'dtype'))} of data of type {S['data'].buf.typename}", p.desc())
    R.check(S["np"] == ExtV(lib) and S["m.np"] == ExtV(lib), "accessors", name + " np", key + ":np", fwhere(I, "quantity.Quantity.np"), f"{name}: np is {vrepr(S['np'])}, the metadata's {vrepr(S['m.np'])}, expected {lib}", p.desc())
    if given == "storage":
        R.check(st is S["st"], "memory", name + " storage", key + ":storage", anchor, f"{name}: storage is not the given one", p.desc())
