"""C23: state files are validated before they are opened and read before they are closed."""
from ..halo import *
from ..io_models import FileObj, CfTime, Scalar0, DatasetObj
from ..ext import DataArrayObj

FLOOR = 60
DIMS = [("y", "x"), ("z", "y_interface", "x"), ("z",), ("year", "y", "x_interface")]
PATH = "gs://bucket/state.nc"


def run(R):
    R.rule("write", "a state is converted before its file is opened for writing, and the dataset written is that state: every variable's compute domain with its dimension names and units, and its time")
    R.rule("reject-write", "a state without time, or one that cannot be converted, raises before any file is opened")
    R.rule("read", "every stored variable is returned as a quantity with its values, dimension names, units and full extent, the time as the stored date (a variable without units may be an error, never dropped); all values are read before the file is closed")
    R.rule("reject-read", "a time that is not a single decoded date raises ValueError")
    R.rule("close", "the file is closed on every path, also when reading or writing it fails")
    R.rule("place", "the file of the given name is opened through its own file system")
    W = World(R)
    for k, dims in enumerate(DIMS):
        W.run("write", f"{dims}", lambda I, d=dims: write(I, d), lambda p, d=dims: judge_write(R, W.I, p, d))
        W.run("write", f"{dims} fails", lambda I, d=dims: write(I, d, "to_netcdf"), lambda p, d=dims: judge_write(R, W.I, p, d, "to_netcdf"))
        W.run("reject-write", f"{dims} without time", lambda I, d=dims: write(I, d, None, False), lambda p, d=dims: judge_bad_write(R, W.I, p, f"{d} without time", "ValueError"))
        W.run("reject-write", f"{dims} not convertible", lambda I, d=dims: write(I, d, "Dataset"), lambda p, d=dims: judge_bad_write(R, W.I, p, f"{d} not convertible", None))
        for t in ("date", "later", "none"):
            W.run("read", f"{dims} time {t}", lambda I, a=(dims, t): read(I, *a), lambda p, a=(dims, t): judge_read(R, W.I, p, *a))
        for t in ("array", "number", "text"):
            W.run("reject-read", f"{dims} time {t}", lambda I, a=(dims, t): read(I, *a), lambda p, a=(dims, t): judge_bad_read(R, W.I, p, *a))
        W.run("read", f"{dims} with a variable without units", lambda I, a=(dims, "date"): read(I, *a, bare=True), lambda p, a=(dims, "date"): judge_read(R, W.I, p, *a, True))
        W.run("close", f"{dims} unreadable", lambda I, a=(dims, "date"): read(I, *a, True), lambda p, d=dims: judge_close(R, W.I, p, d))
    W.run("write", "time only", lambda I: write(I, None), lambda p: judge_write(R, W.I, p, None))
    W.run("reject-write", "foreign value", foreign, lambda p: judge_bad_write(R, W.I, p, "with a value that is no quantity", None))
    W.run("reject-write", "conflicting extents", conflict, lambda p: judge_bad_write(R, W.I, p, "conflicting extents", None, maybe=True))


def a_date():
    return [CfTime(c, [Poly.atom(Sym(n)) for n in ("year", "month", "day", "hour", "minute", "second")]) for c in ("DatetimeJulian",)][0]


def start(I, fail=None):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    S["fail"] = fail
    S["files"] = []

    def inject(I, what):
        if fail and what.startswith(fail):
            I.S["failed"] = True
            I.raise_(RuntimeError, "injected")
    I.inject = inject if fail else None


def write(I, dims, fail=None, time=True):
    S = I.S
    start(I, fail)
    st = []
    for n, d in (("first", dims), ("second", dims and dims[:1])):
        if d:
            ext = {x: I.sym(f"e_{x}", 1) for x in d}
            o, sh = [], []
            for x in d:
                od, pd = I.sym(f"{n}.o_{x}", 0), I.sym(f"{n}.p_{x}", 0)
                o.append(od), sh.append(od + ext[x] + pd)
            arr = A.external(I, n, tuple(sh))
            u = Term(n + ".units", (), {"nonnull": True, "kind": "str"})
            q = I.call_name("quantity.Quantity", arr, tuple(d), u, origin=tuple(o), extent=tuple(ext[x] for x in d))
            S[n] = {"arr": arr, "dims": tuple(d), "units": u, "reg": [(a, a + ext[x]) for a, x in zip(o, d)], "version": arr.buf.version}
            st.append([n, q])
    S["time"] = I.new(a_date())
    if time:
        st.insert(1, ["time", S["time"]])
    S["seq0"] = I.seq
    I.call_name("io.write_state", I.new(DictV(st)), PATH)


def conflict(I):
    S = I.S
    start(I)
    st = []
    for n in ("first", "second"):
        arr = A.external(I, n, (I.sym(n + ".e", 1),))
        st.append([n, I.call_name("quantity.Quantity", arr, ("x",), "m")])
    I.S["seq0"] = I.seq
    I.S["same"] = I.cmp_num("==", st[0][1].attrs["_data"].shape[0] if "_data" in st[0][1].attrs else I.getattr(st[0][1], "extent")[0], I.getattr(st[1][1], "extent")[0])
    st.append(["time", I.new(a_date())])
    I.call_name("io.write_state", I.new(DictV(st)), PATH)


def foreign(I):
    start(I)
    I.S["seq0"] = I.seq
    q = I.call_name("quantity.Quantity", A.external(I, "first", (I.sym("e", 1),)), ("x",), "m")
    I.call_name("io.write_state", I.new(DictV([["first", q], ["time", I.new(a_date())], ["last", 1.5]])), PATH)


def since(p, kinds):
    return [e for e in walk_events(p.events, kinds) if e.seq > p.S.get("seq0", 0)]


def common(R, I, p, name, key, anchor, mode):
    """file opened, and closed again; returns the open events"""
    opens, closes = since(p, ("open",)), since(p, ("close",))
    for o in opens:
        R.check(o.path == PATH and not getattr(o.file, "local", False), "place", f"{name} path", key + ":path", where(p, o), f"{name}: {vrepr(o.path)} is opened{' as a local file' if getattr(o.file, 'local', False) else ''}, expected {PATH}", p.desc())
        R.check(mode in str(o.mode) and "b" in str(o.mode), "place", f"{name} mode", key + ":mode", where(p, o), f"{name}: the file is opened with mode {o.mode!r}", p.desc())
        R.check(any(c.data.get("file") is o.file for c in closes), "close", name, key + ":close", where(p, o), f"{name}: the file opened is not closed", p.desc())
    return opens


def judge_write(R, I, p, dims, fail=None):
    S = p.S
    key = f"C23:write:{dims}:{fail or ''}"
    anchor = fwhere(I, "io.write_state")
    name = f"write_state of {dims}"
    if fail:
        if not R.check(p.status == "raise", "close", name + " failing", key + ":swallow", anchor, f"{name}: a failed write is not reported", p.desc()):
            return
        common(R, I, p, name + " failing", key, anchor, "w")
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    opens = common(R, I, p, name, key, anchor, "w")
    wr = since(p, ("to_netcdf",))
    if not R.check(len(opens) == 1 and len(wr) == 1 and wr[0].target is opens[0].file, "write", name, key + ":once", anchor, f"{name}: {len(opens)} files opened, {len(wr)} datasets written", p.desc()):
        return
    ds = wr[0].dataset
    closed = [c for c in since(p, ("close",)) if c.data.get("file") is opens[0].file]
    R.check(all(c.seq > wr[0].seq for c in closed), "write", name + " order", key + ":order", where(p, wr[0]), f"{name}: the dataset is written after the file was closed", p.desc())
    want = {"time"} | {n for n in ("first", "second") if n in S}
    R.check(set(ds.vars) == want, "write", name + " names", key + ":names", where(p, wr[0]), f"{name}: the dataset has variables {sorted(ds.vars)}, expected {sorted(want)}", p.desc())
    for n in want - {"time"}:
        da = ds.vars.get(n)
        if not R.check(isinstance(da, DataArrayObj), "write", f"{name} {n}", f"{key}:{n}:type", where(p, wr[0]), f"{name}: {n} is written as {da!r}", p.desc()):
            continue
        info = S[n]
        R.check(tuple(da.dims) == info["dims"], "write", f"{name} {n} dims", f"{key}:{n}:dims", where(p, wr[0]), f"{name}: {n} is written with dimensions {da.dims}, expected {info['dims']}", p.desc())
        R.check(attr_of(I, da, "units") == info["units"], "write", f"{name} {n} units", f"{key}:{n}:units", where(p, wr[0]), f"{name}: {n} is written with units {vrepr(attr_of(I, da, 'units'))}", p.desc())
        R.check(values_are(I, p, da.arr, info["arr"].buf, info["reg"], info["version"]), "write", f"{name} {n} values", f"{key}:{n}:values", where(p, wr[0]), f"{name}: the values written for {n} are {da.arr!r}, expected its compute domain", p.desc())
        R.check(info["arr"].buf.version == info["version"], "write", f"{name} {n} input", f"{key}:{n}:input", anchor, f"{name} modifies {n}", p.desc())
    t = ds.vars.get("time")
    R.check(isinstance(t, Scalar0) and t.value is S["time"], "write", name + " time", key + ":time", where(p, wr[0]), f"{name}: the time written is {t!r}", p.desc())


def attr_of(I, da, n):
    for k, v in da.attrs.entries:
        if k == n:
            return v
    return None


def values_are(I, p, arr, buf, reg, version):
    """the array is the region of the buffer, or holds its content"""
    if view_is(p, arr, buf, reg):
        return buf.version == version
    if not isinstance(arr, A.ArrV) or not shape_eq(p, arr.shape, [mk(to_poly(b) - to_poly(a)) for a, b in reg]):
        return False
    from .c24 import at_version
    v = I.new(A.ArrV(buf, [A.Axis(k, mk(to_poly(a)), 1, mk(to_poly(b) - to_poly(a))) for k, (a, b) in enumerate(reg)]))
    want = at_version(buf, version, lambda: A.content_of(I, v))
    return same_content(p, A.content_of(I, arr), 1, want) is True


def judge_bad_write(R, I, p, name, exc, maybe=False):
    key = "C23:reject:" + name
    anchor = fwhere(I, "io.write_state")
    if maybe and p.S.get("same"):
        return
    if not R.check(p.status == "raise" and (exc is None or exc_is(I, p, exc)), "reject-write", name, key + ":raise", anchor,
                   f"write_state of a state {name} {'raises ' + exc_desc(p) if p.status == 'raise' else 'succeeds'}", p.desc()):
        return
    o = since(p, ("open",))
    R.check(not o, "reject-write", name + " untouched", key, where(p, o[0]) if o else anchor, f"write_state of a state {name} raises {exc_name(p)} after {PATH} was opened for writing", p.desc())


def read(I, dims, time, unreadable=False, bare=False):
    S = I.S
    start(I, "read" if unreadable else None)
    vs = {}
    for n, d in (("first", dims), ("time_scale", dims[:1]), ("third", ())):
        sh = tuple(I.sym(f"{n}.n_{x}", 1) for x in d)
        arr = A.external(I, n, sh)
        u = Term(n + ".units", (), {"nonnull": True, "kind": "str"})
        S[n] = {"arr": arr, "dims": tuple(d), "units": u, "version": arr.buf.version, "reg": [(Poly.const(0), x) for x in sh]}
        vs[n] = I.new(DataArrayObj(arr, d, I.new(DictV([["long_name", n]] + ([] if bare and n == "time_scale" else [["units", u]]))), n))
    S["time"] = None
    t = None
    if time in ("date", "later"):
        S["time"] = I.new(a_date())
        t = I.new(Scalar0(S["time"], I.new(DictV())))
    elif time == "number":
        t = I.new(Scalar0(12.5, I.new(DictV())))
    elif time == "text":
        t = I.new(Scalar0("2016-08-01", I.new(DictV())))
    elif time == "array":
        t = I.new(DataArrayObj(A.external(I, "times", (I.sym("n_time", 1),)), ("time",), I.new(DictV()), "time"))
    if t is not None:
        vs = {"time": t, **vs} if time != "later" else {**vs, "time": t}

    def file(I, path, mode):
        f = I.new(FileObj(path, mode, dataset=(vs, {})))
        I.S["files"].append(f)
        return f
    I.hooks["file"] = file
    S["seq0"] = I.seq
    S["out"] = I.call_name("io.read_state", PATH)


def judge_read(R, I, p, dims, time, bare=False):
    S = p.S
    key = f"C23:read:{dims}:{time}" + (":bare" if bare else "")
    anchor = fwhere(I, "io.read_state")
    name = f"read_state of {dims} with time {time}" + (" and a variable without units" if bare else "")
    late = [e for e in since(p, ("fileread",)) if e.closed]
    if late:
        R.violate(key + ":late", where(p, late[0]), f"{name}: values are read after the file was closed", p.desc())
    if p.status == "raise" and bare:
        common(R, I, p, name, key, anchor, "r")
        return
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    common(R, I, p, name, key, anchor, "r")
    op = since(p, ("open_dataset",))
    R.check(len(op) >= 1 and all(e.kwargs.get("use_cftime") is True or decodes(e.kwargs) for e in op), "read", name + " dates", key + ":cftime", where(p, op[0]) if op else anchor,
            f"{name}: the dates of the file are not decoded to calendar-aware ones", p.desc())
    out = S["out"]
    if not R.check(isinstance(out, DictV) and out.base is None, "read", name, key + ":type", anchor, f"{name} returns {out!r}", p.desc()):
        return
    got = {k: v for k, v in out.entries}
    want = {"first", "time_scale", "third"} | ({"time"} if S["time"] is not None else set())
    R.check(set(got) == want, "read", name + " names", key + ":names", anchor, f"{name} returns {sorted(map(str, got))}, expected {sorted(want)}", p.desc())
    if "time" in want:
        R.check(got.get("time") is S["time"], "read", name + " time", key + ":time", anchor, f"{name} returns time {got.get('time')!r}", p.desc())
    for n in sorted(want - {"time"} - ({"time_scale"} if bare else set())):
        q, info = got.get(n), S[n]
        if not R.check(isinstance(q, InstV) and q.cls.name == "Quantity", "read", f"{name} {n}", f"{key}:{n}:type", anchor, f"{name}: {n} is {q!r}", p.desc()):
            continue
        judge_quantity(R, I, p, q, info, "read", f"{name} {n}", f"{key}:{n}", anchor)
        arr = I.getattr(q, "data")
        src = [e for e in since(p, ("fileread",)) if not e.closed]
        R.check(bool(src), "read", f"{name} {n} loaded", f"{key}:{n}:loaded", anchor, f"{name}: the values of {n} are never read", p.desc())


def judge_quantity(R, I, p, q, info, rule, name, key, anchor):
    """the quantity has the dims, units, values and full extent of a stored variable"""
    g = {n: I.getattr(q, n) for n in ("dims", "units", "origin", "extent", "data")}
    R.check(tuple(seq(g["dims"])) == info["dims"], rule, name + " dims", key + ":dims", anchor, f"{name} has dimensions {g['dims']!r}, expected {info['dims']}", p.desc())
    R.check(vkey(g["units"]) == vkey(info["units"]), rule, name + " units", key + ":units", anchor, f"{name} has units {vrepr(g['units'])}, expected {vrepr(info['units'])}", p.desc())
    ext = [mk(to_poly(b) - to_poly(a)) for a, b in info["reg"]]
    ok = shape_eq(p, seq(g["extent"]), ext) and all(peq(p.facts, o, 0) is True for o in seq(g["origin"]))
    R.check(ok, rule, name + " domain", key + ":domain", anchor, f"{name} has origin {vrepr(g['origin'])} and extent {vrepr(g['extent'])}, expected all of the array", p.desc())
    R.check(values_are(I, p, g["data"], info["arr"].buf, info["reg"], info["version"]), rule, name + " values", key + ":values", anchor, f"{name} holds {g['data']!r}, expected the stored values", p.desc())


def decodes(kwargs):
    d = kwargs.get("decode_times")
    return isinstance(d, (InstV, Obj, Term)) and "cftime" in repr(d).lower()


def seq(v):
    return list(v.items) if isinstance(v, (ListV, SetV)) else list(v)


def judge_bad_read(R, I, p, dims, time):
    key = f"C23:reject-read:{dims}:{time}"
    anchor = fwhere(I, "io.read_state")
    R.check(p.status == "raise" and exc_is(I, p, "ValueError"), "reject-read", f"{dims} {time}", key, anchor,
            f"read_state of a file whose time is {'an array' if time == 'array' else 'a ' + time} {'raises ' + exc_desc(p) if p.status == 'raise' else 'returns ' + vrepr(p.S.get('out'))}, expected ValueError", p.desc())
    common(R, I, p, f"read_state with time {time}", key, anchor, "r")


def judge_close(R, I, p, dims):
    key = f"C23:close:{dims}"
    anchor = fwhere(I, "io.read_state")
    R.check(p.status == "raise", "close", f"{dims} unreadable", key + ":swallow", anchor, "read_state of an unreadable file reports no error", p.desc())
    common(R, I, p, f"read_state of an unreadable file of {dims}", key, anchor, "r")
