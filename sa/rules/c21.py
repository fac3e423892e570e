"""C21: a restart returns exactly the requested variables, loaded, under their standard names."""
from ..sg import *
from ..io_models import FileObj, Line, CfTime
from ..ext import DataArrayObj
from .c23 import judge_quantity, since, seq

FLOOR = 600
MANDATORY = ("fv_core.res", "fv_srf_wnd.res", "fv_tracer.res")
OPTIONAL = ("sfc_data", "phy_data")
DIR = "gs://bucket/restart"
REQUESTS = {"all": None, "list": "list", "tuple": "tuple", "set": "set", "iterator": "iter", "none": "list", "with time": "list", "time only": "tuple"}


def run(R):
    R.rule("files", "the tile root reads the files of its own tile with the given label, each once: every mandatory one, every optional one that exists; a missing mandatory file is an error; the other ranks read nothing")
    R.rule("content", "each variable of the files with metadata is returned under its standard name, with the registered dimension names and units and the values of the only time of the file; if names were requested, exactly those of them")
    R.rule("time", "the date of the coupler file is returned if the file exists and the date was requested (or everything was)")
    R.rule("loaded", "values are read before their file is closed, and every file is closed")
    R.rule("metadata", "tracer properties given by the caller add to the registry, and change neither the registry nor themselves")
    R.rule("handover", "the state is scattered on the tile, into the caller's state if one is given, and the result returned")
    R.rule("registry", "no restart name of the registry stands for two standard names")
    R.assume("the variables of a file have the dimensions (Time, ...) with one time, at least as many further ones as are registered")
    W = World(R)
    t = 0
    for label in ("", "20160801.001500", None):
        for opt in ((), OPTIONAL, OPTIONAL[:1], OPTIONAL[1:]):
            for coupler in (True, False):
                a = (t % 6, label, opt, coupler, "all", t % 2 == 1, t % 3 == 2)
                W.run("files", f"label {label!r} with {opt} coupler {coupler}", lambda I, a=a: load(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
                t += 1
    for label in LABELS:
        a = (t % 6, label, OPTIONAL[t % 3:], True, "all", False, False)
        W.run("files", f"label {label!r}", lambda I, a=a: load(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
        t += 1
    for req in REQUESTS:
        for tracers in (False, True):
            for to_state in (False, True):
                a = (t % 6, "", OPTIONAL, True, req, tracers, to_state)
                W.run("content", f"{req} requested, tracers {tracers} to_state {to_state}", lambda I, a=a: load(I, *a), lambda p, a=a: judge(R, W.I, p, *a))
                t += 1
    for miss in MANDATORY:
        for a in ((2, "", (), True, "all", False, False), (0, "20160801.001500", OPTIONAL, False, "all", True, True), (5, None, OPTIONAL[:1], True, "list", False, True)):
            W.run("files", f"{miss} missing, tile {a[0]} label {a[1]!r}", lambda I, a=a, m=miss: load(I, *a, missing=m), lambda p, a=a, m=miss: judge_missing(R, W.I, p, m, f"{m} missing, tile {a[0]} label {a[1]!r} optional {a[2]} coupler {a[3]} request {a[4]}", f"C21:missing:{m}:{a[1]}"))
    for req in ("all", "list"):
        a = (4, "", OPTIONAL, True, req, False, False)
        W.run("metadata", f"after a load with tracers, {req}", lambda I, a=a: load(I, *a, before=True), lambda p, a=a: judge(R, W.I, p, *a))
    W.run("registry", "names", registry, lambda p: judge_registry(R, W.I, p))


# labels that coincide with parts of the names they are prepended to
LABELS = ("coupler", "coupler.res", "fv_core", "fv_core.res", "f", "sfc_data", "phy", "fv_tracer.res.tile1", "res", "tile1", "nc", ".", "0", "None", "a b", "20160801.001500.", "x" * 80)

TRACERS = {"new_tracer_mixing_ratio": (("z", "y", "x"), "trc", "kg/kg"), "second_tracer": (("y", "x_interface"), "trc2", "1"),
           # the registry's own entry has precedence
           "air_temperature": (("z", "y", "x_interface"), "T", "furlong")}


def registry_of(I):
    d = const_of(I, "_properties.RESTART_PROPERTIES")
    out = {}
    for k, v in d.entries:
        e = {a: b for a, b in v.entries}
        out[k] = (tuple(seq(e["dims"])), e["restart_name"], e["units"])
    return out


def const_of(I, dotted):
    v = I.func(dotted)
    if v is None:
        raise AnchorMissing(dotted)
    return v


def load(I, t, label, opt, coupler, req, tracers, to_state, missing=None, before=False):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    world(I, S, True)
    reg = registry_of(I)
    count = {}
    for std, (dims, rn, u) in reg.items():
        count.setdefault(rn, []).append(std)
    unique = {rn: stds[0] for rn, stds in count.items() if len(stds) == 1}
    names = sorted(unique)
    pre = f"{label}." if label else ""
    S["paths"] = [f"{DIR}/{pre}{n}.tile{t + 1}.nc" for n in MANDATORY + tuple(opt)]
    S["coupler"] = f"{DIR}/{pre}coupler.res"
    props = dict(reg)
    if tracers or before:
        props_b = {**{k: v for k, v in TRACERS.items()}, **reg}
    if tracers:
        props = {**TRACERS, **reg}
    # spread the variables over the files
    S["files"] = {}
    byrn = {rn: unique[rn] for rn in names}
    extra = [(v[1], k) for k, v in TRACERS.items() if k not in reg]
    S["vars"] = {}
    for n, p_ in enumerate(S["paths"]):
        vs = {}
        mine = [(rn, byrn[rn]) for rn in names[n::len(S["paths"])]]
        for rn, std in mine + (extra if n == 2 else []):
            known = std in props
            nd = len(reg[std][0]) if std in reg else len(TRACERS[std][0])
            # units of the file's own, and leading dimensions the registry does not know, are usual
            vs[rn] = var(I, S, rn, nd + (len(vs) % 5 == 1), "none" if known and len(vs) % 3 == 0 else None)
            if known:
                dims, _, u = props[std]
                S["vars"][std] = (rn, dims, u)
        # a variable of another origin with metadata, and one without
        o = f"other_{n}"
        vs[o] = var(I, S, o, 2, "m")
        S["vars"][o] = (o, S[o]["dims"], "m")
        vs[f"bare_{n}"] = var(I, S, f"bare_{n}", 2)
        S["files"][p_] = vs
    if missing:
        m = f"{DIR}/{pre}{missing}.tile{t + 1}.nc"
        S["files"].pop(m)
    present = set(S["files"]) | ({S["coupler"]} if coupler else set())
    # files of other tiles, labels and kinds lie beside them
    decoys = {f"{DIR}/{x}{n}.tile{k}.nc" for x in {"", pre, "20160801.001500.", "None."} for n in MANDATORY + OPTIONAL for k in range(0, 8)} - {f"{DIR}/{pre}{n}.tile{t + 1}.nc" for n in MANDATORY + OPTIONAL}
    decoys |= {f"{DIR}/{x}coupler.res" for x in {"", pre, "20160801.001500.", "None."}} - {S["coupler"]}
    tok = lambda k, i: Term("token", (k, i), {"nonnull": True, "kind": "str"})
    S["date"] = [Poly.atom(Term("int", (tok(3, i),), {"kind": "int"})) for i in range(6)]

    def file(I, path, mode):
        if path == S["coupler"] and coupler:
            return I.new(FileObj(path, mode, lines=[I.new(Line(["2"], 1)), I.new(Line([tok(2, i) for i in range(6)], 2)), I.new(Line([tok(3, i) for i in range(6)], 3))]))
        if path in S["files"]:
            tm = I.new(DataArrayObj(A.external(I, "Time", (1,)), ("Time",), I.new(DictV()), "Time"))
            vs = {n: d.derive(I) for n, d in S["files"][path].items()}
            return I.new(FileObj(path, mode, dataset=(vs, {"Time": tm})))
        if path in decoys:
            return I.new(FileObj(path, mode, dataset=({}, {})))
        I.raise_(FileNotFoundError, path)
    I.hooks["file"] = file
    I.hooks["exists"] = lambda I, path, how: how != "local" and (path in present or path in decoys)      # remote files
    stds = sorted(S["vars"])
    ask = {"all": None, "none": [], "with time": ["time"] + stds[::3], "time only": ["time"]}.get(req, stds[1::2] + ["not_in_the_files"])
    S["ask"] = None if ask is None else set(ask)
    kw = {}
    if ask is not None:
        kw["only_names"] = {"tuple": lambda: tuple(ask), "set": lambda: I.new(SetV(ask)), "iter": lambda: I.new(IterV(ask)), "list": lambda: I.new(ListV(ask))}[REQUESTS[req]]()
    mk_tr = lambda: I.new(DictV([[k, I.new(DictV([["dims", I.new(ListV(list(d)))], ["restart_name", rn], ["units", u]]))] for k, (d, rn, u) in TRACERS.items()]))
    rank = Poly.const(t) * S["ny"] * S["nx"] + S["tile_rank"]
    comm, cc = communicator(I, S, rank)
    tile = I.getattr(cc, "tile")
    S["root"] = I.cmp_num("==", I.getattr(tile, "rank"), 0)
    S["handed"] = []
    S["result"] = I.new(DictV([["result", 1]]))

    def scatter_state(I, a, k):
        args = {**dict(zip(("send_state", "recv_state"), a)), **k}
        S["handed"].append(args)
        if args.get("send_state") is None and S["root"]:
            I.raise_(ValueError, "no state to scatter")
        return S["result"]
    tile.attrs["scatter_state"] = PyFn("scatter_state", scatter_state)
    S["tile_again"] = I.getattr(cc, "tile") is tile
    if before:
        I.call_name("_legacy_restart.open_restart", DIR, cc, "" if label is None else label, tracer_properties=mk_tr())
        S["handed"].clear()
    if tracers:
        kw["tracer_properties"] = S["tracers"] = mk_tr()
    S["to_state"] = I.new(DictV()) if to_state else None
    if to_state:
        kw["to_state"] = S["to_state"]
    S["seq0"] = I.seq
    S["reg0"] = frozen(const_of(I, "_properties.RESTART_PROPERTIES"))
    S["tr0"] = frozen(S["tracers"]) if tracers else None
    try:
        S["out"] = I.call_name("_legacy_restart.open_restart", DIR, cc, label, **kw)
    finally:
        S["reg1"] = frozen(const_of(I, "_properties.RESTART_PROPERTIES"))
        S["tr1"] = frozen(S["tracers"]) if tracers else None


def frozen(v):
    if isinstance(v, DictV):
        return tuple(sorted((str(k), frozen(x)) for k, x in v.entries))
    if isinstance(v, (ListV, SetV)):
        return tuple(frozen(x) for x in v.items)
    return vkey(v)


def var(I, S, name, nd, units=None):
    dims = tuple(f"axis{k}_{name}" for k in range(nd))
    n = tuple(I.sym(f"n{k}_{name}", 1) for k in range(nd))
    arr = A.external(I, name, (1,) + n)
    S[name] = {"arr": arr, "dims": dims, "n": n, "version": arr.buf.version}
    return I.new(DataArrayObj(arr, ("Time",) + dims, I.new(DictV([["units", units]] if units else [["long_name", name]])), name))


class Slice0:
    """the only time of a stored variable, as a region"""


def judge(R, I, p, t, label, opt, coupler, req, tracers, to_state):
    S = p.S
    name = f"open_restart on tile {t} label {label!r} optional {opt} coupler {coupler} request {req} tracers {tracers} to_state {to_state}"
    key = f"C21:{label}:{','.join(opt)}:{coupler}:{req}:{tracers}:{to_state}"
    anchor = fwhere(I, "_legacy_restart.open_restart")
    root = S.get("root")
    who = "root" if root else "other rank"
    key += ":" + who
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} ({who}) raises {exc_desc(p)}", p.desc())
        return
    late = [e for e in since(p, ("fileread",)) if e.closed]
    R.check(not late, "loaded", f"{name} {who} late", key + ":late", where(p, late[0]) if late else anchor, f"{name}: values are read after their file was closed", p.desc())
    opens, closes = since(p, ("open",)), since(p, ("close",))
    for o in opens:
        R.check(any(c.data.get("file") is o.file for c in closes), "loaded", f"{name} closed", key + ":close", where(p, o), f"{name}: {o.path} is not closed", p.desc())
        R.check(not getattr(o.file, "local", False), "files", f"{name} remote", key + ":local", where(p, o), f"{name}: {o.path} is opened as a local file", p.desc())
    ask = S["ask"]
    want_time = coupler and (ask is None or "time" in ask)
    want = (sorted(S["paths"]) if root else [])
    got = sorted(o.path for o in opens if o.path != S["coupler"])
    R.check(got == want, "files", f"{name} {who}", key + ":files", where(p, opens[0]) if opens else anchor, f"{name}: the {who} reads {diff(got, want)}", p.desc())
    if not root:
        R.check(not opens, "files", f"{name} {who} none", key + ":none", where(p, opens[0]) if opens else anchor, f"{name}: a rank that is not the tile root opens {opens[0].path if opens else ''}", p.desc())
    R.check(S["reg0"] == S["reg1"], "metadata", f"{name} {who} registry", key + ":registry", anchor, f"{name}: the registry is changed", p.desc())
    R.check(S["tr0"] == S["tr1"], "metadata", f"{name} {who} tracers", key + ":tracers", anchor, f"{name}: the caller's tracer properties are changed", p.desc())
    h = S["handed"]
    if not S["tile_again"] or len(h) != 1:
        # the state reached the caller by another way
        R.undecided("handover", f"{name} {who}", f"{len(h)} states handed to the tile communicator")
        return
    h = h[0]
    R.check((h.get("recv_state") is S["to_state"]) and S["out"] is S["result"], "handover", f"{name} {who}", key + ":handover", anchor,
            f"{name}: the state is scattered into {h.get('recv_state')!r} and {S['out']!r} returned", p.desc())
    if not root:
        return
    st = h.get("send_state")
    if not isinstance(st, DictV) or st.base is not None:
        R.undecided("content", name, f"state {st!r}")
        return
    out = {k: v for k, v in st.entries}
    names = {n for n in S["vars"] if ask is None or n in ask} | ({"time"} if want_time else set())
    R.check(set(out) == names, "content", f"{name} names", key + ":names", anchor, f"{name}: the variables loaded are {diff(sorted(map(str, out)), sorted(names))}", p.desc())
    if "time" in out:
        tm = out["time"]
        ok = isinstance(tm, CfTime) and tm.cls == "DatetimeJulian" and len(tm.fields) == 6 and all(peq(p.facts, a, b) is True for a, b in zip(tm.fields, S["date"]))
        R.check(ok and want_time, "time", name, key + ":time", anchor, f"{name}: the time loaded is {tm!r}", p.desc())
    else:
        R.check(not want_time, "time", name, key + ":time", anchor, f"{name}: the date of the coupler file is not loaded", p.desc())
    bad = 0
    for n in sorted(names - {"time"}):
        q = out.get(n)
        rn, dims, u = S["vars"][n]
        kk = f"{key}:{n}"
        if not R.check(isinstance(q, InstV) and q.cls.name == "Quantity", "content", f"{name} {n}", kk + ":type", anchor, f"{name}: {n} is {q!r}", p.desc()):
            continue
        info = S[rn]
        nd = len(info["dims"])
        full = tuple(info["dims"][:nd - len(dims)]) + tuple(dims)
        arr = info["arr"]
        v = I.new(A.ArrV(arr.buf, [A.Axis(k + 1, 0, 1, x) for k, x in enumerate(info["n"])], {0: 0}))
        g = {x: I.getattr(q, x) for x in ("dims", "units", "origin", "extent", "data")}
        R.check(tuple(seq(g["dims"])) == full, "content", f"{name} {n} dims", kk + ":dims", anchor, f"{name}: {n} has dimensions {g['dims']!r}, expected {full}", p.desc())
        R.check(g["units"] == u, "content", f"{name} {n} units", kk + ":units", anchor, f"{name}: {n} has units {vrepr(g['units'])}, expected {u!r}", p.desc())
        ok = shape_eq(p, seq(g["extent"]), info["n"]) and all(peq(p.facts, x, 0) is True for x in seq(g["origin"]))
        R.check(ok, "content", f"{name} {n} domain", kk + ":domain", anchor, f"{name}: {n} has origin {vrepr(g['origin'])} and extent {vrepr(g['extent'])}", p.desc())
        d = g["data"]
        same = isinstance(d, A.ArrV) and shape_eq(p, d.shape, info["n"]) and same_content(p, A.content_of(I, d), 1, A.content_of(I, v)) is True and arr.buf.version == info["version"]
        R.check(same, "content", f"{name} {n} values", kk + ":values", anchor, f"{name}: {n} holds {d!r}, expected the values of {rn} in its file", p.desc())
    files = {e.file.path for e in since(p, ("fileread",)) if not e.closed and e.what in ("load", "values", "data", "item")}
    need = {pa for pa, vs in S["files"].items() if any(rn in vs for n, (rn, d, u) in S["vars"].items() if n in names)}
    R.check(need <= files, "loaded", f"{name} values", key + ":loaded", anchor, f"{name}: values of {sorted(need - files)} are never read while the file is open", p.desc())


def diff(got, want):
    a, b = [x for x in got if x not in want or got.count(x) > want.count(x)], [x for x in want if x not in got]
    return "; ".join(([f"also {', '.join(dict.fromkeys(a))}"] if a else []) + ([f"not {', '.join(b)}"] if b else [])) or "as expected"


def judge_missing(R, I, p, m, n, key):
    anchor = fwhere(I, "_legacy_restart.restart_filenames")
    if not p.S.get("root"):
        return
    R.check(p.status == "raise", "files", n, key, anchor, f"a restart without the mandatory file {m} is loaded without error", p.desc())
    opens, closes = since(p, ("open",)), since(p, ("close",))
    for o in opens:
        R.check(any(c.data.get("file") is o.file for c in closes), "loaded", n + " closed", key + ":close", where(p, o), f"{o.path} is not closed when {m} is missing", p.desc())


def registry(I):
    I.hooks.clear()
    I.S["reg"] = registry_of(I)


def judge_registry(R, I, p):
    by = {}
    for std, (dims, rn, u) in p.S["reg"].items():
        by.setdefault(rn, []).append(std)
    for rn, stds in sorted(by.items()):
        if len(stds) == 1:
            R.ok("registry", rn)
            continue
        for s in sorted(stds):
            R.violate(f"C21:registry:{rn}:{s}", "fv3gfs/util/_properties.py RESTART_PROPERTIES", f"restart name {rn!r} stands for {s} and for {', '.join(sorted(x for x in stds if x != s))}: only one of them is ever loaded")
    for std, (dims, rn, u) in p.S["reg"].items():
        ok = len(set(dims)) == len(dims) and all(isinstance(d, str) for d in dims) and isinstance(u, str) and isinstance(rn, str)
        R.check(ok, "registry", f"{std} entry", f"C21:entry:{std}", "fv3gfs/util/_properties.py RESTART_PROPERTIES", f"entry of {std}: dims {dims}, units {u!r}, restart name {rn!r}")
