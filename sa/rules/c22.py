"""C22: the package imports and works without optional packages.

Features are the drivers of the other rules, run with every optional package
absent: no call may end in an error that it does not end in when the packages
are there."""
import ast
import importlib
import itertools
import sys
from ..sg import *
from ..archive import date

FLOOR = 300
REQUIRED = ("numpy", "cftime", "fsspec", "typing_extensions", "dataclasses")
BORROW = ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c12", "c13", "c14", "c15", "c16", "c17",
          "c19", "c20", "c21", "c23", "c24", "c25", "c26", "c28", "c29")
NEEDS_IO = ("archive", "restart", "data array", "dataset", "state file")


def run(R):
    R.rule("import", "with any subset of the optional packages absent, the package and each of its modules import without an error; every public name is there")
    R.rule("feature", "with the optional packages absent, operations that need none of them raise no import error and no error they do not raise when the packages are there")
    R.rule("needs", "operations on data arrays, datasets, state files, restart files and archives raise the original import error of the package they need")
    R.assume("required packages are " + ", ".join(REQUIRED) + "; every other package outside the standard library is optional")
    opt = optional(R)
    for k in range(len(opt) + 1):
        for absent in itertools.combinations(opt, k):
            R.jobs.append((Subset(R, absent), "import", " ".join(absent) or "nothing", None, None, None, False))
    R.flush()
    if R.viol:
        return
    borrow(R, opt)
    X = World(R, absent=tuple(opt))
    for what in ("data_array", "to_dataset", "write_state", "read_state", "open_restart", "zarr"):
        X.run("needs", what, lambda I, w=what: needs(I, w), lambda p, w=what: judge_needs(R, p, w))


def optional(R):
    """top-level external packages imported anywhere in the package"""
    I = Interp()
    out = set()
    for n in I.all_module_names():
        path, _ = I.mod_path(n)
        for node in ast.walk(I.parse(path)):
            if isinstance(node, ast.Import):
                out |= {a.name.split(".")[0] for a in node.names}
            elif isinstance(node, ast.ImportFrom) and not node.level:
                out.add(node.module.split(".")[0])
    out -= set(REQUIRED) | set(sys.stdlib_module_names) | {"fv3gfs", "__future__"}
    out |= {"xarray", "zarr", "cupy", "gt4py"}
    if len(out) > 8:
        R.undecided("import", "subsets", f"{len(out)} optional packages")
        out = set(sorted(out)[:8])
    return sorted(out)


class Subset:
    """one set of absent packages; stands in for a world in the job queue"""

    def __init__(self, R, absent):
        self.R, self.absent = R, absent

    def run_now(self, rule, label, driver, on_path, max_paths, allow_empty):
        R, absent = self.R, self.absent
        names = Interp().all_module_names()
        for first in names if R.tier == "thorough" or not absent else ("fv3gfs.util",):
            I = Interp(absent=absent)
            I.annotations = True
            self.load(I, first, absent)
            if first != "fv3gfs.util":
                continue
            for n in names:
                self.load(I, n, absent)
            m = I.modules.get("fv3gfs.util")
            if m is None or m.state == "failed":
                continue
            for n in public_names(I, "fv3gfs.util"):
                R.check(n in m.ns, "import", f"{n} without {label}", f"C22:name:{n}", "fv3gfs/util/__init__.py", f"fv3gfs.util has no {n} when {', '.join(absent)} are absent")
            R.paths += 1

    def load(self, I, n, absent):
        R = self.R
        try:
            I.load_module(n)
        except AbsRaise as e:
            at = f"{e.site[0]}:{e.site[1]}" if e.site else n
            R.violate(f"C22:import:{n}:{at}", at, f"importing {n} raises {describe(e)} when {', '.join(absent) or 'nothing'} is absent", "import")
        except Unsupported as e:
            R.undecided("import", f"{n} without {absent}", e)
        else:
            R.check(True, "import", f"{n} without {' '.join(absent)}", "", "", "")


def public_names(I, name):
    path, _ = I.mod_path(name)
    out = []
    for node in I.parse(path).body:
        if isinstance(node, ast.ImportFrom):
            out += [a.asname or a.name for a in node.names if a.name != "*"]
    return out


def describe(e):
    return f"{exc_name(e)}({', '.join(vrepr(x) for x in e.exc.attrs.get('args', ()))[:80]})"


# --- features -------------------------------------------------------------------

class Proxy:
    """collects the jobs of another rule"""

    def __init__(self, R):
        self.tier, self.seed, self.jobs, self.prop = R.tier, R.seed, [], R.prop
        self.functions, self.paths, self.notes = set(), 0, []

    def __getattr__(self, n):
        return lambda *a, **k: None


def borrow(R, opt):
    shared = {}
    for name in BORROW:
        try:
            mod = importlib.import_module("sa.rules." + name)
        except ModuleNotFoundError:
            continue
        Q = Proxy(R)
        real = mod.World

        def fake(Q_, absent=None, **kw):
            gone = tuple(opt) if absent is None else tuple(sorted(set(absent) | {"xarray", "zarr"}))
            if name in ("c21", "c23"):
                gone = tuple(o for o in gone if o != "xarray")
            if (gone, absent) not in shared:
                w = World(R, absent=gone, **kw)
                w.base = ("cupy", "gt4py") if absent is None else absent
                w.there = None
                shared[gone, absent] = w
            w = shared[gone, absent]
            v = World.__new__(World)
            v.R, v.I, v.base, v.owner = Q_, w.I, w.base, w
            return v
        mod.World = fake
        if name == "c13":
            mod.ACCESSORS = tuple(a for a in mod.ACCESSORS if a != "data_array")
        try:
            mod.run(Q)
        finally:
            mod.World = real
        groups = {}
        for W, rule, label, driver, _, mp, empty in Q.jobs:
            if (name, rule) == ("c13", "immutable") or name not in ("c21", "c23") and any(w in label or w in rule for w in NEEDS_IO):
                continue
            groups.setdefault(rule, []).append((W, rule, label, driver, mp))
        per = 10 if R.tier == "thorough" else 3
        for rule, js in groups.items():
            step = max(1, len(js) // per)
            for W, rl, label, driver, mp in js[step // 2::step][:per]:
                w = World.__new__(World)
                w.R, w.I = R, W.I
                w.run("feature", f"{name.upper()} {rl}: {label}", driver, lambda p, W=W, d=driver, mp=mp, l=f"{name.upper()} {rl}: {label}": judge_feature(R, W, p, d, mp, l), mp, True)


def raised(p):
    out = [p.exc] if p.exc is not None else []
    for v in p.S.values():
        for x in v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) else (v,):
            if isinstance(x, AbsRaise):
                out.append(x)
    return out


def exc_name(e):
    c = e.exc.cls
    return getattr(c, "name", None) or getattr(getattr(c, "t", None), "__name__", repr(c))


SUSPECT = ("ImportError", "ModuleNotFoundError", "AttributeError", "NameError", "UnboundLocalError", "TypeError")


def judge_feature(R, W, p, driver, mp, label):
    for e in raised(p):
        n = exc_name(e)
        if n not in SUSPECT:
            continue
        at = f"{e.site[0]}:{e.site[1]}" if e.site else "?"
        if n not in SUSPECT[:2] and (n, at) in with_packages(R, W, driver, mp):
            continue
        R.violate(f"C22:feature:{label.split(':')[0]}:{n}:{at}", at, f"{label}: raises {describe(e)} when the optional packages are absent", p.desc())
        return
    R.check(True, "feature", label, "", "", "")


def with_packages(R, W, driver, mp):
    """errors of the same calls with every package installed"""
    memo = W.__dict__.setdefault("memo", {})
    if id(driver) not in memo:
        o = W.owner
        if o.there is None:
            o.there = World(R, absent=())
        memo[id(driver)] = {(exc_name(e), f"{e.site[0]}:{e.site[1]}" if e.site else "?") for q in o.there.I.explore(driver, mp) if q.status != "undecided" for e in raised(q)}
    return memo[id(driver)]


# --- what needs a package ---------------------------------------------------------

def needs(I, what):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    n = I.sym("n", 1)
    q = horizontal_quantity(I, S, "q", ("y", "x"), n, I.sym("m", 1))
    S["raised"] = None
    d = I.new(DictV([["air", q]]))
    try:
        if what == "data_array":
            I.getattr(q, "data_array")
        elif what == "to_dataset":
            I.call_name("_xarray.to_dataset", d)
        elif what == "write_state":
            I.setitem(d, "time", I.new(date("t")))
            I.call_name("io.write_state", d, "state.nc")
        elif what == "read_state":
            I.call_name("io.read_state", "state.nc")
        elif what == "open_restart":
            from ..comm import CommObj
            part = cube_world(I, S, 0)
            I.hooks["split"] = lambda I, c, color, key: I.new(CommObj(Poly.const(0), S["L"] * S["L"], "tile"))
            comm = I.new(CommObj(Poly.const(0), 6 * S["L"] * S["L"], "comm"))
            cc = I.call_name("communicator.CubedSphereCommunicator", comm, part)
            I.call_name("_legacy_restart.open_restart", "restart", cc)
        else:
            tile_layout(I, S)
            I.call_name("zarr_monitor.ZarrMonitor", "store", I.call_name("partitioner.CubedSpherePartitioner", tile_partitioner(I, S)))
    except AbsRaise as e:
        S["raised"] = e


PACKAGE = {"zarr": "zarr"}


def judge_needs(R, p, what):
    key = "C22:needs:" + what
    if p.status == "raise":
        R.violate(key + ":setup", where(p), f"{what}: preparing the call raises {exc_desc(p)}", p.desc())
        return
    e = p.S["raised"]
    pack = PACKAGE.get(what, "xarray")
    at = f"{e.site[0]}:{e.site[1]}" if e is not None and e.site else "?"
    ok = e is not None and exc_name(e) == "ModuleNotFoundError" and pack in describe(e)
    R.check(ok, "needs", what, key, at, f"{what} without {pack} {'raises ' + describe(e) if e is not None else 'raises nothing'}, expected the import error of {pack}", p.desc())
