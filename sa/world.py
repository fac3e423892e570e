"""Symbolic worlds shared by the rules: partitioners, quantities, directions."""
from .interp import Interp, AnchorMissing, Budget, AbsRaise, Unsupported
from .poly import Poly, Sym, Facts
from .values import *
from . import arrays as A

ONE = Poly.const(1)

EDGES = ("WEST", "EAST", "NORTH", "SOUTH")
CORNERS = {"NORTHWEST": ("NORTH", "WEST"), "NORTHEAST": ("NORTH", "EAST"),
           "SOUTHWEST": ("SOUTH", "WEST"), "SOUTHEAST": ("SOUTH", "EAST")}
BOUNDARIES = EDGES + tuple(CORNERS)
VEC = {"WEST": (-1, 0), "EAST": (1, 0), "NORTH": (0, 1), "SOUTH": (0, -1)}
NAME = {v: k for k, v in VEC.items()}
X_DIMS = ("x", "x_interface")
Y_DIMS = ("y", "y_interface")
INTERFACE = ("x_interface", "y_interface", "z_interface")


def ccw(v, k):
    for _ in range(k % 4):
        v = (-v[1], v[0])
    return v


def opposite(d):
    x, y = VEC[d]
    return NAME[(-x, -y)]


def back_direction(d, k):
    """direction, in the frame of the neighbour reached over d with k clockwise
    axis rotations, that leads back"""
    return NAME[ccw(VEC[opposite(d)], k)]


class World:
    def __init__(self, R, absent=("cupy", "gt4py"), **kw):
        self.R = R
        self.I = Interp(absent=absent, **kw)
        self.I.load_all()
        for n, e in self.I.load_errors.items():
            R.undecided("load", n, e)

    def const(self, name):
        return const(self.I, name)

    def run(self, rule, label, driver, on_path, max_paths=None, allow_empty=False):
        """queue an exploration; every path is judged by on_path"""
        self.R.jobs.append((self, rule, label, driver, on_path, max_paths, allow_empty))

    def run_now(self, rule, label, driver, on_path, max_paths=None, allow_empty=False):
        """explore and judge every path; exceptions become undecided entries"""
        I, R = self.I, self.R
        try:
            paths = I.explore(driver, max_paths)
        except AnchorMissing as e:
            R.anchor_missing(f"{rule} [{label}]: {e}")
            return []
        except Budget as e:
            R.undecided(rule, label, e)
            return []
        R.paths += len(paths)
        R.functions |= I.touched_functions
        for p in paths:
            if p.status == "undecided":
                R.undecided(rule, f"{label}; {p.desc()}", p.why)
            else:
                on_path(p)
        if not paths and not allow_empty:
            R.undecided(rule, label, "no feasible path")
        return paths


def const(I, name):
    m = I.func("constants")
    if name not in m.ns:
        raise AnchorMissing(f"constants.{name}")
    return m.ns[name]


def where(p, ev=None):
    """source location of an event, or of the exception that ended the path"""
    if ev is not None:
        return f"{ev.site[0]}:{ev.site[1]}"
    if p is not None and p.exc is not None and p.exc.site:
        return f"{p.exc.site[0]}:{p.exc.site[1]}"
    return "?"


def fwhere(I, dotted):
    try:
        f = I.func(dotted)
    except AnchorMissing:
        return dotted
    f = unwrap(f)
    if isinstance(f, FuncV):
        return f"{f.module.path}:{f.node.lineno} {f.qual}"
    return dotted


def unwrap(f):
    while True:
        if isinstance(f, (LruV, CMFactory, PartialV)):
            f = f.func
        elif isinstance(f, (StaticV, ClassMethodV)):
            f = f.f
        elif isinstance(f, PropertyV):
            f = f.fget
        elif isinstance(f, BoundV):
            f = f.func
        else:
            return f


def peq(facts, a, b):
    """True / False / None: are two integers equal under the facts"""
    if a is None or b is None:
        return a is b
    pa, pb = to_poly(a), to_poly(b)
    if pa is None or pb is None:
        if isinstance(a, Frac) or isinstance(b, Frac):
            fa, fb = to_frac(a), to_frac(b)
            if fa is not None and fb is not None and fa.ops == 0 and fb.ops == 0:
                return peq(facts, mk(fa.num * fb.den), mk(fb.num * fa.den))
            return None
        return vkey(a) == vkey(b)
    s = facts.sign(pa - pb)
    if s == 0:
        return True
    if s in (">", "<"):
        return False
    d = facts.norm(pa - pb)
    if not d.t:
        return True
    # a polynomial that is not identically zero: different for some value
    return None


def differs(facts, a, b):
    """the two are not equal for every admissible value (identity fails)"""
    return peq(facts, a, b) is not True


def exc_name(p):
    e = p.exc.exc
    return getattr(e.cls, "name", None) or repr(e.cls)


def exc_is(I, p, *names):
    """exception class of a raising path, by name through its bases"""
    c = p.exc.exc.cls
    if isinstance(c, BT):
        return any(k.__name__ in names for k in c.t.__mro__)
    if isinstance(c, ClassV):
        for b in c.mro():
            n = b.name if isinstance(b, ClassV) else b.t.__name__ if isinstance(b, BT) else repr(b)
            if n in names:
                return True
            if isinstance(b, BT) and any(k.__name__ in names for k in b.t.__mro__):
                return True
    return repr(c) in names


def exc_desc(p):
    e = p.exc.exc
    a = e.attrs.get("args", ())
    return f"{exc_name(p)}({', '.join(vrepr(x) for x in a)})"


# ------------------------------------------------------------------ partitioners
def tile_layout(I, S, square=False):
    if square:
        L = I.sym("L", 1)
        S["ny"] = S["nx"] = S["L"] = L
    else:
        S["ny"], S["nx"] = I.sym("ny", 1), I.sym("nx", 1)
    S["j"] = I.sym("j", 0, S["ny"] - ONE)
    S["i"] = I.sym("i", 0, S["nx"] - ONE)
    S["layout"] = (S["ny"], S["nx"])
    S["tile_rank"] = S["j"] * S["nx"] + S["i"]


def tile_partitioner(I, S):
    return I.call_name("partitioner.TilePartitioner", S["layout"])


def cube_partitioner(I, S):
    return I.call_name("partitioner.CubedSpherePartitioner", tile_partitioner(I, S))


def cube_world(I, S, t):
    tile_layout(I, S, square=True)
    S["t"] = t
    S["rank"] = to_poly(t) * S["L"] * S["L"] + S["tile_rank"]
    return cube_partitioner(I, S)


def attrs_of(b):
    return dict(b.attrs) if isinstance(b, InstV) else None


# -------------------------------------------------------------------- quantities
def quantity(I, S, label, dims, units=None, typename=A.HOST, dtype=None, origin=True, min_extent=1):
    """a quantity of the repository built from symbolic data: along each
    dimension  shape = origin + extent + pad"""
    o, e, p, sh = [], [], [], []
    for d in dims:
        od, ed, pd = I.sym(f"{label}.o_{d}", 0), I.sym(f"{label}.e_{d}", min_extent), I.sym(f"{label}.p_{d}", 0)
        o.append(od), e.append(ed), p.append(pd)
        sh.append(od + ed + pd)
    arr = A.external(I, label, tuple(sh), dtype, typename)
    units = units if units is not None else Term(f"{label}.units", (), {"nonnull": True, "kind": "str"})
    q = I.call_name("quantity.Quantity", arr, tuple(dims), units, origin=tuple(o), extent=tuple(e))
    S[label] = {"o": dict(zip(dims, o)), "e": dict(zip(dims, e)), "p": dict(zip(dims, p)), "shape": dict(zip(dims, sh)),
                "arr": arr, "q": q, "dims": tuple(dims), "units": units}
    return q


def walk_events(events, kinds=None):
    for e in events:
        if kinds is None or e.kind in kinds:
            yield e
        if e.body:
            yield from walk_events(e.body, kinds)
