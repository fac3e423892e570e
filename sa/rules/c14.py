"""C14: arrays handed to MPI are contiguous and hold the right values."""
from ..sg import *
from . import c03, c08, c24

FLOOR = 200
GPU = "cupy.ndarray"


class Under:
    """report of another property's judgement, under this property"""

    def __init__(self, R, rule, suffix):
        self.R, self.r, self.suffix = R, rule, suffix
        self.tier = R.tier

    def check(self, cond, rule, subject, key, where, msg, trace=None):
        return self.R.check(cond, self.r, f"{subject} [{self.suffix}]", self.key(key), where, f"with {self.suffix}: {msg}", trace)

    def violate(self, key, where, msg, trace=None):
        self.R.violate(self.key(key), where, f"with {self.suffix}: {msg}", trace)

    def key(self, k):
        return "C14:" + self.suffix + ":" + k

    def ok(self, rule, subject=""):
        self.R.ok(self.r, subject)

    def undecided(self, rule, subject, why):
        self.R.undecided(self.r, f"{subject} [{self.suffix}]", why)

    def note(self, *x):
        pass


def run(R):
    R.rule("contiguous", "every array given to a message-passing call is C-contiguous, for every layout of the caller's arrays (neither, C-, or only Fortran-ordered)")
    R.rule("host", "arrays sent point to point are host memory, also when the quantity is on a device")
    R.rule("values", "the array sent holds the values of the region to be sent in the order of the receiving region, and what is received ends up in the destination before the call (or wait) returns")
    R.rule("buffer", "send_buffer yields a C-contiguous array with the values of its argument; recv_buffer yields a C-contiguous array and on leaving has copied it into its argument")
    R.assume("contiguity of the caller's arrays is uniform within one call (each message is packed by itself)")
    W = World(R)
    G = World(R, absent=("gt4py",))
    thorough = R.tier == "thorough"
    for w, lib in ((W, A.HOST), (G, GPU)):
        for t in (range(6) if thorough else (0, 3)):
            for kind, ds in ([("scalar", d) for d in (SCALAR_DIMS if thorough else SCALAR_DIMS[1:5])] + [("vector", d) for d in (VECTOR_DIMS if thorough else VECTOR_DIMS[:2])]):
                w.run("values", f"{lib} halo tile {t} {kind} {ds}", lambda I, a=(lib, t, kind, ds): halo(I, *a), lambda p, a=(lib, t, kind, ds), w=w: judge_halo(R, w.I, p, *a))
            for ds in c24.DIMS:
                w.run("values", f"{lib} synchronise tile {t} {ds}", lambda I, a=(lib, t, ds): sync(I, *a), lambda p, a=(lib, t, ds), w=w: judge_sync(R, w.I, p, *a))
        for cube in (False, True):
            for dims in DIMS:
                for role in ("root", "client"):
                    for given in (False, True):
                        for op in ("scatter", "gather"):
                            if op == "gather" and role == "client" and given:
                                continue
                            a = (cube, dims, role, given, op)
                            w.run("values", f"{lib} {'cube' if cube else 'tile'} {op} {role} {dims} given={given}", lambda I, a=a, lib=lib: sg(I, lib, a), lambda p, a=a, lib=lib, w=w: judge_sg(R, w.I, p, lib, a))
        for fn in ("send_buffer", "recv_buffer"):
            for alloc in ("numpy.empty", "numpy.zeros") + (("cupy.zeros",) if lib == GPU else ()):
                for timer in (False, True):
                    w.run("buffer", f"{fn} {lib} {alloc} timer={timer}", lambda I, a=(fn, lib, alloc, timer): buffers(I, *a), lambda p, a=(fn, lib, alloc, timer), w=w: judge_buffers(R, w.I, p, *a))
        w.run("buffer", f"{lib} None", lambda I: nothing(I), lambda p, w=w: R.check(p.status != "raise" and p.S.get("got") == (None, None), "buffer", "None", "C14:buffer:none", fwhere(w.I, "buffer.send_buffer"),
              "a buffer of None is not None", p.desc()))


def layouts(I, lib):
    """memory order of every array of the caller: one choice per path"""
    S = I.S
    S["own_contig"] = True
    S["typename"] = lib
    S["layout"] = None

    def contig(I, v, order):
        if v.buf.order == "C" and whole(v):
            return None
        if S["layout"] is None:
            c = I.choose(("layout", "C"), "the caller's arrays are C-contiguous")
            f = False if c else I.choose(("layout", "F"), "the caller's arrays are Fortran-contiguous")
            S["layout"] = "C" if c else "F" if f else "neither"
        return S["layout"] == order
    I.hooks["contig"] = contig


def cfg(p, lib):
    return f"{'device' if lib == GPU else 'host'} arrays, {p.S.get('layout') or 'any'} order"


def halo(I, lib, t, kind, dims):
    layouts(I, lib)
    halo_scenario(I, t, kind, dims, contig=None)


def judge_halo(R, I, p, lib, t, kind, dims):
    memory(R, p, lib, f"{kind} halo update of {dims}", f"halo:{kind}")
    c03.judge_update(Under(R, "values", cfg(p, lib)), I, p, t, kind, dims)


def sync(I, lib, t, dims):
    layouts(I, lib)
    c24.sync(I, t, dims)


def judge_sync(R, I, p, lib, t, dims):
    memory(R, p, lib, f"synchronisation of {dims}", "sync")
    c24.judge(Under(R, "values", cfg(p, lib)), I, p, t, dims)


def sg(I, lib, a):
    layouts(I, lib)
    c08.drive(I, *a)


def judge_sg(R, I, p, lib, a):
    if p.S.get("skip"):
        return
    memory(R, p, lib, f"{a[4]} on the {a[2]}", f"{a[4]}:{a[2]}")
    c08.judge(Under(R, "values", cfg(p, lib)), I, p, *a)


def memory(R, p, lib, name, key):
    for e in comm_events(p.events):
        for n, st in (("array", "state"), ("recv", "rstate")):
            a = e.data.get(n)
            if not isinstance(a, A.ArrV):
                continue
            s = e.data.get(st)
            R.check(s["contig"], "contiguous", f"{name} {e.op}", f"C14:{key}:{e.op}:{n}:contiguous", where(p, e),
                    f"{name} with {cfg(p, lib)}: {e.op} is given {vrepr(a)}, which is not C-contiguous", p.desc())
            if e.op in ("Isend", "Send", "Issend"):
                R.check(s["host"], "host", f"{name} {e.op}", f"C14:{key}:{e.op}:host", where(p, e), f"{name} with {cfg(p, lib)}: {e.op} is given device memory", p.desc())


# ---------------------------------------------------------------------- buffers
def buffers(I, fn, lib, alloc, timer):
    S = I.S
    layouts(I, lib)
    arr = S["arr"] = A.external(I, "array", (I.sym("a", 1), I.sym("b", 1)), None, lib)
    S["c0"] = A.content_of(I, arr)
    kw = {"timer": I.call_name("_timing.Timer")} if timer else {}
    cm = I.call_name("buffer." + fn, ExtV(alloc), arr, **kw)
    en, ex = I.cm_protocol(cm)
    got = S["got"] = en()
    if isinstance(got, A.ArrV):
        S["state"] = {"contig": A.contiguous(I, got, "C")}
        if fn == "send_buffer":
            S["c1"] = A.content_of(I, got)
        else:
            msg = A.external(I, "msg", got.shape, got.buf.dtype, got.buf.typename)
            S["msg"] = A.content_of(I, msg)
            A.write(I, got, msg)
    ex(None)
    S["c2"] = A.content_of(I, arr)


def judge_buffers(R, I, p, fn, lib, alloc, timer):
    S = p.S
    name = f"{fn}({alloc}) of {cfg(p, lib)}"
    key = f"C14:{fn}:{alloc}:{lib}:{S.get('layout')}"
    anchor = fwhere(I, "buffer." + fn)
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name}: {exc_desc(p)}", p.desc())
        return
    got = S["got"]
    if not isinstance(got, A.ArrV):
        R.violate(key + ":yield", anchor, f"{name} yields {vrepr(got)}", p.desc())
        return
    R.check(S["state"]["contig"] and shape_eq(p, got.shape, S["arr"].shape) is True and vkey(got.buf.dtype) == vkey(S["arr"].buf.dtype), "buffer", name, key + ":contiguous", anchor,
            f"{name} yields {vrepr(got)}, not C-contiguous or of another shape or dtype", p.desc())
    if fn == "send_buffer":
        R.check(S["c1"] is not None and same_content(p, S["c1"], 1, S["c0"]) is True, "buffer", name + " values", key + ":values", anchor, f"{name} yields other values: {S['c1']!r}", p.desc())
        R.check(S["c2"] is not None and same_content(p, S["c2"], 1, S["c0"]) is True, "buffer", name + " source", key + ":source", anchor, f"{name} changes its argument", p.desc())
    else:
        R.check(S["c2"] is not None and same_content(p, S["c2"], 1, S["msg"]) is True, "buffer", name + " values", key + ":values", anchor, f"{name}: what is put in the buffer is not in the array afterwards: {S['c2']!r}", p.desc())


def nothing(I):
    out = []
    for fn in ("send_buffer", "recv_buffer"):
        en, ex = I.cm_protocol(I.call_name("buffer." + fn, ExtV("numpy.empty"), None))
        out.append(en())
        ex(None)
    I.S["got"] = tuple(out)
