"""C16: clocks are stopped and captured streams restored on every exit.

Every way out of a block is explored: normal, by an exception of the block,
and by a failure of any external call (message passing, memory allocation,
operating system) made by the context manager or by an operation using it."""
from ..sg import *

FLOOR = 60


def run(R):
    R.rule("clock", "after a timed block, left normally or by an exception, the clock of that name is not running and exactly one hit was recorded; a clock that could not be started stops no other, and an attempt to disable the timer inside the block changes none of this")
    R.rule("stream", "after a capture block, however it ends, the descriptor of the stream refers to its original destination, every duplicated descriptor is closed exactly once, every temporary file is closed; "
                     "inside, it refers to the temporary file, and after a normal end the captured content was written to the object handed out")
    R.rule("propagate", "an exception of the block or of a failing call leaves the block")
    R.rule("recover", "after an operation of the communicator failed at any external call or allocation, no clock of its timer is running and a following operation succeeds")
    R.rule("rejected", "after a halo update deeper than the quantity's halo or subdomain was refused, no clock of the communicator's timer is running and an update of a depth that fits succeeds")
    R.assume("at most one failure per history; a failure of the call that restores the stream itself is not recoverable")
    W = World(R)
    for cls in ("Timer", "NullTimer"):
        for enabled in ((True, False) if cls == "Timer" else (True,)):
            for how in ("normal", "raise"):
                for nest in (None, "other", "same", "after", "disable"):
                    a = (cls, enabled, how, nest)
                    W.run("clock", f"{cls} enabled={enabled} {how} {nest}", lambda I, a=a: clock(I, *a), lambda p, a=a: judge_clock(R, W.I, p, *a))
    for how in ("normal", "raise"):
        for shape in ("one", "two", "nested"):
            W.run("stream", f"capture {shape} {how}", lambda I, a=(shape, how): capture(I, *a), lambda p, a=(shape, how): judge_capture(R, W.I, p, *a))
    thorough = R.tier == "thorough"
    for contig in (False, True):
        for op in OPS:
            for L in ((1, 3) if thorough else (1,)):
                for dims in (("z", "y", "x"), ("y", "x")):
                    a = (op, contig, L, dims)
                    W.run("recover", f"{op} contiguous={contig} layout {L} {dims}", lambda I, a=a: failing(I, *a), lambda p, a=a: judge_failing(R, W.I, p, *a))
    for op in ("halo_update", "vector_halo_update"):
        for deep in (3, 6, 12):
            for dims in (("y", "x"), ("z", "x_interface", "y")):
                a = (op, deep, dims)
                W.run("rejected", f"{op} of {deep} points {dims}", lambda I, a=a: rejected(I, *a), lambda p, a=a: judge_rejected(R, W.I, p, *a))
    for fn in ("send_buffer", "recv_buffer"):
        for how in ("normal", "raise"):
            W.run("recover", f"{fn} {how}", lambda I, a=(fn, how): buffers(I, *a), lambda p, a=(fn, how): judge_failing(R, W.I, p, fn, how, 0, ()))


def exception(I, name="failure in the block"):
    return AbsRaise(I.make_exc(BT(ArithmeticError), [name]))


def leave(I, ex, how, log):
    """end a block; records whether an exception came out"""
    if how == "normal":
        ex(None)
        return
    e = exception(I)
    try:
        suppressed = ex(e)
    except AbsRaise as e2:
        if e2.exc is not e.exc:
            raise
        suppressed = False
    log.append(("suppressed", suppressed))


# ------------------------------------------------------------------------ clocks
def clock(I, cls, enabled, how, nest):
    S = I.S
    I.hooks.clear()
    I.inject = None
    t = I.call_name("_timing." + cls)
    if cls == "Timer" and not enabled:
        I.meth(t, "disable")
    S["log"] = []
    en, ex = I.cm_protocol(I.meth(t, "clock", "a"))
    en()
    if nest == "other":
        en2, ex2 = I.cm_protocol(I.meth(t, "clock", "b"))
        en2()
        leave(I, ex2, how, S["log"])
    elif nest == "same":
        en2, ex2 = I.cm_protocol(I.meth(t, "clock", "a"))
        try:
            en2()
            S["log"].append(("entered",))
        except AbsRaise as e:
            S["log"].append(("rejected", e))
    elif nest == "disable":
        try:
            I.meth(t, "disable")
        except AbsRaise as e:
            pass
    leave(I, ex, how, S["log"])
    if nest == "disable" and cls == "Timer" and enabled:
        # whatever became of the attempt, the timer serves the next block
        I.meth(t, "enable")
        leave(I, *clock_again(I, t), S["log"])
    if nest == "after":
        en, ex = I.cm_protocol(I.meth(t, "clock", "a"))
        en()
        ex(None)
    S["hits"] = I.getattr(t, "hits")
    S["keys"] = I.getattr(t, "times")
    S["idle"] = idle(I, t)


def clock_again(I, t):
    en, ex = I.cm_protocol(I.meth(t, "clock", "a"))
    en()
    return ex, "normal"


def idle(I, t):
    """no clock is running: the timer can be disabled"""
    was = I.truth(I.getattr(t, "enabled"))
    try:
        I.meth(t, "disable")
    except AbsRaise as e:
        return e
    if was:
        I.meth(t, "enable")
    return True


def judge_clock(R, I, p, cls, enabled, how, nest):
    S = p.S
    name = f"{cls} ({'enabled' if enabled else 'disabled'}) block, {how} end" + (f", {nest} block" if nest else "")
    key = f"C16:clock:{cls}:{int(enabled)}:{how}:{nest}"
    anchor = fwhere(I, "_timing.Timer.clock")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    R.check(S["idle"] is True, "clock", name, key + ":running", anchor, f"{name}: a clock is still running afterwards", p.desc())
    on = cls == "Timer" and enabled
    want = {"a": 2 if nest in ("after", "disable") else 1, **({"b": 1} if nest == "other" else {})} if on else {}
    got = {k: v for k, v in S["hits"].entries}
    R.check(got == want, "clock", name + " hits", key + ":hits", anchor, f"{name}: hits are {got}, expected {want}", p.desc())
    for l in S["log"]:
        if l[0] == "suppressed":
            R.check(not l[1], "propagate", name, key + ":suppressed", anchor, f"{name}: the exception of the block is suppressed", p.desc())
        elif nest == "same":
            R.check((l[0] == "rejected") == on, "clock", name + " same", key + ":same", anchor, f"{name}: a second block of the running clock is {l[0]}", p.desc())


# ----------------------------------------------------------------------- streams
class Stream(Obj):
    label = "stream"

    def m_fileno(self, I):
        return Term("fileno", (self,), {"kind": "int", "nonnull": True})

    def m_flush(self, I):
        return None

    def m_write(self, I, v):
        I.event("iowrite", target=self, value=v)


def injector(I):
    """one failure, at any one call"""
    S = I.S
    S["failed"] = None
    S["n"] = 0

    def inject(I, what, *args):
        if S["failed"] is not None or S.get("quiet"):
            return
        S["n"] += 1
        if I.choose(("fail", S["n"], what), f"{what} (number {S['n']}) fails"):
            S["failed"] = (what, args, I.site(), len(I.allevents))
            e = AbsRaise(I.make_exc(BT(OSError), ["failure of " + what]), site=I.site())
            S["injected"] = e.exc
            raise e
    I.inject = inject

    def event(I, e):
        if e.kind == "alloc":
            inject(I, f"allocation of {e.how}")
    I.hooks["event"] = event


def block(I, stream, how, log, inner=None):
    en, ex = I.cm_protocol(I.call_name("_capture_stream.capture_stream", stream))
    got = en()
    I.event("inside", got=got)
    if inner is not None:
        try:
            inner()
        except AbsRaise as e:
            if ex(e):
                log.append(("suppressed", True))
                return
            raise
    leave(I, ex, how, log)
    I.event("outside", got=got, how=how)


def capture(I, shape, how):
    S = I.S
    I.hooks.clear()
    S["log"] = []
    s = S["stream"] = I.new(Stream())
    injector(I)
    try:
        if shape == "nested":
            block(I, s, how, S["log"], lambda: block(I, s, "normal", S["log"]))
        else:
            block(I, s, how, S["log"])
            if shape == "two":
                block(I, s, how, S["log"])
    finally:
        I.inject = None


def judge_capture(R, I, p, shape, how):
    S = p.S
    f = S["failed"]
    name = f"capture ({shape}, {how} end)" + (f" with {f[0]} at {f[2][0]}:{f[2][1]} failing" if f else "")
    key = f"C16:stream:{shape}:{how}:{f[0] if f else None}"
    anchor = fwhere(I, "_capture_stream.capture_stream")
    if p.status == "raise":
        if f is None or p.exc.exc is not S["injected"]:
            R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
            return
    elif f is not None:
        R.violate(key + ":swallowed", anchor, f"{name}: the failure does not leave the block", p.desc())
    sfd = vkey(Term("fileno", (S["stream"],)))
    table = {sfd: "orig"}
    opened, temps, problems, depth = {}, {}, [], []
    restoring = False
    written = {}
    for e in walk_events(p.events):
        if e.kind == "dup":
            table[vkey(e.new)] = table.get(vkey(e.fd), f"unknown {vrepr(e.fd)}")
            opened[vkey(e.new)] = e
        elif e.kind == "dup2":
            if vkey(e.src) not in table:
                problems.append((e, f"descriptor {vrepr(e.src)} is used after it was closed"))
            table[vkey(e.dst)] = table.get(vkey(e.src), f"unknown {vrepr(e.src)}")
        elif e.kind == "close":
            if vkey(e.fd) not in opened:
                problems.append((e, f"descriptor {vrepr(e.fd)} is closed although it is not an open duplicate"))
            opened.pop(vkey(e.fd), None)
            table.pop(vkey(e.fd), None)
        elif e.kind == "tempcreate":
            temps[vkey(e.file)] = e
            table[vkey(Term("fileno", (e.file,)))] = e.file
            d = e.kwargs.get("delete", True)
            if d is not True:
                problems.append((e, "the temporary file is not deleted"))
        elif e.kind == "tempclose":
            temps.pop(vkey(e.file), None)
            table.pop(vkey(Term("fileno", (e.file,))), None)
        elif e.kind == "iowrite":
            written.setdefault(id(e.target), []).append(e.value)
        elif e.kind == "inside":
            depth.append(table.get(sfd))
            R.check(not isinstance(table.get(sfd), str), "stream", name + " inside", key + ":inside", anchor, f"{name}: inside the block the stream still goes to {table.get(sfd)}", p.desc())
        elif e.kind == "outside":
            mine = depth.pop()
            want = table.get(sfd)
            if e.how == "normal":
                ok = [v for v in written.get(id(e.got), []) if isinstance(v, Term) and v.op == "contents" and v.args[0] is mine]
                R.check(len(ok) == 1, "stream", name + " content", key + ":content", anchor, f"{name}: after a normal end {vrepr(written.get(id(e.got)))} was written to the object handed out, expected the captured content once", p.desc())
    if f is not None and f[0] == "os.dup2" and vkey(f[1][1]) == sfd and table.get(vkey(f[1][0]), "orig") == "orig" and vkey(f[1][0])[0] != "fileno" and not is_temp(f[1][0]):
        restoring = True
    for e, m in problems:
        R.violate(key + ":fd", where(p, e), f"{name}: {m}", p.desc())
    if not restoring:
        R.check(table.get(sfd) == "orig", "stream", name + " restored", key + ":restored", anchor, f"{name}: afterwards the stream goes to {table.get(sfd)}", p.desc())
    R.check(not opened, "stream", name + " descriptors", key + ":leak", where(p, list(opened.values())[0]) if opened else anchor, f"{name}: a duplicated descriptor is never closed", p.desc())
    R.check(not temps, "stream", name + " files", key + ":temp", where(p, list(temps.values())[0]) if temps else anchor, f"{name}: a temporary file is never closed", p.desc())
    for l in S["log"]:
        R.check(not l[1], "propagate", name, key + ":suppressed", anchor, f"{name}: the exception of the block is suppressed", p.desc())


def is_temp(fd):
    return isinstance(fd, Term) and fd.op == "fileno"


# -------------------------------------------------------------------- operations
OPS = ("halo_update", "vector_halo_update", "synchronize_vector_interfaces", "scatter", "gather")


def failing(I, op, contig, L, dims):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, contig)
    L = Poly.const(L)
    S["L"] = S["ny"] = S["nx"] = L
    S["j"] = S["i"] = Poly.const(0)
    S["layout"] = (mk(L), mk(L))
    S["t"] = 0
    S["cp"] = cube_partitioner(I, S)
    n, m = Poly.const(2), Poly.const(5)
    S["cells"] = {"z": Poly.const(7), "x": m, "y": m}
    S["cube"], S["n_ranks"] = True, Poly.const(6) * L * L
    comm = I.new(CommObj(0, mk(S["n_ranks"])))
    cc = I.call_name("communicator.CubedSphereCommunicator", comm, S["cp"])
    dt = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    if op in ("halo_update", "vector_halo_update"):
        qs = [horizontal_quantity(I, S, f, dims, n, m, dtype=dt) for f in (("q",) if op == "halo_update" else ("x", "y"))]
        go = lambda: I.meth(cc, op, *qs, mk(n))
    elif op == "synchronize_vector_interfaces":
        rest = tuple(d for d in dims if d == "z")
        qs = [horizontal_quantity(I, S, "x", rest + ("y_interface", "x"), n, m, dtype=dt), horizontal_quantity(I, S, "y", rest + ("y", "x_interface"), n, m, dtype=dt)]
        go = lambda: I.meth(cc, op, *qs)
    else:
        r, g = sizes(I, S, dims)
        q = make(I, S, "src", global_dims(S, dims) if op == "scatter" else dims, global_ext(S, g) if op == "scatter" else r, dtype=dt)
        go = lambda: I.meth(cc, op, q)
    recover(I, S, go, I.getattr(cc, "timer"))


def rejected(I, op, deep, dims):
    """an update that the arguments make fail, then one that is in order"""
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    L = Poly.const(1)
    S["L"] = S["ny"] = S["nx"] = L
    S["j"] = S["i"] = Poly.const(0)
    S["layout"] = (mk(L), mk(L))
    S["t"] = 0
    S["cp"] = cube_partitioner(I, S)
    S["cube"], S["n_ranks"] = True, Poly.const(6)
    cc = I.call_name("communicator.CubedSphereCommunicator", I.new(CommObj(0, 6)), S["cp"])
    dt = Term("dtype", (), {"nonnull": True, "kind": "dtype"})
    size = {"z": (0, 7), "x": (2, 5), "y": (2, 5), "x_interface": (2, 6)}
    o, e = tuple(size[d][0] for d in dims), tuple(size[d][1] for d in dims)
    qs = [I.call_name("quantity.Quantity", A.external(I, f, tuple(2 * a + b for a, b in zip(o, e)), dt), dims, "m", origin=o, extent=e) for f in (("q",) if op == "halo_update" else ("x", "y"))]
    S["first"] = S["again"] = None
    try:
        I.meth(cc, op, *qs, deep)
    except AbsRaise as e:
        S["first"] = e
    S["idle"] = idle(I, I.getattr(cc, "timer"))
    try:
        I.meth(cc, op, *qs, 2)
    except AbsRaise as e:
        S["again"] = e


def judge_rejected(R, I, p, op, deep, dims):
    S = p.S
    name = f"{op} of {deep} points ({dims})"
    key = f"C16:rejected:{op}:{deep}:{','.join(dims)}"
    anchor = fwhere(I, f"communicator.CubedSphereCommunicator.{op}")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    e, a = S["first"], S["again"]
    at = f"{e.site[0]}:{e.site[1]}" if e and e.site else anchor
    if e is None:
        R.undecided("rejected", name, "the update is not refused")
        return
    R.check(S["idle"] is True, "rejected", name + " clocks", key + ":running", at, f"after {name} was refused, a clock of the timer is still running", p.desc())
    R.check(a is None, "rejected", name + " again", key + ":again", f"{a.site[0]}:{a.site[1]}" if a and a.site else anchor, f"after {name} was refused, an update that fits raises {vrepr(a.exc) if a else ''}", p.desc())


def buffers(I, fn, how):
    S = I.S
    I.hooks.clear()
    I.inject = None
    fix_contig(I, False)
    t = I.call_name("_timing.Timer")
    arr = A.external(I, "array", (I.sym("a", 1), I.sym("b", 1)))

    def go():
        en, ex = I.cm_protocol(I.call_name("buffer." + fn, ExtV("numpy.empty"), arr, timer=t))
        en()
        log = []
        leave(I, ex, how, log)
        if any(l[1] for l in log):
            S["suppressed"] = True
    recover(I, S, go, t)


def recover(I, S, go, timer):
    S["propagated"] = None
    injector(I)
    try:
        go()
    except AbsRaise as e:
        S["propagated"] = e
    finally:
        I.inject = None
        I.hooks.pop("event", None)
    S["idle"] = idle(I, timer)
    S["again"] = None
    if S["failed"] is not None or S["propagated"] is not None:
        try:
            go()
        except AbsRaise as e:
            S["again"] = e


def judge_failing(R, I, p, op, contig, L, dims):
    S = p.S
    f = S.get("failed")
    name = f"{op} ({dims}, contiguous={contig})" + (f" with {f[0]} at {f[2][0]}:{f[2][1]} failing" if f else "")
    key = f"C16:{op}:{f[0] if f else None}"
    anchor = fwhere(I, "_timing.Timer.clock")
    if p.status == "raise":
        R.violate(key + ":raise", where(p), f"{name} raises {exc_desc(p)}", p.desc())
        return
    e = S["propagated"]
    if f is not None:
        R.check(e is not None and e.exc is S["injected"], "propagate", name, key + ":propagate", f"{f[2][0]}:{f[2][1]}", f"{name}: the failure " + (f"becomes {vrepr(e.exc)}" if e else "is swallowed"), p.desc())
    else:
        R.check(e is None, "recover", name, key + ":raises", f"{e.site[0]}:{e.site[1]}" if e and e.site else anchor, f"{name} raises {vrepr(e.exc) if e else ''}", p.desc())
    R.check(not S.get("suppressed"), "propagate", name + " block", key + ":suppressed", anchor, f"{name}: the exception of the block is suppressed", p.desc())
    R.check(S["idle"] is True, "recover", name + " clocks", key + ":running", f"{f[2][0]}:{f[2][1]}" if f else anchor, f"{name}: a clock of the timer is still running afterwards", p.desc())
    a = S["again"]
    R.check(a is None, "recover", name + " again", key + ":again", f"{a.site[0]}:{a.site[1]}" if a and a.site else anchor, f"after {name}, the same operation raises {vrepr(a.exc) if a else ''}", p.desc())
