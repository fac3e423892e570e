"""C17: timer accounting is consistent, and inert when disabled.

All histories of timer calls up to a bounded length are run in the abstract
domain and compared, step by step, with a reference accounting."""
from itertools import product
from .c16 import idle
from ..world import *

FLOOR = 2000
ACTS = [("start", "a"), ("stop", "a"), ("start", "b"), ("stop", "b"), ("disable",), ("enable",), ("reset",)]


def run(R):
    depth = 6 if R.tier == "thorough" else 5
    R.rule("account", f"after every history of up to {depth} calls of start, stop (two names), disable, enable and reset: each completed start/stop pair since the last reset has added the time read by its stop minus the time "
                      "read by its start, and one hit, under its name; nothing else is recorded")
    R.rule("errors", "starting a running clock raises ValueError, disabling with running clocks raises RuntimeError, and neither changes anything; stopping a clock that is not running changes nothing")
    R.rule("copies", "the mappings handed out by times and hits can be modified without effect on the timer")
    R.rule("null", "a NullTimer is never enabled, enable() raises NotImplementedError, and it records nothing")
    W = World(R)
    for cls in ("Timer", "NullTimer"):
        for each in (True, False):
            for first in product(ACTS, repeat=depth - 3):
                hs = [first + rest for rest in product(ACTS, repeat=3)] if cls == "Timer" or R.tier == "thorough" else [first + rest for rest in product(ACTS, repeat=1)]
                W.run("account", f"{cls} {show(first)} ... {'queried after each call' if each else ''}", lambda I, a=(cls, hs, each): histories(I, *a), lambda p, a=(cls, each): judge(R, W.I, p, *a))


def show(h):
    return ", ".join(f"{a[0]}({', '.join(a[1:])})" for a in h)


def query(I, t):
    out = []
    for n in ("times", "hits"):
        m = I.getattr(t, n)
        out.append(dict((k, v) for k, v in m.entries) if isinstance(m, DictV) else m)
        if isinstance(m, DictV):
            # what is handed out is modified in every way
            for k in list(out[-1]):
                I.setitem(m, k, -7)
            I.setitem(m, "intruder", -7)
    return tuple(out) + (I.truth(I.getattr(t, "enabled")),)


def histories(I, cls, hs, each):
    S = I.S
    I.hooks.clear()
    I.inject = None
    S["runs"] = []
    for h in hs:
        t = I.call_name("_timing." + cls)
        log = []
        S["runs"].append((h, log))
        for a in h:
            s0 = I.seq
            err = None
            try:
                I.meth(t, a[0], *a[1:])
            except AbsRaise as e:
                err = e
            s1 = I.seq
            log.append((a, err, s0, s1, query(I, t) if each or a is h[-1] and len(log) == len(h) - 1 else None))
        log.append((("end",), None, I.seq, I.seq, query(I, t)))


def linear(v):
    """{clock atom: coefficient} of a sum of clock readings, or None"""
    f = to_frac(v)
    if f is None or f.ops:
        return None
    if f.den != Poly.const(1):
        return None
    out = {}
    for mono, c in f.num.t.items():
        if len(mono) != 1 or mono[0][1] != 1:
            return None
        out[mono[0][0]] = c
    return out


def judge(R, I, p, cls, each):
    S = p.S
    anchor = fwhere(I, "_timing.Timer.stop")
    if p.status == "raise":
        R.violate(f"C17:{cls}:raise", where(p), f"using a {cls} raises {exc_desc(p)}", p.desc())
        return
    reads = [(e.seq, e.t) for e in walk_events(p.events, ("clock",))]
    for h, log in S["runs"]:
        running, pairs, enabled = {}, {}, cls == "Timer"
        for k, (a, err, s0, s1, q) in enumerate(log):
            name = f"{cls}: {show(h[:k + 1])}"
            key = f"C17:{cls}:{a[0]}"
            at = f"{err.site[0]}:{err.site[1]}" if err is not None and err.site else anchor
            raised = type_name(err) if err is not None else None
            win = [t for s, t in reads if s0 < s <= s1]
            if a[0] == "start" and enabled:
                if a[1] in running:
                    R.check(raised == "ValueError", "errors", name, key + ":again", at, f"{name}: starting the running clock raises {raised}, expected ValueError", p.desc())
                elif R.check(raised is None, "account", name + " start", key + ":start", at, f"{name}: starting an idle clock raises {raised}", p.desc()):
                    running[a[1]] = win
            elif a[0] == "stop" and enabled:
                if a[1] in running:
                    R.check(raised is None, "account", name + " stop", key + ":stop", at, f"{name}: stopping a running clock raises {raised}", p.desc())
                    pairs.setdefault(a[1], []).append((running.pop(a[1]), win))
            elif a[0] in ("start", "stop"):
                R.check(raised is None, "null" if cls == "NullTimer" else "account", name + " disabled", key + ":disabled", at, f"{name}: {a[0]} on a disabled timer raises {raised}", p.desc())
            elif a[0] == "disable":
                if running:
                    R.check(raised == "RuntimeError", "errors", name, key + ":running", at, f"{name}: disabling with a running clock raises {raised}, expected RuntimeError", p.desc())
                else:
                    R.check(raised is None, "account", name + " disable", key + ":disable", at, f"{name}: disabling an idle timer raises {raised}", p.desc())
                    enabled = False
            elif a[0] == "enable":
                if cls == "NullTimer":
                    R.check(raised == "NotImplementedError", "null", name, key + ":enable", at, f"{name}: enabling raises {raised}, expected NotImplementedError", p.desc())
                else:
                    R.check(raised is None, "account", name + " enable", key + ":enable", at, f"{name}: enabling raises {raised}", p.desc())
                    enabled = True
            elif a[0] == "reset":
                R.check(raised is None, "account", name + " reset", key + ":reset", at, f"{name}: resetting raises {raised}", p.desc())
                pairs = {}
            if q is None:
                continue
            times, hits, on = q
            copies = "copies" if a[0] == "end" else "account"
            R.check(on == enabled, "null" if cls == "NullTimer" else "account", name + " enabled", key + ":enabled", anchor, f"after {name}: enabled is {on}, expected {enabled}", p.desc())
            want = {n: len(v) for n, v in pairs.items()}
            R.check(hits == want, copies, name + " hits", key + ":hits", anchor, f"after {name}: hits are {vrepr(hits)}, expected {want}", p.desc())
            if R.check(isinstance(times, dict) and set(times) == set(want), copies, name + " times", key + ":names", anchor, f"after {name}: times are {vrepr(times)}, expected those of {sorted(want)}", p.desc()):
                for n, v in times.items():
                    R.check(elapsed(v, pairs[n]), "account", name + " elapsed", key + ":elapsed", anchor, f"after {name}: the time of {n} is {vrepr(v)}, expected the sum of stop minus start over {len(pairs[n])} pair(s)", p.desc())


def type_name(e):
    c = e.exc.cls
    return c.t.__name__ if isinstance(c, BT) else getattr(c, "name", repr(c))


def elapsed(v, pairs):
    l = linear(v)
    if l is None:
        return False
    for start, stop in pairs:
        for win, sign in ((start, -1), (stop, 1)):
            hit = [t for t in win if l.get(t) == sign]
            if len(hit) != 1:
                return False
            del l[hit[0]]
    return not l
