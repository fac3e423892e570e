"""Obligations, verdicts, known findings and evidence."""
import json
import os
import pickle
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))


STOP_AFTER = 12       # violations per process after which the rest is not analysed
BUDGET_S = float(os.environ.get("SA_BUDGET", "500"))


def _job(R, j):
    try:
        j[0].run_now(*j[1:])
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[:-5:-1])
        R.errors.append(f"{j[1]} [{j[2]}]: {type(e).__name__}: {e} ({at})")


class Report:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.discharged = []      # (rule, subject)
        self.viol = []            # (key, where, message)
        self.undec = []           # (rule, subject, why)
        self.functions = set()
        self.paths = 0
        self.errors = []          # failures of the analysis itself
        self.missing = []         # anchors of the public interface not found
        self.assumptions = []
        self.rules = {}
        self.jobs = []            # queued explorations (see World.run)
        self.notes = []           # facts collected across explorations

    def note(self, *x):
        self.notes.append(x)

    def flush(self, procs=None):
        """run the queued explorations on all cores and merge the results"""
        jobs, self.jobs = self.jobs, []
        procs = procs or min(8, os.cpu_count() or 1, max(1, len(jobs)))
        if procs <= 1:
            for j in jobs:
                _job(self, j)
            return
        kids = []
        for k in range(procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    sub = self
                    sub.discharged, sub.viol, sub.undec, sub.functions, sub.paths = [], [], [], set(), 0
                    sub.missing, sub.notes, sub.errors = [], [], []
                    known = load_known(self.prop)
                    for n in range(k, len(jobs), procs):
                        # enough to report already, or out of time
                        if sum(v[0] not in known for v in sub.viol) >= STOP_AFTER:
                            break
                        if time.time() - self.t0 > BUDGET_S:
                            sub.undecided(jobs[n][1], jobs[n][2], "time budget of the check used up")
                            continue
                        _job(sub, jobs[n])
                    data = pickle.dumps((sub.discharged, sub.viol, sub.undec, sub.functions, sub.paths, sub.missing, sub.assumptions, sub.notes, sub.errors))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                self.errors.append("an analysis process died")
                continue
            d, v, u, fn, n, m, a, notes, err = pickle.loads(data)
            self.discharged += d
            for x in v:
                self.violate(*x)
            self.undec += u
            self.functions |= fn
            self.paths += n
            for x in m:
                if x not in self.missing:
                    self.missing.append(x)
            for x in a:
                self.assume(x)
            self.notes += notes
            self.errors += err

    # -- verdicts on one obligation
    def ok(self, rule, subject=""):
        self.discharged.append((rule, subject))

    def violate(self, key, where, msg, trace=None):
        for k, w, m, t in self.viol:
            if k == key:
                return
        self.viol.append((key, where, msg, trace))

    def undecided(self, rule, subject, why):
        self.undec.append((rule, str(subject), str(why)))

    def anchor_missing(self, what):
        self.missing.append(str(what))

    def check(self, cond, rule, subject, key, where, msg, trace=None):
        if cond:
            self.ok(rule, subject)
        else:
            self.violate(key, where, msg, trace)
        return cond

    def rule(self, rid, text):
        """document a rule applied by this check"""
        self.rules[rid] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # -- end of the run
    def finish(self, floor=1):
        known = load_known(self.prop)
        viol, found = [], []
        for v in self.viol:
            if v[0] in known:
                found.append(v)
            else:
                viol.append(v)
        for k, w, m, t in found:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {m}")
        rc = 0
        path = os.path.join(EVID, f"{self.prop}.report.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        lines = [f"property {self.prop}"]
        for k, w, m, t in viol:
            lines.append(f"VIOLATION {k}\n  at {w}\n  {m}")
            if t:
                lines.append("  path: " + str(t))
        for r, s, y in self.undec:
            lines.append(f"UNDECIDED {r} [{s}]: {y}")
        for a in self.missing:
            lines.append(f"ANCHOR MISSING {a}")
        lines.append(f"discharged {len(self.discharged)} obligations on {self.paths} paths through {len(self.functions)} functions")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        if viol:
            for k, w, m, t in viol[:20]:
                print(f"  {k} at {w}: {m}")
            print(f"VIOLATION property={self.prop} replay={path}")
            rc = 1
        for r, s, y in self.undec[:20]:
            print(f"undecided: {r} [{s}]: {y}")
        if len(self.undec) > 20:
            print(f"undecided: ... {len(self.undec) - 20} more")
        for e in self.errors[:10]:
            print(f"analysis error: {e}")
        for a in self.missing:
            print(f"anchor missing: {a}")
        short = len(self.discharged) < floor
        if short:
            print(f"only {len(self.discharged)} obligations decided, {floor} expected")
        # what could not be analysed is no violation; a run that decided
        # nothing (in development: less than expected) gives no verdict
        strict = bool(os.environ.get("SA_STRICT"))
        if rc == 0 and (not self.discharged or strict and (self.errors or self.missing or short)):
            rc = 2
        self.evidence(viol, found)
        print(f"{self.prop}: {len(self.discharged)} discharged, {len(viol)} violated, {len(found)} known, {len(self.undec)} undecided; "
              f"{self.paths} paths, {len(self.functions)} functions, {time.time() - self.t0:.1f}s")
        return rc

    def evidence(self, viol, found):
        per = {}
        for r, s in self.discharged:
            per[r] = per.get(r, 0) + 1
        total = len(self.discharged) + len(viol) + len(found) + len(self.undec)
        samples, seen = [], set()
        for r, s in self.discharged:
            if r not in seen and s:
                seen.add(r)
                samples.append(f"{r}: {s}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the current source: every listed function was interpreted over symbolic inputs on every "
                               "trace partition; each obligation is one rule applied to one path, call site, region or table entry.",
                "obligations": total, "discharged": len(self.discharged),
                "discharged_per_rule": per,
                "rules": self.rules,
                "samples": samples[:40],
                "paths": self.paths,
                "functions_analysed": sorted(f"{os.path.relpath(p, os.environ.get('SA_ROOT', '/repo')) if os.path.isabs(p) else p}:{q}" for p, q in self.functions),
                "undecided": [f"{r} [{s}]: {y}" for r, s, y in self.undec] + [f"analysis: {e}" for e in self.errors] + [f"not found: {a}" for a in self.missing],
                "violations": [f"{k} at {w}: {m}" for k, w, m, t in viol],
                "known_findings": [f"{k} at {w}: {m}" for k, w, m, t in found],
            },
            "assumptions": self.assumptions,
            "violations": len(viol),
            "wall_s": round(time.time() - self.t0, 3),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        d = json.load(open(p))
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in d.get("findings", []) if e["property"] == prop}
