#!/usr/bin/env python3
"""python3 check.py C01 [C02 ...]: decide properties of /repo's current source."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.report import Report                      # noqa: E402
from sa.interp import AnchorMissing               # noqa: E402


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    worst = 0
    for prop in argv:
        mod = importlib.import_module("sa.rules." + prop.lower())
        R = Report(prop, tier, seed)
        try:
            mod.run(R)
            R.flush()
            if hasattr(mod, "conclude"):
                mod.conclude(R)
        except AnchorMissing as e:
            R.anchor_missing(e)
        except Exception:
            traceback.print_exc()
            R.errors.append("see stderr")
        rc = R.finish(getattr(mod, "FLOOR", 1))
        if rc and (worst == 0 or rc == 1):
            worst = rc
    return worst


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
