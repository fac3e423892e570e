#!/usr/bin/env python3
"""tools/mut.py FILE OLD NEW CHECK...: run checks on a scratch copy with one textual change (development aid)"""
import os, shutil, subprocess, sys, tempfile
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/fv3gfs", d + "/fv3gfs")
    p = f"{d}/fv3gfs/util/{f}"
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    for c in checks:
        r = subprocess.run([sys.executable, "/verif/check.py", c], env={**os.environ, "SA_ROOT": d, "SA_EVIDENCE": d}, capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().split("\n")
        print(f"== {c} exit {r.returncode}")
        for l in out[:2] + out[-2:]:
            print("   ", l[:260])
finally:
    shutil.rmtree(d)
