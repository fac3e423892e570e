#!/usr/bin/env python3
"""tools/seed.py SPEC.py: plant a bug in a scratch copy, confirm it, and keep it as seeded/<id>/.

SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source) and optionally MPI=n."""
import json, os, runpy, shutil, subprocess, sys, tempfile
spec = runpy.run_path(sys.argv[1])
notest = "--notest" in sys.argv
out = f"/verif/seeded/{spec['ID']}"
d = tempfile.mkdtemp(prefix="seed")
repo = d + "/repo"
PY = "/opt/venv/bin/python"
env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "PMIX_MCA_gds": "hash"}
try:
    shutil.copytree("/repo", repo, symlinks=True)
    os.makedirs(out, exist_ok=True)
    run = "/opt/venv/bin/python \"$here/demo.py\"" if not spec.get("MPI") else \
        f"PMIX_MCA_gds=hash timeout 100 mpirun -n {spec['MPI']} --allow-run-as-root --oversubscribe --mca btl self,vader --mca btl_vader_single_copy_mechanism none /opt/venv/bin/python \"$here/demo.py\""
    open(out + "/demo.sh", "w").write(f"#!/bin/bash\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nexport PYTHONPATH=\"$PWD\" PYTHONDONTWRITEBYTECODE=1\n{run}\n")
    open(out + "/demo.py", "w").write(spec["DEMO"].lstrip("\n"))
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, env=env, capture_output=True, text=True)
    print("demo unchanged:", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
    ok = r.returncode == 0
    for f, old, new in spec["EDITS"]:
        p = f"{repo}/fv3gfs/util/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    r = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, env=env, capture_output=True, text=True)
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-300:])
    ok = ok and r.returncode != 0
    if not notest:
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=120", "-o", "junit_family=xunit2", f"--junitxml={d}/serial.xml", "tests", "--ignore=tests/mpi"], cwd=repo, env=env, capture_output=True)
        subprocess.run(f"timeout -k 5 200 mpirun -n 6 --allow-run-as-root --oversubscribe --mca btl self,vader --mca btl_vader_single_copy_mechanism none bash -c '{PY} -m pytest -q -p no:cacheprovider -o junit_family=xunit2 --junitxml={d}/mpi.$OMPI_COMM_WORLD_RANK.xml tests/mpi; exit 0' </dev/null", shell=True, cwd=repo, env=env, capture_output=True)
        subprocess.run([sys.executable, "/opt/vp/results.py", d + "/out.json", f"junit:{d}/*.xml"])
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(d + "/out.json"))["passed"])
        print("tests missing:", len(missing), sorted(missing)[:4])
        ok = ok and not missing
    c = subprocess.run([sys.executable, "/verif/check.py", spec["PROP"]], env={**os.environ, "SA_ROOT": repo, "SA_EVIDENCE": d}, capture_output=True, text=True)
    lines = (c.stdout + c.stderr).strip().split("\n")
    print("check", spec["PROP"], "exit", c.returncode, "\n   " + "\n   ".join(l[:240] for l in lines[:2] + lines[-2:]))
    print("KEPT" if ok else "NOT VALID")
    if not ok:
        shutil.rmtree(out)
finally:
    shutil.rmtree(d)
