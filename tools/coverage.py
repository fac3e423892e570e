#!/usr/bin/env python3
"""tools/coverage.py: functions of the package that no check's evidence lists"""
import ast, glob, json, os
seen = set()
for f in glob.glob('/verif/evidence/C*.json'):
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if 'functions' in k and isinstance(v, list):
                    seen.update(v)
                walk(v)
    walk(json.load(open(f)))
out = []
for p in sorted(glob.glob('/repo/fv3gfs/util/**/*.py', recursive=True)):
    def rec(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                q = (pre + "." if pre else "") + c.name
                if isinstance(c, ast.FunctionDef):
                    out.append(os.path.relpath(p, '/repo') + ":" + q)
                rec(c, q)
            else:
                rec(c, pre)
    rec(ast.parse(open(p).read()), "")
print(len(out), "functions; not analysed:", *[f for f in out if f not in seen], sep="\n  ")
