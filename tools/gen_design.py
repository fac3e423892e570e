#!/usr/bin/env python3
"""tools/gen_design.py: DESIGN.md = tools/design_head.md + per-property rules + seeded table + tools/design_tail.md"""
import ast, glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = {d["id"]: d for d in map(json.loads, open(root + "/properties.jsonl"))}
man = json.load(open(root + "/MANIFEST.json"))


def text(n, env={}):
    if isinstance(n, ast.Constant):
        return str(n.value)
    if isinstance(n, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "N" for v in n.values)
    if isinstance(n, ast.BinOp):
        return text(n.left).replace("%d", "N")
    return ast.unparse(n)


out = [open(here + "/design_head.md").read().rstrip(), ""]
notes = json.load(open(here + "/design_notes.json"))
for f in sorted(glob.glob(root + "/sa/rules/c*.py")):
    pid = os.path.basename(f)[:-3].upper()
    t = ast.parse(open(f).read())
    out += [f"### {pid} {props[pid]['title']}", "", notes.get(pid, "").strip(), ""]
    rules, assume = [], []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and getattr(n.func.value, "id", "") == "R":
            if n.func.attr == "rule":
                rules.append((n.lineno, f"- `{n.args[0].value}`: {text(n.args[1])}"))
            if n.func.attr == "assume":
                assume.append((n.lineno, f"- assumes: {text(n.args[0])}"))
    out += [x for _, x in sorted(rules)] + [x for _, x in sorted(assume)] + [""]
out += ["## Not applicable", ""]
out += [f"- {d['property_id'] if 'property_id' in d else d.get('property')}: {d['reason']}" for d in man["not_applicable"]]
out += ["", "## Planted bugs and the checks that catch them", "",
        "Each was confirmed in a scratch copy: the stable tests pass with it, its demonstration fails with it and passes without it.", "",
        "| planted bug | caught by | what it needs |", "|---|---|---|"]
caught = json.load(open(here + "/caught.json")) if os.path.exists(here + "/caught.json") else {}
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    out.append(f"| {d} | {caught.get(d, m['property'])} | {m['needs']} |")
out += ["", open(here + "/design_tail.md").read().rstrip(), ""]
open(root + "/DESIGN.md", "w").write("\n".join(out))
