#!/usr/bin/env python3
"""tools/mutcamp.py SEED COUNT WORKERS LOG [FILE...]: sample syntax-tree mutants of the package, drop those the
tests kill, and list those no check reports (development aid: the survivors are read by hand)"""
import ast, copy, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading
PY = "/opt/venv/bin/python"
PKG = "fv3gfs/util"
TESTS = {
    "_boundary_utils.py": "test_halo_update test_partitioner_boundaries quantity/test_boundary test_sync_shared_boundary",
    "_capture_stream.py": "test__capture_stream", "_corners.py": "quantity/test_corners", "_legacy_restart.py": "test_legacy_restart",
    "_properties.py": "test_legacy_restart", "_timing.py": "test_timer", "boundary.py": "quantity/test_boundary test_halo_update test_halo_update_ranks",
    "buffer.py": "test_buffer test_halo_update", "filesystem.py": "test_legacy_restart", "io.py": "test_legacy_restart",
    "nudging.py": "test_nudging", "partitioner.py": "test_partitioner test_partitioner_boundaries test_get_tile_number test_dimension_sizer test_tile_scatter test_tile_scatter_gather test_cube_scatter_gather test_zarr_monitor test_legacy_restart",
    "communicator.py": "test_tile_scatter test_tile_scatter_gather test_cube_scatter_gather test_sync_shared_boundary test_halo_update test_halo_update_ranks",
    "quantity.py": "quantity/test_quantity quantity/test_view quantity/test_transpose quantity/test_storage quantity/test_boundary test_tile_scatter_gather test_zarr_monitor",
    "rotate.py": "test_rotate test_halo_update", "time.py": "test_legacy_restart", "utils.py": "quantity test_halo_update test_tile_scatter_gather test_legacy_restart",
    "zarr_monitor.py": "test_zarr_monitor", "units.py": "test_nudging test_legacy_restart", "constants.py": "test_partitioner test_halo_update", "_xarray.py": "test_zarr_monitor", "initialization/sizer.py": "test_dimension_sizer", "initialization/allocator.py": "quantity", "_exceptions.py": "test_partitioner",
}
CHECKS = {
    "_boundary_utils.py": "C03 C24 C04 C07 C26 C12 C28", "_capture_stream.py": "C16", "_corners.py": "C19 C28", "_legacy_restart.py": "C21 C29 C01",
    "_properties.py": "C21 C29", "_timing.py": "C17 C16", "boundary.py": "C03 C04 C24 C26 C14 C02 C18", "buffer.py": "C15 C16 C14", "filesystem.py": "C21 C23", "io.py": "C23 C18 C21 C29",
    "nudging.py": "C25 C18", "partitioner.py": "C05 C06 C07 C26 C20 C28 C29 C08 C10 C21 C03", "communicator.py": "C08 C09 C02 C03 C24 C14 C15 C28 C18 C01 C16 C26 C04",
    "quantity.py": "C13 C12 C18 C14 C03 C23 C22 C08 C26", "rotate.py": "C04 C14 C18", "time.py": "C29 C21", "utils.py": "C13 C14 C12 C23 C08 C22",
    "zarr_monitor.py": "C10 C11 C18 C01 C22", "units.py": "C25", "constants.py": "C04 C05 C20 C29 C03", "_xarray.py": "C22 C13 C18 C23", "initialization/sizer.py": "C20 C22 C18", "initialization/allocator.py": "C20 C22", "_exceptions.py": "C28",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult, ast.Mod], ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult]}


def sites(tree, fn):
    """list of (description, mutate) over a parsed module; mutate changes the tree in place"""
    out = []
    strings = sorted({n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 20})

    def walk(node, func):
        for name, field in ast.iter_fields(node):
            items = field if isinstance(field, list) else [field]
            for i, ch in enumerate(items):
                if isinstance(ch, ast.AST):
                    f = ch if isinstance(ch, ast.FunctionDef) else func
                    visit(ch, node, name, i if isinstance(field, list) else None, f)
                    walk(ch, f)

    def rep(parent, name, i, new):
        if i is None:
            setattr(parent, name, new)
        else:
            getattr(parent, name)[i] = new

    def add(n, text, m):
        out.append((f"{fn}:{n.lineno}: {text}", m))

    def visit(n, parent, name, i, func):
        if name in ("decorator_list", "annotation", "returns") and not isinstance(n, ast.stmt):
            pass
        if isinstance(n, ast.Compare):
            for o in CMP.get(type(n.ops[0]), []):
                add(n, f"{ast.unparse(n)} -> {o.__name__}", lambda n=n, o=o: n.ops.__setitem__(0, o()))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                add(n, f"{ast.unparse(n)} -> {o.__name__}", lambda n=n, o=o: setattr(n, "op", o()))
            add(n, f"{ast.unparse(n)} -> left", lambda: rep(parent, name, i, n.left))
            add(n, f"{ast.unparse(n)} -> right", lambda: rep(parent, name, i, n.right))
        if isinstance(n, ast.BoolOp):
            add(n, f"{ast.unparse(n)} -> other op", lambda: setattr(n, "op", ast.And() if isinstance(n.op, ast.Or) else ast.Or()))
            for k in range(len(n.values)):
                add(n, f"{ast.unparse(n)} drop {k}", lambda k=k: n.values.pop(k) if len(n.values) > 2 else rep(parent, name, i, n.values[1 - k]))
        if isinstance(n, ast.Constant) and not isinstance(parent, (ast.Expr, ast.JoinedStr)) and func is not None:
            if type(n.value) is int:
                for v in {n.value + 1, n.value - 1}:
                    add(n, f"{n.value} -> {v} in {ast.unparse(parent)[:60]}", lambda v=v: setattr(n, "value", v))
            elif type(n.value) is bool:
                add(n, f"{n.value} flipped in {ast.unparse(parent)[:60]}", lambda: setattr(n, "value", not n.value))
            elif n.value is None:
                pass
        if isinstance(n, ast.UnaryOp):
            add(n, f"drop {ast.unparse(n)}", lambda: rep(parent, name, i, n.operand))
        if isinstance(n, ast.If):
            add(n, f"if {ast.unparse(n.test)} -> True", lambda: setattr(n, "test", ast.Constant(True)))
            add(n, f"if {ast.unparse(n.test)} -> False", lambda: setattr(n, "test", ast.Constant(False)))
        if isinstance(n, ast.IfExp):
            add(n, f"{ast.unparse(n)} -> body", lambda: rep(parent, name, i, n.body))
            add(n, f"{ast.unparse(n)} -> orelse", lambda: rep(parent, name, i, n.orelse))
        if isinstance(n, ast.Call) and func is not None:
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for k in range(len(n.args) - 1):
                    add(n, f"{ast.unparse(n)[:70]} swap args {k},{k+1}", lambda k=k: n.args.__setitem__(slice(k, k + 2), [n.args[k + 1], n.args[k]]))
            for k in range(len(n.keywords)):
                add(n, f"{ast.unparse(n)[:70]} drop kw {n.keywords[k].arg}", lambda k=k: n.keywords.pop(k))
            if len(n.args) == 1 and isinstance(n.func, (ast.Name, ast.Attribute)):
                add(n, f"{ast.unparse(n)[:70]} -> arg", lambda: rep(parent, name, i, n.args[0]))
            if not n.args and isinstance(n.func, ast.Attribute):
                add(n, f"{ast.unparse(n)[:70]} -> receiver", lambda: rep(parent, name, i, n.func.value))
        if isinstance(n, ast.stmt) and func is not None and i is not None and name in ("body", "orelse", "finalbody") and not isinstance(n, (ast.FunctionDef, ast.Pass, ast.If, ast.For, ast.Return)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, f"delete {ast.unparse(n)[:80]!r}", lambda: rep(parent, name, i, ast.Pass()) if not isinstance(n, (ast.With, ast.Try)) else getattr(parent, name).__setitem__(slice(i, i + 1), n.body))
                nxt = getattr(parent, name)[i + 1:i + 2]
                if nxt and not isinstance(nxt[0], (ast.FunctionDef, ast.Return)):
                    add(n, f"swap with next {ast.unparse(n)[:50]!r}", lambda: getattr(parent, name).__setitem__(slice(i, i + 2), [nxt[0], n]))
        if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2:
            add(n, f"swap {ast.unparse(n)}", lambda: n.value.elts.reverse())
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and func is not None:
            names = sorted({a.arg for a in func.args.args} | {m.id for m in ast.walk(func) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
            cap = n.id.isupper()
            if cap and not n.id.startswith("_"):
                tops = sorted({m.id for m in ast.walk(tree) if isinstance(m, ast.Name) and m.id.isupper() and m.id != n.id})
                if tops:
                    add(n, f"{n.id} -> other constant in {ast.unparse(parent)[:60]}", lambda: setattr(n, "id", random.choice(tops)))
            elif n.id in names and not (isinstance(parent, ast.Attribute) and n.id == "self"):
                o = [x for x in names if x not in (n.id, "self", "cls")]
                if o:
                    add(n, f"{n.id} -> other name in {ast.unparse(parent)[:60]}", lambda: setattr(n, "id", random.choice(o)))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and func is not None:
            pair = {"origin": "extent", "extent": "origin", "x_dim": "y_dim", "nx": "ny", "ny": "nx", "nx_tile": "ny_tile", "ny_tile": "nx_tile", "send_extent": "recv_extent", "data": "view", "dims": "units", "to_rank": "from_rank", "from_rank": "to_rank",
                    "northeast": "southwest", "northwest": "southeast", "shape": "extent", "layout": "layout", "rank": "tile", "values": "keys", "items": "keys", "view": "data", "tile_rank": "rank"}
            if n.attr in pair and pair[n.attr] != n.attr:
                add(n, f"{ast.unparse(n)} -> .{pair[n.attr]} in {ast.unparse(parent)[:60]}", lambda: setattr(n, "attr", pair[n.attr]))
    walk(tree, None)
    return out


def main():
    seed, count, workers, log = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or sorted(TESTS)
    rnd = random.Random(seed)
    pool = []
    for fn in files:
        src = open(f"/repo/{PKG}/{fn}").read()
        pool += [(fn, k) for k in range(len(sites(ast.parse(src), fn)))]
    rnd.shuffle(pool)
    lock = threading.Lock()
    out = open(log, "a")
    dirs = [f"/tmp/mc/w{seed}_{w}" for w in range(workers)]
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
    free = list(dirs)

    def job(item):
        fn, k = item
        with lock:
            d = free.pop()
            random.seed(hash((seed, k)) & 0xffff)
        p = f"{d}/{PKG}/{fn}"
        src = open(f"/repo/{PKG}/{fn}").read()
        try:
            tree = ast.parse(src)
            desc, mut = sites(tree, fn)[k]
            mut()
            new = ast.unparse(ast.fix_missing_locations(tree))
            if new == ast.unparse(ast.parse(src)):
                return
            open(p, "w").write(new)
            tests = [f"tests/{t}" + ("" if os.path.isdir(f"/repo/tests/{t}") else ".py") for t in TESTS[fn].split()]
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", *tests], cwd=d, capture_output=True, text=True, timeout=400,
                                   env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"})
                killed = r.returncode != 0
            except subprocess.TimeoutExpired:
                killed = True
            if killed:
                res = "killed"
            else:
                res = None
                und = []
                for c in CHECKS[fn].split():
                    try:
                        r = subprocess.run([sys.executable, "/verif/check.py", c], env={**os.environ, "SA_ROOT": d, "SA_EVIDENCE": d + "/ev", "SA_STRICT": "1"}, capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        und.append(c + ":timeout")
                        continue
                    if r.returncode == 1:
                        res = "caught " + c
                        break
                    if "undecided: 0" not in r.stdout and (r.returncode != 0 or "\nundecided" in r.stdout):
                        und.append(c)
                res = res or "MISSED" + (f" (undecided {' '.join(und)})" if und else "")
            with lock:
                out.write(f"{res} | {k} | {desc}\n")
                out.flush()
        except Exception as e:
            with lock:
                out.write(f"error {type(e).__name__} {e} | {fn} {k}\n")
                out.flush()
        finally:
            shutil.copy(f"/repo/{PKG}/{fn}", p)
            with lock:
                free.append(d)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, pool[:count]))
    for d in dirs:
        shutil.rmtree(d, ignore_errors=True)
    out.write("done\n")


main()
