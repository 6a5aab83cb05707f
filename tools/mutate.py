"""Development tool: small changes of the source that pass the stable tests; which checks report them?
python tools/mutate.py gen OUT.jsonl        list mutants
python tools/mutate.py tests OUT.jsonl      run the stable tests on each (adds "tests": pass/fail)
python tools/mutate.py checks OUT.jsonl [N] run the checks of the properties over the mutated function (N random survivors)"""
import ast
import copy
import glob
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ROOT = "/repo/src/aws/osml/"
SW = {"x": "y", "y": "z", "z": "x", "width": "height", "height": "width", "lat": "lon", "lon": "lat", "latitude": "longitude", "longitude": "latitude",
      "row": "col", "col": "row", "rows": "cols", "cols": "rows", "min": "max", "max": "min", "first_row": "first_col", "first_col": "first_row", "c": "r", "r": "c",
      "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "radians": "degrees", "degrees": "radians", "minimum": "maximum", "maximum": "minimum",
      "actual_min_value": "suggested_min_value", "suggested_max_value": "actual_max_value"}


def sites(fn):
    """yields (description, apply(node-copy)) ; apply mutates the deep copy found by index"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Add, ast.Pow: ast.Mult}.get(type(n.op))
            if alt and not isinstance(n.left, ast.Constant) or alt and not isinstance(getattr(n.left, "value", 0), str):
                yield i, "op " + ast.unparse(n), lambda m, alt=alt: setattr(m, "op", alt())
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                yield i, "drop - " + ast.unparse(n), lambda m: setattr(m, "op", ast.UAdd())
            if isinstance(n.op, ast.Not):
                yield i, "drop not " + ast.unparse(n), "unnot"
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn}.get(type(o))
                if alt:
                    def ap(m, j=j, alt=alt):
                        m.ops[j] = alt()
                    yield i, "cmp " + ast.unparse(n), ap
        if isinstance(n, ast.BoolOp):
            yield i, "bool " + ast.unparse(n), lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for j in range(len(n.values)):
                def ap(m, j=j):
                    del m.values[j]
                if len(n.values) > 1:
                    yield i, f"drop operand {j} of " + ast.unparse(n), ap
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            yield i, f"const {v}", lambda m: setattr(m, "value", m.value + 1)
            if v not in (0, 1) :
                yield i, f"const {v} near", lambda m: setattr(m, "value", m.value - 1 if isinstance(m.value, int) else m.value * 1.01)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, f"const {n.value}", lambda m: setattr(m, "value", not m.value)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 24 and not n.value.isspace():
            yield i, f"str {n.value!r}", lambda m: setattr(m, "value", m.value + "_")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for j in range(len(n.args) - 1):
                    def ap(m, j=j):
                        m.args[j], m.args[j + 1] = m.args[j + 1], m.args[j]
                    yield i, f"swap args {j} " + ast.unparse(n), ap
            for j in range(len(n.keywords)):
                def ap(m, j=j):
                    del m.keywords[j]
                yield i, f"drop kw {j} " + ast.unparse(n), ap
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("deepcopy", "copy", "abs", "float", "int", "list", "sorted", "round", "max", "min", "str") and n.args:
                yield i, "unwrap " + ast.unparse(n), "arg0"
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "strip", "lower", "upper", "ravel", "flatten") and not n.args:
                yield i, "unwrap " + ast.unparse(n), "recv"
            if isinstance(f, ast.Attribute) and f.attr in ("abs", "clip", "deepcopy", "copy", "array", "asarray", "absolute") and n.args:
                yield i, "unwrap " + ast.unparse(n), "arg0"
        if isinstance(n, ast.Attribute) and n.attr in SW:
            yield i, "attr " + ast.unparse(n), lambda m: setattr(m, "attr", SW[m.attr])
        if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
            yield i, "name " + n.id, lambda m: setattr(m, "id", SW[m.id])
        if isinstance(n, ast.If):
            yield i, "negate if " + ast.unparse(n.test), lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, ast.IfExp):
            yield i, "negate ifexp " + ast.unparse(n.test), lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))
        if isinstance(n, (ast.Break,)):
            yield i, "break", "continue"
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield i, "return None for " + ast.unparse(n.value), lambda m: setattr(m, "value", ast.Constant(None))
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.Raise, ast.For)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def ap(m, j=j, fld=fld):
                            getattr(m, fld)[j] = ast.Pass()
                        yield i, f"delete {ast.unparse(s)[:90]}", ap
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield i, "slice " + ast.unparse(n), lambda m: setattr(m, "slice", ast.Slice(None, None, None))


def skip(desc):
    return "logger" in desc or "logging" in desc or "metrics" in desc


class Rep(ast.NodeTransformer):
    def __init__(self, tgt, new):
        self.t, self.n = tgt, new

    def visit(self, n):
        if n is self.t:
            return self.n
        return self.generic_visit(n)


def mutate(src, qual, idx, k):
    t = ast.parse(src)
    fn = find(t, qual)
    ss = [s for s in sites(fn)]
    i, desc, ap = ss[k]
    assert i == idx
    node = list(ast.walk(fn))[i]
    if callable(ap):
        ap(node)
    else:
        new = {"unnot": lambda: node.operand, "arg0": lambda: node.args[0], "recv": lambda: node.func.value, "continue": lambda: ast.Continue()}[ap]()
        Rep(node, new).visit(t)
    return ast.unparse(ast.fix_missing_locations(t)) + "\n"


def find(t, qual):
    p = qual.split(".")
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and [n.name] == p:
            return n
        if isinstance(n, ast.ClassDef) and n.name == p[0] and len(p) > 1:
            k = int(p[2]) if len(p) > 2 else 0
            return [c for c in n.body if isinstance(c, ast.FunctionDef) and c.name == p[1]][k]


def gen(out):
    with open(out, "w") as o:
        n = 0
        for f in sorted(glob.glob(ROOT + "**/*.py", recursive=True)):
            if "/formats/" in f or f.endswith("__init__.py"):
                continue
            t = ast.parse(open(f).read())
            qs = []
            for c in t.body:
                if isinstance(c, ast.FunctionDef):
                    qs.append(c.name)
                elif isinstance(c, ast.ClassDef):
                    seen = {}
                    for m in c.body:
                        if isinstance(m, ast.FunctionDef):
                            k = seen.get(m.name, 0)
                            seen[m.name] = k + 1
                            if m.name not in ("__repr__", "__str__"):
                                qs.append(f"{c.name}.{m.name}" + (f".{k}" if k else ""))
            for q in qs:
                fn = find(t, q)
                seen = set()
                for k, (i, d, ap) in enumerate(sites(fn)):
                    if skip(d):
                        continue
                    o.write(json.dumps(dict(id=n, file=f[len(ROOT):], qual=q, idx=i, k=k, desc=d[:160])) + "\n")
                    n += 1
        print(n, "mutants")


W = {}


def winit(q):
    i = q.get()
    d = f"/tmp/mut/w{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
    W["d"] = d


def apply(m):
    p = os.path.join(W["d"], "repo/src/aws/osml", m["file"])
    src = open(ROOT + m["file"]).read()
    new = mutate(src, m["qual"], m["idx"], m["k"])
    if new == ast.unparse(ast.parse(src)) + "\n":
        return p, src, False
    open(p, "w").write(new)
    return p, src, True


def run_tests(m):
    p, src, ok = apply(m)
    if not ok:
        return m["id"], "same", ""
    d = W["d"]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d + "/repo/src", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PROJ_NETWORK="OFF", PYTHONHASHSEED="0")
    try:
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "pytest_asyncio.plugin", "--timeout=60"] + stable(),
                           cwd=d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        res = "fail" if r.returncode else "pass"
    except subprocess.TimeoutExpired:
        res = "fail"
    finally:
        open(p, "w").write(src)
    return m["id"], res, ""


def stable():
    out = []
    for n in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        p, t = n.split("::")
        m, c = p.rsplit(".", 1)
        f = p.replace(".", "/") + ".py"
        out.append(f + "::" + t if os.path.exists("/repo/" + f) else m.replace(".", "/") + ".py::" + c + "::" + t)
    return sorted(out)


def props_of():
    sys.path.insert(0, VERIF)
    import importlib

    from pvc import env

    sys.path += [env.VT]
    from pvc import ctx

    reg = {}
    for f in sorted(glob.glob(VERIF + "/contracts/c[0-9]*.py")):
        importlib.import_module("contracts." + os.path.basename(f)[:-3])
    for h in ctx.HARNESSES:
        for fn in h.functions:
            reg.setdefault(fn, [])
            if h.prop not in reg[fn]:
                reg[fn].append(h.prop)
    return reg


def run_checks(m):
    p, src, ok = apply(m)
    d = W["d"]
    res = []
    try:
        for pr in m["props"]:
            try:
                c = subprocess.run([PY, "-m", "pvc.check", pr], cwd=d + "/verif", env=dict(os.environ, PVC_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", PVC_JOBS="2"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
                if c.returncode == 1 and v:
                    return m["id"], "caught", pr + (" nofail" if "no-failing" in v[0] else "")
                res.append(f"{pr}:{c.returncode}:{c.stdout.strip().splitlines()[-1][:100] if c.stdout.strip() else ''}")
            except subprocess.TimeoutExpired:
                res.append(pr + ":timeout")
    finally:
        open(p, "w").write(src)
    return m["id"], "MISSED", "; ".join(res)


def main():
    cmd, out = sys.argv[1:3]
    if cmd == "gen":
        return gen(out)
    if cmd == "one":
        m = [m for m in map(json.loads, open(out)) if m["id"] == int(sys.argv[3])][0]
        d = "/tmp/mut1"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        new = mutate(open(ROOT + m["file"]).read(), m["qual"], m["idx"], m["k"])
        old = ast.unparse(ast.parse(open(ROOT + m["file"]).read())) + "\n"
        open(d + "/repo/src/aws/osml/" + m["file"], "w").write(new)
        import difflib
        print("".join(difflib.unified_diff(old.splitlines(1), new.splitlines(1), n=2)))
        for pr in sys.argv[4:]:
            c = subprocess.run([PY, "-m", "pvc.check", pr, "-v"], cwd=VERIF, env=dict(os.environ, PVC_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("\n".join(x for x in c.stdout.splitlines() if not x.startswith("   ") or "ndecided" in x or "refut" in x or "con " in x and False)[-3000:], c.returncode)
        shutil.rmtree(d)
        return
    ms = [json.loads(x) for x in open(out)]
    nw = int(os.environ.get("MUT_WORKERS", "8"))
    mg = mp.Manager()
    q = mg.Queue()
    for i in range(nw):
        q.put(i)
    rf = out + "." + cmd
    done = {}
    if os.path.exists(rf):
        for x in open(rf):
            r = json.loads(x)
            done[r[0]] = r
    if cmd == "tests":
        todo = [m for m in ms if m["id"] not in done]
        fn = run_tests
    else:
        ok = {r[0] for r in map(json.loads, open(out + ".tests")) if r[1] == "pass"}
        reg = props_of()
        todo = []
        for m in ms:
            if m["id"] in ok and m["id"] not in done:
                q2 = ".".join(m["qual"].split(".")[:2])
                mod = m["file"][:-3].replace("/", ".")
                m["props"] = reg.get(mod + "." + q2) or sorted({p for k, v in reg.items() if k.startswith(mod + ".") for p in v})
                todo.append(m)
        random.Random(int(os.environ.get("MUT_SEED", "1"))).shuffle(todo)
        if len(sys.argv) > 3:
            todo = todo[: int(sys.argv[3])]
        fn = run_checks
    print(len(todo), "to do", flush=True)
    by = {m["id"]: m for m in ms}
    with mp.Pool(nw, winit, (q,)) as pool, open(rf, "a") as o:
        for r in pool.imap_unordered(fn, todo):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if cmd == "checks" and r[1] != "caught":
                m = by[r[0]]
                print(r[1], m["id"], m["file"], m["qual"], "|", m["desc"], "|", r[2], flush=True)


main()
