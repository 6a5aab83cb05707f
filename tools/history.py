"""Development tool: changes that only show over a history of calls (memo shared by instances, memo handing out the same
object, identity of the last argument, changed arguments), planted one by one around every function under contract.
python tools/history.py OUT.jsonl [KIND…]   stable tests, then the checks of the properties over the function"""
import ast
import glob
import json
import multiprocessing as mp
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.argv, ARGS = ["x", "none", "/dev/null"], sys.argv
sys.path.insert(0, HERE)
import subprocess  # noqa: E402

src = open(os.path.join(HERE, "mutate.py")).read().replace("\n\nmain()", "\n")
ns = {"__file__": os.path.join(HERE, "mutate.py"), "__name__": "mutate"}
exec(compile(src, "mutate.py", "exec"), ns)
find, props_of, stable, ROOT, W, PY = (ns[k] for k in ("find", "props_of", "stable", "ROOT", "W", "PY"))

HELP = '''

def _hk(v):
    if hasattr(v, "coordinate"):
        return tuple(_hk(x) for x in v.coordinate)
    if hasattr(v, "tobytes"):
        return (v.shape, v.tobytes()) if getattr(v, "shape", ()) else float(v)
    if isinstance(v, (list, tuple)):
        return tuple(_hk(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, _hk(x)) for k, x in v.items())
    try:
        hash(v)
    except TypeError:
        return id(v)
    return v
'''
KINDS = {
    # results shared by all instances
    "shared": '''
def _hw(f):
    memo = {}
    def g(self, *a, **k):
        key = (tuple(_hk(x) for x in a), tuple((n, _hk(x)) for n, x in k.items()))
        if key not in memo:
            memo[key] = f(self, *a, **k)
        return memo[key]
    return g
''',
    # one memo per instance: the caller gets the same object again
    "alias": '''
def _hw(f):
    memo = {}
    def g(*a, **k):
        key = (id(a[0]) if METHOD else 0, tuple(_hk(x) for x in (a[1:] if METHOD else a)), tuple((n, _hk(x)) for n, x in k.items()))
        if key not in memo:
            memo[key] = (a[0] if METHOD else None, f(*a, **k))
        return memo[key][1]
    return g
''',
    # last argument recognised by identity
    "last": '''
def _hw(f):
    memo = []
    def g(*a, **k):
        if memo and len(memo[0]) == len(a) and all(p is q for p, q in zip(memo[0], a)) and memo[1].keys() == k.keys() and all(memo[1][n] is k[n] for n in k):
            return memo[2]
        r = f(*a, **k)
        memo[:] = [a, k, r]
        return r
    return g
''',
    # arguments changed after the result was computed
    "dirty": '''
def _hw(f):
    def g(*a, **k):
        r = f(*a, **k)
        for v in list(a[1:] if METHOD else a) + list(k.values()):
            c = getattr(v, "coordinate", v)
            if hasattr(c, "tobytes") and getattr(c, "shape", ()) and c.dtype.kind == "f" and c is not r:
                c += 1e-3
            elif isinstance(c, list) and c and isinstance(c[0], (int, float)):
                c[0] = c[0] + 1
            elif isinstance(c, list):
                c[:] = list(reversed(c))
            elif isinstance(c, dict):
                c.pop(next(iter(c), None), None)
        return r
    return g
''',
}


def plan(kinds):
    reg = props_of()
    out = []
    for f in sorted(glob.glob(ROOT + "**/*.py", recursive=True)):
        if "/formats/" in f or f.endswith("__init__.py"):
            continue
        t = ast.parse(open(f).read())
        mod = f[len(ROOT):-3].replace("/", ".")
        for q in sorted(k[len(mod) + 1:] for k in reg if k.startswith(mod + ".")):
            n = find(t, q)
            if n is None or q.endswith("__init__") or n.decorator_list and any(ast.unparse(d) not in ("staticmethod", "classmethod") for d in n.decorator_list):
                continue
            if not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(n)):
                continue
            static = any(ast.unparse(d) in ("staticmethod", "classmethod") for d in n.decorator_list)
            method = "." in q and not static
            nargs = len(n.args.args) - (1 if "." in q and not any(ast.unparse(d) == "staticmethod" for d in n.decorator_list) else 0)
            for k in kinds:
                if k == "shared" and not method:
                    continue
                if k in ("last", "dirty") and nargs == 0:
                    continue
                ret = ast.unparse(n.returns) if n.returns else ""
                if k == "alias" and ret in ("float", "int", "bool", "str", "bytes"):
                    continue
                out.append(dict(id=f"{k}:{mod}.{q}", file=f[len(ROOT):], qual=q, kind=k, method=method, static=static, cls=any(ast.unparse(d) == "classmethod" for d in n.decorator_list), props=reg[mod + "." + q]))
    return out


def text(m, src):
    tgt = m["qual"]
    w = f"{tgt} = " + ("staticmethod(_hw(%s))" % tgt if m["static"] else "_hw(%s)" % tgt)
    return src + HELP + KINDS[m["kind"]].replace("METHOD", str(m["method"])) + "\n\n" + w + "\n"


def work(m):
    d = W["d"]
    p = os.path.join(d, "repo/src/aws/osml", m["file"])
    src = open(ROOT + m["file"]).read()
    open(p, "w").write(text(m, src))
    res = []
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d + "/repo/src", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PROJ_NETWORK="OFF", PYTHONHASHSEED="0")
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "pytest_asyncio.plugin", "--timeout=60"] + stable(),
                               cwd=d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return m["id"], "tests", ""
        if r.returncode:
            return m["id"], "tests", ""
        for pr in m["props"]:
            try:
                c = subprocess.run([PY, "-m", "pvc.check", pr], cwd=d + "/verif", env=dict(os.environ, PVC_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", PVC_JOBS="2"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
                v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
                if c.returncode == 1 and v:
                    return m["id"], "caught", pr + (" nofail" if "no-failing" in v[0] else "")
                res.append(f"{pr}:{c.returncode}")
            except subprocess.TimeoutExpired:
                res.append(pr + ":timeout")
    finally:
        open(p, "w").write(src)
    return m["id"], "MISSED", "; ".join(res)


if __name__ == "__main__":
    out = ARGS[1]
    kinds = [k for k in ARGS[2:] if k in KINDS] or list(KINDS)
    todo = plan(kinds)
    only = [k for k in ARGS[2:] if k not in KINDS and k[0] != "-"]
    if only:
        todo = [m for m in todo if any(o in m["id"] for o in only)]
    done = {json.loads(x)[0] for x in open(out)} if os.path.exists(out) else set()
    todo = [m for m in todo if m["id"] not in done]
    print(len(todo), "to do", flush=True)
    if "-n" in ARGS:
        sys.exit()
    nw = int(os.environ.get("MUT_WORKERS", "8"))
    q = mp.Manager().Queue()
    for i in range(nw):
        q.put(f"h{i}")
    with mp.Pool(nw, ns["winit"], (q,)) as pool, open(out, "a") as o:
        for r in pool.imap_unordered(work, todo):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r[1] == "MISSED":
                print(*r, flush=True)
