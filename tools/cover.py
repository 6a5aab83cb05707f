"""Which functions of the repository have no contract (hand-run)."""
import ast, glob, os, re, sys
sys.path.insert(0, "/verif")
root = os.environ.get("PVC_REPO", "/repo") + "/src/aws/osml/"
from pvc import env
sys.path += ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
from pvc import ctx
import importlib
reg = set()
for f in sorted(glob.glob("/verif/contracts/c[0-9]*.py")):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
for h in ctx.HARNESSES if hasattr(ctx, "HARNESSES") else ctx.REGISTRY:
    reg |= set(h.functions)
tot = 0
for f in sorted(glob.glob(root + "**/*.py", recursive=True)):
    m = f[len(root):-3].replace("/", ".")
    if m.startswith("formats") or m.endswith("__init__"):
        continue
    t = ast.parse(open(f).read())
    for n in t.body:
        fs = [(n.name, n)] if isinstance(n, ast.FunctionDef) else [(n.name + "." + c.name, c) for c in n.body if isinstance(c, ast.FunctionDef)] if isinstance(n, ast.ClassDef) else []
        for name, fn in fs:
            body = [b for b in fn.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
            if not body or (len(body) == 1 and isinstance(body[0], ast.Pass)):
                continue
            tot += 1
            if m + "." + name not in reg:
                print(m + "." + name)
print(tot, "functions;", len(reg), "under contract")
