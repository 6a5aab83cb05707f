"""Development tool: behaviour-preserving AST rewrites of the whole code base, on which every check must stay quiet.
python tools/refactor.py [-p C01,C02] [-k] TRANSFORM...      (all when none is given)
Each transform is applied to a scratch copy of /repo/src; the stable tests must still pass there; then the checks run on it."""
import ast
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


class Blocks(ast.NodeTransformer):
    """calls self.block(stmts) on every statement list inside functions"""

    def generic_block(self, n):
        self.generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and self.depth:
                setattr(n, f, self.block(b))
        return n

    depth = 0

    def visit_FunctionDef(self, n):
        self.depth += 1
        self.fn = n
        r = self.generic_block(n)
        self.depth -= 1
        return r

    visit_If = visit_For = visit_While = visit_With = visit_Try = visit_ExceptHandler = generic_block

    def block(self, b):
        out = []
        for s in b:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        return [s]


N = [0]


def fresh(p="tmp"):
    N[0] += 1
    return f"{p}_{N[0]}"


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


class Temps(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = fresh("result")
            return [ast.Assign([name(t, 1)], s.value), ast.Return(name(t))]
        if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.args[0], (ast.Call, ast.BinOp, ast.List)):
            f = s.value.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name):
                t = fresh("arg")
                a = s.value.args[0]
                s.value.args[0] = name(t)
                return [ast.Assign([name(t, 1)], a), s]
        if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)):
            t = fresh("cond")
            a = ast.Assign([name(t, 1)], s.test)
            s.test = name(t)
            return [a, s]
        return [s]


class SwapIf(Blocks):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class Comp2Loop(Blocks):
    def stmt(self, s):
        if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g = s.value.generators[0]
            t = fresh("items")
            app = ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [s.value.elt], []))
            body = [app]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            pre = [ast.Assign([name(t, 1)], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
            s.value = name(t)
            return pre + [s]
        return [s]


class Enum(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        t = fresh("index")
        n.target = ast.Tuple([name(t, 1), n.target], ast.Store())
        n.iter = ast.Call(name("enumerate"), [n.iter], [])
        return n


class Index(ast.NodeTransformer):
    """for x in seq -> for i in range(len(seq)), where the sequence is made a list first"""

    def visit_For(self, n):
        self.generic_visit(n)
        t, q = fresh("index"), fresh("seq")
        pre = ast.Assign([name(q, 1)], ast.Call(name("list"), [n.iter], []))
        g = ast.Assign([n.target], ast.Subscript(name(q), name(t), ast.Load()))
        n.target = name(t, 1)
        n.iter = ast.Call(name("range"), [ast.Call(name("len"), [name(q)], [])], [])
        n.body = [g] + n.body
        return [pre, n]


class While(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if any(isinstance(x, ast.Continue) for x in ast.walk(n)) or n.orelse:
            return n
        t, q = fresh("index"), fresh("seq")
        pre = [ast.Assign([name(q, 1)], ast.Call(name("list"), [n.iter], [])), ast.Assign([name(t, 1)], ast.Constant(0))]
        g = ast.Assign([n.target], ast.Subscript(name(q), name(t), ast.Load()))
        inc = ast.AugAssign(name(t, 1), ast.Add(), ast.Constant(1))
        return pre + [ast.While(ast.Compare(name(t), [ast.Lt()], [ast.Call(name("len"), [name(q)], [])]), [g] + n.body + [inc], [])]


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Global, ast.Nonlocal)) and x is not n for x in ast.walk(n)):
            nested = True
        else:
            nested = False
        args = {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        if nested and any(isinstance(x, ast.FunctionDef) and x is not n for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_value"
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name += "_value"
        return n


class Extract(ast.NodeTransformer):
    """every function body moves to a helper"""

    def __init__(self):
        self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n)
        out = []
        for b in n.body:
            out += self.fn(b, True)
        n.body = out
        self.cls.pop()
        return n

    def visit_Module(self, n):
        out = []
        for b in n.body:
            if isinstance(b, ast.ClassDef):
                out.append(self.visit(b))
            else:
                out += self.fn(b, False)
        n.body = out
        return n

    def fn(self, b, method):
        if not isinstance(b, ast.FunctionDef) or b.args.vararg or b.args.kwarg or b.args.posonlyargs:
            return [b]
        deco = [d.id for d in b.decorator_list if isinstance(d, ast.Name)]
        if len(deco) != len(b.decorator_list) or any(d not in ("staticmethod",) for d in deco):
            return [b]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(b)):
            return [b]
        if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(b)):
            return [b]
        body = [s for s in b.body if not is_doc(s)]
        if not body or (len(body) == 1 and isinstance(body[0], (ast.Pass, ast.Raise))):
            return [b]
        import copy

        h = copy.deepcopy(b)
        h.name = "_do_" + (self.cls[-1].name.lower() + "_" if self.cls else "") + b.name.strip("_")
        h.body = body
        h.args.defaults = []
        h.args.kw_defaults = [None for _ in h.args.kw_defaults]
        names = [a.arg for a in b.args.args]
        kws = [ast.keyword(a.arg, name(a.arg)) for a in b.args.kwonlyargs]
        if method and "staticmethod" in deco:
            call = ast.Call(ast.Attribute(name(self.cls[-1].name), h.name, ast.Load()), [name(x) for x in names], kws)
        elif method:
            call = ast.Call(ast.Attribute(name(names[0]), h.name, ast.Load()), [name(x) for x in names[1:]], kws)
        else:
            call = ast.Call(name(h.name), [name(x) for x in names], kws)
        b.body = [s for s in b.body if is_doc(s)] + ([ast.Expr(call)] if b.name == "__init__" else [ast.Return(call)])
        return [h, b]


class ExtractTail(ast.NodeTransformer):
    """the right hand sides of assignments become nested helper functions"""

    def visit_FunctionDef(self, n):
        out = []
        for s in n.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and not any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(s)) \
                    and not any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(s)):
                h = fresh("_compute")
                out.append(ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []), [ast.Return(s.value)], [], None, None, []))
                s.value = ast.Call(name(h), [], [])
            out.append(s)
        n.body = out
        return n


class Guard(Blocks):
    """if c: return a; rest  ->  if c: return a else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[: i + 1]
        return b


class Unguard(Blocks):
    """if c: ...return else: rest  ->  if c: ...return; rest"""

    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                r = s.orelse
                s.orelse = []
                out += [s] + r
            else:
                out.append(s)
        return out


FL = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FL:
            return ast.Compare(n.comparators[0], [FL[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 2 and isinstance(n.comparators[0], ast.Name):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n


class Fmt(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        s, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.format_spec is not None and any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                    return n
                spec = ":" + "".join(x.value for x in v.format_spec.values) if v.format_spec is not None else ""
                s += "{" + ("" if v.conversion == -1 else "!" + chr(v.conversion)) + spec + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])


class Arith(ast.NodeTransformer):
    """x ** 2 -> x * x,  a - b -> a + (-b) for names, np.dot(a, b) -> a.dot(b), a * b -> b * a"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.Attribute) and isinstance(n.right, (ast.Attribute, ast.Name)):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "numpy"):
            if n.func.attr == "dot" and len(n.args) == 2:
                return ast.Call(name("np_dot__"), n.args, []) if 0 else ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
            if n.func.attr == "matmul" and len(n.args) == 2:
                return ast.Call(ast.Attribute(n.func.value, "dot", ast.Load()), n.args, n.keywords)
            if n.func.attr == "append" and len(n.args) == 2 and not n.keywords:
                return ast.Call(ast.Attribute(n.func.value, "concatenate", ast.Load()), [ast.List([ast.Call(ast.Attribute(n.func.value, "ravel", ast.Load()), [a], []) for a in n.args], ast.Load())], [])
        return n


class IfExp(Blocks):
    """x = a if c else b  ->  if statement; and if statements with one assignment each -> conditional expression"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            import copy

            v = s.value
            return [ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets), v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s.body[0], s.orelse[0])) \
                and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
            return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
        return [s]


class Not(ast.NodeTransformer):
    """De Morgan on conditions"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        if not getattr(self, "cond", 0):
            return n
        return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

    def visit_If(self, n):
        self.cond = 1
        n.test = self.visit(n.test)
        self.cond = 0
        n.body = [self.visit(x) for x in n.body]
        n.orelse = [self.visit(x) for x in n.orelse]
        return n


SIGS = {}


def signatures(trees):
    cnt = {}
    for t in trees.values():
        for c in ast.walk(t):
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        a = [x.arg for x in f.args.args]
                        if not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
                            a = a[1:]
                        nm = c.name if f.name == "__init__" else f.name
                        cnt.setdefault(nm, set()).add(tuple(a))
        for f in t.body:
            if isinstance(f, ast.FunctionDef):
                cnt.setdefault(f.name, set()).add(tuple(x.arg for x in f.args.args))
    SIGS.clear()
    skip = {"set", "get", "format", "build", "copy", "close", "items", "update", "find"}
    for k, v in cnt.items():
        if len(v) == 1 and k not in skip and not k.startswith("__"):
            SIGS[k] = list(v)[0]


class PosKw(ast.NodeTransformer):
    def sig(self, n):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        return SIGS.get(nm)

    def visit_Call(self, n):
        self.generic_visit(n)
        s = self.sig(n)
        if s and len(n.args) <= len(s) and not any(isinstance(a, ast.Starred) for a in n.args) and n.args:
            n.keywords = [ast.keyword(k, a) for k, a in zip(s, n.args)] + n.keywords
            n.args = []
        return n


class KwPos(PosKw):
    def visit_Call(self, n):
        self.generic_visit(n)
        s = self.sig(n)
        if s:
            kw = {k.arg: k.value for k in n.keywords}
            i = len(n.args)
            if None not in kw and not any(isinstance(a, ast.Starred) for a in n.args):
                while i < len(s) and s[i] in kw:
                    n.args.append(kw.pop(s[i]))
                    i += 1
                n.keywords = [k for k in n.keywords if k.arg in kw]
        return n


class Imports(ast.NodeTransformer):
    """from m import name -> import the module, use m.name (functions of math and scipy and of the package's own modules)"""

    def visit_Module(self, n):
        mp = {}
        out = []
        for s in n.body:
            if isinstance(s, ast.ImportFrom) and s.module != "__future__" and (s.module or "").split(".")[0] in ("math", "scipy", "dataclasses", "secrets", "shapely", "xml"):
                al = "mod_" + s.module.replace(".", "_")
                for a in s.names:
                    mp[a.asname or a.name] = (al, a.name)
                out.append(ast.Import([ast.alias(s.module, al)]))
            elif isinstance(s, ast.ImportFrom) and s.level and s.module and self.internal:
                al = "mod_" + s.module.replace(".", "_")
                for a in s.names:
                    mp[a.asname or a.name] = (al, a.name)
                out.append(ast.ImportFrom(None if s.module.count(".") == 0 else s.module.rsplit(".", 1)[0], [ast.alias(s.module.rsplit(".", 1)[-1], al)], s.level))
            else:
                out.append(s)
        n.body = out
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)}

        class R(ast.NodeTransformer):
            def visit_Name(self, m):
                if m.id in mp and m.id not in used:
                    return ast.Attribute(name(mp[m.id][0]), mp[m.id][1], m.ctx)
                return m

        n = R().visit(n)
        keep = [ast.Assign([name(k, 1)], ast.Attribute(name(a), b, ast.Load())) for k, (a, b) in mp.items() if k in used]
        if keep:
            i = max(j for j, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom)))
            n.body[i + 1:i + 1] = keep
        return n

    internal = False


class ImportsInt(Imports):
    internal = True


class NoAug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Noise(Blocks):
    """logging, type checks and no-op statements everywhere"""

    def block(self, b):
        out = []
        for s in b:
            if not is_doc(s):
                out.append(ast.parse("_unused = None").body[0])
            out.append(s)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                out.append(ast.parse(f"assert {s.targets[0].id} is {s.targets[0].id}").body[0])
        return out


class Pack(Blocks):
    """consecutive simple assignments to distinct names become a tuple assignment; unpacking becomes indexing is left alone"""

    def block(self, b):
        out = []
        for s in b:
            p = out[-1] if out else None
            if p is not None and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (p, s)):
                t = p.targets[0].id
                if not any(isinstance(x, ast.Name) and x.id == t for x in ast.walk(s)) and s.targets[0].id != t and not any(isinstance(x, (ast.Lambda,)) for x in ast.walk(p)):
                    out[-1] = ast.Assign([ast.Tuple([p.targets[0], s.targets[0]], ast.Store())], ast.Tuple([p.value, s.value], ast.Load()))
                    continue
            out.append(s)
        return out


class TryElse(ast.NodeTransformer):
    """try: a; return b except -> same with result variable;   with x: -> contextlib is left alone"""

    def visit_Try(self, n):
        self.generic_visit(n)
        if not n.orelse and not n.finalbody and isinstance(n.body[-1], ast.Return) and n.body[-1].value is not None:
            t = fresh("outcome")
            n.body[-1] = ast.Assign([name(t, 1)], n.body[-1].value)
            n.orelse = [ast.Return(name(t))]
        return n


T = dict(temps=Temps, swapif=SwapIf, comp2loop=Comp2Loop, enum=Enum, index=Index, whileloop=While, rename=Rename, extract=Extract, tail=ExtractTail,
         guard=Guard, unguard=Unguard, flip=Flip, fmt=Fmt, arith=Arith, ifexp=IfExp, demorgan=Not, poskw=PosKw, kwpos=KwPos, imports=Imports,
         importsint=ImportsInt, noaug=NoAug, noise=Noise, pack=Pack, tryelse=TryElse)


def transform(root, cls):
    fs = [f for f in sorted(glob.glob(root + "/src/aws/osml/**/*.py", recursive=True)) if "/formats/" not in f and not f.endswith("__init__.py")]
    trees = {f: ast.parse(open(f).read()) for f in fs}
    signatures(trees)
    n = 0
    for f, t in trees.items():
        before = ast.unparse(t)
        t = ast.fix_missing_locations(cls().visit(t))
        after = ast.unparse(ast.fix_missing_locations(t))
        n += before != after
        open(f, "w").write(after + "\n")
    return n


def tests(w, tmp):
    x = os.path.join(tmp, "j.xml")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(w, "src"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", PROJ_NETWORK="OFF", PYTHONHASHSEED="0")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "pytest_asyncio.plugin", "--timeout=300",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(tmp, "o.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], stdout=subprocess.DEVNULL)
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(out))["passed"])), r.stdout


def main():
    a = sys.argv[1:]
    props = [f"C{i:02d}" for i in range(1, 29)]
    keep = "-k" in a
    a = [x for x in a if x != "-k"]
    if "-p" in a:
        i = a.index("-p")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    for t in a or list(T):
        tmp = tempfile.mkdtemp(prefix="rf_")
        try:
            w = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            n = transform(w, T[t])
            miss, log = tests(w, tmp)
            print(f"== {t}: {n} files changed; tests {'ok' if not miss else 'BREAK ' + str(miss[:4])}", flush=True)
            if miss:
                print(log[-1500:])
            for p in props:
                try:
                    c = subprocess.run([PY, "-m", "pvc.check", p, "-v"], cwd=VERIF, env=dict(os.environ, PVC_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    print(f"   {p}: NO ANSWER in 900 s", flush=True)
                    continue
                ls = c.stdout.splitlines()
                s = [l for l in ls if l.startswith(p + ":")]
                und = [l.strip() for l in ls if "undecided:" in l or "structural" in l]
                if c.returncode or any(l.startswith("VIOLATION") for l in ls):
                    print(f"   {p}: ALARM rc={c.returncode}", *[l for l in ls if "VIOLATION" in l or "fails:" in l][:4], sep="\n      ", flush=True)
                elif und:
                    print(f"   {p}: quiet, undecided {len(und)}: {und[0][:220]}   {s}", flush=True)
        finally:
            if keep:
                print("kept", tmp)
            else:
                shutil.rmtree(tmp)


main()
