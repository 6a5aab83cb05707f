"""Mechanical extraction: the modules of aws.osml are loaded from /repo's current source through this AST pass.

Only the bodies of functions and lambdas are touched, and only like this:
  f(a, b)            ->  __pvc_call__(f, a, b)          library calls on symbolic arguments go to their model
  f"...{x:02d}"      ->  __pvc_fstr__(...)              strings over symbolic values
  a % b              ->  __pvc_mod__(a, b)
  for t in it: body  ->  for t in __pvc_iter__(it, ...): body     loop contracts / unrolling
  while c: body      ->  for _ in __pvc_while__(lambda: c, ...): body   loop contracts
  [e for t in it]    ->  __pvc_listcomp__(it, lambda s: [e for t in s])
  x op= e            ->  x = __pvc_aug__("op", x, e)    (in place where x supports it)
  a is b             ->  unchanged;  everything else runs unchanged in CPython.
On concrete arguments every hook calls the original operation.  Nothing is dropped.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SKIP_CALL = {"super", "locals", "globals", "vars", "eval", "exec", "__import__", "dir"}
PREFIX = "aws.osml"
SKIP_PREFIX = ("aws.osml.formats",)


class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.depth = 0
        self.qual = []
        self.loopn = self.whilen = 0
        self.locals = set()

    # -- scopes
    def visit_ClassDef(self, n):
        self.qual.append(n.name)
        if self.depth == 0:
            n.body = [self.visit(b) for b in n.body]
        else:
            self.generic_visit(n)
        self.qual.pop()
        return n

    def _func(self, n):
        self.qual.append(n.name)
        old_n, self.loopn = self.loopn, 0
        old_w, self.whilen = self.whilen, 0
        old_l, self.locals = self.locals, _locals(n)
        self.depth += 1
        n.body = self._block(n.body)
        self.depth -= 1
        self.loopn = old_n
        self.whilen = old_w
        self.locals = old_l
        self.qual.pop()
        return n

    def _block(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, n):
        self.depth += 1
        n.body = self.visit(n.body)
        self.depth -= 1
        return n

    def visit_AnnAssign(self, n):
        if self.depth and n.value is not None:
            n.value = self.visit(n.value)
        return n

    # -- expressions
    def visit_Call(self, n):
        if self.depth == 0:
            return self.generic_visit(n)
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in SKIP_CALL:
            return n
        return ast.copy_location(
            ast.Call(ast.Name("__pvc_call__", ast.Load()), [n.func] + n.args, n.keywords), n
        )

    def visit_JoinedStr(self, n):
        if self.depth == 0:
            return n
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                else:
                    spec = self.visit_JoinedStr(spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(
            ast.Call(ast.Name("__pvc_fstr__", ast.Load()), [ast.List(parts, ast.Load())], []), n
        )

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__pvc_mod__", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if self.depth == 0:
            return n
        it = n.generators[0].iter
        n.generators[0].iter = ast.Name("__pvc_s", ast.Load())
        lam = ast.Lambda(
            ast.arguments(posonlyargs=[], args=[ast.arg("__pvc_s")], kwonlyargs=[], kw_defaults=[], defaults=[]), n
        )
        return ast.copy_location(ast.Call(ast.Name("__pvc_listcomp__", ast.Load()), [it, lam], []), n)

    def _comp(self, n):
        self.generic_visit(n)
        if self.depth == 0:
            return n
        g = n.generators[0]
        g.iter = ast.Call(ast.Name("__pvc_iter0__", ast.Load()), [g.iter], [])
        return n

    visit_GeneratorExp = _comp
    visit_SetComp = _comp
    visit_DictComp = _comp

    def visit_AugAssign(self, n):
        """x op= e  ->  x = __pvc_aug__("op", x, e): numpy in-place operations with symbolic operands."""
        self.generic_visit(n)
        if self.depth == 0:
            return n
        op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//"}.get(type(n.op))
        if op is None or not _pure(n.target):
            return n
        import copy

        load = copy.deepcopy(n.target)
        load.ctx = ast.Load()
        return ast.copy_location(
            ast.Assign([n.target], ast.Call(ast.Name("__pvc_aug__", ast.Load()), [ast.Constant(op), load, n.value], [])), n
        )

    # -- loops
    def visit_For(self, n):
        if self.depth == 0:
            return self.generic_visit(n)
        self.loopn += 1
        lid = "%s:%s#%d" % (self.mod, ".".join(self.qual), self.loopn)
        n.iter = self.visit(n.iter)
        names = sorted(_assigned(n.body) & self.locals)
        n.body = self._block(n.body)
        n.orelse = self._block(n.orelse)
        get, setter, pre = _accessors(names, lid)
        n.iter = ast.Call(
            ast.Name("__pvc_iter__", ast.Load()),
            [n.iter, ast.Constant(lid), get, ast.Constant(tuple(names)), setter],
            [],
        )
        return pre + [n]

    def visit_While(self, n):
        if self.depth == 0 or n.orelse or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(n.test)):
            return self.generic_visit(n)
        self.whilen += 1
        lid = "%s:%s#w%d" % (self.mod, ".".join(self.qual), self.whilen)
        test = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), self.visit(n.test))
        names = sorted(_assigned(n.body) & self.locals)
        body = self._block(n.body)
        get, setter, pre = _accessors(names, lid)
        it = ast.Call(ast.Name("__pvc_while__", ast.Load()), [test, ast.Constant(lid), get, ast.Constant(tuple(names)), setter], [])
        return pre + [ast.copy_location(ast.For(ast.Name("__pvc_w", ast.Store()), it, body, []), n)]


def _pure(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, ast.Attribute):
        return _pure(t.value)
    if isinstance(t, ast.Subscript):
        return _pure(t.value) and not any(isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr)) for x in ast.walk(t.slice))
    return False


MUTATORS = {"append", "extend", "add", "update", "pop", "insert", "remove", "clear", "setdefault", "sort", "popitem"}


def _locals(fn):
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    out = set()
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            names.add(x.name)
            continue
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    names.add(y.target.id)
            continue
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out |= set(x.names)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        stack.extend(ast.iter_child_nodes(x))
    return names - out


def _base(x):
    while isinstance(x, (ast.Attribute, ast.Subscript)):
        x = x.value
    return x.id if isinstance(x, ast.Name) else None


def _assigned(body):
    names = set()
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(_base(x))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                names.add(_base(x.func))
    names.discard(None)
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                pass
    # names bound inside comprehensions stay local to them
    for b in body:
        for x in ast.walk(b):
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in x.generators:
                    for y in ast.walk(g.target):
                        if isinstance(y, ast.Name):
                            names.discard(y.id)
    return names


_cnt = [0]


def _accessors(names, lid):
    """Closures reading the locals of the enclosing function (for loop contracts)."""
    get = ast.Lambda(
        ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
        ast.Call(ast.Name("locals", ast.Load()), [], []),
    )
    # locals() inside a lambda only sees its own scope: read through a list of thunks instead
    thunks = [
        ast.Lambda(
            ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            ast.Name(nm, ast.Load()),
        )
        for nm in names
    ]
    get = ast.Tuple(thunks, ast.Load())
    if not names:
        return get, ast.Constant(None), []
    _cnt[0] += 1
    fn = "__pvc_set%d" % _cnt[0]
    body = [ast.Nonlocal(names)]
    for nm in names:
        body.append(
            ast.If(
                ast.Compare(ast.Constant(nm), [ast.In()], [ast.Name("__pvc_d", ast.Load())]),
                [
                    ast.Assign(
                        [ast.Name(nm, ast.Store())],
                        ast.Subscript(ast.Name("__pvc_d", ast.Load()), ast.Constant(nm), ast.Load()),
                    )
                ],
                [],
            )
        )
    fd = ast.FunctionDef(
        name=fn,
        args=ast.arguments(posonlyargs=[], args=[ast.arg("__pvc_d")], kwonlyargs=[], kw_defaults=[], defaults=[]),
        body=body,
        decorator_list=[],
        type_params=[],
    )
    return get, ast.Name(fn, ast.Load()), [fd]


def transform(src, filename, modname):
    tree = ast.parse(src, filename)
    tx = Tx(modname)
    tree = tx.visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        try:
            return compile(transform(src, path, fullname), path, "exec")
        except SyntaxError:
            return compile(ast.parse(src, path), path, "exec")

    def exec_module(self, module):
        from . import hooks

        module.__dict__.update(hooks.GLOBALS)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not name.startswith(PREFIX) or any(name.startswith(p) for p in SKIP_PREFIX):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return None
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=Loader(name, spec.origin), submodule_search_locations=spec.submodule_search_locations
        )


def install():
    sys.meta_path.insert(0, Finder())
