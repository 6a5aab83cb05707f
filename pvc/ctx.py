"""Contracts are written once as harness functions over a Ctx and run in two modes.

SymCtx   : inputs are symbolic, ensure() is a proof obligation.
ConCtx   : inputs are numbers (solver counter-model or seeded sampler), the uninstrumented code runs in CPython,
           ensure() is evaluated (with a stated tolerance for floating point).
"""
from __future__ import annotations

import contextlib
import hashlib
import math
import random
import sys
import types
from fractions import Fraction

import numpy as np

HARNESSES = []


class Harness:
    def __init__(self, f, prop, name, functions, kw):
        self.f, self.prop, self.name, self.functions = f, prop, name, functions
        self.assume_nonzero = kw.pop("assume_nonzero", False)
        self.samples = kw.pop("samples", 60)
        self.bounded = kw.pop("bounded", None)  # a stated bound makes every obligation of the harness "bounded"
        self.sym = kw.pop("sym", True)
        self.loops = kw.pop("loops", [])
        self.limits = kw.pop("limits", {})
        self.trusted = kw.pop("trusted", [])
        self.tiers = kw.pop("tiers", ("quick", "thorough"))
        assert not kw, kw


def harness(prop, functions, name=None, **kw):
    def deco(f):
        HARNESSES.append(Harness(f, prop, name or f.__name__, functions, kw))
        return f

    return deco


class Reject(BaseException):
    """Concrete input does not satisfy the precondition."""


class Structural(Exception):
    """The code no longer has the shape the contract is attached to: the contract cannot be evaluated."""


class Fail(BaseException):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class Base:
    symbolic = False

    def vec(self, name, n, lo=-10.0, hi=10.0):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def arr(self, name, n, lo=-10.0, hi=10.0):
        v = self.vec(name, n, lo, hi)
        return np.array(v, dtype=object if self.symbolic else float)

    def ensure_vec(self, name, a, b, tol=1e-8, scale=None):
        a, b = list(a), list(b)
        self.ensure(name + " (length)", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.ensure_eq(f"{name}[{i}]", x, y, tol=tol, scale=scale)

    @contextlib.contextmanager
    def patch(self, owner, attr, repl):
        """Replace a callee by its contract in both modes."""
        if attr not in vars(owner) and not hasattr(owner, attr):
            raise Structural(f"{owner} has no {attr}")
        had = attr in vars(owner)
        old = vars(owner).get(attr)
        was = getattr(owner, attr)
        aliases = []
        if isinstance(owner, types.ModuleType) and not owner.__name__.startswith("aws.osml"):
            # names the repository bound to the library's object ("from library import name")
            for m in [m for k, m in list(sys.modules.items()) if k.startswith("aws.osml") and m is not None]:
                aliases += [(m, n) for n, v in list(vars(m).items()) if v is was]
        setattr(owner, attr, repl)
        for m, n in aliases:
            setattr(m, n, repl)
        try:
            yield True
        finally:
            for m, n in aliases:
                setattr(m, n, was)
            if had:
                setattr(owner, attr, old)
            else:
                delattr(owner, attr)

    def need(self, owner, *attrs):
        for x in attrs:
            if not hasattr(owner, x):
                raise Structural(f"{owner} has no {x}")

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:  # noqa: the repository's own exceptions
            self.last_exc = e
            return None, e


class SymCtx(Base):
    symbolic = True

    def __init__(self, path):
        from . import models

        self.p = path
        self.M = models
        self._stubs = []

    # inputs
    def real(self, name, lo=None, hi=None, gen=None):
        s = self.p.var(name, "real")
        self._bounds(s, lo, hi)
        return s

    def int(self, name, lo=None, hi=None, gen=None):
        s = self.p.var(name, "int")
        self._bounds(s, lo, hi)
        return s

    def bool(self, name):
        return self.p.var(name, "bool")

    def _bounds(self, s, lo, hi):
        from .sym import lift, num, toreal

        if lo is not None:
            self.p.assume((s >= lo).e)
        if hi is not None:
            self.p.assume((s <= hi).e)

    def choice(self, name, options):
        k = self.p.choose(len(options))
        self.p.notes.add(f"{name}={options[k]!r}"[:120])
        self.p.choices = getattr(self.p, "choices", {})
        self.p.choices[name] = k
        return options[k]

    def field(self, name, sort="real", lo=None, hi=None):
        """Text of a metadata field holding a number."""
        from .sym import SField

        v = self.int(name, lo, hi) if sort == "int" else self.real(name, lo, hi)
        f = SField(name, real=v if sort == "real" else None, integer=v if sort == "int" else None)
        return f, v

    def assume(self, cond):
        from .sym import boolterm

        self.p.assume(boolterm(cond))

    def relation(self, v, k, rhs):
        """assume v**k == rhs, also given to the algebraic back end (rhs over earlier symbols)."""
        from .sym import toreal

        lhs = v**k
        self.p.rewrites.append((v.e, k, toreal(rhs)))
        self.p.add((lhs == rhs).e, define=True)

    def define(self, name, rhs):
        """A fresh variable equal to rhs (keeps terms small)."""
        from .sym import toreal

        v = self.p.fresh(name)
        self.p.add(v.e == toreal(rhs), define=True)
        return v

    def definition(self, c):
        """An instance of the definition of a function of the contract (consistent for any value of the code's variables)."""
        from .sym import boolterm

        self.p.add(boolterm(c), define=True)

    def uf(self, name, arity, lo=-3.0, hi=3.0):
        import z3

        from .sym import Sym, toreal

        f = z3.Function(name, *([z3.RealSort()] * (arity + 1)))
        return lambda *a: Sym(f(*[toreal(x) for x in a]))

    # arrays of arbitrary shape
    def array(self, name, shape, lo=None, hi=None, dtype=float):
        import z3

        from .arrays import SArr
        from .sym import Sym, num

        isint = np.issubdtype(np.dtype(dtype), np.integer)
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [z3.IntSort() if isint else z3.RealSort()]))
        if isint:
            inf = np.iinfo(dtype)
            lo = max(inf.min, lo) if lo is not None else inf.min
            hi = inf.max if hi is None else hi if not isinstance(hi, (int, float)) else min(inf.max, hi)
        p, seen = self.p, set()

        def at(*idx):
            t = f(*[num(i) for i in idx])
            if t.get_id() not in seen:
                seen.add(t.get_id())
                p.keep.append(t)
                if lo is not None:
                    p.add(t >= num(lo), define=True)
                if hi is not None:
                    p.add(t <= num(hi), define=True)
            return Sym(t)

        return SArr(shape, at, dtype, name)

    def unique(self, text):
        """A string not used on any other path (contents of caches in the code's modules are not carried over)."""
        return f"{text} {self.p.run.paths}"

    def seq(self, name, n, fn):
        """A list of n elements fn(0), fn(1), ... (n arbitrary)."""
        from .sym import SymSeq

        return SymSeq(n, fn, name)

    def length(self, a):
        from .arrays import SArr
        from .sym import SymSeq

        return a.length if isinstance(a, SymSeq) else a.shape[0] if isinstance(a, SArr) else len(a)

    def index(self, name, shape):
        """An arbitrary index of an array of the shape."""
        from . import arrays
        from .sym import num

        idx = []
        for k, d in enumerate(shape):
            if not isinstance(d, arrays.Sym) and d == 1:
                idx.append(0)
                continue
            i = self.p.var(f"{name}{k}", "int")
            self.p.add(arrays.z3.And(i.e >= 0, i.e < num(d)))
            idx.append(i)
        arrays.probe(tuple(shape), idx)
        return tuple(idx)

    def at(self, a, idx):
        from .arrays import SArr

        return a.at(*idx) if isinstance(a, SArr) else a[tuple(idx)]

    def build(self, shape, f, dtype=float):
        from .arrays import SArr

        return SArr(shape, f, dtype, "spec")

    def reduce(self, kind, a):
        from . import arrays

        return arrays.reduce(kind, a)

    def is_array(self, a):
        from .arrays import SArr

        return isinstance(a, (SArr, np.ndarray))

    def same_shape(self, a, b):
        from . import arrays

        return len(a) == len(b) and all(arrays._same_dim(x, y) for x, y in zip(a, b))

    def forall(self, lo, hi, fn):
        """Assumes fn(j) for every lo <= j < hi (stated at the index terms met on the path)."""
        from . import loops

        loops.assume(loops.ForAll(lo, hi, fn))

    def point(self, *ts):
        from . import loops

        loops.point(*ts)

    def known(self, c):
        """True when the condition follows from the facts of the path."""
        from . import arrays
        from .sym import boolterm

        return arrays.decided(arrays.z3.simplify(boolterm(c))) is True

    def same(self, a, b):
        """True when the two values are provably equal as terms (algebra only, no path condition)."""
        from . import algebra
        from .sym import toreal

        x, y = toreal(a), toreal(b)
        if x.eq(y):
            return True
        try:
            return bool(algebra.prove_equalities([(x, y)], self.p.rewrites, self.p.pc, budget=4.0))
        except algebra.TooBig:
            return False

    def fresh(self, name, sort="real"):
        return self.p.fresh(name, sort)

    # math on either mode
    def sqrt(self, x):
        return self.M._msqrt(math.sqrt, (x,), {}) if self.M.has_sym(x) else math.sqrt(x)

    def norm(self, v):
        return self.M._norm(np.linalg.norm, (np.array(list(v), dtype=object),), {})

    def sin(self, x):
        from .sym import Sym, fn

        return fn("sin", x) if isinstance(x, Sym) else math.sin(x)

    def cos(self, x):
        from .sym import Sym, fn

        return fn("cos", x) if isinstance(x, Sym) else math.cos(x)

    def log10(self, x):
        from .sym import Sym, fn

        return fn("log10", x) if isinstance(x, Sym) else math.log10(x)

    def radians(self, x):
        from .sym import Sym, radians

        return radians(x) if isinstance(x, Sym) else math.radians(x)

    def degrees(self, x):
        from .sym import Sym, degrees

        return degrees(x) if isinstance(x, Sym) else math.degrees(x)

    def floor(self, x):
        from .sym import Sym, floor_int

        return floor_int(x) if isinstance(x, Sym) else math.floor(x)

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.M.min2(r, x)
        return r

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.M.max2(r, x)
        return r

    def ite(self, c, a, b):
        return self.M.ite(c, a, b)

    def float(self, x):
        return self.M.to_float(x)

    def and_(self, *cs):
        import z3

        from .sym import Sym, boolterm

        return Sym(z3.And(*[boolterm(c) for c in cs]))

    def or_(self, *cs):
        import z3

        from .sym import Sym, boolterm

        return Sym(z3.Or(*[boolterm(c) for c in cs]))

    def not_(self, c):
        import z3

        from .sym import Sym, boolterm

        return Sym(z3.Not(boolterm(c)))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def near(self, a, b, tol=1e-6):
        """equal (concrete runs: up to rounding)"""
        return a == b

    def is_int(self, x):
        """x is integer valued (any numeric type)."""
        import z3

        from .sym import Sym

        if isinstance(x, Sym):
            return True if x.is_int else Sym(z3.IsInt(x.e))
        return float(x) == int(x)

    # obligations
    def ensure_exists(self, name, n, fn):
        """fn(j) for some 0 <= j < n: shown at one of the index terms of the path."""
        import z3

        from .sym import boolterm, num

        self.p.approx.add("witness")
        self.p.check(name, z3.Or(False, *[z3.And(num(t) >= 0, num(t) < num(n), boolterm(fn(t))) for t in list(self.p.points)]))

    def ensure(self, name, cond, tol=None):
        from .sym import boolterm

        self.p.check(name, boolterm(cond))

    def ensure_eq(self, name, a, b, tol=1e-8, scale=None):
        from .sym import Sym, boolterm

        if isinstance(a, (Sym,)) or isinstance(b, (Sym,)):
            c = a == b if isinstance(a, Sym) else b == a
            self.p.check(name, boolterm(c))
        else:
            if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
                ok = a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
            else:
                ok = a == b
            self.p.check(name, boolterm(bool(ok)))

    def ensure_le(self, name, a, b, tol=0.0, scale=None):
        self.ensure(name, a <= b)

    def ensure_raises(self, name, exc, f, *a, **k):
        v, e = self.attempt(f, *a, **k)
        self.ensure(name, isinstance(e, exc))

    def reached(self, what):
        self.p.run.reached.add(what)

    def frame(self, name, arr, before):
        self.ensure_vec(name, arr, before)

    @contextlib.contextmanager
    def stub(self, owner, attr, repl):
        """Replace a callee by its contract for the duration (absent callees are skipped: they are then inlined)."""
        if not hasattr(owner, attr):
            yield False
            return
        old = owner.__dict__.get(attr, getattr(owner, attr))
        setattr(owner, attr, repl)
        try:
            yield True
        finally:
            setattr(owner, attr, old)

    @contextlib.contextmanager
    def lib(self, func, repl):
        """Assumed contract of a library function: repl(*args, **kw)."""
        M = self.M.MODELS
        old = M.get(func)
        M[func] = lambda f, a, k: repl(*a, **k)
        M[func].contract = True
        try:
            yield True
        finally:
            if old is None:
                M.pop(func, None)
            else:
                M[func] = old


class ConCtx(Base):
    def __init__(self, rng, values=None, tolmul=1.0):
        self.rng = rng
        self.values = values or {}
        self.used = {}
        self.checked = 0
        self.names = set()
        self.ufs = {}
        self.choices = {}

    def _given(self, name):
        return self.values.get(name)

    def real(self, name, lo=None, hi=None, gen=None):
        if name in self.used:
            return self.used[name]
        g = self._given(name)
        if g is not None:
            v = float(g)
        elif gen is not None:
            v = float(gen(self.rng))
        else:
            a = -10.0 if lo is None else float(lo)
            b = a + 20.0 if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 20.0
            r = self.rng.random()
            if r < 0.05:
                v = a if lo is not None else 0.0
            elif r < 0.10:
                v = b if hi is not None else 0.0
            elif r < 0.15 and a <= 0 <= b:
                v = 0.0
            elif r < 0.25 and b - a >= 2:
                v = float(self.rng.randint(math.ceil(a), math.floor(b)))
            else:
                v = self.rng.uniform(a, b)
        self.used[name] = v
        self._bounds(v, lo, hi)
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        if name in self.used:
            return self.used[name]
        g = self._given(name)
        if g is not None:
            v = int(g)
        elif gen is not None:
            v = int(gen(self.rng))
        else:
            a = -5 if lo is None else int(lo)
            b = a + 10 if hi is None else int(hi)
            if lo is None and hi is not None:
                a = b - 10
            r = self.rng.random()
            v = a if r < 0.08 else b if r < 0.16 else self.rng.randint(a, b)
        self.used[name] = v
        self._bounds(v, lo, hi)
        return v

    def bool(self, name):
        if name in self.used:
            return self.used[name]
        g = self._given(name)
        v = bool(g) if g is not None else self.rng.random() < 0.5
        self.used[name] = v
        return v

    def _bounds(self, v, lo, hi):
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()

    def choice(self, name, options):
        k = self.values.get("choice:" + name)
        if k is None:
            k = self.rng.randrange(len(options))
        k = min(int(k), len(options) - 1)
        self.used["choice:" + name] = k
        return options[k]

    def field(self, name, sort="real", lo=None, hi=None):
        if sort == "int":
            v = self.int(name, lo, hi)
            return str(v), v
        v = self.real(name, lo, hi)
        return repr(v), v

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Reject()

    def relation(self, v, k, rhs):
        if abs(v**k - rhs) > 1e-9:
            raise Reject()

    def define(self, name, rhs):
        return rhs

    def uf(self, name, arity, lo=-3.0, hi=3.0):
        h = int(hashlib.sha256((name + str(self.used.get("__uf__", ""))).encode()).hexdigest()[:12], 16)
        if "__ufseed__" not in self.used:
            g = self.values.get("__ufseed__")
            self.used["__ufseed__"] = int(g) if g is not None else self.rng.randrange(1 << 30)
        r = random.Random(h ^ self.used["__ufseed__"])
        co = [r.uniform(0.3, 1.0) * r.choice((-1, 1)) for _ in range(arity)]
        ph = r.uniform(0, 6)
        mid, amp = (lo + hi) / 2, (hi - lo) / 2

        def f(*a):
            s = sum(c * float(x) for c, x in zip(co, a)) + ph
            return mid + amp * math.sin(s)

        return f

    sqrt = staticmethod(math.sqrt)

    def array(self, name, shape, lo=None, hi=None, dtype=float):
        dt = np.dtype(dtype)
        isint = np.issubdtype(dt, np.integer)
        if isint:
            inf = np.iinfo(dt)
            lo, hi = max(inf.min, lo if lo is not None else inf.min), min(inf.max, hi if hi is not None else inf.max)
        lo = -100.0 if lo is None else lo
        hi = 100.0 if hi is None else hi
        if "__ufseed__" not in self.used:
            g = self.values.get("__ufseed__")
            self.used["__ufseed__"] = int(g) if g is not None else self.rng.randrange(1 << 30)
        h = int(hashlib.sha256(name.encode()).hexdigest()[:12], 16)
        r = np.random.default_rng(h ^ self.used["__ufseed__"])
        m = r.random()
        shape = tuple(int(d) for d in shape)
        if m < 0.08:
            v = np.full(shape, min(max(0, lo), hi))
        elif m < 0.14:
            v = np.full(shape, lo + (hi - lo) * r.random())
        elif m < 0.3:
            v = np.where(r.random(shape) < 0.5, lo, hi)
        elif m < 0.5:
            v = np.floor(lo + (hi - lo) * r.random(shape))
        elif m < 0.65:
            v = np.minimum(np.maximum(np.floor(r.random(shape) * 9) - 3, lo), hi)
        else:
            v = lo + (hi - lo) * r.random(shape)
        return (np.floor(v) if isint else v).astype(dt)

    def point(self, *ts):
        pass

    def seq(self, name, n, fn):
        return [fn(i) for i in range(int(n))]

    def length(self, a):
        return len(a)

    def index(self, name, shape):
        return tuple(self.int(f"{name}{k}", 0, int(d) - 1) if int(d) > 1 else 0 for k, d in enumerate(shape))

    def at(self, a, idx):
        v = a[tuple(idx)]
        return v.item() if isinstance(v, np.generic) else v

    def build(self, shape, f, dtype=float):
        out = np.empty(tuple(int(d) for d in shape), dtype=dtype)
        for i in np.ndindex(out.shape):
            out[i] = f(*i)
        return out

    def reduce(self, kind, a):
        return {"min": np.min, "max": np.max, "mean": np.mean}[kind](np.asarray(a, dtype=float)).item()

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def same_shape(self, a, b):
        return tuple(a) == tuple(b)

    def same(self, a, b):
        return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))

    def norm(self, v):
        return float(np.linalg.norm(np.array(list(v), dtype=float)))

    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    log10 = staticmethod(math.log10)
    radians = staticmethod(math.radians)
    degrees = staticmethod(math.degrees)
    floor = staticmethod(math.floor)

    def min(self, *a):
        return min(a)

    def max(self, *a):
        return max(a)

    def ite(self, c, a, b):
        return a if c else b

    def float(self, x):
        return float(x)

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def near(self, a, b, tol=1e-6):
        return abs(a - b) <= tol * (1 + abs(b))

    def is_int(self, x):
        return float(x) == math.floor(float(x))

    def ensure_exists(self, name, n, fn):
        self.ensure(name, any(bool(fn(j)) for j in range(int(n))))

    def ensure(self, name, cond, tol=None):
        self.checked += 1
        self.names.add(name)
        if not bool(np.all(cond)):
            raise Fail(name, "condition is false")

    def ensure_eq(self, name, a, b, tol=1e-8, scale=None):
        self.checked += 1
        self.names.add(name)
        if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number)):
            a, b = float(a), float(b)
            sc = max(1.0, abs(a), abs(b), abs(scale or 0.0))
            if not (a == b or abs(a - b) <= tol * sc):
                raise Fail(name, f"{a!r} != {b!r}")
        else:
            if a is not b and not bool(np.all(a == b)):
                raise Fail(name, f"{a!r} != {b!r}")

    def ensure_le(self, name, a, b, tol=0.0, scale=None):
        self.checked += 1
        self.names.add(name)
        if not a <= b + tol * max(1.0, abs(a), abs(b), abs(scale or 0.0)):
            raise Fail(name, f"not {a!r} <= {b!r}")

    def ensure_raises(self, name, exc, f, *a, **k):
        v, e = self.attempt(f, *a, **k)
        self.ensure(name, isinstance(e, exc))

    def reached(self, what):
        pass

    def frame(self, name, arr, before):
        self.ensure_vec(name, arr, before)

    @contextlib.contextmanager
    def stub(self, owner, attr, repl):
        # the real callee runs
        yield False

    @contextlib.contextmanager
    def lib(self, func, repl):
        yield False
