"""Assumed contracts of library functions on symbolic arguments (the trusted base; see TRUSTED)."""
from __future__ import annotations

import builtins
import copy
import math
import operator
import types

import numpy as np
import z3

from . import hooks, loops
from .sym import (
    PI_Q,
    ST,
    SField,
    SStr,
    Sym,
    SymArray,
    SymSeq,
    Unsupported,
    _py,
    boolterm,
    cval,
    degrees,
    floor_int,
    fn,
    has_sym,
    lift,
    num,
    qval,
    radians,
    round_sym,
    sqrt,
    toreal,
    trunc_int,
)

MODELS = {}
METHOD_MODELS = {}
TRUSTED = {
    "float arithmetic": "IEEE-754 doubles are treated as mathematical reals (concrete floats as the decimal they print as)",
}
USED = set()


def model(*fs, trust=None):
    def deco(m):
        for f in fs:
            MODELS[f] = m
        return m

    return deco


def lookup(f):
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        if isinstance(s, np.ndarray):
            return METHOD_MODELS.get(("ndarray", f.__name__))
        if isinstance(s, str):
            return METHOD_MODELS.get(("str", f.__name__))
        if isinstance(s, (list, tuple)):
            return METHOD_MODELS.get(("list", getattr(f, "__name__", "")))
        if isinstance(s, np.random.Generator):
            return None
    return None


# ------------------------------------------------------------------ builtins
def to_float(v):
    if isinstance(v, SField):
        return v.as_real()
    if isinstance(v, Sym):
        return Sym(toreal(v))
    if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
        return to_float(v.item())
    if isinstance(v, SStr):
        if len(v.chunks) == 1 and not isinstance(v.chunks[0], str):
            return to_float(v.chunks[0][0])
        raise Unsupported("float of symbolic string")
    return builtins.float(v)


def to_int(v):
    if isinstance(v, SField):
        return v.as_int()
    if isinstance(v, Sym):
        return trunc_int(v)
    if isinstance(v, np.ndarray) and v.dtype == object and v.size == 1:
        return to_int(v.item())
    if isinstance(v, SStr):
        if len(v.chunks) == 1 and not isinstance(v.chunks[0], str):
            return to_int(v.chunks[0][0])
        raise Unsupported("int of symbolic string")
    return builtins.int(v)


@model(builtins.float, np.float64, np.float32)
def _float(f, a, k):
    if a and has_sym(a[0]):
        if isinstance(a[0], SymArray):
            return NotImplemented
        if f is np.float32 and isinstance(a[0], (list, np.ndarray)):
            return NotImplemented
        return to_float(a[0])
    return NotImplemented


@model(builtins.int, np.int32, np.int64)
def _int(f, a, k):
    if a and has_sym(a[0]):
        return to_int(a[0])
    return NotImplemented


@model(builtins.bool)
def _bool(f, a, k):
    if a and isinstance(a[0], Sym):
        return Sym(boolterm(a[0]))
    return NotImplemented


@model(builtins.round)
def _round(f, a, k):
    if a and isinstance(a[0], Sym):
        nd = a[1] if len(a) > 1 else k.get("ndigits")
        return round_sym(a[0], nd)
    return NotImplemented


@model(builtins.abs, np.abs, np.fabs, math.fabs)
def _abs(f, a, k):
    return ew1(lambda v: abs(v), a[0]) if has_sym(a[0]) or isobj(a[0]) else NotImplemented


@model(builtins.len)
def _len(f, a, k):
    if isinstance(a[0], SymSeq):
        return a[0].length if not hasattr(a[0], "clen") else a[0].clen
    if isinstance(a[0], SStr):
        raise Unsupported("len of symbolic string")
    return NotImplemented


@model(builtins.range)
def _range(f, a, k):
    if any(isinstance(x, Sym) for x in a):
        cs = [cval(z3.simplify(num(x))) if isinstance(x, Sym) else x for x in a]
        if all(c is not None for c in cs) and not any(isinstance(x, Sym) and x.is_real for x in a):
            return range(*[int(c) for c in cs])
        return loops.sym_range(*a)
    return NotImplemented


@model(builtins.isinstance)
def _isinstance(f, a, k):
    v, c = a
    if isinstance(v, Sym):
        cs = c if isinstance(c, tuple) else (c,)
        for x in cs:
            if isinstance(x, types.UnionType):
                cs = cs + x.__args__
        kind = (
            (bool, int) if v.is_bool else (int,) if v.is_int else (float, np.floating, np.float64)
        )
        import numbers

        kind = kind + ((numbers.Number, numbers.Real) if True else ()) + ((numbers.Integral,) if v.is_int else ())
        return any(x in kind or x is object for x in cs)
    if isinstance(v, (SStr, SField)):
        cs = c if isinstance(c, tuple) else (c,)
        return any(x is str or x is object for x in cs)
    return NotImplemented


@model(builtins.str)
def _str(f, a, k):
    if a and isinstance(a[0], Sym):
        return SStr([(a[0], "")])
    if a and isinstance(a[0], (SStr, SField)):
        return a[0]
    return NotImplemented


@model(builtins.format)
def _format(f, a, k):
    return hooks.fmt(a[0], a[1] if len(a) > 1 else "")


@model(builtins.enumerate)
def _enumerate(f, a, k):
    a = tuple(loops.as_seq(x) for x in a)
    if isinstance(a[0], SymSeq):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        s = a[0]
        return SymSeq(s.length, lambda i: (i + start if not (isinstance(start, int) and start == 0) else i, s.get(i)), "enumerate")
    return NotImplemented


@model(builtins.zip)
def _zip(f, a, k):
    a = tuple(loops.as_seq(x) for x in a)
    if any(isinstance(x, SymSeq) for x in a):
        if not all(isinstance(x, SymSeq) for x in a):
            raise Unsupported("zip of symbolic and concrete sequences")
        n = a[0].length
        for x in a[1:]:
            n = Sym(z3.If(num(x.length) < num(n), num(x.length), num(n)))
        return SymSeq(n, lambda i: tuple(x.get(i) for x in a), "zip")
    return NotImplemented


@model(builtins.list, builtins.tuple)
def _list(f, a, k):
    a = tuple(loops.as_seq(x) for x in a)
    if a and isinstance(a[0], SymSeq):
        return a[0]
    return NotImplemented


@model(builtins.reversed)
def _reversed(f, a, k):
    a = tuple(loops.as_seq(x) for x in a)
    if isinstance(a[0], SymSeq):
        s = a[0]
        return SymSeq(s.length, lambda i: s.get(s.length - 1 - i), "reversed")
    return NotImplemented


@model(builtins.map)
def _map(f, a, k):
    if len(a) == 2 and isinstance(a[1], SymSeq):
        fn_ = a[0]
        return loops.seq_map(a[1], lambda s: [hooks.call(fn_, x) for x in s])
    if len(a) >= 2 and any(has_sym(list(x) if isinstance(x, (list, tuple)) else x) for x in a[1:]):
        return [hooks.call(a[0], *t) for t in zip(*a[1:])]
    return NotImplemented


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    x, y = num(a), num(b)
    if z3.is_int(x) != z3.is_int(y):
        x, y = toreal(a), toreal(b)
    if x.eq(y):
        return Sym(x)
    return Sym(z3.If(c.e, x, y))


def _is_numeric(v):
    return isinstance(v, (int, float, np.number, Sym)) and not isinstance(v, complex)


def min2(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        for u, v in ((a, b), (b, a)):
            if isinstance(u, (float, np.floating)) and math.isinf(u):
                return v if u > 0 else u
        return ite(a <= b if isinstance(a, Sym) else b >= a, a, b)
    return min(a, b)


def max2(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        for u, v in ((a, b), (b, a)):
            if isinstance(u, (float, np.floating)) and math.isinf(u):
                return u if u > 0 else v
        return ite(a >= b if isinstance(a, Sym) else b <= a, a, b)
    return max(a, b)


def _minmax(two):
    def m(f, a, k):
        if "key" in k:
            return NotImplemented
        vals = a
        if len(a) == 1:
            if isinstance(a[0], SymSeq):
                return loops_minmax(a[0], two)
            if isinstance(a[0], (list, tuple)):
                vals = a[0]
            elif isinstance(a[0], np.ndarray):
                vals = list(a[0])
            else:
                vals = list(a[0])
                if not any(isinstance(v, Sym) for v in vals):
                    return f(vals, **k)
        if len(vals) and all(_is_numeric(v) for v in vals) and any(isinstance(v, Sym) for v in vals):
            r = vals[0]
            for v in vals[1:]:
                r = two(r, v)
            return r
        return NotImplemented

    return m


def loops_minmax(seq, two):
    """The value of some element, not above (below) any."""
    p = ST.path
    if not p.branch(num(seq.length) > 0):
        raise ValueError("arg is an empty sequence")
    w = p.fresh("arg", "int")
    p.add(z3.And(w.e >= 0, w.e < num(seq.length)))
    v = seq.get(w)
    if not isinstance(v, Sym):
        raise Unsupported("min/max of a symbolic sequence of objects")
    p.approx.add("extreme of a sequence")
    loops.point(w)
    loops.assume(loops.ForAll(0, seq.length, (lambda j: v <= seq.get(j)) if two is min2 else (lambda j: v >= seq.get(j))))
    return v


MODELS[builtins.min] = _minmax(min2)
MODELS[builtins.max] = _minmax(max2)


@model(builtins.sum)
def _sum(f, a, k):
    if isinstance(a[0], (list, tuple)) and has_sym(a[0]):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for v in a[0]:
            r = r + v
        return r
    return NotImplemented


@model(builtins.sorted)
def _sorted(f, a, k):
    if isinstance(a[0], SymSeq):
        raise Unsupported("sorted of symbolic sequence")
    return NotImplemented


@model(builtins.any)
def _any(f, a, k):
    return NotImplemented


@model(builtins.type)
def _type(f, a, k):
    if len(a) == 1 and isinstance(a[0], Sym):
        return bool if a[0].is_bool else int if a[0].is_int else float
    return NotImplemented


# ------------------------------------------------------------------ math
@model(math.sqrt)
def _msqrt(f, a, k):
    return sqrt(a[0]) if has_sym(a[0]) else NotImplemented


@model(math.radians, math.degrees)
def _mdeg(f, a, k):
    if isinstance(a[0], (Sym,)):
        return radians(a[0]) if f is math.radians else degrees(a[0])
    return NotImplemented


@model(math.floor)
def _mfloor(f, a, k):
    return floor_int(a[0]) if isinstance(a[0], Sym) else NotImplemented


@model(math.ceil)
def _mceil(f, a, k):
    return -floor_int(-a[0]) if isinstance(a[0], Sym) else NotImplemented


@model(math.trunc)
def _mtrunc(f, a, k):
    return trunc_int(a[0]) if isinstance(a[0], Sym) else NotImplemented


@model(math.isclose)
def _isclose(f, a, k):
    if has_sym(a):
        rt = k.get("rel_tol", 1e-9)
        at = k.get("abs_tol", 0.0)
        x, y = a[0], a[1]
        return abs(x - y) <= max2(rt * max2(abs(x), abs(y)), at)
    return NotImplemented


@model(math.isfinite)
def _isfin(f, a, k):
    return True if isinstance(a[0], Sym) else NotImplemented


@model(math.isnan, math.isinf, np.isnan, np.isinf)
def _isnan(f, a, k):
    return False if isinstance(a[0], Sym) else NotImplemented


@model(math.pow, np.power)
def _mpow(f, a, k):
    if has_sym(a) and not isinstance(a[0], np.ndarray):
        return a[0] ** a[1]
    return NotImplemented


@model(math.copysign)
def _copysign(f, a, k):
    if has_sym(a):
        return ite(Sym(num(a[1]) >= 0) if isinstance(a[1], Sym) else a[1] >= 0, abs(a[0]), -abs(a[0]))
    return NotImplemented


@model(math.fmod)
def _fmod(f, a, k):
    if has_sym(a):
        q = trunc_int(a[0] / a[1])
        return a[0] - a[1] * q
    return NotImplemented


@model(math.modf)
def _modf(f, a, k):
    if has_sym(a):
        t = Sym(z3.ToReal(trunc_int(a[0]).e))
        return (a[0] - t, t)
    return NotImplemented


@model(math.hypot)
def _hypot(f, a, k):
    if has_sym(a):
        r = 0
        for v in a:
            r = r + v * v
        return sqrt(r)
    return NotImplemented


def isobj(v):
    return isinstance(v, np.ndarray) and v.dtype == object


def ew1(g, v):
    """elementwise"""
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape):
            out[i] = g(_py(v[i]))
        return out
    if isinstance(v, (list, tuple)):
        return ew1(g, np.array(v, dtype=object))
    return g(v)


def ew2(g, a, b):
    if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape):
            out[i] = g(_py(A[i]), _py(B[i]))
        return out
    return g(a, b)


def unary(name, native):
    def m(f, a, k):
        v = a[0]
        if isinstance(v, SymArray):
            return NotImplemented
        if isinstance(v, Sym) or isobj(v) or (isinstance(v, (list, tuple)) and has_sym(v)):
            return ew1(lambda x: fn(name, x) if isinstance(x, Sym) else native(x), v)
        return NotImplemented

    return m


for _n, _np, _m in [
    ("sin", np.sin, math.sin),
    ("cos", np.cos, math.cos),
    ("arcsin", np.arcsin, math.asin),
    ("arccos", np.arccos, math.acos),
    ("arctan", np.arctan, math.atan),
    ("sinh", np.sinh, math.sinh),
    ("exp", np.exp, math.exp),
    ("log", np.log, math.log),
    ("log10", np.log10, math.log10),
    ("log2", np.log2, math.log2),
]:
    MODELS[_np] = unary(_n, _m)
    MODELS[_m] = unary(_n, _m)


@model(math.tan, np.tan)
def _tan(f, a, k):
    if has_sym(a[0]):
        return ew1(lambda x: fn("sin", x) / fn("cos", x), a[0])
    return NotImplemented


@model(math.atan2, np.arctan2)
def _atan2(f, a, k):
    if has_sym(a):
        g = z3.Function("atan2", z3.RealSort(), z3.RealSort(), z3.RealSort())
        return ew2(lambda y, x: Sym(g(toreal(y), toreal(x))), a[0], a[1])
    return NotImplemented


@model(np.sqrt)
def _nsqrt(f, a, k):
    v = a[0]
    if isinstance(v, SymArray):
        return NotImplemented
    if has_sym(v) or isobj(v):
        return ew1(lambda x: sqrt(x, native=False) if isinstance(x, Sym) else math.sqrt(x), v)
    return NotImplemented


def simple_ufunc(g):
    def m(f, a, k):
        v = a[0]
        if isinstance(v, SymArray):
            return NotImplemented
        if has_sym(v) or isobj(v):
            return ew1(g, v)
        return NotImplemented

    return m


def _s(gs, gn):
    return lambda x: gs(x) if isinstance(x, Sym) else gn(x)


MODELS[np.radians] = MODELS[np.deg2rad] = simple_ufunc(_s(radians, math.radians))
MODELS[np.degrees] = MODELS[np.rad2deg] = simple_ufunc(_s(degrees, math.degrees))
MODELS[np.floor] = simple_ufunc(_s(lambda x: x.floor(), np.floor))
MODELS[np.ceil] = simple_ufunc(_s(lambda x: x.ceil(), np.ceil))
MODELS[np.trunc] = MODELS[np.fix] = simple_ufunc(_s(lambda x: Sym(z3.ToReal(trunc_int(x).e)), np.trunc))
MODELS[np.rint] = simple_ufunc(_s(lambda x: Sym(z3.ToReal(round_sym(x).e)), np.rint))
MODELS[np.square] = simple_ufunc(lambda x: x * x)
MODELS[np.negative] = simple_ufunc(lambda x: -x)


@model(np.round)
def _nround(f, a, k):
    if has_sym(a[0]):
        nd = a[1] if len(a) > 1 else k.get("decimals", 0)
        return ew1(lambda x: round_sym(x, nd or 0) if isinstance(x, Sym) else round(x, nd), a[0])
    return NotImplemented


@model(np.sign)
def _sign(f, a, k):
    def g(x):
        if isinstance(x, Sym):
            e = num(x)
            if z3.is_int(e):
                return Sym(z3.If(e > 0, z3.IntVal(1), z3.If(e < 0, z3.IntVal(-1), z3.IntVal(0))))
            return Sym(z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))))
        return np.sign(x)

    if isinstance(a[0], Sym) and a[0].is_real:
        # scalars fork, so that the algebraic back end sees a constant
        if a[0] > 0:
            return 1.0
        return -1.0 if a[0] < 0 else 0.0
    return ew1(g, a[0]) if has_sym(a[0]) or isobj(a[0]) else NotImplemented


@model(np.minimum, np.fmin)
def _nminimum(f, a, k):
    return ew2(min2, a[0], a[1]) if has_sym(a) else NotImplemented


@model(np.maximum, np.fmax)
def _nmaximum(f, a, k):
    return ew2(max2, a[0], a[1]) if has_sym(a) else NotImplemented


@model(np.clip)
def _clip(f, a, k):
    if any(isinstance(x, SymArray) for x in a):
        return NotImplemented
    if has_sym(a) or has_sym(k) or isobj(a[0]):
        v = a[0]
        lo = a[1] if len(a) > 1 else k.get("a_min")
        hi = a[2] if len(a) > 2 else k.get("a_max")

        def g(x):
            if lo is not None:
                x = max2(x, lo)
            if hi is not None:
                x = min2(x, hi)
            return x

        return ew1(g, v)
    return NotImplemented


@model(np.isfinite)
def _nisfinite(f, a, k):
    if has_sym(a[0]) or isobj(a[0]):
        return ew1(lambda x: True if isinstance(x, Sym) else bool(np.isfinite(x)), a[0])
    return NotImplemented


# ------------------------------------------------------------------ numpy construction
FLOATS = (float, np.float64, np.float32, "float64", "float32", np.dtype("float64"), np.dtype("float32"))


def objarray(v):
    if isinstance(v, np.ndarray):
        return v.astype(object) if v.dtype != object else v.copy()
    out = np.array(v, dtype=object)
    if out.ndim and out.dtype == object:
        # sequences of arrays of symbolic values
        pass
    return out


SMALL = 4096


@model(np.array, np.asarray, np.asanyarray)
def _array(f, a, k):
    v = a[0]
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if isinstance(v, SymArray):
        return v.astype(dt) if dt is not None else v
    if isinstance(v, SymSeq):
        raise Unsupported("np.array of symbolic sequence")
    if isinstance(v, SField):
        raise Unsupported("array of field")
    if not has_sym(v):
        # repository code may later store symbolic values into small float arrays
        r = f(*a, **k)
        if isinstance(r, np.ndarray) and r.dtype in (np.float64, np.int64) and r.size <= 64 and r.ndim >= 1 and (
            dt is None or dt in FLOATS
        ):
            if r.dtype == np.int64 and dt is None:
                return r
            return r.astype(object)
        return r
    r = objarray(v)
    if dt is not None and dt in (int, np.int32, np.int64, np.uint8, np.int16, np.uint16):
        return ew1(lambda x: to_int(x), r)
    return r


@model(np.zeros, np.empty, np.ones)
def _zeros(f, a, k):
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    shape = a[0] if a else k.get("shape")
    if has_sym(shape):
        return NotImplemented
    if dt is None or dt in FLOATS:
        n = int(np.prod(shape))
        if n <= 4096:
            r = np.empty(shape, dtype=object)
            r.fill(1.0 if f is np.ones else 0.0)
            return r
    return NotImplemented


@model(np.full)
def _full(f, a, k):
    shape = a[0]
    if has_sym(shape):
        return NotImplemented
    if has_sym(a[1]) or ("dtype" not in k and isinstance(a[1], float)):
        r = np.empty(shape, dtype=object)
        r[...] = a[1]
        return r
    return NotImplemented


@model(np.zeros_like, np.empty_like, np.ones_like)
def _zeros_like(f, a, k):
    v = a[0]
    if isinstance(v, np.ndarray) and (v.dtype == object or v.dtype == np.float64) and "dtype" not in k:
        r = np.empty(v.shape, dtype=object)
        r.fill(1.0 if f is np.ones_like else 0.0)
        return r
    return NotImplemented


@model(np.linalg.norm)
def _norm(f, a, k):
    v = a[0]
    if has_sym(v) or isobj(v):
        v = np.asarray(v, dtype=object)
        ax = k.get("axis")
        if v.ndim == 1 or ax is None:
            r = 0.0
            for x in v.flat:
                r = r + x * x
            return root_of_squares(r)
        if v.ndim == 2 and ax in (1, -1):
            return ew_rows(v)
        raise Unsupported("norm")
    return NotImplemented


def root_of_squares(r):
    """sqrt of a sum of squares (never negative)"""
    if not isinstance(r, Sym):
        return math.sqrt(r)
    ST.path.known_nonneg(toreal(r))
    return sqrt(r, native=False)


def ew_rows(v):
    out = np.empty(v.shape[0], dtype=object)
    for i in range(v.shape[0]):
        r = 0.0
        for x in v[i]:
            r = r + x * x
        out[i] = root_of_squares(r)
    return out


@model(np.linalg.inv)
def _inv(f, a, k):
    m = a[0]
    if not (has_sym(m) or isobj(m)):
        return NotImplemented
    m = np.asarray(m, dtype=object)
    n = m.shape[0]
    if n > 4:
        raise Unsupported("inverse of a large symbolic matrix")
    d = det(m)
    if d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(m, i, 0), j, 1)
            c = det(minor) if n > 1 else 1.0
            out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    return out


def det(m):
    n = m.shape[0]
    if n == 0:
        return 1.0
    if n == 1:
        return m[0, 0]
    r = 0.0
    for j in range(n):
        x = m[0, j]
        if not isinstance(x, Sym) and x == 0:
            continue
        c = x * det(np.delete(np.delete(m, 0, 0), j, 1))
        r = r + c if j % 2 == 0 else r - c
    return r


@model(np.linalg.det)
def _det(f, a, k):
    if has_sym(a[0]) or isobj(a[0]):
        return det(np.asarray(a[0], dtype=object))
    return NotImplemented


@model(np.linalg.solve)
def _solve(f, a, k):
    if has_sym(a):
        return np.matmul(_inv(np.linalg.inv, (a[0],), {}), np.asarray(a[1], dtype=object))
    return NotImplemented


@model(np.sum)
def _nsum(f, a, k):
    if isinstance(a[0], (list, tuple)) and has_sym(a[0]):
        return np.sum(np.array(a[0], dtype=object), **k)
    return NotImplemented


@model(np.linspace)
def _linspace(f, a, k):
    if has_sym(a) or has_sym(k):
        n = k.get("num", a[2] if len(a) > 2 else 50)
        start = a[0] if a else k["start"]
        stop = a[1] if len(a) > 1 else k["stop"]
        if isinstance(n, Sym):
            c = cval(z3.simplify(n.e))
            if c is None:
                if not k.get("endpoint", True) or k.get("retstep"):
                    raise Unsupported("linspace with options")
                from .arrays import SArr

                d = n - 1
                if ST.path.branch((d <= 0).e):
                    return SArr((n,), lambda i: to_float(start), np.float64, "linspace")
                return SArr((n,), lambda i: start + (stop - start) * i / d, np.float64, "linspace")
            n = int(c)
        if isinstance(start, np.ndarray):
            raise Unsupported("linspace of arrays")
        ep = k.get("endpoint", True)
        out = np.empty(n, dtype=object)
        for i in range(n):
            d = (n - 1) if ep else n
            out[i] = start if i == 0 else (stop if (ep and i == n - 1) else start + (stop - start) * i / d)
        return out
    return NotImplemented


@model(np.cross)
def _cross(f, a, k):
    if (has_sym(a) or any(isobj(x) for x in a)) and not k:
        u, v = [np.asarray(x, dtype=object) for x in a[:2]]
        if u.shape == (3,) and v.shape == (3,):
            out = np.empty(3, dtype=object)
            out[0] = u[1] * v[2] - u[2] * v[1]
            out[1] = u[2] * v[0] - u[0] * v[2]
            out[2] = u[0] * v[1] - u[1] * v[0]
            return out
    return NotImplemented


@model(np.dot, np.inner, np.vdot)
def _dot(f, a, k):
    if has_sym(a):
        u, v = [np.asarray(x, dtype=object) for x in a[:2]]
        if u.ndim == 1 and v.ndim == 1:
            if u.shape != v.shape:
                raise ValueError("shapes not aligned")
            r = 0.0
            for x, y in zip(u, v):
                r = r + x * y
            return r
        return np.dot(u, v)
    return NotImplemented


@model(np.all)
def _all(f, a, k):
    if isinstance(a[0], Sym):
        return a[0]
    return NotImplemented


@model(np.min, np.amin)
def _npmin(f, a, k):
    return _red(a, k, min2)


@model(np.max, np.amax)
def _npmax(f, a, k):
    return _red(a, k, max2)


def _red(a, k, two):
    v = a[0]
    if isinstance(v, SymArray) or not (has_sym(v) or isobj(v)):
        return NotImplemented
    v = np.asarray(v, dtype=object)
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if ax is None:
        r = None
        for x in v.flat:
            r = x if r is None else two(r, x)
        return r
    out = np.apply_along_axis(lambda q: [_red((q,), {}, two)], ax, v)
    return out.reshape([s for i, s in enumerate(v.shape) if i != ax % v.ndim])


@model(np.where)
def _where(f, a, k):
    if len(a) == 3 and has_sym(a) and not any(isinstance(x, SymArray) for x in a):
        return ew3(a)
    return NotImplemented


def ew3(a):
    C, A, B = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in a])
    out = np.empty(C.shape, dtype=object)
    for i in np.ndindex(C.shape):
        out[i] = ite(C[i], A[i], B[i])
    return out if out.shape else out.item()


@model(np.isclose)
def _npisclose(f, a, k):
    if has_sym(a):
        rt = k.get("rtol", 1e-5)
        at = k.get("atol", 1e-8)
        return ew2(lambda x, y: abs(x - y) <= at + rt * abs(y), a[0], a[1])
    return NotImplemented


@model(np.allclose)
def _npallclose(f, a, k):
    if has_sym(a):
        r = np.asarray(_npisclose(f, a, k), dtype=object)
        c = z3.BoolVal(True)
        for x in r.flat:
            c = z3.And(c, boolterm(x))
        return Sym(c)
    return NotImplemented


def method(kind, name):
    def deco(m):
        METHOD_MODELS[(kind, name)] = m
        return m

    return deco


@method("ndarray", "astype")
def _astype(f, a, k):
    s = f.__self__
    dt = a[0] if a else k.get("dtype")
    if s.dtype == object and (has_sym(s) or s.size <= 64):
        if dt in FLOATS or dt is float:
            return ew1(lambda x: to_float(x), s)
        if dt in (int, np.int32, np.int64):
            return ew1(lambda x: to_int(x), s)
        if has_sym(s):
            raise Unsupported(f"astype {dt} of symbolic array")
        return s.astype(float).astype(dt)
    return NotImplemented


for _nm, _two in (("min", min2), ("max", max2)):

    def _mk(two):
        def m(f, a, k):
            if f.__self__.dtype == object:
                return _red((f.__self__,) + a, k, two)
            return NotImplemented

        return m

    METHOD_MODELS[("ndarray", _nm)] = _mk(_two)


@method("ndarray", "tolist")
def _tolist(f, a, k):
    return NotImplemented


@method("str", "join")
def _join(f, a, k):
    it = a[0]
    if isinstance(it, SymSeq):
        raise Unsupported("join of symbolic sequence")
    it = list(it)
    if any(isinstance(x, (SStr, Sym)) for x in it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(f.__self__)
            out.append(x)
        return SStr(out)
    return f.__self__.join(it)


@method("str", "format")
def _sformat(f, a, k):
    if has_sym(a) or has_sym(k):
        import string

        out, auto = [], 0
        for lit, name, spec, conv in string.Formatter().parse(f.__self__):
            out.append(lit)
            if name is None:
                continue
            if name == "":
                v = a[auto]
                auto += 1
            elif name.isdigit():
                v = a[int(name)]
            else:
                v, _ = string.Formatter().get_field(name, a, k)
            out.append(hooks.fmt(v, spec))
        return SStr(out)
    return NotImplemented


@method("list", "index")
def _lindex(f, a, k):
    return NotImplemented


# ------------------------------------------------------------------ axioms of uninterpreted functions
def _ax_sin(p, e, t):
    _pair(p, e)


def _pair(p, e):
    """sin and cos of the same argument come together with s^2 + c^2 = 1."""
    k = ("sc", z3.simplify(e).get_id())
    if k in p.known:
        return
    p.known[k] = True
    se = z3.simplify(e)
    p.keep.append(se)
    sn = z3.Function("sin", z3.RealSort(), z3.RealSort())(e)
    cs = z3.Function("cos", z3.RealSort(), z3.RealSort())(e)
    p.apps[("sin", se.get_id())] = Sym(sn)
    p.apps[("cos", se.get_id())] = Sym(cs)
    p.add(sn * sn + cs * cs == 1, define=True)
    p.add(z3.And(sn <= 1, sn >= -1, cs <= 1, cs >= -1), define=True)
    c = cval(se)
    if c == 0:
        p.add(z3.And(sn == 0, cs == 1), define=True)
    p.rewrites.append((sn, 2, 1 - cs * cs))


def _ax_arccos(p, e, t):
    if p.branch(z3.Or(e < -1, e > 1)):
        raise Unsupported("arccos outside [-1, 1] (nan)")
    p.add(z3.And(t >= 0, t <= qval(PI_Q)), define=True)
    cs = z3.Function("cos", z3.RealSort(), z3.RealSort())(t)
    _pair(p, t)
    p.add(cs == e, define=True)


def _ax_arcsin(p, e, t):
    if p.branch(z3.Or(e < -1, e > 1)):
        raise ValueError("math domain error")
    p.add(z3.And(t >= -qval(PI_Q / 2), t <= qval(PI_Q / 2)), define=True)
    sn = z3.Function("sin", z3.RealSort(), z3.RealSort())(t)
    _pair(p, t)
    p.add(sn == e, define=True)


def _ax_exp(p, e, t):
    p.add(t > 0, define=True)


def _ax_log(base):
    def ax(p, e, t):
        if p.branch(e <= 0):
            raise ValueError("math domain error")
        p.add(z3.Implies(e == 1, t == 0), define=True)
        p.add(z3.Implies(e > 1, t > 0), define=True)
        p.add(z3.Implies(e < 1, t < 0), define=True)

    return ax


def _ax_log2(p, e, t):
    _ax_log(2)(p, e, t)
    # log2 is increasing and exact at powers of two
    for k in range(-2, 25):
        b = z3.Q(2**k, 1) if k >= 0 else z3.Q(1, 2**-k)
        p.add((e >= b) == (t >= k), define=True)


AXIOMS = {
    "sin": _ax_sin,
    "cos": _ax_sin,
    "arccos": _ax_arccos,
    "arcsin": _ax_arcsin,
    "exp": _ax_exp,
    "log": _ax_log(None),
    "log10": _ax_log(10),
    "log2": _ax_log2,
}

TRUSTED.update(
    {
        "math/np elementary functions": "sqrt (s>=0, s*s=x), sin/cos (uninterpreted, s^2+c^2=1), degrees/radians (linear, "
        "one rational value for pi), floor/ceil/round/trunc/min/max/clip exactly",
        "np.linalg.inv/solve/norm/dot/cross/matmul": "exact real linear algebra; LinAlgError exactly on singular input",
        "numpy array handling": "small arrays run as numpy object arrays of symbolic scalars; numpy's indexing, broadcasting, "
        "stacking and reshaping code runs natively",
    }
)
