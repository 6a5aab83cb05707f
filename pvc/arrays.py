"""Arrays of symbolic shape: element (i, j, ...) is a term at(i, j, ...).  The assumed contract of numpy's elementwise functions,
of basic indexing, stacking and transposition (exact) and of min/max/mean (bounds, attained, equal for equal arrays).

Shapes are tuples of ints and integer terms (at least 1).  Integer pixel types keep their width: every elementwise result of an
integer type is an obligation "does not overflow", as is every conversion of a real to an integer type."""
from __future__ import annotations

import operator

import numpy as np
import z3

from .sym import ST, Sym, SymArray, SymSeq, Unsupported, boolterm, cval, num, toreal, trunc_int

INF = object()


def _dim_eq(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
        return True
    c = num(a) == num(b)
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return True
    if z3.is_false(cs):
        return False
    p = ST.path
    if p.feasible(z3.Not(c)) == z3.unsat:
        return True
    return p.branch(c)


def _one(d):
    return not isinstance(d, Sym) and d == 1


def conc(d):
    """int of a dimension when it is fixed"""
    if isinstance(d, Sym):
        c = cval(z3.simplify(d.e))
        return int(c) if c is not None else None
    return int(d)


class SArr(SymArray):
    __array_priority__ = 1000

    def __init__(self, shape, at, dtype=np.float64, name="array"):
        self._shape = tuple(conc(d) if conc(d) is not None else d for d in shape)
        self.at = at
        self.dtype = np.dtype(dtype)
        self.name = name
        self.viewed = self.isview = False
        self.flat_of = None

    def __repr__(self):
        return f"SArr({self.name}, {self.shape}, {self.dtype})"

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, *a, **k):
        return SArr(self.shape, self.at, self.dtype, self.name)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __len__(self):
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported("native len of a symbolic array")
        return c

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, shape):
        if self.viewed or self.isview:
            raise Unsupported("shape of a symbolic array that shares memory")
        r = self.reshape(shape)
        self._shape, self.at = r.shape, r.at

    def reshape(self, *shape, order="C"):
        """row-major"""
        if order != "C":
            raise Unsupported("reshape in another order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = shape[0]
        shape = tuple(conc(d) if conc(d) is not None else d for d in shape)
        if len(shape) == len(self.shape) and all(a is b or _dim_eq(a, b) for a, b in zip(shape, self.shape)):
            return self.copy()
        if any(isinstance(d, int) and d < 0 for d in shape) or not shape:
            raise Unsupported("reshape with an unknown dimension")
        n = 1
        for d in shape:
            n = n * d
        if not _dim_eq(n, self.size):
            raise ValueError(f"cannot reshape array of size {self.size} into shape {shape}")
        at, old = self.at, self.shape
        if len(old) == 1:
            def flat(k):
                return at(k)
        elif len(old) == 2:
            def flat(k):
                return at(k // old[1], k % old[1])
        else:
            raise Unsupported("reshape of a symbolic array of more dimensions")

        def new(*i):
            k = i[0]
            for j, d in zip(i[1:], shape[1:]):
                k = k * d + j
            return flat(k)

        r = SArr(shape, new, self.dtype, self.name)
        r.isview = self.viewed = True
        return r

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def T(self):
        return self.transpose()

    # -- elementwise
    def __array_ufunc__(self, ufunc, meth, *inputs, **kw):
        if meth != "__call__" or kw.get("out") is not None or set(kw) - {"dtype"}:
            raise Unsupported(f"np.{ufunc.__name__}.{meth} of a symbolic array")
        return elementwise(ufunc, inputs, kw.get("dtype"))

    def __array_function__(self, func, types, args, kw):
        return dispatch(func, args, kw)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, SArr):
            if key.dtype == bool:
                return select(self, key)
            if np.issubdtype(key.dtype, np.integer):
                return take(self, key)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(k, SArr) or isinstance(k, (list, np.ndarray)) for k in key):
            raise Unsupported("advanced indexing of a symbolic array")
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        out = []
        for k in key:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - n)
            else:
                out.append(k)
        if Ellipsis not in key:
            out += [slice(None)] * (self.ndim - n)
        maps, shape, ax = [], [], 0
        for k in out:
            if k is None:
                shape.append(1)
                maps.append(("new",))
                continue
            d = self.shape[ax]
            ax += 1
            if isinstance(k, slice):
                start, stop, step = slice_of(k, d)
                if step == 1:
                    ln = stop - start
                    if isinstance(ln, Sym):
                        e = z3.simplify(ln.e)
                        ln = Sym(e) if ST.path.feasible(e < 0) == z3.unsat else Sym(z3.If(e > 0, e, z3.IntVal(0)))
                    else:
                        ln = max(ln, 0)
                elif step == -1 and k.start is None and k.stop is None:
                    ln, start = d, d - 1
                elif isinstance(step, int) and step > 1:
                    ln = (stop - start + (step - 1)) // step
                    if isinstance(ln, Sym):
                        if ST.path.feasible((ln < 0).e) != z3.unsat:
                            raise Unsupported("strided slice of a symbolic array that may be empty")
                    else:
                        ln = max(ln, 0)
                else:
                    raise Unsupported("strided slice of a symbolic array")
                maps.append(("sl", start, step))
                shape.append(ln)
            else:
                k = k if isinstance(k, Sym) else operator.index(k)
                bad = (k < -d) | (k >= d) if isinstance(k, Sym) or isinstance(d, Sym) else (k < -d or k >= d)
                if (ST.path.branch(bad.e) if isinstance(bad, Sym) else bad):
                    raise IndexError("index out of bounds")
                neg = k < 0
                if (ST.path.branch(neg.e) if isinstance(neg, Sym) else neg):
                    k = k + d
                maps.append(("ix", k))
        base = self.at

        def at(*idx):
            it = iter(idx)
            src = []
            for m in maps:
                if m[0] == "new":
                    next(it)
                elif m[0] == "ix":
                    src.append(m[1])
                else:
                    j = next(it)
                    src.append(m[1] + j if m[2] == 1 else m[1] + j * m[2] if m[2] > 1 else m[1] - j)
            return base(*src)

        if not shape:
            return at()
        self.viewed = True
        r = SArr(shape, at, self.dtype, self.name)
        r.isview = True
        return r

    def __setitem__(self, key, v):
        if self.viewed or self.isview:
            raise Unsupported("assignment to a symbolic array that shares memory")
        base = self.at
        if isinstance(key, SArr) and key.dtype == bool and not isinstance(v, (SArr, np.ndarray)):
            if key.ndim != self.ndim:
                raise Unsupported("mask of fewer dimensions")
            for a, b in zip(self.shape, key.shape):
                if not _dim_eq(a, b):
                    raise IndexError("boolean index did not match")
            m = key.at
            v = cast(v, self.dtype)

            def at(*i):
                return ite(m(*i), v, base(*i))

            self.at = at
            return
        key = key if isinstance(key, tuple) else (key,)
        if all(isinstance(k, slice) and k == slice(None) or k is Ellipsis for k in key):
            r = elementwise(np.add, (self * 0, v))
            self.at = lambda *i: cast(r.at(*i), self.dtype)
            return
        self._set_part(key, v)

    def _set_part(self, key, v):
        """a[2, lo:hi, ...] = v for integers and slices"""
        base, dtype = self.at, self.dtype
        if any(not (isinstance(k, (slice, int, np.integer, Sym)) or k is Ellipsis) for k in key):
            raise Unsupported("assignment to parts of a symbolic array")
        if Ellipsis in [k for k in key if not isinstance(k, Sym)]:
            i = next(j for j, k in enumerate(key) if k is Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - len(key) + 1) + key[i + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        maps, shape = [], []
        for k, d in zip(key, self.shape):
            if isinstance(k, slice):
                start, stop, step = slice_of(k, d)
                if not isinstance(step, int) or step < 1:
                    raise Unsupported("assignment to a reversed slice")
                ln = stop - start if step == 1 else (stop - start + (step - 1)) // step
                if isinstance(ln, Sym):
                    if ST.path.feasible((ln < 0).e) != z3.unsat:
                        raise Unsupported("assignment to a slice that may be empty")
                    if conc(ln) is not None:
                        ln = conc(ln)
                else:
                    ln = max(ln, 0)
                maps.append(("sl", start, step, ln))
                shape.append(ln)
            else:
                k = k if isinstance(k, Sym) else operator.index(k)
                bad = (k < -d) | (k >= d) if isinstance(k, Sym) or isinstance(d, Sym) else (k < -d or k >= d)
                if (ST.path.branch(bad.e) if isinstance(bad, Sym) else bad):
                    raise IndexError("index out of bounds")
                neg = k < 0
                if (ST.path.branch(neg.e) if isinstance(neg, Sym) else neg):
                    k = k + d
                maps.append(("ix", k))
        if isinstance(v, (list, tuple, np.ndarray)):
            v = as_sarr(v) if not any(isinstance(x, SArr) for x in v) else stack(list(v), 0)
        vat = None
        if isinstance(v, SArr):
            if v.ndim == 0 or v.ndim > len(shape):
                raise Unsupported("assignment of an array of other dimensions")
            for a, b in zip(v.shape, shape[len(shape) - v.ndim:]):
                if not _one(a) and not _dim_eq(a, b):
                    raise ValueError("could not broadcast input array")
            vat, vshape = v.at, v.shape
        else:
            v = cast(v, dtype)

        def at(*idx):
            cs, own = [], []
            for m, i in zip(maps, idx):
                if m[0] == "ix":
                    cs.append(i == m[1])
                    continue
                _, start, step, ln = m
                off = i - start
                cs += [off >= 0, off < ln * step]
                if step == 1:
                    own.append(off)
                else:
                    cs.append(off % step == 0)
                    own.append(off // step)
            if any(c is False for c in cs):
                return base(*idx)
            cs = [c for c in cs if isinstance(c, Sym)]
            c = z3.simplify(z3.And(*[x.e for x in cs])) if cs else z3.BoolVal(True)
            d = decided(c)
            if d is False:
                return base(*idx)
            if d:
                c = z3.BoolVal(True)
            if vat is None:
                x = v
            else:
                x = cast(vat(*[0 if _one(d) else j for d, j in zip(vshape, own[len(own) - len(vshape):])]), dtype)
            return ite(Sym(c), x, base(*idx))

        self.at = at

    # -- methods
    def astype(self, dtype, *a, **k):
        dtype = np.dtype(dtype)
        at = self.at
        if np.issubdtype(dtype, np.integer) and not np.issubdtype(self.dtype, np.integer):
            g, rng = generic(self.shape)
            with scope():
                ST.path.add(rng)
                in_range(f"conversion to {dtype} is in its range", at(*g), dtype)
        elif np.issubdtype(dtype, np.integer) and dtype != self.dtype and not np.can_cast(self.dtype, dtype):
            g, rng = generic(self.shape)
            with scope():
                ST.path.add(rng)
                in_range(f"conversion to {dtype} is in its range", at(*g), dtype)
        return SArr(self.shape, lambda *i: cast(at(*i), dtype), dtype, self.name)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        axes = tuple(axes) or tuple(range(self.ndim))[::-1]
        at = self.at
        self.viewed = True

        def g(*i):
            src = [None] * len(i)
            for k, ax in enumerate(axes):
                src[ax] = i[k]
            return at(*src)

        r = SArr([self.shape[a] for a in axes], g, self.dtype, self.name)
        r.isview = True
        return r

    def clip(self, *a, **k):
        return dispatch(np.clip, (self,) + a, k)

    def min(self, *a, **k):
        return dispatch(np.min, (self,) + a, k)

    def max(self, *a, **k):
        return dispatch(np.max, (self,) + a, k)

    def mean(self, *a, **k):
        return dispatch(np.mean, (self,) + a, k)

    def sum(self, *a, **k):
        return dispatch(np.sum, (self,) + a, k)

    def all(self, *a, **k):
        return dispatch(np.all, (self,) + a, k)

    def any(self, *a, **k):
        return dispatch(np.any, (self,) + a, k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"attribute {n} of a symbolic array")


def slice_of(k, d):
    step = 1 if k.step is None else k.step

    def end(v, dflt):
        if v is None:
            return dflt
        if isinstance(v, Sym) or isinstance(d, Sym):
            if not isinstance(v, Sym) and v < 0:
                v = v + d
            if isinstance(v, int) and v == 0:
                return 0
            e, dd = num(v), num(d)
            return Sym(z3.simplify(z3.If(e < 0, z3.IntVal(0), z3.If(e > dd, dd, e))))
        return min(max(v + d if v < 0 else v, 0), d)

    return end(k.start, 0), end(k.stop, d), step


OPS = {
    np.add: operator.add, np.subtract: operator.sub, np.multiply: operator.mul, np.true_divide: operator.truediv, np.negative: operator.neg,
    np.positive: operator.pos, np.absolute: abs, np.fabs: abs, np.square: lambda x: x * x, np.less: operator.lt, np.less_equal: operator.le,
    np.greater: operator.gt, np.greater_equal: operator.ge, np.equal: operator.eq, np.not_equal: operator.ne, np.floor_divide: operator.floordiv,
    np.remainder: operator.mod, np.power: operator.pow, np.isfinite: lambda x: True, np.isnan: lambda x: False, np.isinf: lambda x: False,
}
BOOLS = {np.logical_and: z3.And, np.logical_or: z3.Or, np.bitwise_and: z3.And, np.bitwise_or: z3.Or}
COMPARE = {np.less, np.less_equal, np.greater, np.greater_equal, np.equal, np.not_equal, np.isfinite, np.isnan, np.isinf, np.logical_and,
           np.logical_or, np.logical_not}


def elementwise(uf, inputs, dtype=None):
    from . import hooks

    ins = []
    for x in inputs:
        if isinstance(x, np.ndarray):
            a = x
            if a.ndim == 0:
                x = a.item()
            else:
                x = SArr(a.shape, lambda *i, a=a: pick(a, i), a.dtype if a.dtype != object else np.float64)
        elif isinstance(x, (list, tuple)):
            raise Unsupported("list operand of a symbolic array")
        ins.append(x)
    nd = max(x.ndim for x in ins if isinstance(x, SArr))
    shape = []
    for ax in range(nd):
        d = 1
        for x in ins:
            if not isinstance(x, SArr):
                continue
            k = ax - (nd - x.ndim)
            if k < 0 or _one(x.shape[k]):
                continue
            if _one(d):
                d = x.shape[k]
            elif not _dim_eq(d, x.shape[k]):
                raise ValueError("operands could not be broadcast together")
        shape.append(d)

    if uf in (np.bitwise_and, np.bitwise_or, np.invert, np.logical_not) and all(not isinstance(x, SArr) or x.dtype == bool for x in ins):
        rt = np.dtype(bool)
    elif uf in COMPARE:
        rt = np.dtype(bool)
    else:
        rt = result_type(uf, ins)
    if dtype is not None:
        rt = np.dtype(dtype)
    ats = [x.at if isinstance(x, SArr) else None for x in ins]

    def scalar(vals):
        if uf in BOOLS:
            return Sym(BOOLS[uf](*[boolterm(v) for v in vals]))
        if uf in (np.logical_not, np.invert):
            if isinstance(vals[0], (bool, np.bool_)):
                return not vals[0]
            return Sym(z3.Not(boolterm(vals[0])))
        vals = [v.item() if isinstance(v, np.generic) else v for v in vals]
        if uf in OPS:
            if uf is np.true_divide:
                vals = [Sym(toreal(v)) if isinstance(v, Sym) else float(v) for v in vals]
            return OPS[uf](*vals)
        if uf in (np.minimum, np.maximum, np.fmin, np.fmax):
            from . import models

            return (models.min2 if uf in (np.minimum, np.fmin) else models.max2)(*vals)
        if not any(isinstance(v, Sym) for v in vals):
            return uf(*vals).item()
        r = hooks.call(uf, *vals)
        return r

    memo = {}

    def at(*idx):
        key = tuple(("t", i.e.get_id()) if isinstance(i, Sym) else i for i in idx)
        if key in memo:
            return memo[key][0]
        vals = []
        for x, f in zip(ins, ats):
            if f is None:
                vals.append(x)
            else:
                own = idx[nd - x.ndim:]
                vals.append(f(*[0 if _one(d) else i for d, i in zip(x.shape, own)]))
        r = scalar(vals)
        memo[key] = (r, idx)
        return r

    out = SArr(shape, at, rt, uf.__name__)
    if np.issubdtype(rt, np.integer) and uf not in (np.minimum, np.maximum, np.positive) and rt != bool:
        g, rng = generic(out.shape)
        with scope():
            ST.path.add(rng)
            in_range(f"integer pixels do not overflow ({rt})", at(*g), rt)
    return out


def result_type(uf, ins):
    ts = []
    for x in ins:
        if isinstance(x, SArr):
            ts.append(x.dtype)
        elif isinstance(x, Sym):
            ts.append(0 if x.is_int else 0.0)
        elif isinstance(x, (bool, int, float)):
            ts.append(x)
        elif isinstance(x, np.generic):
            ts.append(x.dtype)
        else:
            raise Unsupported(f"operand {type(x).__name__} of a symbolic array")
    r = np.result_type(*ts)
    if uf in (np.true_divide, np.sqrt, np.sin, np.cos, np.log10, np.log, np.exp, np.log2, np.arctan) and not np.issubdtype(r, np.floating):
        return np.dtype(np.float64)
    return r


def pick(a, idx):
    """element of a concrete array at indexes that may be terms"""
    if all(not isinstance(i, Sym) for i in idx):
        v = a[tuple(idx)]
        return v.item() if isinstance(v, np.generic) else v
    cs = [conc(i) if isinstance(i, Sym) else int(i) for i in idx]
    if all(c is not None for c in cs):
        return pick(a, cs)
    if a.size > 512:
        raise Unsupported("symbolic index into a large array")
    r = None
    for j in np.ndindex(a.shape):
        v = pick(a, j)
        if r is None:
            r = v
            continue
        c = z3.And(*[num(i) == k for i, k in zip(idx, j)])
        r = ite(Sym(c), v, r)
    return r


def ite(c, a, b):
    from . import models

    if isinstance(c, Sym):
        s = z3.simplify(boolterm(c))
        if z3.is_true(s):
            return a
        if z3.is_false(s):
            return b
    return models.ite(c, a, b)


def cast(v, dtype):
    dtype = np.dtype(dtype)
    if np.issubdtype(dtype, np.integer):
        if isinstance(v, Sym):
            if v.is_bool:
                return Sym(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
            return trunc_int(v)
        return int(v)
    if np.issubdtype(dtype, np.floating):
        if isinstance(v, Sym):
            return Sym(z3.If(v.e, z3.RealVal(1), z3.RealVal(0))) if v.is_bool else Sym(toreal(v))
        return float(v)
    if dtype == bool:
        if isinstance(v, Sym):
            return v if v.is_bool else v != 0
        return bool(v)
    raise Unsupported(f"symbolic array of {dtype}")


def decided(c):
    """True/False when the path fixes the condition, else None"""
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    p = ST.path
    memo = p.__dict__.setdefault("decided_memo", {})
    k = c.get_id()
    if k not in memo:
        r = False if p.feasible(c) == z3.unsat else True if p.feasible(z3.Not(c)) == z3.unsat else None
        if r is None:
            return None  # later facts may decide it
        p.keep.append(c)
        memo[k] = r
    return memo[k]


class scope:
    """Facts about a generic index, forgotten afterwards (nothing about it is relied on later, so keeping them is sound too:
    shapes are at least 1, hence some index exists)."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def generic(shape):
    """A fresh index of an array of the shape and the fact that it is in range."""
    idx, cs = [], []
    for d in shape:
        if _one(d):
            idx.append(0)
            continue
        i = ST.path.fresh("gi", "int")
        cs.append(z3.And(i.e >= 0, i.e < num(d)))
        idx.append(i)
    return idx, z3.And(*cs) if cs else z3.BoolVal(True)


def in_range(what, v, dtype):
    inf = np.iinfo(dtype)
    if isinstance(v, Sym):
        if v.is_bool:
            return
        e = num(v)
        c = z3.And(e > int(inf.min) - 1, e < int(inf.max) + 1)
    else:
        c = z3.BoolVal(inf.min <= v <= inf.max)
    ST.path.check(what, c, "machine arithmetic")


def select(a, mask):
    if mask.ndim != a.ndim:
        raise Unsupported("mask of fewer dimensions")
    g, rng = generic(mask.shape)
    m = mask.at(*g)
    if m is True or isinstance(m, Sym) and z3.is_true(z3.simplify(m.e)):
        r = SArr((a.size,), lambda i: (_ for _ in ()).throw(Unsupported("element of a flattened array")), a.dtype, a.name)
        r.flat_of = a
        return r
    raise Unsupported("selection of some elements of a symbolic array")


def take(a, ix):
    if a.ndim != 1:
        raise Unsupported("advanced indexing of a symbolic array")
    d = a.shape[0]
    g, rng = generic(ix.shape)
    ST.path.add(rng)
    k = ix.at(*g)
    bad = boolterm(k < -d) if isinstance(k < -d, Sym) else z3.BoolVal(bool(k < -d))
    bad2 = boolterm(k >= d) if isinstance(k >= d, Sym) else z3.BoolVal(bool(k >= d))
    if ST.path.branch(z3.Or(bad, bad2)):
        raise IndexError("index out of bounds")
    at, xat = a.at, ix.at

    def f(*i):
        j = xat(*i)
        if isinstance(j, Sym):
            # non-negative indexes only
            if ST.path.branch((j < 0).e):
                j = j + d
        elif j < 0:
            j = j + d
        return at(j)

    return SArr(ix.shape, f, a.dtype, a.name)


# ------------------------------------------------------------------ reductions
def canonical(shape):
    return [0 if _one(d) else Sym(z3.Int(f"ci!{k}")) for k, d in enumerate(shape)]


def reduce(kind, a):
    if a.flat_of is not None:
        a = a.flat_of
    p = ST.path
    reds = p.__dict__.setdefault("reds", [])
    ci = canonical(a.shape)
    for i, d in zip(ci, a.shape):
        if isinstance(i, Sym):
            # in every array some index exists: constraining the canonical one is sound
            p.add(z3.And(i.e >= 0, i.e < num(d)))
    v = a.at(*ci)
    for r in reds:
        if r["kind"] != kind or len(r["shape"]) != len(a.shape):
            continue
        if not all(_same_dim(x, y) for x, y in zip(r["shape"], a.shape)):
            continue
        if equal(v, r["elem"], ci):
            return r["val"]
    isint = np.issubdtype(a.dtype, np.integer) and kind != "mean"
    val = p.fresh(kind, "int" if isint else "real")
    rec = dict(kind=kind, shape=a.shape, at=a.at, elem=v, val=val, nonneg=False)
    if kind == "mean":
        e = toreal(v)
        rec["nonneg"] = nonneg(e)
        if rec["nonneg"]:
            p.add(val.e >= 0, define=True)
    else:
        w, rng = generic(a.shape)
        p.add(rng, define=True)
        p.add(num(val) == num(a.at(*w)) if isint else toreal(val) == toreal(a.at(*w)), define=True)
        probe(a.shape, w)
    reds.append(rec)
    for s, idx in list(p.__dict__.get("probes", [])):
        fact(rec, s, idx)
    return val


def _same_dim(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return num(a).eq(num(b)) or ST.path.feasible(num(a) != num(b)) == z3.unsat
    return a == b


def proved(goal):
    """The goal follows from the facts of the path (no obligation is recorded)."""
    from . import solve

    p = ST.path
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    if p.implied(goal) is True:
        return True
    st, be, model, dt = solve.prove(p.pc, p.defs, goal, p.rewrites, ms=1500, brief=True)
    p.run.stats["solver_s"] += dt
    return st == "unsat"


def equal(x, y, ci):
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return x == y
    ex, ey = toreal(x), toreal(y)
    if ex.eq(ey):
        return True
    return proved(ex == ey)


def nonneg(e):
    return proved(e >= 0)


def fact(rec, shape, idx):
    p = ST.path
    if len(shape) != len(rec["shape"]) or not all(_same_dim(x, y) for x, y in zip(shape, rec["shape"])):
        return
    v = rec["at"](*idx)
    val = rec["val"]
    if rec["kind"] == "min":
        p.add(toreal(val) <= toreal(v), define=True)
    elif rec["kind"] == "max":
        p.add(toreal(val) >= toreal(v), define=True)
    elif rec["nonneg"]:
        p.add(z3.Implies(val.e == 0, toreal(v) == 0), define=True)
        p.add(toreal(v) >= 0, define=True)


def probe(shape, idx):
    """Facts about every reduction are stated at this index."""
    p = ST.path
    p.__dict__.setdefault("probes", []).append((shape, idx))
    for r in list(p.__dict__.get("reds", [])):
        fact(r, shape, idx)


# ------------------------------------------------------------------ numpy functions
def stack(arrs, axis):
    first = next(a for a in arrs if isinstance(a, SArr))
    n = len(arrs)
    arrs = [a if isinstance(a, SArr) else as_sarr(a) for a in arrs]
    nd = first.ndim
    axis = axis % (nd + 1)
    for a in arrs:
        if a.ndim != nd:
            raise ValueError("all input arrays must have the same shape")
        for x, y in zip(a.shape, first.shape):
            if not _dim_eq(x, y):
                raise ValueError("all input arrays must have the same shape")
    ats = [a.at for a in arrs]

    def at(*i):
        k = i[axis]
        rest = i[:axis] + i[axis + 1:]
        c = conc(k)
        if c is not None:
            return ats[c](*rest)
        r = ats[-1](*rest)
        for j in range(n - 1):
            r = ite(k == j, ats[j](*rest), r)
        return r

    return SArr(first.shape[:axis] + (n,) + first.shape[axis:], at, np.result_type(*[a.dtype for a in arrs]), "stack")


def as_sarr(a):
    a = np.asarray(a)
    return SArr(a.shape, lambda *i: pick(a, i), a.dtype if a.dtype != object else np.float64)


def along(a, axis, two, init=None):
    n = conc(a.shape[axis])
    if n is None:
        raise Unsupported("reduction over a symbolic axis")
    axis = axis % a.ndim
    at = a.at

    def f(*i):
        r = init
        for k in range(n):
            v = at(*(i[:axis] + (k,) + i[axis:]))
            r = v if r is None else two(r, v)
        return r

    return f, a.shape[:axis] + a.shape[axis + 1:]


def dispatch(f, a, k):
    """numpy functions with a symbolic array among their arguments"""
    from . import models

    n = getattr(f, "__name__", str(f))
    if isinstance(f, np.ufunc):
        if k.get("out") is not None or set(k) - {"dtype"}:
            raise Unsupported(f"np.{n} with options")
        return elementwise(f, a, k.get("dtype"))
    x = a[0] if a else None
    if f in (np.array, np.asarray, np.asanyarray, np.ascontiguousarray, np.copy):
        dt = k.get("dtype", a[1] if len(a) > 1 else None)
        if isinstance(x, (list, tuple)):
            x = stack(list(x), 0)
        else:
            same = f is not np.array and f is not np.copy
            x = x if same else x.copy()
        return x.astype(dt) if dt is not None and np.dtype(dt) != x.dtype else x
    if f is np.clip:
        lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
        hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
        r = x
        if lo is not None:
            r = elementwise(np.maximum, (r, lo))
        if hi is not None:
            r = elementwise(np.minimum, (r, hi))
        return r
    if f in (np.sum, np.all, np.any):
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        if set(k) - {"axis"}:
            raise Unsupported(f"np.{n} with options")
        if isinstance(x, (list, tuple)):
            x = stack(list(x), 0)
        if ax is None:
            if f is np.sum:
                return reduce("mean", x) * x.size
            raise Unsupported(f"np.{n} of a whole symbolic array")
        if f is np.sum:
            t = x.dtype
            g, sh = along(x, ax, operator.add)
            return SArr(sh, g, np.int64 if np.issubdtype(t, np.integer) else t, "sum")
        comb = (lambda u, v: Sym(z3.And(boolterm(u), boolterm(v)))) if f is np.all else (lambda u, v: Sym(z3.Or(boolterm(u), boolterm(v))))
        g, sh = along(x, ax, comb)
        return SArr(sh, g, bool, n)
    if f in (np.min, np.amin, np.max, np.amax, np.mean):
        if set(k) - {"axis"}:
            raise Unsupported(f"np.{n} with options")
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        kind = "min" if f in (np.min, np.amin) else "mean" if f is np.mean else "max"
        if ax is None:
            return reduce(kind, x)
        if kind == "mean":
            raise Unsupported("mean over an axis")
        g, sh = along(x, ax, models.min2 if kind == "min" else models.max2)
        return SArr(sh, g, x.dtype, kind)
    if f in (np.zeros_like, np.ones_like, np.full_like, np.empty_like):
        v = {np.zeros_like: 0, np.ones_like: 1, np.empty_like: 0}.get(f, a[1] if len(a) > 1 else k.get("fill_value"))
        dt = np.dtype(k.get("dtype") or (x.dtype if f is not np.full_like else x.dtype))
        v = cast(v, dt)
        return SArr(x.shape, lambda *i: v, dt, n)
    if f in (np.stack, np.dstack, np.concatenate, np.column_stack, np.vstack, np.hstack):
        arrs = list(a[0])
        if f in (np.column_stack, np.vstack, np.hstack):
            arrs = [q if isinstance(q, SArr) else as_sarr(q) for q in arrs]
            if f is np.column_stack:
                return concatenate([q[:, None] if q.ndim == 1 else q for q in arrs], 1)
            if f is np.vstack:
                return concatenate([q[None, :] if q.ndim == 1 else q for q in arrs], 0)
            return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)
        if f is np.stack:
            return stack(arrs, k.get("axis", a[1] if len(a) > 1 else 0))
        if f is np.dstack:
            arrs = [q if isinstance(q, SArr) else as_sarr(q) for q in arrs]
            arrs = [q[:, :, None] if q.ndim == 2 else q for q in arrs]
            return concatenate(arrs, 2)
        return concatenate(arrs, k.get("axis", a[1] if len(a) > 1 else 0))
    if f is np.where and len(a) == 3:
        c, u, v = a
        z = elementwise(np.add, (u, v)) if isinstance(u, SArr) or isinstance(v, SArr) else None
        shape = z.shape if z is not None else c.shape
        cc = c if isinstance(c, SArr) else as_sarr(c)
        if len(shape) != cc.ndim or not all(_dim_eq(p, q) for p, q in zip(shape, cc.shape)):
            raise Unsupported("np.where with broadcasting")
        ua, va = [(lambda *i, q=q: q) if not isinstance(q, SArr) else q.at for q in (u, v)]
        ca = cc.at
        return SArr(shape, lambda *i: ite(ca(*i), ua(*i), va(*i)), z.dtype if z is not None else np.float64, "where")
    if f is np.transpose:
        return x.transpose(*([a[1]] if len(a) > 1 and a[1] is not None else [k["axes"]] if k.get("axes") else []))
    if f is np.moveaxis:
        src, dst = a[1] % x.ndim, a[2] % x.ndim
        ax = [q for q in range(x.ndim) if q != src]
        ax.insert(dst, src)
        return x.transpose(ax)
    if f is np.issubdtype:
        return np.issubdtype(*a)
    if f in (np.shape, np.ndim, np.size):
        return {np.shape: x.shape, np.ndim: x.ndim, np.size: x.size}[f]
    if f in (np.iscomplexobj,):
        return False
    if f is np.nanmean:
        return reduce("mean", x)
    if f in (np.nanmin, np.nanmax):
        return reduce(n[3:], x)
    raise Unsupported(f"np.{n} of a symbolic array")


def concatenate(arrs, axis):
    arrs = [q if isinstance(q, SArr) else as_sarr(q) for q in arrs]
    axis = axis % arrs[0].ndim
    sizes = [conc(q.shape[axis]) for q in arrs]
    if any(s is None for s in sizes) or max(sizes) > 64:
        offs, tot = [], 0
        for q in arrs:
            for ax in range(q.ndim):
                if ax != axis and not _dim_eq(q.shape[ax], arrs[0].shape[ax]):
                    raise ValueError("all the input array dimensions except for the concatenation axis must match")
            offs.append(tot)
            tot = tot + q.shape[axis]
        ats = [q.at for q in arrs]

        def at(*i):
            j = i[axis]
            r = None
            for o, f, q in reversed(list(zip(offs, ats, arrs))):
                if r is None:
                    r = f(*(i[:axis] + (j - o,) + i[axis + 1:]))
                    continue
                c = j < o + q.shape[axis]
                if c is True:
                    r = f(*(i[:axis] + (j - o,) + i[axis + 1:]))
                elif c is not False:
                    r = ite(c, f(*(i[:axis] + (j - o,) + i[axis + 1:])), r)
            return r

        return SArr(arrs[0].shape[:axis] + (tot,) + arrs[0].shape[axis + 1:], at, np.result_type(*[a.dtype for a in arrs]), "concatenate")
    parts = []
    for q, s in zip(arrs, sizes):
        for j in range(s):
            parts.append(q[(slice(None),) * axis + (j,)])
    return stack(parts, axis)


def has(x):
    return isinstance(x, SArr) or isinstance(x, (list, tuple)) and len(x) <= 64 and any(isinstance(v, SArr) for v in x)


def of_rows(seq):
    """The array of a sequence of numbers or vectors."""
    i = ST.path.fresh("gen", "int")
    if not ST.path.branch(num(seq.length) > 0):
        return np.array([])
    ST.path.add(z3.And(i.e >= 0, i.e < num(seq.length)))
    v = seq.get(i)
    if isinstance(v, (int, float, Sym, np.number)):
        return SArr((seq.length,), seq.get, np.int64 if isinstance(v, int) or isinstance(v, Sym) and v.is_int else np.float64, seq.name)
    if not isinstance(v, np.ndarray):
        raise Unsupported("array of a symbolic sequence of other objects")
    return SArr((seq.length,) + v.shape, lambda i, *r: pick(seq.get(i), r), np.float64, seq.name)


def intercept(f, a, k):
    """hook for calls made by instrumented code"""
    if f in (np.array, np.asarray, np.stack, np.vstack) and a and isinstance(a[0], SymSeq) and len(a) == 1 and not k:
        return of_rows(a[0])
    if not any(has(x) for x in a):
        if f in (np.zeros, np.ones, np.full, np.empty) and a and isinstance(a[0], Sym):
            a = ((a[0],),) + tuple(a[1:])
        if f in (np.zeros, np.ones, np.full, np.empty) and a and isinstance(a[0], (tuple, list)) and any(isinstance(d, Sym) for d in a[0]):
            v = {np.zeros: 0.0, np.ones: 1.0, np.empty: 0.0}.get(f, a[1] if len(a) > 1 else k.get("fill_value"))
            dt = k.get("dtype", a[1] if len(a) > 1 and f is not np.full else None)
            dt = np.dtype(dt) if dt is not None else np.dtype(np.float64 if f is not np.full or isinstance(v, (float, Sym)) else type(v))
            v = cast(v, dt)
            return SArr(tuple(a[0]), lambda *i: v, dt, f.__name__)
        return NotImplemented
    if isinstance(f, np.ufunc) or (getattr(f, "__module__", None) or "").split(".")[0] == "numpy" and not isinstance(f, type):
        if f is np.issubdtype:
            return NotImplemented
        return dispatch(f, a, k)
    if f is len:
        d = a[0].shape[0]
        return d if isinstance(d, Sym) else int(d)
    if f in (min, max) and len(a) == 1:
        return reduce(f.__name__, a[0]) if a[0].ndim == 1 else NotImplemented
    return NotImplemented


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.true_divide), ("floordiv", np.floor_divide), ("mod", np.remainder),
               ("pow", np.power), ("lt", np.less), ("le", np.less_equal), ("gt", np.greater), ("ge", np.greater_equal), ("eq", np.equal), ("ne", np.not_equal),
               ("and", np.bitwise_and), ("or", np.bitwise_or)):

    def _mk(u):
        def op(self, o):
            if o is None or isinstance(o, str):
                return NotImplemented
            return elementwise(u, (self, o))

        def rop(self, o):
            if o is None or isinstance(o, str):
                return NotImplemented
            return elementwise(u, (o, self))

        return op, rop

    _o, _r = _mk(_u)
    setattr(SArr, f"__{_n}__", _o)
    if _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or"):
        setattr(SArr, f"__r{_n}__", _r)
SArr.__neg__ = lambda self: elementwise(np.negative, (self,))
SArr.__abs__ = lambda self: elementwise(np.absolute, (self,))
SArr.__invert__ = lambda self: elementwise(np.invert, (self,))
