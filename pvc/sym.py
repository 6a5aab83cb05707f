"""Symbolic values and path state.

A Sym wraps a z3 term (Real, Int or Bool).  The repository's functions run on Syms in CPython; a Bool that the
program branches on is decided by the path's decision list, both sides being explored by re-execution.
"""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np
import z3


class PathEnd(BaseException):
    """The path is infeasible, cut by a loop contract, or finished."""


class Unsupported(BaseException):
    """The engine cannot represent this operation: the obligation is left undecided."""


class Bounded(BaseException):
    """The path left the stated bound of a bounded stand-in."""


PI_Q = Fraction(math.pi)


def frac(x: float) -> Fraction:
    """Floats are read as the decimal number they print as; multiples of the double pi as multiples of one constant."""
    x = float(x)
    if x == 0:
        return Fraction(0)
    r = x / math.pi
    for k in (1, 2, 3, 4, 6, 180, 360):
        n = r * k
        if abs(n) < 800 and abs(n - round(n)) < 1e-14 * max(1.0, abs(n)) and round(n) != 0:
            cand = float(Fraction(int(round(n)), k) * PI_Q)
            if cand == x:
                return Fraction(int(round(n)), k) * PI_Q
    # 180/pi style constants
    inv = x * math.pi
    for k in (180, 360, 90, 1):
        if abs(inv - k) < 1e-13 * k and float(Fraction(k) / PI_Q) == x:
            return Fraction(k) / PI_Q
    return Fraction(repr(x))


def qval(q: Fraction):
    return z3.RealVal(str(q.numerator)) if q.denominator == 1 else z3.Q(q.numerator, q.denominator)


class _State:
    path = None  # current Path
    active = False


ST = _State()


def is_sym(x) -> bool:
    return isinstance(x, (Sym, SStr, SField))


def has_sym(x, depth=0) -> bool:
    if isinstance(x, (Sym, SStr, SField, SymSeq, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(v, depth + 1) for v in x.flat)
    if depth > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v, depth + 1) for v in x.values())
    return False


def short(e, most=40, chars=200):
    """Text of a term, elided when it is large (printing is exponential in shared subterms)."""
    n, todo = 0, [e]
    while todo and n <= most:
        t = todo.pop()
        n += 1
        if z3.is_app(t):
            todo.extend(t.children())
    if n > most:
        return f"{e.decl().name() if z3.is_app(e) else 'term'}(...)"
    s = str(e)
    return s if len(s) < chars else s[:chars] + "..."


class Sym:
    __slots__ = ("e",)
    __array_priority__ = 1000
    __array_ufunc__ = None  # scalars: numpy arrays defer to our reflected operators ... see _arr below

    def __init__(self, e):
        self.e = e

    # ---- kinds
    @property
    def is_int(self):
        return z3.is_int(self.e)

    @property
    def is_bool(self):
        return z3.is_bool(self.e)

    @property
    def is_real(self):
        return z3.is_real(self.e) and not z3.is_int(self.e)

    def __repr__(self):
        return f"<{short(self.e)}>"

    def __bool__(self):
        if self.is_bool:
            return ST.path.branch(self.e)
        return ST.path.branch(self.e != 0)

    def __hash__(self):
        return 7

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic value in native code")

    def __index__(self):
        if self.is_bool:
            return int(bool(self))
        if self.is_real:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return ST.path.concretize(self.e)

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic value")

    def __str__(self):
        return self.__repr__()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- arithmetic
    def __add__(self, o):
        return _bin(self, o, "+")

    def __radd__(self, o):
        return _bin(o, self, "+")

    def __sub__(self, o):
        return _bin(self, o, "-")

    def __rsub__(self, o):
        return _bin(o, self, "-")

    def __mul__(self, o):
        return _bin(self, o, "*")

    def __rmul__(self, o):
        return _bin(o, self, "*")

    def __truediv__(self, o):
        return _bin(self, o, "/")

    def __rtruediv__(self, o):
        return _bin(o, self, "/")

    def __floordiv__(self, o):
        return _bin(self, o, "//")

    def __rfloordiv__(self, o):
        return _bin(o, self, "//")

    def __mod__(self, o):
        return _bin(self, o, "%")

    def __rmod__(self, o):
        return _bin(o, self, "%")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return Sym(-num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        e = num(self)
        return Sym(z3.If(e >= 0, e, -e))

    def __invert__(self):
        if self.is_bool:
            return Sym(z3.Not(self.e))
        return -self - 1

    def __and__(self, o):
        if self.is_bool and (isinstance(o, (bool, np.bool_)) or (isinstance(o, Sym) and o.is_bool)):
            return Sym(z3.And(self.e, boolterm(o)))
        raise Unsupported("& on symbolic integers")

    __rand__ = __and__

    def __or__(self, o):
        if self.is_bool and (isinstance(o, (bool, np.bool_)) or (isinstance(o, Sym) and o.is_bool)):
            return Sym(z3.Or(self.e, boolterm(o)))
        raise Unsupported("| on symbolic integers")

    __ror__ = __or__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("<<")

    def __rlshift__(self, o):
        if isinstance(o, int) and self.is_int:
            return Sym(num(lift(o) * 2**self)) if False else o * power(2, self)
        raise Unsupported("<<")

    # ---- comparisons
    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        return _cmp(self, o, "==")

    def __ne__(self, o):
        return _cmp(self, o, "!=")

    # ---- numpy object-dtype ufuncs call these
    def sqrt(self):
        return sqrt(self, native=False)

    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tan(self):
        return fn("sin", self) / fn("cos", self)

    def arcsin(self):
        return fn("arcsin", self)

    def arccos(self):
        return fn("arccos", self)

    def log10(self):
        return fn("log10", self)

    def log(self):
        return fn("log", self)

    def exp(self):
        return fn("exp", self)

    def conjugate(self):
        return self

    def radians(self):
        return radians(self)

    def degrees(self):
        return degrees(self)

    def floor(self):
        return Sym(z3.ToReal(z3.ToInt(toreal(self))))

    def ceil(self):
        return Sym(z3.ToReal(-z3.ToInt(-toreal(self))))

    __floor_real__ = floor

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def __trunc__(self):
        return trunc_int(self)

    def __round__(self, nd=None):
        return round_sym(self, nd)

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def shape(self):
        return ()

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def ndim(self):
        return 0

    def is_integer(self):
        if self.is_int:
            return True
        return Sym(z3.IsInt(self.e))


class SField:
    """The text of a metadata field whose numeric value is a symbolic variable."""

    def __init__(self, name, ctx=None, real=None, integer=None, text=None):
        self.name, self._real, self._int, self.text = name, real, integer, text

    def as_real(self):
        if self._real is None:
            if self._int is not None:
                return Sym(z3.ToReal(self._int.e)) if isinstance(self._int, Sym) else float(self._int)
            raise Unsupported("field %s has no numeric value" % self.name)
        return self._real

    def as_int(self):
        if self._int is None:
            raise Unsupported("field %s has no integer value" % self.name)
        return self._int

    def __repr__(self):
        return f"<field {self.name}>"

    def strip(self, *a):
        return self

    def __bool__(self):
        return True

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        raise Unsupported("str of symbolic field")

    def __float__(self):
        raise Unsupported("native float of field")


def lift(x):
    """z3 term of a Python number (or Sym)."""
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return qval(x)
    if isinstance(x, (float, np.floating)):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("inf/nan in symbolic arithmetic")
        return qval(frac(float(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported(f"cannot lift {type(x).__name__}")


def num(x):
    e = lift(x)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def toreal(x):
    e = num(x)
    return z3.ToReal(e) if z3.is_int(e) else e


def boolterm(x):
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.e if x.is_bool else x.e != 0
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not a boolean: {x!r}")


def _isnum(x):
    return isinstance(x, (Sym, numbers.Number, np.number, np.bool_, Fraction)) and not isinstance(x, complex)


def isinf(x):
    return isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x))


def cval(e):
    """Fraction value of a z3 numeral or None."""
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def _bin(a, b, op):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return _arr(a, b, op)
    if isinstance(a, (SymArray,)) or isinstance(b, (SymArray,)):
        return NotImplemented
    if isinstance(a, complex) or isinstance(b, complex):
        raise Unsupported("complex arithmetic on symbolic scalar")
    if not (_isnum(a) and _isnum(b)):
        return NotImplemented
    if isinf(a) or isinf(b):
        raise Unsupported("inf/nan arithmetic")
    x, y = num(a), num(b)
    if op in "+-*":
        if z3.is_int(x) != z3.is_int(y):
            x, y = toreal(a), toreal(b)
        cx, cy = cval(x), cval(y)
        if op == "+":
            if cx == 0:
                return Sym(y)
            if cy == 0:
                return Sym(x)
            r = x + y
        elif op == "-":
            if cy == 0:
                return Sym(x)
            if x.eq(y):
                r = x - x if False else (z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0))
            else:
                r = x - y
        else:
            if cx == 1:
                return Sym(y)
            if cy == 1:
                return Sym(x)
            if cx == 0 or cy == 0:
                return Sym(z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0))
            r = x * y
        if cx is not None and cy is not None:
            r = z3.simplify(r)
        return Sym(r)
    if op == "/":
        x, y = toreal(a), toreal(b)
        cy = cval(y)
        if cy is not None:
            if cy == 0:
                raise ZeroDivisionError("division by zero")
            if cy == 1:
                return Sym(x)
            return Sym(x * qval(1 / cy))
        ST.path.nonzero(y)
        if x.eq(y):
            return Sym(z3.RealVal(1))
        return Sym(x / y)
    if op in ("//", "%"):
        if z3.is_int(x) and z3.is_int(y):
            cy = cval(y)
            if cy is None:
                ST.path.nonzero(y)
                # z3 div/mod: remainder in [0,|y|)
                q = z3.If(y > 0, x / y, -(x / (-y)) - z3.If(x % (-y) == 0, 0, 1))
                q = z3.If(y > 0, x / y, (-x) / (-y))
            elif cy == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            elif cy > 0:
                q = x / y
            else:
                q = (-x) / (-y)
            if op == "//":
                return Sym(q)
            if cy is not None and cy > 0:
                return Sym(x % y)
            return Sym(x - q * y)
        x, y = toreal(a), toreal(b)
        cy = cval(y)
        if cy == 0:
            raise ZeroDivisionError("float floor division by zero")
        if cy is None:
            ST.path.nonzero(y)
            q = z3.ToReal(z3.ToInt(x / y))
        else:
            q = z3.ToReal(z3.ToInt(x * qval(1 / cy)))
        return Sym(q) if op == "//" else Sym(x - y * q)
    raise Unsupported(op)


def _arr(a, b, op):
    import operator as o

    f = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod}[op]
    A = a if isinstance(a, np.ndarray) else None
    B = b if isinstance(b, np.ndarray) else None
    if A is not None and B is None:
        out = np.empty(A.shape, dtype=object)
        for i in np.ndindex(A.shape):
            out[i] = f(_py(A[i]), b)
        return out if out.shape else out.item()
    out = np.empty(B.shape, dtype=object)
    for i in np.ndindex(B.shape):
        out[i] = f(a, _py(B[i]))
    return out if out.shape else out.item()


def _py(v):
    return v.item() if isinstance(v, np.generic) else v


_OPS = {
    "<": lambda x, y: x < y,
    "<=": lambda x, y: x <= y,
    ">": lambda x, y: x > y,
    ">=": lambda x, y: x >= y,
    "==": lambda x, y: x == y,
    "!=": lambda x, y: x != y,
}


def _cmp(a, b, op):
    if isinstance(b, np.ndarray):
        out = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape):
            out[i] = _cmp(a, _py(b[i]), op)
        return out
    if isinstance(b, SymArray):
        return NotImplemented
    if b is None or isinstance(b, (str, SStr)):
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if isinf(b):
        if math.isnan(b):
            return op == "!="
        pos = b > 0
        return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
    if not _isnum(b):
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if a.is_bool and isinstance(b, (bool, np.bool_)) or (a.is_bool and isinstance(b, Sym) and b.is_bool):
        if op in ("==", "!="):
            r = a.e == boolterm(b)
            return Sym(r if op == "==" else z3.Not(r))
    x, y = num(a), num(b)
    if z3.is_int(x) != z3.is_int(y):
        x, y = toreal(a), toreal(b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    cx, cy = cval(x), cval(y)
    if cx is not None and cy is not None:
        return bool(_OPS[op](cx, cy))
    if op in ("<", "<=", ">", ">="):
        # |e| < y as a conjunction, |e| > y as a disjunction of comparisons
        ax, ay = _absarg(x), _absarg(y)
        if ax is not None:
            f = _OPS[op]
            return Sym((z3.And if op[0] == "<" else z3.Or)(f(ax, y), f(-ax, y)))
        if ay is not None:
            f = _OPS[op]
            return Sym((z3.And if op[0] == ">" else z3.Or)(f(x, ay), f(x, -ay)))
    return Sym(_OPS[op](x, y))


def _absarg(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if z3.is_ge(c) and c.arg(0).eq(a) and cval(c.arg(1)) == 0 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UMINUS and b.arg(0).eq(a):
            return a
    return None


def power(a, b):
    if isinstance(b, Sym):
        v = cval(z3.simplify(b.e))
        if v is not None:
            b = int(v) if v.denominator == 1 else float(v)
    if isinstance(b, Sym) and isinstance(a, (int, float)) and a == 2 and b.is_int and z3.is_int(b.e):
        p = ST.path
        if p.feasible(z3.Or(b.e < 0, b.e > 8)) == z3.unsat:
            return a ** int(p.concretize(b.e))
    if isinstance(b, Sym):
        if isinstance(a, (int, float)) and a == 2 and b.is_int:
            # 2**n as an uninterpreted function with its defining recurrence instantiated by need
            return Sym(ST.path.pow2(b.e))
        if b.is_int and ST.path is not None:
            f = z3.Function("pow", z3.RealSort(), z3.IntSort(), z3.RealSort())
            return Sym(f(toreal(a), b.e))
        raise Unsupported("symbolic exponent")
    if isinstance(b, (np.integer,)):
        b = int(b)
    if isinstance(b, (float, np.floating)):
        if float(b).is_integer():
            b = int(b)
            a = Sym(toreal(a))
        elif b == 0.5:
            return sqrt(a)
        elif b == 1.5:
            return a * sqrt(a)
        elif b == -0.5:
            return 1.0 / sqrt(a)
        else:
            raise Unsupported(f"power {b}")
    if isinstance(b, int):
        if b == 0:
            return Sym(z3.IntVal(1) if a.is_int else z3.RealVal(1))
        if b < 0:
            return 1.0 / power(a, -b)
        r = a
        for _ in range(b - 1):
            r = r * a
        return r
    raise Unsupported("power")


def floor_int(x):
    e = num(x)
    return Sym(e) if z3.is_int(e) else Sym(z3.ToInt(e))


def trunc_int(x):
    e = num(x)
    if z3.is_int(e):
        return Sym(e)
    return Sym(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def round_sym(x, nd=None):
    """Banker's rounding, exactly."""
    e = num(x)
    if z3.is_int(e):
        if nd is None or nd >= 0:
            return Sym(e)
        raise Unsupported("round int")
    s = 1
    if nd:
        s = 10 ** int(nd)
        e = e * qval(Fraction(s))
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if nd is None:
        return Sym(r)
    return Sym(z3.ToReal(r) * qval(Fraction(1, s)))


def radians(x):
    return Sym(toreal(x) * qval(PI_Q / 180))


def degrees(x):
    return Sym(toreal(x) * qval(180 / PI_Q))


UNARY = {}


def fn(name, x):
    """Uninterpreted real function with the axioms of models.AXIOMS instantiated."""
    if not isinstance(x, Sym):
        x = Sym(lift(x))
    return ST.path.apply(name, x)


def squares(e, depth=0):
    """The term is, as written, a sum of squares (and products, quotients of such)."""
    if depth > 6:
        return False
    c = cval(e)
    if c is not None:
        return c >= 0
    if z3.is_add(e):
        return all(squares(x, depth + 1) for x in e.children())
    if z3.is_mul(e):
        rest = list(e.children())
        while rest:
            f = rest.pop()
            for i, o in enumerate(rest):
                if o.eq(f):
                    del rest[i]
                    break
            else:
                if not squares(f, depth + 1):
                    return False
        return True
    if z3.is_app_of(e, z3.Z3_OP_POWER):
        k = cval(e.arg(1))
        return k is not None and k == int(k) and int(k) % 2 == 0 and k >= 0
    if z3.is_div(e):
        return squares(e.arg(0), depth + 1) and squares(e.arg(1), depth + 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return squares(e.arg(1), depth + 1) and squares(e.arg(2), depth + 1)
    return False


def sqrt(x, native=True):
    if not isinstance(x, Sym):
        if isinstance(x, (int, float, np.number)):
            return math.sqrt(x)
        raise Unsupported("sqrt")
    e = toreal(x)
    c = cval(z3.simplify(e)) if not z3.is_const(e) else cval(e)
    if c is not None and c >= 0:
        return math.sqrt(c) if c not in (0, 1, 4) else {0: 0.0, 1: 1.0, 4: 2.0}[int(c)]
    p = ST.path
    if p.run.h.limits.get("assume_roots"):
        p.known_nonneg(e)
        p.run.assumptions.add("arguments of square roots are not negative (well-definedness taken as precondition)")
    elif squares(e):
        p.known_nonneg(e)
    elif native:
        if p.branch(e < 0):
            raise ValueError("math domain error")
    else:
        if p.branch(e < 0):
            raise Unsupported("numpy sqrt of a negative number (nan)")
    return p.sqrt(e)


# ------------------------------------------------------------------ strings
class SStr:
    """A string built from literal chunks and formatted symbolic values: list of str | (value, spec)."""

    def __init__(self, chunks):
        out = []
        for c in chunks:
            if isinstance(c, SStr):
                cs = c.chunks
            else:
                cs = [c]
            for k in cs:
                if isinstance(k, str) and out and isinstance(out[-1], str):
                    out[-1] += k
                elif k != "" or not isinstance(k, str):
                    out.append(k)
        self.chunks = out

    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr([self, o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return SStr([o, self])
        return NotImplemented

    def __repr__(self):
        return "SStr(" + repr(self.chunks) + ")"

    def __str__(self):
        raise Unsupported("native str of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic string")

    def __hash__(self):
        return 11

    def __eq__(self, o):
        if isinstance(o, SStr) and len(o.chunks) == len(self.chunks):
            ok = z3.BoolVal(True)
            for a, b in zip(self.chunks, o.chunks):
                if isinstance(a, str) or isinstance(b, str):
                    if a != b:
                        # after the same text, two literals of which neither starts with the other
                        if isinstance(a, str) and isinstance(b, str) and not a.startswith(b) and not b.startswith(a) and z3.is_true(z3.simplify(ok)):
                            return False
                        raise Unsupported("symbolic string comparison")
                else:
                    if a[1] != b[1]:
                        raise Unsupported("symbolic string comparison")
                    ok = z3.And(ok, boolterm(a[0] == b[0]))
            return Sym(ok)
        if isinstance(o, (str, SStr)):
            raise Unsupported("symbolic string comparison")
        return False

    def __bool__(self):
        return True

    def strip(self, *a):
        return self


def _merge(c, a, b):
    """if c then a else b, for numbers and lists of numbers of the same length"""
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        r = [_merge(c, x, y) for x, y in zip(a, b)]
        return None if any(x is None for x in r) else type(a)(r)
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape:
        r = np.empty(a.shape, dtype=object)
        for k in np.ndindex(a.shape):
            r[k] = _merge(c, a[k], b[k])
            if r[k] is None:
                return None
        return r
    if all(isinstance(x, (Sym, int, float)) and not isinstance(x, bool) and not (isinstance(x, Sym) and x.is_bool) for x in (a, b)):
        x, y = num(a), num(b)
        if x.sort() != y.sort():
            x, y = (z3.ToReal(t) if z3.is_int(t) else t for t in (x, y))
        return Sym(z3.If(c, x, y))
    return None


class SymSeq:
    """A sequence of symbolic length; element i is get(i)."""

    def __init__(self, length, get, name="seq"):
        self.length, self.get, self.name = length, get, name

    def __repr__(self):
        return f"SymSeq({self.name})"

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return self
            raise Unsupported("slice of a symbolic sequence")
        if not isinstance(i, Sym):
            if not hasattr(i, "__index__"):
                raise TypeError(f"list indices must be integers or slices, not {type(i).__name__}")
            i = int(i)
            ok = num(self.length) > i if i >= 0 else num(self.length) >= -i
            i = i if i >= 0 else self.length + i
        else:
            ok = z3.And(i.e >= 0, i.e < num(self.length))
        if not ST.path.branch(ok):
            raise IndexError("list index out of range")
        return self.get(i)

    def __bool__(self):
        return ST.path.branch(num(self.length) > 0)

    def __iter__(self):
        from .loops import unroll

        return unroll(self, "iteration over " + self.name)

    def copy(self):
        return SymSeq(self.length, self.get, self.name)

    tolist = copy

    def append(self, v):
        n, old = self.length, self.get

        def get(i):
            from .arrays import decided

            c = z3.simplify(num(i) == num(n))
            d = decided(c)
            if d is not None:
                return v if d else old(i)
            m = _merge(c, v, old(i))
            if m is not None:
                return m
            return v if ST.path.branch(c) else old(i)

        self.length, self.get = n + 1, get


class SymArray:
    """Placeholder base (see symarray.py)."""
