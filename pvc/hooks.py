"""Run-time hooks called by instrumented code."""
from __future__ import annotations

import builtins
import operator

import numpy as np
import z3

from .sym import ST, Bounded, PathEnd, SField, SStr, Sym, SymArray, SymSeq, Unsupported, has_sym


def call(f, *a, **k):
    if not ST.active:
        return f(*a, **k)
    from . import arrays, models

    m = models.lookup(f)
    if m is None or not hasattr(m, "contract"):
        r = arrays.intercept(f, a, k)
        if r is not NotImplemented:
            return r
    if m is not None:
        r = m(f, a, k)
        if r is not NotImplemented:
            return r
    return f(*a, **k)


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 115:
                v = call(str, v)
            elif conv == 114:
                v = repr(v)
            out.append(fmt(v, spec))
        else:
            out.append(p)
    if any(isinstance(o, SStr) for o in out):
        return SStr(out)
    return "".join(out)


def fmt(v, spec):
    if isinstance(v, SStr):
        if spec in ("", "s"):
            return v
        raise Unsupported("format spec on symbolic string")
    if isinstance(v, (Sym, SField)):
        return SStr([(v, spec)])
    if ST.active:
        f = getattr(type(v), "__format__", None)
        if f is not None and has_sym(getattr(v, "__dict__", None) or {}):
            r = type(v).__format__(v, spec)
            return r
    return format(v, spec)


def mod(a, b):
    if isinstance(a, str) and has_sym(b):
        return percent(a, b)
    return a % b


def percent(f, args):
    import re

    if not isinstance(args, tuple):
        args = (args,)
    out, i = [], 0
    pos = 0
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?[diufFeEgGs])", f):
        out.append(f[pos : m.start()])
        pos = m.end()
        t = m.group(1)
        if t == "%":
            out.append("%")
            continue
        v = args[i]
        i += 1
        if not has_sym(v):
            out.append(("%" + t) % v)
            continue
        kind = t[-1]
        spec = t[:-1]
        if kind in "diu":
            from .models import to_int

            out.append(SStr([(to_int(v), spec + "d")]))
        elif kind == "s":
            out.append(fmt(v, spec))
        else:
            out.append(SStr([(v, spec + kind)]))
    out.append(f[pos:])
    return SStr(out)


def listcomp(it, body):
    if ST.active and isinstance(it, (SymSeq, SymArray)):
        from . import loops

        it = loops.as_seq(it)
    if ST.active and isinstance(it, SymSeq):
        from . import loops

        return loops.seq_map(it, body)
    return body(it)


def iter0(it):
    if ST.active and isinstance(it, (SymSeq, SymArray)):
        from . import loops

        it = loops.as_seq(it)
    if ST.active and isinstance(it, SymSeq):
        from . import loops

        return loops.unroll(it, "comprehension")
    return it


def iter_(it, lid, getters, names, setter):
    if not ST.active:
        return it
    from . import loops

    return loops.iterate(it, lid, getters, names, setter)


def while_(test, lid, getters, names, setter):
    if ST.active:
        from . import loops

        yield from loops.while_(test, lid, getters, names, setter)
        return
    while test():
        yield None


_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "%": operator.imod,
         "//": operator.ifloordiv}
_BOPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod,
         "//": operator.floordiv}


def aug(op, x, e):
    if ST.active and isinstance(x, SymArray):
        r = _BOPS[op](x, e)
        x[...] = r
        return x
    if ST.active and isinstance(x, np.ndarray) and has_sym(e):
        if x.dtype != object:
            raise Unsupported("in-place update of a native array with symbolic values")
        x[...] = _BOPS[op](x, e)
        return x
    if op == "%" and isinstance(x, str):
        return mod(x, e)
    return _IOPS[op](x, e)


GLOBALS = {
    "__pvc_aug__": aug,
    "__pvc_call__": call,
    "__pvc_fstr__": fstr,
    "__pvc_mod__": mod,
    "__pvc_listcomp__": listcomp,
    "__pvc_iter0__": iter0,
    "__pvc_iter__": iter_,
    "__pvc_while__": while_,
}
