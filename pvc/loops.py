"""Loop contracts, symbolic sequences, bounded unrolling."""
from __future__ import annotations

import numpy as np
import z3

from .sym import ST, PathEnd, Sym, SymSeq, Unsupported, boolterm, lift, num


def _arrays_module():
    from . import arrays

    return arrays


class LoopSpec:
    """inv(env, i) -> Sym/bool/list of (name, cond); havoc(env) -> dict name -> fresh value.

    env maps the names assigned in the body (that are bound at loop entry) to their values."""

    def __init__(self, lid, inv, havoc=None, variant=None):
        self.lid, self.inv, self.havoc, self.variant = lid, inv, havoc, variant


def _arrays():
    from .arrays import SArr

    return SArr


def sym_range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(st, Sym):
        raise Unsupported("symbolic range step")
    for v in (lo, hi):
        if isinstance(v, Sym) and v.is_real:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if st > 0:
        n = (hi - lo + (st - 1)) // st
    else:
        n = (lo - hi + (-st - 1)) // (-st)
    ne = num(n)
    n = Sym(z3.If(ne > 0, ne, z3.IntVal(0)))
    s = SymSeq(n, lambda i: lo + st * i, "range")
    s.range = (lo, hi, st)
    return s


def seq_map(seq, body):
    """[e for t in seq if ...]: only total maps (exactly one result per element) keep the symbolic length."""

    def get(i):
        r = body([seq.get(i)])
        if len(r) != 1:
            raise Unsupported("filtering comprehension over a symbolic sequence")
        return r[0]

    # evaluate once at a generic index so that effects and exceptions of the body are seen
    i = ST.path.fresh("gen", "int")
    n = num(seq.length)
    if ST.path.branch(n > 0):
        ST.path.add(z3.And(i.e >= 0, i.e < n))
        get(i)
    return SymSeq(seq.length, get, f"map({seq.name})")


def unroll(seq, lid):
    k = 0
    lim = ST.path.run.limits.loop_unroll
    while True:
        c = num(seq.length) > k
        sc = z3.simplify(c)
        if z3.is_false(sc):
            return
        if not z3.is_true(sc):
            if k >= lim:
                # can the loop still continue?
                if ST.path.feasible(c) == z3.unsat:
                    return
                ST.path.run.bounded.add(f"loop {lid} unrolled {lim} times")
                ST.path.assume(z3.Not(c))
                return
            if not ST.path.branch(c):
                return
        elif k > 4096:
            raise Unsupported("loop too long")
        yield seq.get(k)
        k += 1


def _rows(a):
    return SymSeq(a.shape[0], lambda i: a[i], a.name)


def as_seq(a):
    """the rows of an array of symbolic length"""
    return _rows(a) if isinstance(a, _arrays()) and isinstance(a.shape[0], Sym) else a


def iterate(it, lid, getters, names, setter):
    if isinstance(it, Sym):
        raise TypeError("'float' object is not iterable")
    if isinstance(it, enumerate):
        return it
    it = as_seq(it)
    if not isinstance(it, SymSeq):
        return it
    spec = ST.path.run.loopspec(lid)
    if spec is None:
        return unroll(it, lid)
    return _cut(it, lid, spec, getters, names, setter)


def _env(getters, names):
    env = {}
    for g, n in zip(getters, names):
        try:
            env[n] = g()
        except NameError:
            pass
    return env


def _conds(r):
    if isinstance(r, list):
        return r
    return [("invariant", r)]


class ForAll:
    """for every integer j with lo <= j < hi: fn(j); last: the last one is shown on its own (the element just added)"""

    def __init__(self, lo, hi, fn, last=False):
        self.lo, self.hi, self.fn, self.last = lo, hi, fn, last

    def at(self, j):
        return z3.Implies(z3.And(num(j) >= num(self.lo), num(j) < num(self.hi)), boolterm(self.fn(j)))


def assume(c):
    p = ST.path
    if isinstance(c, ForAll):
        p.foralls.append(c)
        for t in list(p.points):
            p.add(c.at(t), define=True)
    else:
        p.add(boolterm(c))


def point(*ts):
    """Index terms at which the assumed ForAll facts are stated."""
    p = ST.path
    for t in ts:
        t = t if isinstance(t, Sym) else Sym(num(t))
        k = z3.simplify(num(t))
        if any(k.eq(z3.simplify(num(q))) for q in p.points):
            continue
        p.points.append(t)
        for c in list(p.foralls):
            p.add(c.at(t), define=True)


def show(name, c):
    p = ST.path
    if isinstance(c, ForAll):
        if c.last and _arrays_module().decided(z3.simplify(num(c.hi) > num(c.lo))):
            e = Sym(z3.simplify(num(c.hi) - 1))
            point(e)
            p.check(f"{name} (last)", boolterm(c.fn(e)), "invariant")
            c = ForAll(c.lo, e, c.fn)
        j = p.fresh("j", "int")
        point(j, j - 1, j + 1)
        p.check(name, c.at(j), "invariant")
    else:
        p.check(name, boolterm(c), "invariant")


def _enter(lid, spec, getters, names, setter, i0):
    """entry obligations and an arbitrary state satisfying the invariant; None when the contract does not fit the code"""
    p = ST.path
    env0 = _env(getters, names)
    try:
        conds = _conds(spec.inv(env0, i0))
    except (KeyError, AttributeError, TypeError):
        p.run.bounded.add(f"loop contract of {lid} does not match the code; unrolled instead")
        return False
    p.approx.add("loop contract")
    for nm, c in conds:
        show(f"{lid}: {nm} holds on entry", c)
    hv = dict(spec.havoc(env0)) if spec.havoc else {}
    for k, v in env0.items():
        if k not in hv:
            hv[k] = _havoc_value(p, k, v)
    if setter:
        setter(hv)
    return True


def _cut(seq, lid, spec, getters, names, setter):
    p = ST.path
    n = num(seq.length)
    if not _enter(lid, spec, getters, names, setter, 0):
        yield from unroll(seq, lid)
        return
    i = p.fresh("i", "int")
    p.add(z3.And(i.e >= 0, i.e <= n))
    point(i, i + 1, i - 1)
    for nm, c in _conds(spec.inv(_env(getters, names), i)):
        assume(c)
    p.run.stats["loops_cut"] = p.run.stats.get("loops_cut", 0) + 1
    if p.branch(i.e < n):
        yield seq.get(i)
        for nm, c in _conds(spec.inv(_env(getters, names), i + 1)):
            show(f"{lid}: {nm} preserved", c)
        raise PathEnd()
    p.add(i.e == n)


def while_(test, lid, getters, names, setter):
    p = ST.path
    spec = p.run.loopspec(lid)
    if spec is None or not _enter(lid, spec, getters, names, setter, None):
        while test():
            yield None
        return
    for nm, c in _conds(spec.inv(_env(getters, names), None)):
        assume(c)
    p.run.stats["loops_cut"] = p.run.stats.get("loops_cut", 0) + 1
    for v in _env(getters, names).values():
        if isinstance(v, Sym) and v.is_int:
            point(v, v + 1, v - 1)
    if test():
        before = spec.variant(_env(getters, names)) if spec.variant else None
        yield None
        env = _env(getters, names)
        for nm, c in _conds(spec.inv(env, None)):
            show(f"{lid}: {nm} preserved", c)
        if spec.variant:
            show(f"{lid}: terminates", (spec.variant(env) < before) & (before >= 0))
        raise PathEnd()


def _havoc_value(p, k, v):
    if isinstance(v, Sym):
        return p.fresh(k, "bool" if v.is_bool else "int" if v.is_int else "real")
    if isinstance(v, bool):
        return p.fresh(k, "bool")
    if isinstance(v, (float, np.floating)):
        return p.fresh(k, "real")
    if v is None:
        return v
    if isinstance(v, _arrays()):
        SArr = _arrays()
        f = z3.Function(f"{k}!{p.fresh_n}", *([z3.IntSort()] * v.ndim + [z3.RealSort()]))
        p.fresh_n += 1
        return SArr(v.shape, lambda *i: Sym(f(*[num(x) for x in i])), v.dtype, k)
    if isinstance(v, int):
        return p.fresh(k, "int")
    raise Unsupported(f"cannot havoc loop variable {k} of type {type(v).__name__}")
