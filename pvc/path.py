"""Path state: decisions, path condition, definitional axioms, obligations."""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

from . import algebra, solve
from .sym import ST, Bounded, PathEnd, Sym, Unsupported, cval, qval, toreal

R = z3.RealSort()


class Limits:
    feas_ms = 400
    max_paths = 600
    max_seconds = 150.0
    concretize_max = 64
    loop_unroll = 6
    ob_ms = 8000


def _single(c):
    """comparison of one variable with a constant"""
    while z3.is_not(c):
        c = c.arg(0)
    return z3.is_app(c) and c.num_args() == 2 and any(z3.is_const(x) and x.num_args() == 0 for x in c.children())


class Path:
    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.pc = []  # path condition and assumptions
        self.defs = []  # definitional axioms (sqrt, uninterpreted functions ...)
        self.solver = z3.Solver()
        self.solver.set("timeout", run.limits.feas_ms)
        self.vars = {}
        self.sqrts = {}
        self.sqfrac = {}
        self.apps = {}
        self.rewrites = []  # (var term, degree, replacement term): triangular relations for the algebraic back end
        self.fresh_n = 0
        self.notes = set()
        self.approx = set()  # over-approximated library values on this path
        self.bounded = set()
        self.known = {}
        self.keep = []
        self.table = algebra.SignTable()
        self.nrw = 0
        self.foralls, self.points = [], []

    # -- declarations
    def var(self, name, sort="real"):
        if name in self.vars:
            return self.vars[name]
        e = {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](name)
        s = Sym(e)
        self.vars[name] = s
        return s

    def fresh(self, name, sort="real"):
        self.fresh_n += 1
        e = {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](f"{name}!{self.fresh_n}")
        return Sym(e)

    # -- assumptions
    def add(self, e, define=False):
        if not define:
            e = self.canon(e)
        (self.defs if define else self.pc).append(e)
        self.solver.add(e)
        self.note(e)

    def canon(self, c):
        """An equivalent condition (under the facts of the path) over canonical polynomials, or the condition itself."""
        if z3.is_and(c) or z3.is_or(c):
            ch = [self.canon(x) for x in c.children()]
            return z3.And(*ch) if z3.is_and(c) else z3.Or(*ch)
        at = algebra.sign_atoms(c)
        if at is None or solve._linear(c):
            return c
        self.sync()
        t = self.table.canon(at[0])
        if t is None:
            return c
        zero = z3.RealVal(0)
        r = {
            frozenset((-1,)): t < zero, frozenset((-1, 0)): t <= zero, frozenset((0,)): t == zero,
            frozenset((0, 1)): t >= zero, frozenset((1,)): t > zero, frozenset((-1, 1)): t != zero,
        }[at[1]]
        return r

    def sync(self):
        while self.nrw < len(self.rewrites):
            self.table.rewrite(*self.rewrites[self.nrw])
            self.nrw += 1

    def note(self, e):
        """Remember the signs that a fact fixes."""
        self.sync()
        for c in solve._flat([e]):
            at = algebra.sign_atoms(c)
            if at is not None and (not solve._linear(c) or _single(c)):
                self.table.note(*at)

    def implied(self, c):
        """True/False when the sign table decides the condition, else None."""
        if z3.is_and(c):
            rs = [self.implied(x) for x in c.children()]
            return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
        if z3.is_or(c):
            rs = [self.implied(x) for x in c.children()]
            return True if any(r is True for r in rs) else False if all(r is False for r in rs) else None
        at = algebra.sign_atoms(c)
        if at is None or (solve._linear(c) and not _single(c)):
            return None
        self.sync()
        t, al = at
        s = self.table.signs(t)
        if s <= al:
            return True
        if not (s & al):
            return False
        return None

    def assume(self, e):
        e = z3.simplify(e) if z3.is_expr(e) else e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd()
        self.add(e)

    def feasible(self, extra=None):
        t0 = time.time()
        self.solver.push()
        if extra is not None:
            self.solver.add(extra)
        r = self.solver.check()
        self.solver.pop()
        self.run.stats["feas_time"] += time.time() - t0
        self.run.stats["feas_queries"] += 1
        return r

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key]
        if (z3.is_or(cond) or z3.is_and(cond)) and cond.num_args() <= 4 and not solve._linear(cond):
            # atomic decisions, so that every path carries facts rather than disjunctions
            if z3.is_or(cond):
                return any(self.branch(x) for x in cond.children())
            return all(self.branch(x) for x in cond.children())
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if time.time() > self.run.deadline:
                raise Unsupported("time limit of path exploration")
            d = self.implied(c)
            if d is None:
                cc = self.canon(c)
                rt = self.feasible(cc)
                if rt == z3.unsat:
                    d = False
                else:
                    rf = self.feasible(z3.Not(cc))
                    if rf == z3.unsat:
                        d = True
                    else:
                        d = True
                        self.run.push(self.decisions + [False])
        self.pos += 1
        self.decisions.append(d)
        f = c if d else z3.Not(c)
        self.keep.append(c)
        self.known[key] = d
        self.add(f)
        return d

    def concretize(self, e):
        """Fork over every value an integer term can take (complete when at most concretize_max values)."""
        c = cval(z3.simplify(e))
        if c is not None:
            return int(c)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            vals = []
            self.solver.push()
            while True:
                r = self.solver.check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.solver.pop()
                    raise Unsupported("cannot enumerate the values of an index")
                v = self.solver.model().eval(e, model_completion=True)
                v = int(v.as_long())
                vals.append(v)
                if len(vals) > self.run.limits.concretize_max:
                    self.solver.pop()
                    raise Unsupported("index with too many possible values")
                self.solver.add(e != v)
            self.solver.pop()
            if not vals:
                raise PathEnd()
            vals.sort()
            d = ("v", vals[0])
            for v in vals[1:]:
                self.run.push(self.decisions + [("v", v)])
        self.pos += 1
        self.decisions.append(d)
        self.add(e == d[1])
        return d[1]

    def choose(self, n):
        """Non-deterministic choice among n alternatives, all explored."""
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = ("c", 0)
            for k in range(1, n):
                self.run.push(self.decisions + [("c", k)])
        self.pos += 1
        self.decisions.append(d)
        return d[1]

    def nonzero(self, y):
        """A division: Python raises when the divisor is zero."""
        if self.run.assume_nonzero:
            key = ("nz", y.get_id())
            if key not in self.known:
                self.keep.append(y)
                self.known[key] = True
                self.add(y != 0, define=True)
                self.run.assumptions.add("divisors met on the way are non-zero (well-definedness taken as precondition)")
            return
        if self.branch(y == 0):
            raise ZeroDivisionError("division by zero")

    def known_nonneg(self, e):
        c = z3.simplify(e < 0)
        if not (z3.is_true(c) or z3.is_false(c)) and c.get_id() not in self.known:
            self.keep.append(c)
            self.known[c.get_id()] = False
            self.add(e >= 0, define=True)

    # -- functions
    def sqrt(self, e):
        k = z3.simplify(e).get_id()
        if k in self.sqrts:
            return self.sqrts[k][0]
        fk = None
        try:
            self.sync()
            fn, fd = self.table.frac(e)
            fk = (frozenset(fn.items()), frozenset(fd.items()))
            if fk in self.sqfrac:
                self.keep.append(z3.simplify(e))
                self.sqrts[k] = self.sqfrac[fk]
                return self.sqfrac[fk][0]
            if fd == {(): 1} and len(fn) <= 1:
                q = fn.get((), None) if fn else Fraction(0)
                if q is not None and q >= 0:
                    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
                    if a * a == q.numerator and b * b == q.denominator:
                        return Sym(qval(Fraction(a, b)))
            r = self.table.root(fn, fd)
            if r is not None:
                return Sym(r)
        except (algebra.TooBig, RecursionError):
            pass
        self.fresh_n += 1
        s = z3.Real(f"sqrt!{self.fresh_n}")
        self.keep.append(z3.simplify(e))
        self.sqrts[z3.simplify(e).get_id()] = (Sym(s), e)
        self.sqrts[k] = (Sym(s), e)
        if fk is not None:
            self.sqfrac[fk] = (Sym(s), e)
        self.rewrites.append((s, 2, e))
        self.add(s >= 0, define=True)
        self.add(s * s == e, define=True)
        return Sym(s)

    def apply(self, name, x, sort="real"):
        from . import models

        e = toreal(x)
        se = z3.simplify(e)
        k = (name, se.get_id())
        if k in self.apps:
            return self.apps[k]
        f = z3.Function(name, R, R)
        t = f(e)
        self.keep.append(se)
        r = Sym(t)
        self.apps[k] = r
        ax = models.AXIOMS.get(name)
        if ax:
            ax(self, e, t)
        return r

    def pow2(self, e):
        f = z3.Function("pow2", z3.IntSort(), z3.IntSort())
        t = f(e)
        if ("pow2", e.get_id()) not in self.known:
            self.known[("pow2", e.get_id())] = True
            self.keep.append(e)
            self.add(t >= 1, define=True)
            self.add(z3.Implies(e == 0, t == 1), define=True)
            self.add(f(e + 1) == 2 * t, define=True)
            self.add(z3.Implies(e >= 1, t == 2 * f(e - 1)), define=True)
        return t

    # -- obligations
    def check(self, name, goal, kind="post"):
        self.run.obligation(self, name, goal, kind)
