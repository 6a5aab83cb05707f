"""Algebraic back end: equality of rational functions modulo triangular relations x^k = t.

Terms become fractions of sparse polynomials with rational coefficients; generators are the variables and the
uninterpreted applications.  Powers of a generator with a relation are reduced (the relations are introduced in an
order in which each right-hand side only mentions earlier generators, so reduction terminates).
A zero remainder of the numerator proves the equality wherever the denominators are non-zero, which the execution
path already established.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}


# monomial: tuple of (gen, exp) sorted by gen
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, gb = a[i][0], b[j][0]
        if ga == gb:
            out.append((ga, a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif ga < gb:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _key(m):
    """lexicographic monomial order (a multiplicative order on sparse monomials)"""
    return tuple((-g, e) for g, e in m) + ((-(1 << 60), 0),)


def _mono_div(a, b):
    da = dict(a)
    for g, e in b:
        x = da.get(g, 0) - e
        if x < 0:
            return None
        if x:
            da[g] = x
        else:
            da.pop(g, None)
    return tuple(sorted(da.items()))


class Ring:
    def __init__(self, rewrites, budget):
        self.gens = {}
        self.keepg = {}
        self.keep = []
        self.rel = {}  # gen -> (k, num, den)
        self.rewrites = {}
        for s, k, t in rewrites:
            self.rewrites[s.get_id()] = (k, t)
        self.deadline = time.time() + budget
        self.cache = {}
        self.maxterms = 60000

    def tick(self):
        if time.time() > self.deadline:
            raise TooBig("time")

    def gen(self, t):
        i = t.get_id()
        if i not in self.gens:
            self._gen(t)
            self.keepg[self.gens[i]] = t
        return self.gens[i]

    def _gen(self, t):
        i = t.get_id()
        if True:
            rw = self.rewrites.get(i)
            if rw is not None:
                k, rhs = rw
                rel = self.frac(rhs)
                n = len(self.gens)
                self.gens[i] = n
                self.keep.append(t)
                self.rel[n] = (k, rel[0], rel[1])
            else:
                self.gens[i] = len(self.gens)
                self.keep.append(t)

    # ---- polynomial ops (dict mono->Fraction)
    def add(self, a, b, sign=1):
        if len(a) < len(b) and sign == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + sign * c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mul(self, a, b):
        if len(a) * len(b) > 4000000:
            raise TooBig("product")
        r = {}
        n = 0
        for ma, ca in a.items():
            n += 1
            if n % 64 == 0:
                self.tick()
            for mb, cb in b.items():
                m = mono_mul(ma, mb)
                v = r.get(m)
                r[m] = ca * cb if v is None else v + ca * cb
        return {m: c for m, c in r.items() if c != 0}

    def divexact(self, a, b, limit=4000):
        """a / b when b divides a in the free polynomial ring, else None."""
        if not b or len(b) > 40 or len(a) < len(b) or len(a) > limit:
            return None
        key = lambda m: _key(m)
        lb = max(b, key=key)
        cb = b[lb]
        a = dict(a)
        q = {}
        n = 0
        while a:
            n += 1
            if n > limit:
                return None
            la = max(a, key=key) if len(a) < 64 else max(a, key=key)
            m = _mono_div(la, lb)
            if m is None:
                return None
            c = a[la] / cb if not isinstance(a[la], int) or not isinstance(cb, int) else Fraction(a[la], cb)
            q[m] = c
            for mb, x in b.items():
                k = mono_mul(m, mb)
                v = a.get(k, 0) - c * x
                if v == 0:
                    a.pop(k, None)
                else:
                    a[k] = v
            if n % 16 == 0:
                self.tick()
                if len(a) > limit:
                    return None
        return q

    def const(self, q):
        return {(): q} if q != 0 else {}

    # ---- fractions (num, den), reduced modulo relations
    def fadd(self, a, b, sign=1):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.shrink(self.add(n1, n2, sign), d1)
        if len(d1) > 1 or len(d2) > 1:
            q = d2 if d1 == {(): 1} else self.divexact(d2, d1)
            if q is not None:
                return self.red((self.add(self.mul(n1, q), n2, sign), d2))
            q = d1 if d2 == {(): 1} else self.divexact(d1, d2)
            if q is not None:
                return self.red((self.add(n1, self.mul(n2, q), sign), d1))
        return self.red((self.add(self.mul(n1, d2), self.mul(n2, d1), sign), self.mul(d1, d2)))

    def shrink(self, n, d):
        if not n:
            return n, {(): Fraction(1)}
        if len(d) > 1 and len(n) >= len(d):
            q = self.divexact(n, d, 600)
            if q is not None:
                return q, {(): Fraction(1)}
        return n, d

    def fmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if len(d2) > 1 and len(n1) >= len(d2):
            q = self.divexact(n1, d2, 600)
            if q is not None:
                n1, d2 = q, {(): Fraction(1)}
        if len(d1) > 1 and len(n2) >= len(d1):
            q = self.divexact(n2, d1, 600)
            if q is not None:
                n2, d1 = q, {(): Fraction(1)}
        if n1 == d2:
            return (n2, d1)
        if n2 == d1:
            return (n1, d2)
        return self.red((self.mul(n1, n2), self.mul(d1, d2)))

    def fdiv(self, a, b):
        return self.fmul(a, (b[1], b[0]))

    def red(self, f):
        n, d = f
        n, dn = self.reduce(n)
        d, dd = self.reduce(d)
        # n/dn / (d/dd) = n*dd/(dn*d)
        if dd != {(): 1}:
            n = self.mul(n, dd)
        if dn != {(): 1}:
            d = self.mul(d, dn)
        if len(d) == 1:
            ((m, c),) = d.items()
            if m == ():
                if c != 1:
                    n = {k: v / c for k, v in n.items()}
                    d = {(): Fraction(1)}
            else:
                # cancel common monomial
                n, d = self.cancel(n, m, c)
        elif len(d) > 1:
            n, d = self.shrink(n, d)
        return (n, d)

    def cancel(self, n, m, c):
        if not n:
            return {}, {(): Fraction(1)}
        dm = dict(m)
        for g in list(dm):
            lo = min((dict(k).get(g, 0) for k in n), default=0)
            lo = min(lo, dm[g])
            dm[g] = lo
        dm = {g: e for g, e in dm.items() if e}
        if dm:
            n2 = {}
            for k, v in n.items():
                kk = tuple((g, e - dm.get(g, 0)) for g, e in k if e - dm.get(g, 0))
                n2[kk] = v
            n = n2
            m = tuple((g, e - dm.get(g, 0)) for g, e in m if e - dm.get(g, 0))
        n = {k: v / c for k, v in n.items()}
        return n, {m: Fraction(1)}

    def reduce(self, p):
        """Reduce modulo the relations; returns (poly, den) with value poly/den."""
        den = {(): Fraction(1)}
        while True:
            # highest generator with a relation whose exponent reaches its degree
            target = None
            for m in p:
                for g, e in m:
                    r = self.rel.get(g)
                    if r and e >= r[0] and (target is None or g > target):
                        target = g
            if target is None:
                return p, den
            self.tick()
            k, rn, rd = self.rel[target]
            # group by power q = e // k
            groups = {}
            for m, c in p.items():
                e = 0
                rest = []
                for g, x in m:
                    if g == target:
                        e = x
                    else:
                        rest.append((g, x))
                q, rem = divmod(e, k)
                if rem:
                    rest.append((target, rem))
                    rest.sort()
                groups.setdefault(q, {})
                kk = tuple(rest)
                groups[q][kk] = groups[q].get(kk, 0) + c
            Q = max(groups)
            one = rd == {(): 1}
            out = {}
            powers = [{(): Fraction(1)}]
            for _ in range(Q):
                powers.append(self.mul(powers[-1], rn))
            dpow = [{(): Fraction(1)}]
            if not one:
                for _ in range(Q):
                    dpow.append(self.mul(dpow[-1], rd))
            for q, poly in groups.items():
                t = self.mul(poly, powers[q])
                if not one:
                    t = self.mul(t, dpow[Q - q])
                out = self.add(out, t)
            if not one:
                den = self.mul(den, dpow[Q])
            p = {m: c for m, c in out.items() if c != 0}
            if len(p) > self.maxterms:
                raise TooBig("terms")

    # ---- term translation
    def frac(self, t):
        i = t.get_id()
        r = self.cache.get(i)
        if r is not None:
            return r
        r = self._frac(t)
        self.cache[i] = r
        self.keep.append(t)
        return r

    def _frac(self, t):
        self.tick()
        one = {(): Fraction(1)}
        if z3.is_int_value(t):
            return (self.const(Fraction(t.as_long())), one)
        if z3.is_rational_value(t):
            return (self.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), one)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]:
                r = self.fadd(r, self.frac(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]:
                r = self.fadd(r, self.frac(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.frac(t.arg(0))
            return ({m: -c for m, c in n.items()}, d)
        if k == z3.Z3_OP_MUL:
            r = self.frac(t.arg(0))
            for c in t.children()[1:]:
                r = self.fmul(r, self.frac(c))
            return r
        if k == z3.Z3_OP_DIV:
            b = self.frac(t.arg(1))
            if not b[0]:
                raise TooBig("zero divisor")
            return self.fdiv(self.frac(t.arg(0)), b)
        if k == z3.Z3_OP_POWER and (z3.is_int_value(t.arg(1)) or z3.is_rational_value(t.arg(1))):
            n = Fraction(str(t.arg(1).as_fraction() if z3.is_rational_value(t.arg(1)) else t.arg(1).as_long()))
            if n.denominator == 1 and 0 <= n <= 12:
                r = (one, one)
                for _ in range(int(n)):
                    r = self.fmul(r, self.frac(t.arg(0)))
                return r
        if k == z3.Z3_OP_TO_REAL:
            return self.frac(t.arg(0))
        n = self.gen(t)
        return ({((n, 1),): Fraction(1)}, one)


def prove_equalities(eqs, rewrites, pc, budget=6.0):
    ring = Ring(rewrites, budget)
    try:
        for a, b in eqs:
            n, d = ring.fadd(ring.frac(a), ring.frac(b), -1)
            n, _ = ring.reduce(n)
            if n:
                return False
        return True
    except RecursionError:
        raise TooBig("recursion")


ALL = frozenset((-1, 0, 1))


class SignTable:
    """Signs of expressions met on a path, matched up to algebraic equality (and factors of known sign)."""

    def __init__(self):
        self.ring = Ring([], 1.0)
        self.facts = {}  # key of the canonical fraction -> allowed signs
        self.scan = []  # (frac, allowed index key) of fractions with a proper denominator
        self.small = []
        self.gensign = {}  # generator -> allowed signs

    def rewrite(self, s, k, t):
        self.ring.rewrites[s.get_id()] = (k, t)
        self.ring.keep.append(s)
        self.ring.keep.append(t)
        # an already translated occurrence would miss the relation
        if s.get_id() in self.ring.gens:
            g = self.ring.gens[s.get_id()]
            try:
                r = self.ring.frac(t)
                self.ring.rel[g] = (k, r[0], r[1])
            except TooBig:
                pass

    def frac(self, t, budget=1.0):
        self.ring.deadline = time.time() + budget
        self.ring.maxterms = 4000
        return self.ring.red(self.ring.frac(t))

    def term(self, p):
        """The z3 term of a polynomial of this table."""
        by = {g: self.ring.keepg[g] for m in p for g, _ in m}
        ts = []
        for m, c in sorted(p.items()):
            f = [z3.Q(c.numerator, c.denominator)] if c != 1 or not m else []
            for g, e in m:
                x = by[g]
                if z3.is_int(x):
                    x = z3.ToReal(x)
                f += [x] * e
            ts.append(f[0] if len(f) == 1 else z3.Product(*f))
        return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def root(self, n, d):
        """Square root of a fraction of monomials with even exponents whose generators have a known sign, as a term."""
        out = []
        for p in (n, d):
            if len(p) != 1:
                return None
            ((m, c),) = p.items()
            if c < 0:
                return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                return None
            s = 1
            for g, e in m:
                gs = self.gensign.get(g, ALL)
                if e % 2 or not (gs <= {0, 1} or gs <= {0, -1}):
                    return None
                if (e // 2) % 2 and not gs <= {0, 1}:
                    s = -s
            out.append({tuple((g, e // 2) for g, e in m): Fraction(a, b) * s})
        t = self.term(out[0])
        return t if out[1] == {(): 1} else t / self.term(out[1])

    def canon(self, t):
        """(term, flip) with sign(t) == sign(term), or None; equalities included."""
        try:
            n, d = self.frac(t)
        except (TooBig, RecursionError):
            return None
        if len(n) > 60 or len(d) > 20:
            return None
        if not n:
            return z3.RealVal(0)
        if d == {(): 1}:
            return self.term(n)
        ds = self.poly_sign(d)
        if ds <= {1}:
            return self.term(n)
        if ds <= {-1}:
            return -self.term(n)
        return self.term(n) * self.term(d)

    @staticmethod
    def key(n, d):
        """Canonical key and sign flip: the numerator's leading coefficient is scaled to +-1."""
        lead = max(n)
        c = n[lead]
        return (frozenset((m, v / abs(c) * (1 if c > 0 else -1)) for m, v in n.items()),
                frozenset(d.items())), (1 if c > 0 else -1)

    def poly_sign(self, p):
        """Allowed signs of a polynomial from the signs of its generators and, up to a monomial factor, the facts."""
        r = self._poly_sign(p)
        if len(r) == 1 or len(p) < 2:
            return r
        common = dict(next(iter(p)))
        for m in p:
            dm = dict(m)
            common = {g: min(e, dm.get(g, 0)) for g, e in common.items() if dm.get(g, 0)}
            if not common:
                break
        rest = p
        cs = {1}
        if common:
            rest = {tuple((g, e - common.get(g, 0)) for g, e in m if e > common.get(g, 0)): c for m, c in p.items()}
            cs = self._poly_sign({tuple(sorted(common.items())): Fraction(1)})
        k, fl = self.key(rest, {(): Fraction(1)})
        f = self.facts.get(k)
        rs = self._poly_sign(rest)
        if f:
            rs = rs & {x * fl for x in f}
        return r & frozenset(a * b for a in cs for b in rs)

    def _poly_sign(self, p):
        if not p:
            return frozenset((0,))
        tot = None
        for m, c in p.items():
            s = {1 if c > 0 else -1}
            for g, e in m:
                gs = self.gensign.get(g, ALL)
                q = {x**e for x in gs}
                s = {a * b for a in s for b in q}
            if tot is None:
                tot = s
            else:
                r = set()
                for a in tot:
                    for b in s:
                        if a == 0:
                            r.add(b)
                        elif b == 0 or a == b:
                            r.add(a)
                        else:
                            r |= {-1, 0, 1}
                tot = r
            if len(tot) == 3:
                return ALL
        return frozenset(tot)

    def signs(self, t):
        """Allowed signs of the term t (ALL when nothing is known)."""
        try:
            n, d = self.frac(t)
        except (TooBig, RecursionError):
            return ALL
        if not n:
            return frozenset((0,))
        k, fl = self.key(n, d)
        out = ALL
        f = self.facts.get(k)
        if f:
            out = out & {x * fl for x in f}
        ps = self.poly_sign(n)
        ds = self.poly_sign(d)
        if ds <= {1}:
            out = out & ps
            k2, fl2 = self.key(n, {(): Fraction(1)})
            f = self.facts.get(k2)
            if f:
                out = out & {x * fl2 for x in f}
        elif ds <= {-1}:
            out = out & {-x for x in ps}
        else:
            nz = {a * b for a in ps for b in ds if b}
            out = out & nz
        return frozenset(out)

    def _products(self, n, d, allowed):
        """A >= 0 and B >= 0 give A B >= 0 (one level, small polynomials)."""
        if len(n) < 2 or len(n) > 12 or not (self.poly_sign(d) <= {1}):
            return
        s = -1 if allowed <= {0, -1} else 1
        n = {m: c * s for m, c in n.items()}
        strict = 0 not in allowed
        # A - D >= 0 with D >= 0 also gives A + D >= 0
        n2 = {m: -c if c < 0 and self._poly_sign({m: Fraction(1)}) <= {0, 1} else c for m, c in n.items()}
        extra = [(n2, strict)] if n2 != n else []
        for q, st in self.small[-8:] + extra:
            try:
                self.ring.deadline = time.time() + 1.0
                p, dp = self.ring.red((self.ring.mul(n, q), {(): Fraction(1)}))
            except TooBig:
                continue
            if not p or dp != {(): 1}:
                continue
            k, fl = self.key(p, dp)
            al = frozenset(x * fl for x in ({1} if strict and st else {0, 1}))
            self.facts[k] = self.facts.get(k, ALL) & al
        self.small.append((n, strict))

    def note(self, t, allowed):
        try:
            n, d = self.frac(t)
        except (TooBig, RecursionError):
            return
        if not n:
            return
        if allowed <= {0, 1} or allowed <= {0, -1}:
            self._products(n, d, allowed)
        k, fl = self.key(n, d)
        al = frozenset(x * fl for x in allowed)
        self.facts[k] = self.facts.get(k, ALL) & al
        if self.poly_sign(d) <= {1}:
            k2, fl2 = self.key(n, {(): Fraction(1)})
            self.facts[k2] = self.facts.get(k2, ALL) & frozenset(x * fl2 for x in allowed)
        if d == {(): 1} and len(n) == 2 and () in n:
            # a*g + c  with a known sign bounds g away from zero
            ((m, a),) = [(m, c) for m, c in n.items() if m]
            c = n[()]
            if len(m) == 1 and m[0][1] == 1:
                g = m[0][0]
                b = -c / a
                al = allowed if a > 0 else {-x for x in allowed}
                r = None
                if al <= {0, 1} and b > 0 or al <= {1} and b >= 0:
                    r = frozenset((1,))
                elif al <= {0, -1} and b < 0 or al <= {-1} and b <= 0:
                    r = frozenset((-1,))
                if r:
                    self.gensign[g] = self.gensign.get(g, ALL) & r
        if len(n) == 1 and 0 not in allowed:
            ((m, c),) = n.items()
            for g, _ in m:
                self.gensign[g] = self.gensign.get(g, ALL) & {-1, 1}
                rel = self.ring.rel.get(g)
                if rel and rel[0] == 2 and rel[1] and self.poly_sign(rel[2]) <= {1}:
                    k3, fl3 = self.key(rel[1], {(): Fraction(1)})
                    self.facts[k3] = self.facts.get(k3, ALL) & {fl3}
        if d == {(): 1} and len(n) == 1:
            ((m, c),) = n.items()
            if len(m) == 1 and m[0][1] == 1:
                g = m[0][0]
                s = 1 if c > 0 else -1
                self.gensign[g] = self.gensign.get(g, ALL) & frozenset(x * s for x in allowed)


def sign_atoms(c):
    """(difference term, signs for which the condition holds) of a comparison, or None."""
    neg = False
    while z3.is_not(c):
        c = c.arg(0)
        neg = not neg
    if not z3.is_app(c) or c.num_args() != 2 or not z3.is_arith(c.arg(0)):
        return None
    k = c.decl().kind()
    al = {z3.Z3_OP_LE: {-1, 0}, z3.Z3_OP_LT: {-1}, z3.Z3_OP_GE: {0, 1}, z3.Z3_OP_GT: {1}, z3.Z3_OP_EQ: {0},
          z3.Z3_OP_DISTINCT: {-1, 1}}.get(k)
    if al is None:
        return None
    if neg:
        al = set(ALL) - al
    a, b = c.arg(0), c.arg(1)
    if z3.is_int(a):
        a, b = z3.ToReal(a), z3.ToReal(b)
    return a - b, frozenset(al)
