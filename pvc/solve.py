"""Back ends.  prove(hyps, goal) -> ("unsat"|"sat"|"unknown", backend, model or None, seconds)."""
from __future__ import annotations

import time
from fractions import Fraction

import z3

from . import algebra


def _collect_apps(es):
    """Uninterpreted applications (arity > 0) occurring in the terms."""
    seen, apps = set(), {}
    stack = list(es)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.arity() > 0:
                apps[i] = t
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return apps


def ackermann(es):
    apps = _collect_apps(es)
    if not apps:
        return es
    subs = []
    # innermost first: order by size
    items = sorted(apps.values(), key=lambda t: len(t.sexpr()))
    for n, t in enumerate(items):
        s = t.sort()
        c = z3.Const(f"ack!{n}", s)
        t2 = z3.substitute(t, *subs) if subs else t
        subs.append((t, c))
        if not t2.eq(t):
            subs.append((t2, c))
    out = []
    for e in es:
        prev = None
        cur = e
        for _ in range(6):
            nxt = z3.substitute(cur, *subs)
            if nxt.eq(cur):
                break
            cur = nxt
        out.append(cur)
    return out


def has_quant(es):
    for e in es:
        if "forall" in e.sexpr()[:200000] or "exists" in e.sexpr()[:200000]:
            return True
    return False


def cvc5_check(es, ms):
    try:
        import cvc5
    except Exception:
        return "unknown", None
    s = z3.Solver()
    s.add(*es)
    smt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(ms)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            o = str(out).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res or "unknown", None
    except Exception:
        return "unknown", None


def prove(pc, defs, goal, rewrites, ms=8000, want_model=True, brief=False):
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "unsat", "z3-simplify", None, time.time() - t0
    eqs = _eq_goals(goal)
    if eqs is not None:
        try:
            r = algebra.prove_equalities(eqs, rewrites, pc, budget=6.0)
        except algebra.TooBig:
            r = None
        if r:
            return "unsat", "algebra", None, time.time() - t0
        g2 = subst_equalities(g, pc)
        if g2 is not None:
            if z3.is_true(g2):
                return "unsat", "z3-simplify", None, time.time() - t0
            eq2 = _eq_goals(g2)
            try:
                if eq2 is not None and algebra.prove_equalities(eq2, rewrites, pc, budget=6.0):
                    return "unsat", "algebra", None, time.time() - t0
            except algebra.TooBig:
                pass
    neg = z3.Not(goal)
    es = list(pc) + list(defs) + [neg]
    # relevant hypotheses only: those over the symbols of the goal, then one step further
    allh = list(_flat(list(pc) + list(defs)))
    if len(allh) > 12:
        vs = [(h, _symbols(h)) for h in allh]
        want = _symbols(goal)
        prev = -1
        if _linear(goal):
            sl = z3.Solver()
            sl.set("timeout", 1500)
            sl.add(*[h for h, v in vs if v <= want and _linear(h)])
            sl.add(neg)
            if sl.check() == z3.unsat:
                return "unsat", "z3", None, time.time() - t0
        for step in range(2):
            rel = [h for h, v in vs if v <= want]
            if len(rel) != prev:
                prev = len(rel)
                sl = z3.Solver()
                sl.set("timeout", 600)
                sl.add(*rel)
                sl.add(neg)
                if sl.check() == z3.unsat:
                    return "unsat", "z3", None, time.time() - t0
            more = set(want)
            for h, v in vs:
                if v & want and len(v - want) <= 2:
                    more |= v
            want = more
    s = z3.Solver()
    s.add(*es)
    if _linear(g) and _has_int([g]):
        # mixed integer and real linear goals: purified, then cvc5 (its branch and bound is better here)
        try:
            pes = purify(es)
            if cvc5_check(pes, 2500)[0] == "unsat":
                return "unsat", "cvc5", None, time.time() - t0
        except z3.Z3Exception:
            pass
    s.set("timeout", int(ms))
    r = s.check()
    if r == z3.unsat:
        return "unsat", "z3", None, time.time() - t0
    if r == z3.sat:
        return "sat", "z3", s.model(), time.time() - t0
    if brief:
        return "unknown", "z3", None, time.time() - t0
    # pure nonlinear real arithmetic
    try:
        aes = ackermann(es)
        s2 = z3.SolverFor("QF_NRA") if not _has_int(aes) else z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
        s2.set("timeout", int(ms))
        s2.add(*aes)
        r2 = s2.check()
        if r2 == z3.unsat:
            return "unsat", "z3-nlsat", None, time.time() - t0
    except z3.Z3Exception:
        r2 = z3.unknown
    if eqs is not None:
        try:
            if algebra.prove_equalities(eqs, rewrites, pc, budget=40.0):
                return "unsat", "algebra", None, time.time() - t0
        except algebra.TooBig:
            pass
    c, _ = cvc5_check(es, ms)
    if c == "unsat":
        return "unsat", "cvc5", None, time.time() - t0
    if r2 == z3.sat:
        return "maybe-sat", "z3-nlsat", s2.model() if not _collect_apps(es) else None, time.time() - t0
    return "unknown", "z3+nlsat+cvc5", None, time.time() - t0


def purify(es):
    """Equivalent constraints where to_int(t), div(t, c) and mod(t, c) are fresh integers k with k <= t < k + 1,
    and c * q + r = t, 0 <= r < c (c a positive constant)."""
    side, memo, divs = [], {}, {}

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        ch = [go(c) for c in t.children()]
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_TO_INT:
            r = z3.FreshInt("fl")
            side.extend([z3.ToReal(r) <= ch[0], ch[0] < z3.ToReal(r) + 1])
        elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            key = (ch[0].get_id(), ch[1].as_long())
            if key not in divs:
                q, m = z3.FreshInt("q"), z3.FreshInt("m")
                side.extend([q * ch[1] + m == ch[0], m >= 0, m < ch[1]])
                divs[key] = (ch[0], q, m)
            r = divs[key][1 if k == z3.Z3_OP_IDIV else 2]
        elif ch and z3.is_app(t):
            r = t.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else _nary(k, ch)
        else:
            r = t
        memo[i] = (t, r)
        return r

    out = [go(z3.simplify(e)) for e in es]
    return out + side


def _nary(k, ch):
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    r = ch[0]
    for c in ch[1:]:
        r = r + c if k == z3.Z3_OP_ADD else r * c
    return r


_SYM = {}


def _symbols(e):
    """Names of the uninterpreted constants and functions in a term."""
    k = e.get_id()
    if k in _SYM:
        return _SYM[k][1]
    out, seen, stack = set(), set(), [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    _SYM[k] = (e, out)
    return out


_LIN = {}


def _linear(e):
    k = e.get_id()
    if k in _LIN:
        return _LIN[k][1]
    r = True
    seen, stack = set(), [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl().kind()
            ch = t.children()
            if d == z3.Z3_OP_MUL and sum(1 for c in ch if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                r = False
                break
            if d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                r = False
                break
            stack.extend(ch)
        elif z3.is_quantifier(t):
            r = False
            break
    _LIN[k] = (e, r)
    return r


def _flat(es):
    for e in es:
        if z3.is_and(e):
            yield from _flat(e.children())
        elif z3.is_not(e) and z3.is_or(e.arg(0)):
            yield from _flat([z3.Not(c) for c in e.arg(0).children()])
        elif z3.is_not(e) and z3.is_not(e.arg(0)):
            yield from _flat([e.arg(0).arg(0)])
        else:
            yield e


def subst_equalities(goal, pc):
    """Rewrite the goal with the hypotheses  f(args) == term  (f uninterpreted); None when nothing applies."""
    subs = []
    for c in _flat(pc):
        c = z3.simplify(c)
        if not z3.is_eq(c):
            continue
        for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().arity() > 0:
                if a.get_id() not in _collect_apps([b]):
                    subs.append((a, b))
                    break
    if not subs:
        return None
    cur = z3.simplify(goal)
    for _ in range(6):
        nxt = z3.simplify(z3.substitute(cur, *subs))
        if nxt.eq(cur):
            break
        cur = nxt
    return cur


def _has_int(es):
    seen = set()
    stack = list(es)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(t) and not z3.is_int_value(t):
            return True
        stack.extend(t.children())
    return False


def _eq_goals(g):
    """List of (lhs, rhs) when the goal is a conjunction of real equalities."""
    if z3.is_and(g):
        out = []
        for c in g.children():
            r = _eq_goals(c)
            if r is None:
                return None
            out += r
        return out
    if z3.is_eq(g) and (z3.is_real(g.arg(0)) or z3.is_int(g.arg(0))):
        return [(g.arg(0), g.arg(1))]
    return None
