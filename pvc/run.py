"""Symbolic run of one harness: explores every path and discharges its obligations."""
from __future__ import annotations

import sys
import time
import traceback

import z3

from . import solve
from .ctx import Structural, SymCtx
from .path import Limits, Path
from .state import State
from .sym import ST, Bounded, PathEnd, Unsupported, short


class Run:
    def __init__(self, h, tier="quick"):
        self.h = h
        self.limits = Limits()
        for k, v in h.limits.items():
            setattr(self.limits, k, v)
        if tier == "thorough":
            self.limits.max_paths *= 4
            self.limits.max_seconds *= 3
            self.limits.ob_ms *= 3
        self.tier = tier
        self.assume_nonzero = h.assume_nonzero
        self.work = [[]]
        self.stats = {"feas_time": 0.0, "feas_queries": 0, "solver_s": 0.0}
        self.obs = []  # dicts
        self.undecided = []
        self.refuted = []
        self.assumptions = set()
        self.bounded = set()
        self.reached = set()
        self.paths = 0
        self.backends = {}
        self._cache = {}

    def push(self, prefix):
        self.work.append(prefix)

    def loopspec(self, lid):
        for s in self.h.loops:
            if s.lid == lid or (callable(s.lid) and s.lid(lid)):
                return s
        return None

    def obligation(self, path, name, goal, kind):
        rec = {"name": name, "kind": kind, "path": self.paths}
        if len([o for o in self.refuted if o["name"] == name]) >= 2:
            rec.update(status="skipped", backend="-")
            self.obs.append(rec)
            return
        if time.time() > self.deadline:
            self.undecided.append(f"{name}: time limit")
            rec.update(status="unknown", backend="-")
            self.obs.append(rec)
            return
        t0 = time.time()
        if path.implied(goal) is True:
            st, be, model, dt = "unsat", "algebra", None, time.time() - t0
        else:
            cg = path.canon(goal)
            st = None
            if not cg.eq(goal):
                st, be, model, dt = solve.prove(path.pc, path.defs, cg, path.rewrites, ms=min(2500, self.limits.ob_ms), brief=True)
            if st != "unsat":
                st, be, model, dt = solve.prove(path.pc, path.defs, goal, path.rewrites, ms=self.limits.ob_ms)
        self.stats["solver_s"] += dt
        rec.update(status=st, backend=be, s=round(dt, 3))
        self.obs.append(rec)
        self.backends[be] = self.backends.get(be, 0) + (1 if st == "unsat" else 0)
        if st in ("sat", "maybe-sat") and kind == "invariant":
            # the loop contract does not fit this code: nothing is known about the code itself
            self.undecided.append(f"{name}: loop contract not established")
            raise PathEnd()
        if st in ("sat", "maybe-sat"):
            vals = model_values(model, path) if model is not None else {}
            self.refuted.append(
                {
                    "name": name,
                    "status": st,
                    "values": vals,
                    "approx": sorted(path.approx),
                    "uf": bool(solve._collect_apps(path.pc + path.defs + [goal])),
                    "goal": short(z3.simplify(goal), 400, 600),
                    "path": [short(c, 400) for c in path.pc[-12:]],
                }
            )
            raise PathEnd()
        elif st != "unsat":
            self.undecided.append(f"{name}: {be} {st}")
        # a proved fact may be used by later obligations on the path
        if st == "unsat" and not z3.is_true(z3.simplify(goal)):
            pass

    def run(self):
        self.deadline = time.time() + self.limits.max_seconds
        t0 = time.time()
        state = State(self.h.functions)
        while self.work:
            state.restore()
            if self.paths >= self.limits.max_paths or time.time() > self.deadline:
                self.undecided.append(f"path/time limit reached with {len(self.work)} prefixes left")
                break
            prefix = self.work.pop()
            self.paths += 1
            p = Path(self, prefix)
            ST.path, ST.active = p, True
            try:
                self.h.f(SymCtx(p))
            except PathEnd:
                pass
            except Unsupported as e:
                fr = traceback.extract_tb(e.__traceback__)
                loc = next((f"{f.filename}:{f.lineno}" for f in reversed(fr) if "/pvc/" not in f.filename), "?")
                self.undecided.append(f"unsupported: {e} at {loc}")
            except Structural as e:
                self.undecided.append(f"contract does not fit the code: {e}")
            except Bounded as e:
                self.bounded.add(str(e))
            except RecursionError:
                self.undecided.append("recursion limit")
            except z3.Z3Exception as e:
                self.undecided.append(f"z3: {e}")
            except Exception as e:
                self.exception(p, e)
            finally:
                ST.active, ST.path = False, None
        self.stats["wall"] = time.time() - t0
        return self

    def exception(self, p, e):
        tb = traceback.extract_tb(e.__traceback__)
        loc = "%s:%d" % (tb[-1].filename, tb[-1].lineno)
        r = p.feasible()
        st = "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"
        name = f"no unexpected {type(e).__name__}"
        self.obs.append({"name": name, "kind": "exception", "path": self.paths, "status": st, "backend": "z3", "detail": f"{e} at {loc}"})
        if st == "unsat":
            return
        model = None
        if st == "sat":
            p.solver.check()
            model = p.solver.model()
        soft = isinstance(e, (TypeError, AttributeError, ImportError, KeyError, IndexError, NotImplementedError))
        self.refuted.append(
            {
                "name": name,
                "status": "maybe-sat" if soft or st != "sat" else "sat",
                "values": model_values(model, p) if model is not None else {},
                "approx": sorted(p.approx),
                "uf": True,
                "goal": f"{type(e).__name__}: {e} at {loc}",
                "path": [short(c, 400) for c in p.pc[-12:]],
            }
        )


def model_values(m, p):
    out = {}
    for name, s in p.vars.items():
        try:
            v = m.eval(s.e, model_completion=True)
            if z3.is_bool(v):
                out[name] = z3.is_true(v)
            elif z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_rational_value(v):
                out[name] = float(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[name] = float(v.approx(20).as_fraction())
        except Exception:
            pass
    for n, k in getattr(p, "choices", {}).items():
        out["choice:" + n] = k
    return out
