"""Path exploration by re-execution, with z3 deciding every symbolic branch.

One Engine explores one goal.  The code under test runs natively on proxy
values (psym.values); whenever Python asks for the truth value of a symbolic
condition, Engine.decide() asks z3 which outcomes are feasible, takes one and
remembers the other.  Re-execution with the flipped decision explores the
rest, until no unexplored feasible decision is left (the bound is exhausted).
"""
from __future__ import annotations

import os
import sys
import time

import z3


class PathAbort(BaseException):
    """The current path is infeasible or was cut; never seen by code under test."""


SLOW = {}
PROFILE = {} if os.environ.get("PSYM_PROFILE") else None


def site():
    """where a path splits, for tuning harnesses"""
    f, out = sys._getframe(2), []
    while f and len(out) < 5:
        n = f.f_code.co_filename
        if not n.endswith(("core.py", "instrument.py")):
            out.append(f"{n.rsplit('/', 1)[-1]}:{f.f_lineno}:{f.f_code.co_name}")
        f = f.f_back
    return " < ".join(out)


class EngineError(BaseException):
    """The machinery itself is at fault (non-determinism, internal error)."""


class Budget(BaseException):
    """The time or path budget of the goal ran out."""


class Found(BaseException):
    """A counterexample was confirmed; stop exploring."""


CURRENT = None  # the running Engine


def engine():
    return CURRENT


class Entry:
    __slots__ = ("kind", "cond", "val", "alt", "model", "tried", "limit", "why")

    def __init__(self, kind, cond, val=True, alt=False, model=None):
        self.kind, self.cond, self.val, self.alt, self.model = kind, cond, val, alt, model


class Engine:
    def __init__(self, query_ms=20000, max_paths=10**9, deadline=None, seed=1):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", seed)
        self.stack: list[Entry] = []
        self.pos = 0
        self.model = None
        self.max_paths = max_paths
        self.deadline = deadline
        # statistics
        self.paths = 0
        self.aborted = 0
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.covers: dict[str, int] = {}
        self.incomplete: dict[str, int] = {}
        self.functions: set[str] = set()
        self.counterexamples = []
        self.exhausted = False
        self.strict_nondet = True
        self.asides = {}
        self.reset_run()

    # -- per-run state ---------------------------------------------------
    def reset_run(self):
        self.pos = 0
        self.fresh_n = 0
        self.uf_apps = []
        self.memo = {}
        self.inputs = []
        self.aborting = False
        self.notes = []
        self.decided = {}
        self.charset = {}
        self.uf_concrete = []
        self.uf_names = set()
        self.draws = []
        self.clock = lambda: (_ for _ in ()).throw(EngineError("clock read but no clock set by the harness"))

    def fresh_name(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"

    # -- solver ----------------------------------------------------------
    def check(self, *extra):
        self.queries += 1
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        if PROFILE is not None and time.perf_counter() - t > 0.1:
            SLOW[site()] = SLOW.get(site(), 0) + time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def note_incomplete(self, what):
        self.incomplete[what] = self.incomplete.get(what, 0) + 1

    # -- decisions -------------------------------------------------------
    def decide(self, cond) -> bool:
        """cond: z3 BoolRef. Returns the outcome taken on this path."""
        if self.aborting:
            raise PathAbort
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[1]
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != "d" or not e.cond.eq(cond):
                self.aborting = True
                raise EngineError(f"non-deterministic re-execution at decision {self.pos}: {e.kind} {e.cond} vs {cond}")
            self.pos += 1
            self._remember(cond, e.val)
            return e.val
        self.decisions += 1
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self.aborting = True
                raise PathAbort
            self.model = self.solver.model() if r == z3.sat else None
        val, alt, altmodel = None, False, None
        if self.model is not None:
            v = z3.is_true(self.model.eval(cond, model_completion=True))
            other = z3.Not(cond) if v else cond
            r = self.check(other)
            if r == z3.sat:
                alt, altmodel = True, self.solver.model()
            elif r == z3.unknown:
                alt = True
                self.note_incomplete("solver unknown on a branch")
            val = v
            model = self.model
        else:
            rt, rf = self.check(cond), None
            mt = self.solver.model() if rt == z3.sat else None
            rf = self.check(z3.Not(cond))
            mf = self.solver.model() if rf == z3.sat else None
            if rt != z3.unsat:
                val, model, alt, altmodel = True, mt, rf != z3.unsat, mf
            elif rf != z3.unsat:
                val, model = False, mf
            else:
                self.aborting = True
                raise PathAbort
        if alt and val is False:
            # canonical order: explore True first (keeps runs comparable)
            val, model, altmodel = True, altmodel, model
        if alt and PROFILE is not None:
            PROFILE[site()] = PROFILE.get(site(), 0) + 1
        e = Entry("d", cond, val, alt, altmodel)
        self._push(e)
        self.model = model
        self._remember(cond, val)
        return val

    def _remember(self, cond, val):
        self.decided[cond.get_id()] = (cond, val)
        if z3.is_not(cond):
            c = cond.arg(0)
            self.decided[c.get_id()] = (c, not val)

    def choose(self, expr, limit=None, why=None) -> int:
        """Fork over the values of a bit-vector expression; returns an unsigned
        int.  With a limit only that many values are tried (recorded as
        incomplete under `why`)."""
        if self.aborting:
            raise PathAbort
        expr = z3.simplify(expr)
        if z3.is_bv_value(expr):
            return expr.as_long()
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != "v" or not e.cond.eq(expr):
                self.aborting = True
                raise EngineError(f"non-deterministic re-execution at choice {self.pos}")
            self.pos += 1
            return e.val
        self.decisions += 1
        m = self.ensure_model()
        if m is None:
            self.cut("solver unknown on a choice")
        v = m.eval(expr, model_completion=True).as_long()
        if PROFILE is not None:
            PROFILE[site()] = PROFILE.get(site(), 0) + 1
        e = Entry("v", expr, v)
        e.tried, e.limit, e.why = [v], limit, why
        self.stack.append(e)
        self.pos += 1
        self.solver.push()
        self.solver.add(expr == v)
        return v

    def _push(self, e):
        self.stack.append(e)
        self.pos += 1
        self.solver.push()
        self.solver.add(e.cond if e.val else z3.Not(e.cond))

    def assume(self, cond):
        if self.aborting:
            raise PathAbort
        if cond is True:
            return
        if cond is False:
            self.aborting = True
            raise PathAbort
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if self.pos < len(self.stack):
            e = self.stack[self.pos]
            if e.kind != "a" or not e.cond.eq(cond):
                self.aborting = True
                raise EngineError(f"non-deterministic re-execution at assumption {self.pos}")
            self.pos += 1
            return
        if z3.is_false(cond):
            self.aborting = True
            raise PathAbort
        self._push(Entry("a", cond))
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def cut(self, why):
        self.note_incomplete(why)
        self.aborting = True
        raise PathAbort

    def _backtrack(self):
        while self.stack:
            e = self.stack.pop()
            self.solver.pop()
            if e.kind == "d" and e.alt:
                e2 = Entry("d", e.cond, not e.val, False)
                self.stack.append(e2)
                self.solver.push()
                self.solver.add(e2.cond if e2.val else z3.Not(e2.cond))
                self.model = e.model
                return True
            if e.kind == "v":
                if e.limit is not None and len(e.tried) >= e.limit:
                    if self.check(*[e.cond != t for t in e.tried]) != z3.unsat:
                        self.note_incomplete(e.why or "enumeration limit")
                    continue
                r = self.check(*[e.cond != t for t in e.tried])
                if r == z3.unsat:
                    continue
                if r == z3.unknown:
                    self.note_incomplete("solver unknown on a choice")
                    continue
                m = self.solver.model()
                v = m.eval(e.cond, model_completion=True).as_long()
                e.tried.append(v)
                e.val = v
                self.stack.append(e)
                self.solver.push()
                self.solver.add(e.cond == v)
                self.model = m
                return True
        return False

    def ensure_model(self):
        """A model of the current path condition, or None (unknown)."""
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                self.aborting = True
                raise PathAbort
            self.model = self.solver.model() if r == z3.sat else None
        return self.model

    # -- exploration -----------------------------------------------------
    def explore(self, fn):
        global CURRENT
        prev, CURRENT = CURRENT, self
        try:
            while True:
                self.reset_run()
                if self.deadline is not None and time.monotonic() > self.deadline:
                    raise Budget
                try:
                    fn()
                    self.paths += 1
                except PathAbort:
                    self.aborted += 1
                if self.pos < len(self.stack):
                    raise EngineError("re-execution ended before its decision prefix")
                if self.paths + self.aborted >= self.max_paths:
                    self.note_incomplete("path budget")
                    return
                if not self._backtrack():
                    self.exhausted = True
                    return
        except Budget:
            self.note_incomplete("time budget")
        except Found:
            pass
        finally:
            CURRENT = prev
