"""Path-exploring symbolic execution core.

`Engine.explore(fn)` runs `fn(ctx)` once per feasible path.  Branches on symbolic
values call `fork`; the engine re-executes the function with a recorded decision
trail, flipping the deepest open decision each time, until every path within the
bounds has been run.  Property assertions are solver queries under the path
condition.
"""
import os, sys, time, random
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3


class Control(BaseException):
    """engine control flow: never catchable by `except Exception`."""


class Prune(Control):
    pass


class Inconclusive(Control):
    pass


class Found(Control):
    def __init__(self, msg, inputs):
        super().__init__(msg)
        self.msg, self.inputs = msg, inputs


CUR = None      # the engine currently running


def cur():
    if CUR is None:
        raise Inconclusive("no engine running")
    return CUR


class Entry:
    __slots__ = ("kind", "expr", "value", "open", "pushed")

    def __init__(self, kind, expr, value, open_, pushed):
        self.kind, self.expr, self.value = kind, expr, value
        self.open, self.pushed = open_, pushed


class Engine:
    def __init__(self, deadline=None, seed=1, query_ms=60000, nsamples=2, logic=None):
        self.solver = z3.SolverFor(logic) if logic else z3.Solver()
        self.solver.set("timeout", query_ms)
        try:
            self.solver.set("random_seed", seed)
        except z3.Z3Exception:
            pass
        self.deadline = deadline
        self.trail, self.pos, self.model = [], 0, None
        self.stats = dict(paths=0, pruned=0, branches=0, checks=0, queries=0,
                          solver_s=0.0, max_trail=0)
        self.rng = random.Random(seed)
        self.samples, self.nsamples = [], nsamples
        self.covers = {}
        self.violation = None
        self.exact = {}         # abstract atom id -> (atom, its exact meaning): used before a counterexample counts

    # -- solver ---------------------------------------------------------
    def _check(self):
        t = time.time()
        r = self.solver.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            raise Inconclusive(f"solver: unknown ({self.solver.reason_unknown()})")
        return r == z3.sat

    def _sat_with(self, lit):
        """is lit satisfiable with the path condition? -> model or None"""
        self.solver.push()
        try:
            self.solver.add(lit)
            if self._check():
                return self.solver.model()
            return None
        finally:
            self.solver.pop()

    def get_model(self):
        if self.model is None:
            if not self._check():
                raise Prune()
            self.model = self.solver.model()
        return self.model

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted with paths unexplored")

    # -- decisions ------------------------------------------------------
    def _replaying(self):
        return self.pos < len(self.trail)

    def _next(self, kind, expr):
        e = self.trail[self.pos]
        if e.kind != kind or (expr is not None and e.expr is not None and not e.expr.eq(expr)):
            raise Inconclusive(f"non-deterministic execution: {kind} {expr} vs {e.kind} {e.expr}")
        self.pos += 1
        return e

    def _append(self, e):
        self.trail.append(e)
        self.pos = len(self.trail)
        if self.pos > self.stats["max_trail"]:
            self.stats["max_trail"] = self.pos

    def fork(self, expr):
        """decide a symbolic condition on this path; returns a real bool."""
        if isinstance(expr, bool):
            return expr
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        if self._replaying():
            return self._next("fork", expr).value
        self._tick()
        self.stats["branches"] += 1
        m = self.get_model()
        v = z3.is_true(m.eval(expr, model_completion=True))
        lit, other = (expr, z3.Not(expr)) if v else (z3.Not(expr), expr)
        om = self._sat_with(other)
        if om is None:
            self._append(Entry("fork", expr, v, False, False))
            return v
        self.solver.push()
        self.solver.add(lit)
        self._append(Entry("fork", expr, v, True, True))
        return v

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                raise Prune()
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise Prune()
        if self._replaying():
            self._next("assume", expr)
            return
        self._tick()
        self.solver.push()
        self.solver.add(expr)
        self._append(Entry("assume", expr, True, False, True))
        if self.model is not None and z3.is_true(self.model.eval(expr, model_completion=True)):
            return
        self.model = None
        self.get_model()

    def concretize(self, expr, limit=64):
        """fork over all feasible values of an integer expression."""
        if isinstance(expr, int):
            return expr
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(limit):
            if self._replaying():
                val = self._next("conc", expr).value
            else:
                self._tick()
                val = self.get_model().eval(expr, model_completion=True).as_long()
                self._append(Entry("conc", expr, val, False, False))
            if self.fork(expr == val):
                return val
        raise Inconclusive(f"concretization of {expr} exceeds {limit} values")

    def axiom(self, expr):
        """a fact about a fresh abstract value: satisfiable whatever the path"""
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if self._replaying():
            self._next("axiom", expr)
            return
        self.solver.push()
        self.solver.add(expr)
        self._append(Entry("axiom", expr, True, False, True))
        if self.model is not None and not z3.is_true(self.model.eval(expr, model_completion=True)):
            self.model = None

    def _refine(self, neg, m):
        """an abstract counterexample: is there one for the exact meaning of the atoms?"""
        pairs = list(self.exact.values())
        s = z3.Solver()
        s.set("timeout", 60000)
        for e in self.trail[:self.pos]:
            if e.kind in ("fork", "assume"):
                s.add(z3.substitute(e.expr if e.value else z3.Not(e.expr), *pairs))
        s.add(z3.substitute(neg, *pairs))
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unsat: return None
        return s.model() if r == z3.sat else m      # undecided: left to the replay

    # -- property -------------------------------------------------------
    def check(self, cond, msg, ctx):
        if self._replaying():
            return      # discharged on the path that recorded this prefix
        self._tick()
        self.stats["checks"] += 1
        if isinstance(cond, bool):
            if cond:
                return
            m = self.get_model()
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return
            m = self._sat_with(z3.Not(cond))
            if m is not None and self.exact:
                m = self._refine(z3.Not(cond), m)
        if m is not None:
            raise Found(msg, self.variants(ctx, m, True if isinstance(cond, bool) else z3.Not(cond)))

    def variants(self, ctx, m=None, fact=True):
        """inputs of a counterexample, and if possible of one whose values are ordinary and distinct"""
        out = [ctx.decode(m if m is not None else self.get_model())]
        if self.exact: return out
        deadline = time.time() + 3
        try:
            self.solver.push()
            if fact is not True: self.solver.add(fact)
            m = None
            for c in ctx.ordinary():
                if time.time() > deadline: break
                self.solver.push()
                self.solver.add(c)
                if self.solver.check() == z3.sat: m = self.solver.model()
                else: self.solver.pop(); continue
            if m is not None: out.append(ctx.decode(m))
        finally:
            while self.solver.num_scopes() > self._depth(): self.solver.pop()
        return out

    def _depth(self):
        return sum(1 for e in self.trail if e.pushed)

    # -- exploration ----------------------------------------------------
    def _backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e.pushed:
                self.solver.pop()
            if e.open:
                e.value, e.open = not e.value, False
                self.solver.push()
                self.solver.add(e.expr if e.value else z3.Not(e.expr))
                self.model = None
                return True
            self.trail.pop()
        return False

    def explore(self, fn, make_ctx, on_path=None):
        global CUR
        prev, CUR = CUR, self
        try:
            while True:
                self.pos, self.exact = 0, {}
                ctx = make_ctx(self)
                try:
                    fn(ctx)
                    self.stats["paths"] += 1
                    self._sample(ctx)
                except Prune:
                    self.stats["pruned"] += 1
                except Found as f:
                    self.violation = f
                    return
                finally:
                    ctx.cleanup()
                self.model = None
                if not self._backtrack():
                    return
        finally:
            CUR = prev

    def _sample(self, ctx):
        n = self.stats["paths"]
        if self.nsamples <= 0:
            return
        if len(self.samples) < self.nsamples:
            self.samples.append(ctx.decode(self.get_model()))
        else:
            j = self.rng.randrange(n)
            if j < self.nsamples:
                self.samples[j] = ctx.decode(self.get_model())
