"""Path exploration: decision trace, solver stack, obligations."""

import gc
import time
import z3


class PathAbort(BaseException):
    """The current path ends here (infeasible assumption or cut)"""


class EngineLimit(BaseException):
    """An exploration limit is reached"""


class EngineUnknown(BaseException):
    """The solver answered unknown"""


class Nondeterminism(BaseException):
    """Replaying a prefix did not reproduce the same decisions"""


class Violation:
    def __init__(self, msg, inputs, ufs, known=None):
        self.msg = msg
        self.inputs = inputs
        self.ufs = ufs
        self.known = known


class Stats:
    FIELDS = ('paths', 'aborted', 'branches', 'forks', 'queries', 'obligations', 'discharged', 'concretised', 'validated', 'unknown')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        return d


class Engine:
    """One depth-first exploration of a deterministic function"""

    cur = None  # engine running in this process

    def __init__(self, query_timeout_ms=60000, deadline=None, max_paths=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trace = []    # [kind, value, pending, cond]
        self.pos = 0
        self.model = None  # a model of the current path condition, if known
        self.dead = True       # no path is running
        self.aborted = None    # exception which ended the current path
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = Stats()
        self.violations = []
        self.seen_msgs = set()
        self.path_ufs = []
        self.path_inputs = {}
        self.incomplete = set()  # reasons why exploration is not exhaustive
        self.labels = {}
        self.path_log = []
        self.known_cb = None     # msg, inputs -> known finding key or None

    # -- solver access

    def _check(self, cond=None):
        """Check satisfiability of path condition (and cond), update model"""
        self.stats.queries += 1
        t = time.perf_counter()
        if cond is not None:
            self.solver.push()
            self.solver.add(cond)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if cond is not None:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
            self.abort(EngineUnknown(self.solver.reason_unknown()))
        return m

    def _ensure_model(self):
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                self.abort('infeasible')
        return self.model

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            self.incomplete.add('time limit')
            self.abort(EngineLimit('time limit'))

    # -- ending a path; code under test may catch everything, so the exception is kept and raised again

    def abort(self, exc):
        if isinstance(exc, str):
            exc = PathAbort(exc)
        if self.aborted is None:
            self.aborted = exc
        raise self.aborted

    def _enter(self):
        if self.aborted is not None:
            raise self.aborted

    def _recorded(self, kind):
        """Entry of the trace being replayed, None when past its end"""
        if self.aborted is not None:
            raise self.aborted
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            if ent[0] != kind:
                self.abort(Nondeterminism(f"expected {ent[0]}, got {kind}"))
            self.pos += 1
            return ent
        if self.pos >= self.max_depth:
            self.incomplete.add('path length limit')
            self.abort('path length')
        return None

    def _record(self, kind, value, pending=False, cond=None):
        self.trace.append([kind, value, pending, cond])
        self.pos += 1

    max_depth = 20000
    unencoded = ()
    on_unencoded = None

    # -- decisions

    def branch(self, cond):
        """Decide a condition; fork if both outcomes are feasible"""
        if self.dead:
            return False
        ent = self._recorded('b')
        if ent is not None:
            return ent[1]
        cond = z3.simplify(cond)
        self.stats.branches += 1
        if z3.is_true(cond) or z3.is_false(cond):
            v = z3.is_true(cond)
            self.trace.append(['b', v, False, None])
            self.pos += 1
            return v
        self._tick()
        model = self._ensure_model()
        v = z3.is_true(model.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        m2 = self._check(other)
        if m2 is None:
            self.trace.append(['b', v, False, None])
        else:
            self.stats.forks += 1
            self.trace.append(['b', v, m2, cond])
            self.solver.push()
            self.solver.add(cond if v else z3.Not(cond))
        self.pos += 1
        return v

    def pick(self, expr):
        """A value of a bit-vector term feasible on this path (recorded, no constraint added)"""
        ent = self._recorded('p')
        if ent is not None:
            return ent[1]
        self._tick()
        model = self._ensure_model()
        v = model.eval(expr, model_completion=True).as_signed_long()
        self._record('p', v)
        return v

    def option(self, n):
        """A free choice among n alternatives"""
        if self.dead:
            return 0
        ent = self._recorded('o')
        if ent is not None:
            return ent[1]
        self._tick()
        if n > 1:
            self.stats.branches += 1
            self.stats.forks += 1
        self.trace.append(['o', 0, n > 1, n])
        self.solver.push()
        self.pos += 1
        return 0

    def assume(self, cond):
        if self.dead:
            return
        if isinstance(cond, bool):
            if not cond:
                self.abort('assume')
            return
        ent = self._recorded('a')
        if ent is not None:
            if not ent[1]:
                self.abort('assume')
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            ok = True
        elif z3.is_false(cond):
            ok = False
        else:
            if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None
            self.solver.add(cond)
            if self.model is None:
                self.model = self._check()
            ok = self.model is not None
        self._record('a', ok)
        if not ok:
            self.abort('assume')

    def obligation(self, cond, msg):
        """Check that cond holds for every input of this path"""
        if self.dead:
            return
        ent = self._recorded('c')
        if ent is not None:
            if not ent[1]:
                self.abort('violated')
            return
        self.stats.obligations += 1
        self._tick()
        m = None
        if isinstance(cond, bool):
            if not cond:
                m = self._ensure_model()
        else:
            neg = z3.simplify(z3.Not(cond))
            if not z3.is_false(neg):
                m = self._check(neg)
        ok = m is None
        if ok:
            self.stats.discharged += 1
        else:
            self._record_violation(msg, m, None if isinstance(cond, bool) else neg)
        self._record('c', ok)
        if not ok:
            self.abort('violated')

    def _record_violation(self, msg, model, neg):
        if sum(1 for v in self.violations if v.msg == msg) >= 2:
            return
        model = self._minimise(model, neg)
        inputs = {k: f(model) for k, f in self.path_inputs.items()}
        ufs = [u(model) for u in self.path_ufs]
        self.violations.append(Violation(msg, inputs, ufs))

    def _minimise(self, model, neg):
        """Prefer small input values, so that the counterexample can be replayed"""
        self.solver.push()
        try:
            if neg is not None:
                self.solver.add(neg)
            self.solver.set('timeout', 2000)
            budget = time.time() + 20
            for v in self.path_minvars:
                if time.time() > budget:
                    break
                for bound in (0, 1, 16, 4096, 1 << 20):
                    self.solver.push()
                    self.solver.add(z3.And(v.e <= bound, v.e >= -bound))
                    if self.solver.check() == z3.sat:
                        model = self.solver.model()
                        self.solver.pop()
                        self.solver.add(z3.And(v.e <= bound, v.e >= -bound))
                        break
                    self.solver.pop()
        finally:
            self.solver.set('timeout', 60000)
            self.solver.pop()
        return model

    # -- exploration

    def backtrack(self):
        """Move to the next unexplored alternative; False if none"""
        trace = self.trace
        while trace:
            ent = trace[-1]
            if ent[0] == 'o':
                self.solver.pop()
                if ent[1] + 1 < ent[3]:
                    ent[1] += 1
                    ent[2] = ent[1] + 1 < ent[3]
                    self.solver.push()
                    return True
            if ent[0] == 'b' and ent[3] is not None:
                self.solver.pop()
                if ent[2] is not False:
                    ent[1] = not ent[1]
                    self.model = ent[2]
                    ent[2] = False
                    self.solver.push()
                    self.solver.add(ent[3] if ent[1] else z3.Not(ent[3]))
                    return True
            trace.pop()
        return False

    def _start_path(self):
        self.pos = 0
        self.path_ufs = []
        self.path_inputs = {}
        self.path_minvars = []
        self.path_log = []
        self.fresh = 0
        self.path_state = {}
        self.aborted = None
        self.dead = False

    def explore(self, body, on_path=None):
        """Run body for every feasible path"""
        Engine.cur = self
        first = True
        try:
            while first or self.backtrack():
                first = False
                self._start_path()
                gc.collect(0)
                try:
                    body()
                except (PathAbort, EngineLimit, EngineUnknown, Nondeterminism) as e:
                    if self.aborted is None:
                        self.aborted = e
                except self.unencoded as e:
                    # no model for some operation: this path is only checked on one concrete input
                    if self.aborted is None:
                        self.aborted = e
                if isinstance(self.aborted, self.unencoded):
                    e, self.aborted = self.aborted, None
                    self.incomplete.add(f"not encoded: {type(e).__name__}: {str(e)[:200]}")
                    self.stats.concretised += 1
                    if self.on_unencoded is not None:
                        self.on_unencoded(self, e)
                    self.stats.aborted += 1
                    self.dead = True
                    # replay bookkeeping: the trace may extend past the abort
                    continue
                if isinstance(self.aborted, Nondeterminism) or (self.aborted is None and self.pos < len(self.trace)):
                    raise self.aborted or Nondeterminism("prefix not consumed")
                if isinstance(self.aborted, EngineLimit):
                    raise self.aborted
                if isinstance(self.aborted, EngineUnknown):
                    self.incomplete.add(f"solver unknown: {self.aborted}")
                if self.aborted is not None:
                    self.stats.aborted += 1
                    self.dead = True
                    continue
                if on_path is not None:
                    on_path(self)
                self.dead = True
                self.stats.paths += 1
                if self.max_paths is not None and self.stats.paths >= self.max_paths and any(e[2] is not False for e in self.trace):
                    self.incomplete.add('path limit')
                    break
        except EngineLimit:
            pass
        finally:
            self.dead = True
            self.aborted = None
            Engine.cur = None
