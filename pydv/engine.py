"""
pydv.engine: path exploration and obligation discharge.

The real function bodies run under CPython on symbolic values.  A branch on a
symbolic condition asks the solver which outcomes are feasible; every feasible
outcome is explored by re-executing the harness with a recorded decision
prefix.  C{check} turns a condition into an SMT obligation under the current
path condition.
"""
import sys, time, traceback
from fractions import Fraction

import z3


class Dead(BaseException):
    """
    The current path is over (infeasible, covered by an invariant, or given
    up).  Deferred machinery may swallow it, so the engine keeps a flag and
    every further operation on a symbolic value raises it again.
    """


class Unsupported(BaseException):
    """The verifier cannot express what the code just did."""


class Failure_(object):
    def __init__(self, name, kind, detail, inputs, tape, abstract, trace=None):
        self.name = name
        self.kind = kind            # 'sat' | 'unknown' | 'exception'
        self.detail = detail
        self.inputs = inputs
        self.tape = tape
        self.abstract = abstract
        self.trace = trace

    def as_dict(self):
        return dict(self.__dict__)


class Engine(object):
    """
    One engine explores one harness in one mode.
    """
    current = None

    def __init__(self, timeout_ms=6000, max_paths=4000, budget_s=60.0,
                 use_cvc5=False):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.use_cvc5 = use_cvc5
        self.stats = {
            'paths': 0, 'obligations': 0, 'discharged': 0, 'forks': 0,
            'solver_s': 0.0, 'queries': 0, 'cvc5_confirmed': 0,
            'cvc5_unknown': 0, 'cvc5_skipped': 0}
        self.by_name = {}
        self.failures = []
        self.unsupported = []
        self.reached = set()
        self.assumed = set()
        self.timed_out = False
        self.complete = False

    # --- path life cycle -------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.branch = []            # branch conditions taken so far
        self.counter = {}
        self.dead = None
        self.inputs = {}            # name -> proxy or structure
        self.tape = []              # random outcomes in order
        self.abstract = []          # reasons why a model may be spurious
        self.pending = []           # prefixes to explore later
        self.ghost = {}
        self.lazy = []

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def alive(self):
        if self.dead is not None:
            raise self.dead

    def kill(self, exc):
        self.dead = exc
        raise exc

    def unsupported_(self, why):
        exc = Unsupported(why)
        if self.dead is None:
            self.dead = exc
        raise exc

    # --- solver ----------------------------------------------------------
    def _check(self, *conds):
        t0 = time.time()
        self.stats['queries'] += 1
        r = self.solver.check(*conds)
        self.stats['solver_s'] += time.time() - t0
        return r

    def add(self, cond):
        if z3.is_true(cond):
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def assume(self, cond):
        """Adds a fact; ends the path if it is contradictory."""
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.kill(Dead("assume false"))
        self.add(cond)

    def feasible(self):
        return self._check() != z3.unsat

    def fork(self, cond):
        """Decides a symbolic condition on this path."""
        self.alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.decisions.append(d)
            self.add(cond if d else z3.Not(cond))
            self.branch.append(cond if d else z3.Not(cond))
            return d
        yes = self._check(cond) != z3.unsat
        no = self._check(z3.Not(cond)) != z3.unsat
        if not yes and not no:
            self.kill(Dead("infeasible"))
        if yes and no:
            self.stats['forks'] += 1
            self.pending.append(list(self.decisions) + [False])
            d = True
        else:
            d = yes
        self.decisions.append(d)
        self.add(cond if d else z3.Not(cond))
        self.branch.append(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """Explores all of range(n) without involving the solver."""
        self.alive()
        if n <= 1:
            return 0
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.decisions.append(d)
            return d
        for other in range(n-1, 0, -1):
            self.pending.append(list(self.decisions) + [other])
        self.decisions.append(0)
        return 0

    # --- obligations -----------------------------------------------------
    def reach(self, name):
        """Vacuity guard: this point was reached on a feasible path."""
        if self.dead is not None:
            return
        if name not in self.reached and self.feasible():
            self.reached.add(name)

    def check(self, name, cond, detail=None):
        """
        An obligation: cond must hold under the path condition.
        """
        self.alive()
        self.stats['obligations'] += 1
        rec = self.by_name.setdefault(name, {'n': 0, 'ok': 0})
        rec['n'] += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            r = z3.unsat
        else:
            r = self._check(z3.Not(cond))
        if r == z3.unknown and self.use_cvc5 is not None:
            r = self._second(z3.Not(cond), fallback=True)
        elif r == z3.unsat and self.use_cvc5 and not z3.is_true(cond):
            r2 = self._second(z3.Not(cond))
            if r2 == z3.unsat:
                self.stats['cvc5_confirmed'] += 1
            elif r2 == z3.sat:
                self.stats['cvc5_disagree'] = self.stats.get(
                    'cvc5_disagree', 0) + 1
                r = z3.unknown
            else:
                self.stats['cvc5_unknown'] += 1
        spurious = []
        if r == z3.sat and self.lazy:
            r, spurious = self.refine(z3.Not(cond))
        if r == z3.unsat:
            self.stats['discharged'] += 1
            rec['ok'] += 1
            return True
        if r == z3.sat:
            self.abstract.extend(spurious)
            inputs, tape = self.model(z3.Not(cond))
            self.fail(name, 'sat', detail or str(cond)[:400], inputs, tape)
        else:
            self.fail(name, 'unknown', detail or str(cond)[:400], None, None)
        # Carry on under the assumption that it holds, so that one failure
        # doesn't mask the rest
        if self._check(cond) == z3.unsat:
            self.kill(Dead("obligation false on whole path"))
        self.add(cond)
        return False

    def refine(self, goal):
        """
        A model may violate universally quantified facts at indices nobody
        asked about: instantiates them for small indices.  Returns the
        answer, with the reason why a model might be spurious.
        """
        for inst in list(self.lazy):
            for k in range(5):
                self.add(inst(z3.IntVal(k)))
        small = [z <= 5 for z in self.ghost.get('sizes', [])]
        if small and self._check(goal, *small) == z3.sat:
            return z3.sat, []
        r = self._check(goal)
        return r, ['quantified facts']

    def fail(self, name, kind, detail, inputs, tape, trace=None):
        rec = self.by_name.setdefault(name, {'n': 1, 'ok': 0})
        if len([f for f in self.failures if f.name == name]) < 3:
            self.failures.append(Failure_(
                name, kind, detail, inputs, tape, list(self.abstract), trace))

    def _second(self, goal, fallback=False):
        """Second opinion from cvc5 on pc and goal."""
        try:
            from . import second
            t0 = time.time()
            r = second.check(self.pc + [goal], self.timeout_ms)
            self.stats['solver_s'] += time.time() - t0
        except Exception:
            self.stats['cvc5_skipped'] += 1
            return z3.unknown
        return {'sat': z3.sat, 'unsat': z3.unsat}.get(r, z3.unknown)

    # --- models ----------------------------------------------------------
    def model(self, *conds):
        """
        Evaluates the registered inputs and the tape of random outcomes in a
        model of the path condition plus conds, preferring small sizes.
        """
        from . import values as V
        sizes = list(self.ghost.get('sizes', []))
        got = None
        for extra in [[z <= t for z in sizes] for t in (
                (3, 6, 12) if sizes else ())] + [[]]:
            if self._check(*(list(conds) + extra)) == z3.sat:
                got = self.solver.model()
                break
        if got is None:
            return None, None
        ev = V.Evaluator(got)
        inputs = {}
        for name, x in self.inputs.items():
            try:
                inputs[name] = ev(x)
            except Exception as e:
                inputs[name] = None
        tape = []
        for kind, x in self.tape:
            try:
                tape.append([kind, ev(x)])
            except Exception:
                tape.append([kind, None])
        return inputs, tape

    # --- driver ----------------------------------------------------------
    def run(self, harness):
        """
        Explores all paths of harness().
        """
        t_end = time.time() + self.budget_s
        work = [[]]
        Engine.current = self
        try:
            while work:
                if time.time() > t_end or self.stats['paths'] >= self.max_paths:
                    self.timed_out = True
                    break
                prefix = work.pop()
                self.begin(prefix)
                self.stats['paths'] += 1
                exc = None
                try:
                    harness()
                except (Dead, Unsupported) as e:
                    pass
                except Exception as e:
                    exc = e
                if isinstance(self.dead, Unsupported):
                    if self._quick_feasible():
                        self.unsupported.append(str(self.dead))
                elif self.dead is None and exc is not None:
                    if self._quick_feasible():
                        tb = traceback.format_exc()
                        inputs, tape = self.model()
                        self.fail('no-unexpected-exception', 'exception',
                                  repr(exc), inputs, tape, tb)
                work.extend(self.pending)
            else:
                self.complete = True
        finally:
            Engine.current = None
        return self

    def _quick_feasible(self):
        try:
            return self._check() != z3.unsat
        except z3.Z3Exception:
            return True


def E():
    e = Engine.current
    if e is None:
        raise RuntimeError("No engine active")
    return e
