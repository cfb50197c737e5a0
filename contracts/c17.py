"""C17: a run performs whole generations and stops when it should."""
from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import sim


@contract('C17', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run de.DifferentialEvolution.shutdown',
          modes=('concrete',), runs=400, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C17', 'plain, plain, plain, bursts, bursts, event, '
              'event in run, fatal, callback fails, bad ones, loaded')


# --- the run loop on its own ----------------------------------------------
class Adaptation(Standin):
    """
    What C08 says about the weight manager, as far as a run is concerned:
    asking for less may exhaust it, asking for more ends that.
    """
    def __init__(self, run, adaptive):
        self.run, self.adaptive = run, adaptive
        self.limited = False
    def get(self):
        return 0.5
    def down(self):
        dv = self.run.dv
        if self.adaptive:
            self.limited = dv.Or(self.limited, dv.bool('limited'))
    def up(self):
        if self.adaptive:
            self.limited = False
    def __repr__(self):
        return "F"


class Members(object):
    """
    Stands in for the population: what C03, C07, C13 and C15 say about it,
    as far as a run is concerned.
    """
    running = True
    def __init__(self, run):
        self.__dict__['run'] = run
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        # (asked for something the contract does not know of)
        self.run.give_up("population.%s" % name)


class Run(object):
    def __init__(self, dv):
        self.dv = dv
        self.D, self.I = dv.mod('de'), dv.mod('individual')
        self.proof = dv.sym and dv.mode == 'proof'
        self.maxiter = dv.size('maxiter', 1, bounded=(1, 2))
        self.Np = dv.size('Np', 2, bounded=(2,))
        if not dv.sym:
            self.maxiter = min(self.maxiter*2, 12)
        self.bitter = dv.choose('bitterEnd', [False, True])
        self.dwell = dv.int('dwell', 1, None if dv.sym else 3)
        self.goal = dv.choose('goal', [None, 'some'])
        if self.goal:
            self.goal = dv.real('goalSSE', 0)
            dv.assume(self.goal > 0)
        self.with_func = dv.choose('callback', [True, False] if
                                   dv.mode != 'bounded' else [True])
        self.stopped = False        # shutdown, or a challenge failed
        self.gens = 0               # generations finished and continued from
        self.issued = []            # slots challenged in this generation
        self.waiting = []           # challenges in progress
        self.count = 0              # consecutive exhausted generations
        self.replaced = None
        self.funcs = []
        self.reports = 0
        self.fresh_best()
        self.build()

    def give_up(self, why):
        dv = self.dv
        if dv.sym:
            dv.e.unsupported_(why)
        dv.skip(why)

    def fresh_best(self):
        dv = self.dv
        self.best = dv.bare(self.I.Individual)
        self.best.SSE = dv.flt('best', nan=False, ninf=False, lo=0)

    def build(self):
        dv = self.dv
        p = self.p = Members(self)
        p.Np = self.Np
        p.kBest = dv.idx('kBest', self.Np)
        p.reporter = Recorder(dv)
        p.history = Recorder(dv)
        p.history.__dict__['N_total'] = 0
        p.waitForReports = self.wait
        p.best = lambda: self.best
        p.report = self.report
        p.replacement = self.replacement
        p.sample = self.sample
        self.adaptive = dv.choose('adaptive', [True, False])
        dv.patch(self.D, 'msg', lambda *a, **k: None)
        dv.patch(self.D, 'FManager', lambda *a, **k: self.manager())
        self.de = self.D.DifferentialEvolution(
            p, logHandle=None, maxiter=self.maxiter, bitterEnd=self.bitter,
            dwellByGrave=self.dwell, goalSSE=self.goal,
            adaptive=self.adaptive,
            randomBase=dv.choose('randomBase', [False, True] if
                                 dv.mode != 'bounded' else [False]))
        self.de.challenge = self.challenge

    def manager(self):
        self.fm = Adaptation(self, self.adaptive)
        return self.fm

    # --- what the run calls -----------------------------------------------
    def maybe_stop(self):
        """A shutdown may come at any time."""
        if not self.stopped and self.dv.choose(
                'shutdown', [False, True] if self.dv.sym else
                [False]*20 + [True]):
            self.stopped = True
            self.de.shutdown()

    def wait(self):
        d = self.wait_d = defer.Deferred()
        return d

    def report(self, *args):
        self.reports += 1
        self.dv.check('reports-best', not args or args[0] is None, soft=True)

    def replacement(self, *args):
        self.replaced = self.dv.bool('replaced')
        return self.replaced

    def sample(self, N, *exclude, **kw):
        dv = self.dv
        if N != 1:
            self.give_up("sample(%r)" % N)
        if not dv.sym:
            return dv.choose('kb', [k for k in range(self.Np)
                                    if k not in exclude])
        k = dv.idx('kb', self.Np)
        for x in exclude:
            dv.assume(dv.Not(dv.eq(k, x)))
        return k

    def challenge(self, kt, kb):
        dv = self.dv
        dv.check('no-challenge-after-shutdown', not self.stopped)
        dv.check('base-differs', dv.Not(dv.eq(kt, kb)))
        if not self.proof:
            if len(self.issued) >= self.Np:
                self.carries_on()
            dv.check('in-order-or-not-once-per-slot',
                     0 <= kt < self.Np and kt not in self.issued)
            dv.check('previous-generation-finished', not self.issued or
                     not any(g < self.gens for g, _, _ in self.waiting))
        self.issued.append(kt)
        how = dv.choose('challenge', ['waits'] if (
            dv.sym and not self.proof and len(self.issued) == 1) else [
                'waits', 'at once'] + (['stops'] if dv.sym else []))
        d = defer.Deferred()
        if how == 'stops' and not self.stopped:
            # Fatal error of somebody's
            self.stopped = True
            self.de.shutdown()
            d.callback(None)
        elif how == 'at once':
            d.callback(None)
        else:
            self.waiting.append((self.gens, kt, d))
        return d

    def func(self, kg):
        dv = self.dv
        self.funcs.append(kg)
        dv.check('not-called-after-shutdown', not self.stopped)
        dv.check('called-with-the-generation-number', dv.eq(kg, self.gens))
        dv.check('called-once', len(self.funcs) == (
            1 if self.proof else self.gens + 1))
        if not self.proof:
            dv.check('called-when-all-are-done', len(self.issued) == self.Np
                     and not self.waiting)

    # --- generations ------------------------------------------------------
    def met(self):
        if self.goal is None:
            return False
        return self.best.SSE < self.goal

    def exhausted(self):
        """Was the generation just over?"""
        dv = self.dv
        if self.replaced is None:
            return False
        return dv.And(dv.Not(self.replaced), self.fm.limited)

    def tally(self):
        dv = self.dv
        return dv.ite(self.exhausted(), self.count + 1, 0)

    def too_much(self):
        """Has there been enough of it?"""
        if self.bitter:
            return False
        return self.tally() > self.dwell

    def carries_on(self):
        """The run continues with another generation."""
        dv = self.dv
        dv.check('goal-stops-the-run', dv.Not(self.met()))
        dv.check('exhaustion-stops-the-run', dv.Not(self.too_much()))
        dv.check('never-after-shutdown', not self.stopped)
        if self.with_func:
            dv.check('callback-called', len(self.funcs) == (
                1 if self.proof else self.gens + 1))
        if not self.proof:
            dv.check('everybody-challenged',
                     sorted(self.issued) == list(range(self.Np)))
            dv.check('previous-generation-finished', not self.waiting)
            self.count = self.tally()
            self.gens += 1
            self.issued = []
            self.replaced = None
            dv.check('at-most-maximum-generations', self.gens < self.maxiter)

    def judge(self, out):
        dv = self.dv
        kind, res = out
        dv.check('run-ends', kind != 'pending')
        if kind == 'pending':
            return
        dv.check('run-does-not-fail', kind == 'ok')
        dv.check('delivers-the-population', res is self.p)
        if self.stopped:
            dv.reach('shutdown')
            return
        dv.check('final-best-reported', self.reports >= 2)
        dv.check('over', not self.de.running, soft=True)
        if not self.proof:
            if not self.issued:
                # (challenges not made the way the contract expects)
                self.give_up("no challenges seen")
            dv.check('everybody-challenged',
                     sorted(self.issued) == list(range(self.Np)))
            last = self.gens + 1 == self.maxiter
            dv.check('stops-early-only-with-reason', dv.Or(
                last, self.met(), self.too_much()))
        dv.reach('finished')

    # --- bounded and concrete: everything for real ------------------------
    def play(self):
        dv = self.dv
        d = dv.call('run', self.de, self.func if self.with_func else None)
        out = dv.outcome(d)
        self.drive(out)
        self.judge(out)

    def drive(self, out):
        dv = self.dv
        while out[0] == 'pending':
            w, self.wait_d = self.wait_d, None
            if w is not None and not w.called:
                self.maybe_stop()
                dv.call('go-on', w.callback, None)
            elif self.waiting:
                k = dv.choose('which', list(range(min(
                    2, len(self.waiting)))))
                g, kt, c = self.waiting.pop(k)
                if not self.waiting:
                    self.fresh_best()
                    self.maybe_stop()
                    if not self.stopped and dv.choose(
                            'fails', [False, True] if dv.sym else
                            [False]*15 + [True]):
                        self.stopped = True
                        dv.call('go-on', c.errback, sim.Boom("failed"))
                        continue
                dv.call('go-on', c.callback, None)
            else:
                break
            dv.alive()
        # (what is left when told to stop)
        for g, kt, c in self.waiting:
            if not c.called:
                c.callback(None)
    wait_d = dlist = None

    # --- proof: loops cut by invariants -----------------------------------
    def prove(self):
        import z3
        from pydv import loops
        V = sym_module()
        dv, run = self.dv, self

        def over(n):
            def matches(it, loc):
                return isinstance(it, loops.SRange) and z3.simplify(
                    it.hi).eq(V.zi(n))
            return matches

        class Generations(loops.Spec):
            def inv(self, L, idx, locs):
                if L.stage == 'entry':
                    run.outer = L
                    dv.check('starts-from-nothing', not run.issued)
                    run.count = 0
                    run.early = run.stopped
                elif L.stage == 'preserve':
                    run.carries_on()
                    dv.check('generation-run', run.complete)
                    run.count = run.tally()
                c = V.zi(run.count)
                out = [('running', run.de.running is not run.stopped),
                       ('not-stopped', V.zi(idx) == 0 if run.stopped
                        else True),
                       ('nonnegative', c >= 0),
                       ('exhausted-if-counting', z3.Implies(
                           c > 0, V.zb(run.fm.limited)))]
                if not run.bitter:
                    out.append(('dwell', V.zb(dv.eq(
                        run.de.dwellCount, run.count))))
                    out.append(('not-too-many', c <= V.zi(run.dwell)))
                return out
            def havoc(self, L, idx, locs, names):
                run.outer = L
                run.gens = idx
                run.count = V.SInt(z3.Int(dv.e.fresh('count')))
                run.de.dwellCount = V.SInt(z3.Int(dv.e.fresh('dwell')))
                run.de.dChallenges = None
                run.de.running = not run.early
                run.stopped = run.early
                run.fm.limited = dv.And(dv.bool('was_limited'),
                                        run.adaptive)
                run.fresh_best()
                run.replaced = None
                run.funcs, run.issued, run.waiting = [], [], []
                run.complete = False
                return {}
            def allow(self, obj, what):
                return obj is run.de and what in (
                    'dwellCount', 'dChallenges', 'running',
                    'triggerID') or obj is run.dlist or obj is run.best

        class Slots(loops.Spec):
            def inv(self, L, idx, locs):
                if L.stage == 'entry':
                    run.dlist = None
                    dv.check('nobody-challenged-before', not run.issued)
                elif L.stage == 'preserve':
                    dv.check('one-challenge-per-slot',
                             len(run.issued) == 1)
                    if len(run.issued) == 1:
                        dv.check('the-slot-in-turn', dv.eq(
                            run.issued[0], loops.item_of(L.it, L.idx)))
                    held = [x for x in (run.dlist or [])
                            if x is run.last]
                    dv.check('will-be-waited-for', len(held) == 1,
                             soft=True)
                return [('running', run.de.running is True),
                        ('not-stopped', not run.stopped)]
            def havoc(self, L, idx, locs, names):
                run.inner = L
                run.issued, run.waiting = [], []
                lists = [x for x in locs.values()
                         if isinstance(x, list) and not x]
                if len(lists) != 1:
                    run.give_up("where are the challenges kept?")
                run.dlist = lists[0]
                run.complete = L.phase == 2
                return {}
            def allow(self, obj, what):
                return obj is run.dlist or obj is run.de and what in (
                    'running', 'triggerID')

        dv.loopspec(Slots(tag=over(self.Np), name='slots'))
        dv.loopspec(Generations(tag=over(self.maxiter), name='generations'))

        real = self.D.defer
        class Facade(object):
            def __getattr__(self, name):
                if name in ('gatherResults', 'DeferredSemaphore'):
                    run.give_up(name)
                return getattr(real, name)
            def DeferredList(self, ds, **kw):
                dv.check('waits-for-these-challenges', ds is run.dlist and
                         run.complete, soft=True)
                run.all = defer.Deferred()
                run.all_kw = kw
                return run.all
        dv.patch(self.D, 'defer', Facade())
        inner_challenge = self.de.challenge
        def challenge(kt, kb):
            self.last = inner_challenge(kt, kb)
            return self.last
        self.de.challenge = challenge

        d = dv.call('run', self.de, self.func if self.with_func else None)
        out = dv.outcome(d)
        self.all = None
        for _ in range(12):
            if out[0] != 'pending':
                break
            w, self.wait_d = self.wait_d, None
            if w is not None and not w.called:
                self.maybe_stop()
                dv.call('go-on', w.callback, None)
            elif self.all is not None and not self.all.called:
                a, self.all = self.all, None
                self.fresh_best()
                self.maybe_stop()
                how = dv.choose('challenges', ['all done', 'one fails'])
                if a.called:
                    # (told to stop)
                    dv.check('only-when-stopped', self.stopped)
                elif how == 'one fails' and self.all_kw.get(
                        'fireOnOneErrback'):
                    self.stopped = True
                    dv.call('go-on', a.errback, sim.Boom("failed"))
                else:
                    dv.call('go-on', a.callback, [])
            else:
                break
            dv.alive()
        self.judge(out)
        if self.stopped or out[0] != 'ok':
            return
        if self.outer.phase == 1:
            # Left in the middle
            dv.check('everybody-challenged', self.complete)
            dv.check('stops-early-only-with-reason', dv.Or(
                self.met(), self.too_much()))
            dv.reach('early')
        else:
            dv.reach('maximum')


@contract('C17', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run de.DifferentialEvolution.shutdown '
          'de.DifferentialEvolution.__init__', runs=800, budget=100,
          weight=2, max_paths=30000)
def generations(dv):
    """
    Any maximum, any population size, any outcome of the challenges, any
    adaptation, shutdown whenever control is given up.
    """
    run = Run(dv)
    if run.proof:
        run.prove()
    else:
        run.play()
