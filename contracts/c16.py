from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import sim
from .challenge import challenge_contract

CHALLENGE = (
    'de.DifferentialEvolution.challenge de.DifferentialEvolution.crossover '
    'population.Population.lock population.Population.release '
    'population.Population.individuals population.Population.limit '
    'population.ParameterManager.limit population.Population.evalFunc '
    'population.Population.__setitem__ population.Population.report '
    'individual.Individual.evaluate individual.Individual.__add__ '
    'individual.Individual.__sub__ individual.Individual.__mul__ '
    'individual.Individual.__lt__ individual.Individual.__bool__ '
    'individual.Individual.SSE individual.Individual.__float__ '
    'individual.Individual.__getitem__ individual.Individual.__setitem__ '
    'individual.Individual.spawn individual.Individual.update '
    'population.Population.__getitem__')


@contract('C16', CHALLENGE, runs=400, weight=5)
def challenge(dv):
    challenge_contract(dv, 'C16')

# --- abort handlers -------------------------------------------------------
class Queue(object):
    """Any number of handlers, called in order; positions are symbolic."""
    def __init__(self, dv, n, make):
        self.dv, self.n, self.make = dv, n, make
        self.at = 0
        self.more = []          # added since
    def __bool__(self):
        return bool(self.dv.truth(self.at < self.n)) or bool(self.more)
    def pop(self, k=-1):
        if k != 0:
            self.dv.e.unsupported_("not taken from the front")
        if self.dv.truth(self.at < self.n):
            self.at = self.at + 1
            return self.make(self.at - 1)
        return self.more.pop(0)
    popleft = lambda self: self.pop(0)
    def append(self, func):
        self.more.append(func)
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        self.dv.e.unsupported_("queue of handlers: %s" % name)
    def __iter__(self):
        self.dv.e.unsupported_("queue of handlers: iterated")
    __len__ = __getitem__ = __setitem__ = lambda self, *a: \
        self.dv.e.unsupported_("queue of handlers: length or items")


class Handlers(object):
    def __init__(self, dv):
        self.dv, self.A = dv, dv.mod('abort')
        self.proof = dv.sym and dv.mode == 'proof'
        self.started = self.acted = False
        self.extra = []         # times called of those registered later
        self.next = 0           # those before it were called once, others not
        self.counts = {}

    def called(self, k):
        """Handler k is called."""
        dv = self.dv
        dv.check('not-before-the-abort', self.started)
        if self.proof:
            dv.check('each-once-in-order', dv.eq(k, self.next))
            self.next = self.next + 1
        else:
            self.counts[k] = self.counts.get(k, 0) + 1
            dv.check('at-most-once', self.counts[k] == 1)
        if self.acted:
            return
        what = dv.choose('handler', ['returns', 'aborts', 'aborts at once',
                                     'registers'])
        if what == 'returns':
            return
        self.acted = True
        if what == 'aborts':
            self.A.abortNow()
        elif what == 'aborts at once':
            self.kb.dataReceived(b'\n')
        else:
            self.register()

    def register(self):
        self.extra.append(0)
        k = len(self.extra) - 1
        def handler():
            self.extra[k] += 1
        self.A.callOnAbort(handler)

    def prepare(self):
        dv = self.dv
        n = self.n = dv.size('n', 0, bounded=(0, 1, 2, 3))
        if not self.proof:
            for k in range(n):
                self.A.callOnAbort(lambda k=k: self.called(k))
            self.A.KeyboardHolder()
            self.kb = self.A.KeyboardHolder.KB
            return
        self.A.KeyboardHolder()
        kb = self.kb = self.A.KeyboardHolder.KB
        if vars(kb).get('callbacks') != []:
            dv.e.unsupported_("no list of handlers")
        q = self.q = kb.callbacks = Queue(
            dv, n, lambda k: lambda: self.called(k))
        def hook(loop, frame):
            if not loop.loc.startswith('ade.abort'):
                return
            if not dv.truth(q.at < n):
                return
            dv.check('none-skipped', dv.eq(q.at, self.next), soft=True)
            if loop.count == 1:
                # Any number of them has been called, one of which may have
                # registered another
                dv.e.abstract.append("handlers")
                k = dv.int('called', 0)
                dv.assume(dv.And(q.at <= k, k < n))
                if not self.acted and dv.choose('more', [False, True]):
                    dv.assume(q.at < k)
                    self.acted = True
                    self.register()
                q.at = self.next = k
                return {name: None for name in loop.names}
            dv.reach('next')
            dv.e.kill(engine.Dead("covered by the arbitrary iteration"))
        from pydv import engine
        dv.e.ghost['whilehook'] = hook

    def go(self):
        dv, A = self.dv, self.A
        self.prepare()
        dv.reactor.spin(limit=5)
        self.started = True
        how = dv.choose('how', ['now', 'key'])
        if how == 'now':
            dv.call('abort', A.abortNow)
            dv.reactor.spin(limit=5)
        else:
            dv.call('abort', self.kb.dataReceived, b'\n')
            dv.reactor.spin(limit=5)
        if self.proof:
            dv.check('all-called', dv.eq(self.next, self.n))
        else:
            dv.check('all-called', all(
                self.counts.get(k) == 1 for k in range(self.n)))
        dv.check('later-ones-called-once', all(x == 1 for x in self.extra))
        # Too late, gets called all the same
        self.register()
        dv.reactor.spin(limit=5)
        dv.check('late-one-called-once', self.extra[-1] == 1)
        # Nothing is left to be called
        if dv.choose('again', ['now', 'key']) == 'now':
            dv.call('abort', A.abortNow)
        else:
            dv.call('abort', self.kb.dataReceived, b'\n')
        dv.reactor.spin(limit=5)
        if self.proof:
            dv.check('nobody-again', dv.eq(self.next, self.n))
        dv.check('nobody-again', all(x == 1 for x in self.extra))
        dv.reach('all')


@contract('C16', 'abort.callOnAbort abort.abortNow '
          'abort.Keyboard.dataReceived abort.Keyboard.addCallback '
          'abort.Keyboard.shutdown abort.KeyboardHolder.callOnAbort '
          'abort.KeyboardHolder.abortNow', runs=200, weight=1)
def handlers(dv):
    """
    Any number of abort handlers, any of which may abort again or register
    another: each is called exactly once.
    """
    Handlers(dv).go()


# --- the population is aborted --------------------------------------------
@contract('C16', 'population.Population.abort report.Reporter.abort '
          'population.Population.release population.Population.lock '
          'population.Population.evalFunc '
          'population.Population.waitForReports '
          'report.Reporter.waitForCallbacks', runs=200, weight=2)
def aborting(dv):
    """
    Any number of slots in any state: afterwards none is reserved, nobody
    waits and no vector gets evaluated.
    """
    import numpy as np
    P, I = dv.mod('population'), dv.mod('individual')
    got = []
    p = P.Population(lambda values: got.append(values) or 0.0,
                     ['x'], [(0.0, 1.0)])
    dv.patch(P, 'msg', lambda *a, **k: None)
    p.running = True
    n = dv.size('n', 1, bounded=(1, 2, 3))
    served, states = {}, {}
    def lock(z, key=None):
        dLock = defer.DeferredLock()
        state = dv.choose('state', ['free', 'taken', 'waited for'])
        key = id(dLock)
        states[key] = (dLock, state)
        served[key] = 0
        if state != 'free':
            dLock.acquire()
        if state == 'waited for':
            def go(x):
                # Goes ahead, and then does not need it any more
                served[key] += 1
                if dLock.locked:
                    dLock.release()
            dLock.acquire().addCallback(go)
        return dLock
    def fine(dLock):
        dLock, state = states[id(dLock)]
        return not dLock.locked and (
            state != 'waited for' or served[id(dLock)] == 1)
    if dv.sym and dv.mode == 'proof':
        from pydv import loops
        V = sym_module()
        p.dLocks = V.SSeq(n, lock, tag='locks')
        class Locks(loops.Spec):
            def inv(self, L, idx, locs):
                if L.stage == 'preserve':
                    return [('slot-freed', fine(p.dLocks.at(
                        V.zi(idx) - 1)))]
                return []
        dv.loopspec(Locks(tag='locks', allow=lambda obj, what: isinstance(
            obj, defer.DeferredLock)))
        p.iList = V.SSeq(n, lambda z: None, tag='members')
        q = dv.idx('q', n)
    else:
        p.dLocks[:] = [lock(k) for k in range(n)]
        i = I.Individual(p, [0.5])
        i.SSE = 1.0
        p.iList[:] = [i]*n
        q = None
    # Somebody's callback is still busy with a report
    busy = dv.choose('busy', [False, True])
    wait = None
    if busy:
        best = I.Individual(p, [0.25])
        best.SSE = 0.5
        p.addCallback(lambda *a: defer.Deferred())
        p.reporter(best)
        if dv.choose('awaited', [False, True]):
            wait = dv.outcome(p.reporter.waitForCallbacks())
    how = dv.choose('how', ['population', 'reporter'])
    before = len(got)
    dv.call('abort', p.abort if how == 'population' else p.reporter.abort)
    dv.reactor.spin(limit=8)
    if q is None:
        for key in states:
            dLock, state = states[key]
            dv.check('nobody-waits-for-a-slot', state != 'waited for' or
                     served[key] == 1)
            dv.check('no-slot-stays-reserved', fine(dLock), soft=True)
    if wait is not None:
        dv.check('nobody-waits-for-reports', wait[0] != 'pending')
    out = dv.outcome(dv.call('wait', p.waitForReports))
    dv.reactor.spin(limit=8)
    dv.check('no-wait-for-reports-afterwards', out[0] != 'pending')
    # Slots can be had right away
    if q is None:
        q = dv.choose('q', list(range(n)))
    out = dv.outcome(dv.call('lock', p.lock, q))
    dv.check('no-wait-for-slots-afterwards', out[0] == 'ok')
    dv.call('release', p.release, q)
    # Vectors do not reach the evaluation function
    v = np.array([0.75])
    d = dv.call('evaluate', p.evalFunc, v)
    dv.check('no-vector-evaluated', all(x is None for x in got[before:]))
    i = I.Individual(p, [0.75])
    out = dv.outcome(dv.call('evaluate', i.evaluate))
    dv.check('no-vector-evaluated', all(x is None for x in got[before:]))
    dv.check('evaluation-ends', out[0] != 'pending')
    dv.reach('end')


@contract('C16', 'population.Population.setup '
          'individual.Individual.evaluate population.Population.initialize',
          modes=('proof',), budget=150, weight=3)
def setting_up(dv):
    """A fatal result or an abort while setting up, any size."""
    from . import c09, pieces
    c09.fill(pieces.Softly(dv))


@contract('C16', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',), budget=100,
          weight=2)
def the_run(dv):
    """Acts by challenges only, none after a shutdown."""
    from . import pieces
    pieces.the_run(dv)


@contract('C16', 'de.DifferentialEvolution.__call__ '
          'population.Population.setup population.Population.abort '
          'report.Reporter.abort abort.callOnAbort abort.abortNow '
          'abort.Keyboard.dataReceived',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C16', 'fatal, event, event in run, callback fails, fatal, event, plain')


@contract('C16', 'population.Population.setup', modes=('concrete',), runs=400,
          weight=2)
def late_in_setup(dv):
    """Fatal with the last evaluations of setup still outstanding."""
    w = sim.World(
        dv, 'C16', fatal_at=lambda r: r.randint(2, 12), evals=['deferred'],
        order=['lifo', 'random', 'fifo'], Np_min=[4, 5, 8], Nd=[1, 2],
        parallel=[2, 4, 12], popsize=[1],
        bad=[0, 0.3], event_at=[None], constrained=['none'])
    w.make_population()
    w.setup()
