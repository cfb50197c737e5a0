"""C09: successful setup yields a complete, finite-error population."""
import math

import numpy as np
from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import sim


# --- configured size ------------------------------------------------------
class Sized(object):
    """As many parameters as you like."""
    def __init__(self, n):
        self.n = n
    def __len__(self):
        return self.n if isinstance(self.n, int) else self.n.__index__()
    def __dv_len__(self):
        return self.n


@contract('C09', 'population.Population.__init__', runs=300)
def configured_size(dv):
    """Size from popsize, parameter count and the limits."""
    P = dv.mod('population')
    nd = dv.int('Nd', 1, 10**6)
    popsize = dv.choose('given', ['default', 'int', 'float'])
    class Pop(P.Population):
        pass
    if dv.choose('limits', ['default', 'overridden']) == 'overridden':
        Pop.Np_min, Pop.Np_max = dv.int('min', 1, 10**6), dv.int('max', 1, 10**6)
        dv.assume(Pop.Np_min <= Pop.Np_max)
        lo, hi = Pop.Np_min, Pop.Np_max
    else:
        lo, hi = 20, 500
    for name in ('History', 'ParameterManager', 'Reporter'):
        dv.patch(P, name, lambda *a, **k: Recorder(dv))
    n = Pop.popsize
    kw = {}
    if popsize == 'int':
        kw['popsize'] = n = dv.int('popsize', 1, 10**6)
    elif popsize == 'float':
        n = dv.choose('n', [1, 5, 10, 27])
        kw['popsize'] = float(n)
    p = dv.call('construct', Pop, lambda values: 0, [], Sized(nd), **kw)
    want = n*nd
    want = dv.ite(want > hi, hi, want)
    want = dv.ite(want < lo, lo, want)
    dv.check('configured-size', dv.eq(p.Np, want))
    if popsize == 'default' and lo is 20:
        dv.check('documented-default', n == 10)
    dv.check('nobody-yet', len(p) == 0 and not p)


# --- filling --------------------------------------------------------------
class Rows(Standin):
    """A table of initial values, never mind which."""
    def __init__(self, n, count):
        self.shape = (n, 1)
        self.count = count
    def __dv_len__(self):
        return self.shape[0]
    def __len__(self):
        return self.shape[0]
    def __getitem__(self, k):
        self.count.append(None)
        return np.array([float(len(self.count))])


def rows(n, count):
    if not isinstance(n, int):
        return Rows(n, count)
    n = max(n, 2)       # (there are always many members in fact)
    k = len(count)
    count.extend([None]*n)
    return np.array([[float(k + j)] for j in range(n)])


class PM(Standin):
    def fromUnity(self, values):
        return values
    def limit(self, values):
        return values
    def passesConstraints(self, values):
        return True
    def prettyValues(self, values, *args):
        return "values"


def scene(dv, Np, parallel):
    P = dv.mod('population')
    count = []
    dv.patch(P, 'lhs', lambda nd, samples=None, criterion=None: rows(
        samples, count))
    dv.patch(P.Population, '__repr__', lambda self: "population")
    p = dv.bare(P.Population)
    p.history = HistoryStub(dv)
    p.reporter = Recorder(dv)
    p.Nd, p.Np = 1, Np
    p.pm = PM()
    p.debug = False
    p.targetFraction = 0.02
    p.statusQuoScore = 1.0
    p.N_maxParallel = parallel
    p.clear()
    return p


def outcome(dv, name):
    """Anything an evaluation may come back with."""
    kind = dv.choose(name + '_kind', [
        'number', 'none', 'negative', 'failure'] + (
            [] if dv.sym else ['number', 'none']*10))
    if kind == 'number':
        x = dv.flt(name, ninf=False, lo=0)
        return kind, x
    if kind == 'none':
        return kind, None
    if kind == 'negative':
        x = dv.real(name)
        dv.assume(x < 0)
        return kind, x
    return kind, sim.Boom("evaluation failed")


def fire(d, kind, x):
    if kind == 'failure':
        d.errback(x)
    else:
        d.callback(x)


@contract('C09', 'population.Population.setup '
          'individual.Individual.evaluate individual.Individual.SSE '
          'population.Population.evalFunc population.Population.abort '
          'population.Population.release population.Population.initialize',
          modes=('proof',), budget=150, weight=3)
def filling(dv):
    """Any configured size, any number of members so far."""
    fill(dv)


def fill(dv):
    """
    Any configured size, any number of members so far: an evaluation that
    finishes adds exactly its individual with exactly its error, if that is
    finite and there is room.  Success is reported with all slots filled and
    only if nothing fatal happened.
    """
    import z3
    from pydv import engine, loops
    V = sym_module()
    I = dv.mod('individual')
    Np = dv.size('Np', 1)
    parallel = dv.choose('parallel', [1, 2])
    p = scene(dv, Np, parallel)
    before = dv.choose('before', ['new', 'set up before'])
    def member(z):
        i = I.Individual(p, [0.5])
        i.SSE = V.SFloat(z3.FreshReal(), z3.IntVal(0))
        return i
    if before == 'set up before':
        for k in range(2):
            p.iList.append(member(None))
            p.dLocks.append(defer.DeferredLock())
    state = {'calls': 0, 'bad': False, 'old': list(p.iList)}
    pending = []
    def func(values):
        state['calls'] += 1
        if values is None:
            return None
        if state['calls'] == 1:
            dv.check('starts-empty', len(p) == 0)
        elif len(pending) == 0 or state['calls'] > parallel:
            if not state['bad']:
                dv.reach('carries-on')
                dv.check('carries-on-only-if-needed', len_(p) < Np)
            dv.e.kill(engine.Dead("covered by the arbitrary state"))
        d = defer.Deferred()
        pending.append((d, np.array(values)))
        return d
    def len_(p):
        return dv.length(p.iList)
    def hook(loop, frame):
        # Any number of evaluations so far
        if 'populate' in loop.loc and loop.count == 1 and 'k' in loop.names:
            k = dv.int('k', 0)
            return {n: (k if n == 'k' else frame.f_locals.get(n))
                    for n in loop.names}
    dv.e.ghost['whilehook'] = hook
    p.func = func
    d = dv.call('setup', p.setup)
    out = dv.outcome(d)
    dv.reactor.spin(lambda: not dv.reactor.calls or
                    len(pending) >= parallel, limit=50)
    if not pending:
        # (nothing in flight: everything needed was there)
        dv.check('not-without-evaluation', False)
        return
    # The arbitrary state in which evaluations finish
    m = dv.size('m', 0)
    dv.assume(m <= Np)
    p.iList = V.SSeq(m, member, tag='members')
    p.dLocks = V.SSeq(m, lambda z: defer.DeferredLock(), tag='locks')
    dv.loopspec(loops.Spec(tag='locks', inv=lambda L, idx, locs: []))
    while pending:
        if dv.choose('abort', [False, True]):
            state['bad'] = True
            p.abort()
        k = dv.choose('which', list(range(len(pending))))
        dd, values = pending.pop(k)
        kind, x = outcome(dv, 'x')
        n0 = len_(p)
        old = p.iList.overlay
        fatal = kind in ('negative', 'failure')
        dv.call('finish', fire, dd, kind, x)
        finite = kind == 'number' and dv.truth(dv.isfin(x))
        if not fatal and not state['bad'] and finite and dv.truth(n0 < Np):
            dv.check('added', dv.eq(len_(p), n0 + 1), soft=True)
            got = p.iList[n0]
            dv.check('one-of-its-own', isinstance(got, I.Individual) and
                     not any(got is o for _, o in old))
            dv.check('error-of-its-evaluation', dv.eq(got.SSE, x))
            dv.check('values-of-its-evaluation',
                     np.array_equal(got.values, values))
            dv.reach('added')
        elif not state['bad']:
            dv.check('nobody-added', dv.eq(len_(p), n0))
            dv.reach('not-added')
        if fatal:
            state['bad'] = True
    dv.reactor.spin(lambda: out[0] != 'pending', limit=50)
    dv.check('setup-finishes', out[0] != 'pending')
    if out[0] == 'pending':
        return
    kind, res = out
    if state['bad']:
        dv.check('no-success', not (kind == 'ok' and dv.truth(res)))
        dv.reach('no-success')
        return
    dv.check('success', kind == 'ok' and dv.truth(res))
    dv.check('configured-number-of-members', dv.eq(len_(p), Np))
    dv.check('ready', p.running is True, soft=True)
    dv.reach('success')


@contract('C09', 'population.Population.setup individual.Individual.evaluate',
          modes=('bounded', 'concrete'), runs=500, budget=60, weight=2)
def schedules(dv):
    """Complete setups: one or two members, all orders, symbolic errors."""
    I = dv.mod('individual')
    if dv.sym:
        Np = dv.choose('Np', [1, 2])
        most = 3
        parallel = dv.choose('parallel', [1, 3])
    else:
        Np = dv.choose('Np', [1, 2, 3, 5, 9])
        most = 40
        parallel = dv.choose('parallel', [1, 2, 3, 12])
    p = scene(dv, Np, parallel)
    pending, done = [], []
    bad = [False]
    def func(values):
        if values is None:
            return None
        if dv.sym and len(pending) + len(done) >= most:
            return 0.5
        d = defer.Deferred()
        pending.append((d, np.array(values)))
        return d
    p.func = func
    d = dv.call('setup', p.setup)
    out = dv.outcome(d)
    n = 0
    while out[0] == 'pending' or pending:
        dv.reactor.spin(lambda: out[0] != 'pending' or not dv.reactor.calls or
                        len(pending) >= parallel, limit=30)
        if not pending:
            break
        k = dv.choose('which', list(range(len(pending))))
        dd, values = pending.pop(k)
        n += 1
        if n > most - 10 and not dv.sym:
            kind, x = 'number', 0.25
        else:
            kind, x = outcome(dv, 'x%d' % n)
        done.append((values, kind, x))
        if kind in ('negative', 'failure'):
            bad[0] = True
        dv.call('finish', fire, dd, kind, x)
        dv.check('never-too-many', len(p) <= Np)
    dv.reactor.spin(lambda: out[0] != 'pending', limit=50)
    dv.check('setup-finishes', out[0] != 'pending')
    if out[0] == 'pending':
        return
    kind, res = out
    ok = kind == 'ok' and dv.truth(res)
    if bad[0]:
        dv.check('no-success', not ok)
        return
    dv.check('success', ok)
    dv.check('configured-number-of-members', len(p) == Np)
    dv.check('distinct', len(set(map(id, p))) == len(p))
    for i in p:
        dv.check('finite', dv.And(dv.isfin(i.SSE), i.SSE >= 0))
        mine = [(kd, x) for v, kd, x in done if np.array_equal(v, i.values)]
        if mine:
            kd, x = mine[0]
            dv.check('error-of-its-evaluation',
                     kd == 'number' and dv.truth(dv.eq(i.SSE, x)))


@contract('C09', 'population.Population.setup population.Population.__init__',
          modes=('concrete',), runs=200, weight=3)
def whole_setups(dv):
    """Setup through the public interface."""
    sim.setup_only(dv, 'C09', 'plain, bad ones, bad ones, fatal, event, '
                   'complaints, callback fails, plain sizes')
