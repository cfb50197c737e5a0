"""C07: the ranking and the best member are up to date."""
import math

import numpy as np
from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import sim


class PM(Standin):
    maxLineLength = 100


def population(dv, n, tag='members'):
    """A population of n members with arbitrary errors."""
    P, I = dv.mod('population'), dv.mod('individual')
    p = dv.bare(P.Population)
    p.history = HistoryStub(dv)
    p.reporter = Recorder(dv)
    p.Nd, p.Np = 1, n
    p.pm = PM()
    p.debug = False
    p.targetFraction = 0.02
    p.statusQuoScore = 1.0
    p.clear()
    p.running = True
    if isinstance(n, int):
        for k in range(n):
            i = I.Individual(p, [float(k)])
            i.SSE = error(dv, 'e%d' % k)
            p.iList.append(i)
            p.dLocks.append(defer.DeferredLock())
        return p
    import z3
    V = sym_module()
    e = dv.e
    nm = e.fresh('m')
    ser = z3.Function(nm + '_sse', z3.IntSort(), z3.RealSort())
    set_ = z3.Function(nm + '_sse_t', z3.IntSort(), z3.IntSort())
    def make(z):
        i = I.Individual(p, [0.5])
        # (anything else is turned into one of these by C22)
        e.add(z3.And(z3.Or(set_(z) == 0, set_(z) == 1), ser(z) >= 0))
        i.SSE = V.SFloat(ser(z), set_(z))
        dv._reg('at', V.SInt(z))
        dv._reg('at_sse', i.SSE)
        return i
    p.iList = V.SSeq(n, make, tag=tag)
    p.dLocks = V.SSeq(n, lambda z: defer.DeferredLock(), tag='locks')
    return p


def error(dv, name):
    """Any error, often equal to others at run time."""
    if dv.sym:
        return dv.flt(name, nan=False, ninf=False, lo=0)
    r = dv.rng()
    x = r.choice([r.random(), float(r.randint(0, 3)), float(r.randint(0, 3)),
                  math.inf, math.nan, None, -1.0, 0.0, 1e300,
                  np.float64(r.randint(0, 3))])
    return x


def le(dv, a, b):
    """First error at most the second."""
    return dv.Not(b < a)


def judge(dv, p, n):
    """Ranking, listing and best against the members' current errors."""
    KS = dv.call('ranking', lambda: p.KS)
    if isinstance(n, int) and n == 0:
        dv.check('nobody-is-best', p.best() is None)
        return
    dv.check('ranking-covers-all', dv.eq(dv.length(KS), n))
    listing = dv.call('listing', lambda: p.iSorted)
    dv.check('listing-covers-all', dv.eq(dv.length(listing), n))
    best = dv.call('best', p.best)
    dv.check('somebody-is-best', best is not None)
    if isinstance(n, int):
        ks = [int(k) for k in KS]
        dv.check('ranking-is-a-permutation', sorted(ks) == list(range(n)))
        if sorted(ks) != list(range(n)):
            return
        pairs = [(a, a + 1) for a in range(n-1)]
        slots = list(range(n))
        dv.check('listing-of-members', sorted(map(id, listing)) ==
                 sorted(map(id, p)))
    else:
        a, b = dv.idx('a', n), dv.idx('b', n)
        dv.assume(a < b)
        dv.check('ranks-differ', dv.Not(dv.eq(KS[a], KS[b])))
        pairs = [(a, b)]
        slots = [dv.idx('slot', n)]
    for a, b in pairs:
        for j in (a, b):
            k = KS[j]
            dv.check('rank-refers-to-a-slot', dv.And(k >= 0, k < n))
            dv.check('listing-agrees', dv.eq(
                listing[j].SSE, p[k].SSE))
        dv.check('ranking-ascending',
                 le(dv, p[KS[a]].SSE, p[KS[b]].SSE))
    for k in slots:
        dv.check('best-has-lowest-error', le(dv, best.SSE, p[k].SSE))
    dv.check('best-index', dv.eq(p[p.kBest].SSE, best.SSE))
    dv.reach('judged')


def query(dv, p, what):
    if what == 'ranking':
        p.KS
    elif what == 'listing':
        p.iSorted
    elif what == 'best':
        p.best()


QUERIES = ('population.Population.KS population.Population.iSorted '
           'population.Population.best population.Population.kBest ')


def before_change(dv, sizes=(1, 2, 3)):
    n = dv.size('n', 1, bounded=sizes)
    p = population(dv, n)
    query(dv, p, dv.choose('asked', ['nothing', 'ranking', 'listing',
                                     'best']))
    return n, p


def newcomer(dv, p):
    new = dv.mod('individual').Individual(p, [7.5])
    new.SSE = error(dv, 'new')
    return new


@contract('C07', QUERIES, runs=300)
def queries(dv):
    """Queries in any order."""
    n, p = before_change(dv)
    judge(dv, p, n)


@contract('C07', QUERIES + 'population.Population.__setitem__', runs=300,
          weight=2, budget=100)
def after_replacement(dv):
    """
    Whatever was cached before, the queries after a replacement tell the
    current order.
    """
    n, p = before_change(dv)
    k = dv.idx('k', n)
    new = newcomer(dv, p)
    dv.call('replace', p.__setitem__, k, new)
    dv.check('installed', p[k] is new)
    judge(dv, p, n)


@contract('C07', QUERIES + 'individual.Individual.blacklist', runs=300,
          budget=150, weight=2)
def after_blacklisting(dv):
    blacklisting(dv)


def blacklisting(dv):
    n, p = before_change(dv)
    if dv.sym:
        # (is it a member? nothing here depends on that)
        from pydv import loops
        dv.loopspec(loops.Spec(tag='members', inv=lambda L, idx, locs: []))
    k = dv.idx('k', n)
    i = p[k]
    dv.call('blacklist', i.blacklist)
    dv.check('worst-possible-error', dv.isinf(i.SSE))
    judge(dv, p, n)


@contract('C07', QUERIES + 'population.Population.push', runs=300, budget=100)
def after_push(dv):
    n, p = before_change(dv)
    new = newcomer(dv, p)
    dv.call('push', p.push, new)
    judge(dv, p, n)


@contract('C07', 'population.Population.push', runs=300)
def eviction(dv):
    """Who makes room."""
    n, p = before_change(dv)
    new = newcomer(dv, p)
    before = p.iList[:]
    dv.call('push', p.push, new)
    judge_push(dv, p, n, before, new)


def judge_push(dv, p, n, before, new):
    """One with the highest error was evicted, the others left alone."""
    dv.check('size-kept', dv.eq(dv.length(p), n))
    if isinstance(n, int):
        ks = [k for k in range(n) if p[k] is new]
        dv.check('in-one-slot', len(ks) == 1)
        for k in range(n):
            if k in ks:
                for j in range(n):
                    dv.check('evicted-had-highest-error',
                             le(dv, before[j].SSE, before[k].SSE))
            else:
                dv.check('others-left-alone', p[k] is before[k])
        return
    a, b = dv.idx('any', n), dv.idx('other', n)
    x = p[a]
    dv.check('pushed-in', any(o is new for _, o in p.iList.overlay))
    dv.check('others-left-alone', x is new or x is before[a])
    if x is new:
        dv.check('evicted-had-highest-error',
                 le(dv, before[b].SSE, before[a].SSE))
        y = p[b]
        dv.check('in-one-slot', dv.implies(
            dv.Not(dv.eq(a, b)), y is not new))
        dv.reach('evicted')


@contract('C07', QUERIES + 'population.Population.clear', runs=60)
def after_clearing(dv):
    n, p = before_change(dv)
    dv.call('clear', p.clear)
    dv.check('nobody-left', len(p) == 0)
    dv.check('nobody-ranked', dv.call('ranking', lambda: p.KS) is None)
    dv.check('nobody-is-best', dv.call('best', p.best) is None)


@contract('C07', QUERIES + 'population.Population.setup', modes=('proof',),
          budget=100)
def after_admission(dv):
    """Setup admits a member, whatever was asked before."""
    from pydv import engine, loops
    from . import c09
    V = sym_module()
    p = c09.scene(dv, dv.size('Np', 1), 2)
    m = dv.size('m', 0)
    dv.assume(m <= p.Np)
    q = population(dv, m)
    def hook(loop, frame):
        if 'setup' not in loop.loc:
            return
        if loop.count == 1:
            # Any number of members so far
            p.iList, p.dLocks = q.iList, q.dLocks
            dv.e.abstract.append('while loop')
            if dv.truth(m > 0):
                query(dv, p, dv.choose('asked', ['nothing', 'ranking']))
            names = [x for x in loop.names if x in frame.f_locals]
            if any(type(frame.f_locals[x]) is not int for x in names):
                dv.skip("what do the loop's variables mean?")
            return {x: dv.int('k', 0) if x in names else None
                    for x in loop.names}
        judge(dv, p, dv.length(p.iList))
        dv.reach('admitted')
        dv.e.kill(engine.Dead("covered by the arbitrary state"))
    dv.e.ghost['whilehook'] = hook
    dv.loopspec(loops.Spec(tag='locks', name='locks'))
    p.func = lambda values: error(dv, 'new')
    dv.call('setup', p.setup, blank=dv.choose('blank', [True, False]))


@contract('C07', 'population.Population.__setitem__ '
          'population.Population.push population.Population.clear '
          'population.Population.setup population.Population.KS '
          'population.Population.iSorted individual.Individual.blacklist',
          modes=('concrete',), runs=400)
def sequences(dv):
    """Any sequence of changes and queries."""
    r = dv.rng()
    n = r.choice([1, 2, 3, 5, 9])
    p = population(dv, n)
    I = dv.mod('individual')
    for _ in range(r.randint(1, 25)):
        n = len(p)
        what = r.choice(['replace', 'push', 'blacklist', 'query', 'judge',
                         'judge', 'clear'] if r.random() < 0.3 else
                        ['replace', 'push', 'blacklist', 'query', 'judge'])
        if what in ('replace', 'push'):
            new = I.Individual(p, [r.random()])
            new.SSE = error(dv, 'new')
        if what == 'replace':
            p[r.randrange(n)] = new
        elif what == 'push':
            before = list(p)
            dv.call('push', p.push, new)
            judge_push(dv, p, n, before, new)
        elif what == 'blacklist':
            p[r.randrange(n)].blacklist()
        elif what == 'query':
            query(dv, p, r.choice(['ranking', 'listing', 'best']))
        elif what == 'clear':
            p.clear()
            dv.check('nobody-left', len(p) == 0 and p.best() is None and
                     p.KS is None)
            q = population(dv, r.choice([1, 2, 4]))
            for i in q:
                i.p = p
            p.iList.extend(q.iList)
            p.running = True
        else:
            judge(dv, p, n)
    judge(dv, p, len(p))


@contract('C07', 'population.Population.setup',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C07', 'plain, complaints, complaints, fatal, loaded')
