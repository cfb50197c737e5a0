"""C11: history knows who is in the population."""
from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import c07, c09, c12, ledger, pieces, roster, sim
from .challenge import challenge_contract

H = ('history.History.add history.History.kkr history.History.purge '
     'history.History.notInPop history.History.clear '
     'history.History.purgePop history.History.rekey history.History.__getitem__ '
     'history.History.__iter__ history.History.__len__ '
     'history.ClosestPairFinder.__call__ history.ClosestPairFinder.calculate '
     'history.ClosestPairFinder.calcerator history.ClosestPairFinder.setRow '
     'history.ClosestPairFinder.clearRow history.ClosestPairFinder.pairs_all ')


@contract('C11', H, modes=('bounded', 'concrete'), budget=100, weight=2, max_paths=20000, runs=200)
def short_sequences(dv):
    """All sequences of up to four operations on one or two places."""
    roster.short_script(dv, 'C11')


@contract('C11', H, modes=('concrete',), runs=700, weight=3)
def sequences(dv):
    roster.random_script(dv, 'C11')


@contract('C11', H + 'history.ClosestPairFinder.pairs_sampled',
          modes=('concrete',), runs=6, weight=2)
def big_rosters(dv):
    roster.long_script(dv, 'C11')


@contract('C11', 'population.Population.setup '
          'de.DifferentialEvolution.__call__', modes=('concrete',),
          runs=120, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C11', 'plain, small history, small history, complaints, '
              'loaded, fatal')


@contract('C11', 'de.DifferentialEvolution.__call__ '
          'population.Population.load', modes=('concrete',), runs=80,
          weight=2)
def resumed(dv):
    """A loaded history that has to make room."""
    c12.resumed_with_room_to_make(dv)


@contract('C11', 'history.History.add history.History.kkr '
          'history.History.purge', modes=('proof',), budget=200, weight=2)
def any_addition(dv):
    ledger.add(pieces.Softly(dv))


@contract('C11', 'history.History.kkr', modes=('proof',), budget=100,
          weight=2)
def any_place(dv):
    ledger.place(pieces.Softly(dv))


@contract('C11', 'history.History.purge '
          'history.ClosestPairFinder.clearRow', modes=('proof',))
def any_purge(dv):
    ledger.purge(pieces.Softly(dv))


@contract('C11', 'history.History.notInPop '
          'history.ClosestPairFinder.setRow', modes=('proof',))
def any_departure(dv):
    ledger.leaves(pieces.Softly(dv))


@contract('C11', 'history.History.rekey', modes=('proof',))
def any_change_of_hash(dv):
    ledger.renamed(pieces.Softly(dv))


@contract('C11', 'history.History.clear', modes=('proof',))
def any_clearing(dv):
    ledger.cleared(pieces.Softly(dv))


@contract('C11', 'history.History.purgePop', modes=('proof',))
def any_purge_of_members(dv):
    ledger.without_members(pieces.Softly(dv))


@contract('C11', 'history.History.__len__ history.History.__getitem__ '
          'history.History.__iter__', modes=('proof',))
def any_listing(dv):
    ledger.listing(pieces.Softly(dv))


@contract('C11', 'history.History.__init__ history.History._initialize',
          modes=('proof',))
def any_new(dv):
    ledger.new(pieces.Softly(dv))


@contract('C11', 'history.ClosestPairFinder.pairs_all', modes=('proof',))
def any_pairs(dv):
    ledger.pairs(pieces.Softly(dv), 'all')


@contract('C11', 'history.ClosestPairFinder.pairs_sampled', modes=('proof',))
def any_sample(dv):
    ledger.pairs(pieces.Softly(dv), 'sampled')


@contract('C11', 'history.ClosestPairFinder.__call__ '
          'history.ClosestPairFinder.calculate '
          'history.ClosestPairFinder.calcerator '
          'history.ClosestPairFinder.done', modes=('proof',))
def any_candidates(dv):
    ledger.finder(pieces.Softly(dv))


class Log(object):
    """Stands in for the history and takes down what it is told."""
    N_total = 0

    def __init__(self, dv):
        self.dv, self.told = dv, []

    def __getattr__(self, name):
        if name not in ('add', 'notInPop', 'rekey', 'clear'):
            self.dv.skip("history asked for %s" % name)
        def call(*args, **kw):
            # (with the hash an individual has when the history is told)
            self.told.append((name, args, kw, [
                getattr(x, 'key', None) for x in args]))
            return defer.succeed(None)
        return call


def told(dv, log, *expected):
    """The history was told just that, in that order."""
    dv.check('told-as-often', len(log.told) == len(expected))
    if len(log.told) != len(expected):
        return
    for (name, args, kw, _), (name_, args_) in zip(log.told, expected):
        dv.check('told-what-happened', name == name_ and not any(kw.values()))
        dv.check('told-of-whom', len(args) == len(args_) and all(
            a is b for a, b in zip(args, args_)))


def with_log(dv):
    n = dv.size('n', 1)
    p = c07.population(dv, n)
    c07.query(dv, p, dv.choose('asked', ['nothing', 'ranking', 'best']))
    p.history = Log(dv)
    return n, p


@contract('C11', 'population.Population.__setitem__', modes=('proof',))
def told_of_replacement(dv):
    """Whoever leaves is reported as leaving before the other is added."""
    dv = pieces.Softly(dv)
    n, p = with_log(dv)
    k = dv.idx('k', n)
    old, new = p[k], c07.newcomer(dv, p)
    dv.call('replace', p.__setitem__, k, new)
    told(dv, p.history, ('notInPop', [old]), ('add', [new]))


@contract('C11', 'population.Population.push '
          'population.Population.__setitem__', modes=('proof',))
def told_of_push(dv):
    dv = pieces.Softly(dv)
    n, p = with_log(dv)
    before, new = p.iList[:], c07.newcomer(dv, p)
    dv.call('push', p.push, new)
    slots = [z for z, o in p.iList.overlay if o is new]
    dv.check('pushed-in', len(slots) == 1)
    if len(slots) == 1:
        told(dv, p.history,
             ('notInPop', [before[sym_module().SInt(slots[0])]]),
             ('add', [new]))


@contract('C11', 'population.Population.clear', modes=('proof',))
def told_of_clearing(dv):
    dv = pieces.Softly(dv)
    n, p = with_log(dv)
    dv.call('clear', p.clear)
    told(dv, p.history, ('clear', []))


@contract('C11', 'individual.Individual.blacklist', modes=('proof',))
def told_of_change(dv):
    """
    A member's error, and with it its hash, changes: the history is told of
    the hash it had, once it has the new one.
    """
    from pydv import loops
    dv = pieces.Softly(dv)
    I = dv.mod('individual')
    n, p = with_log(dv)
    k = dv.idx('k', n)
    keys = dv.int('before'), dv.int('after')
    finite = dv.choose('member', [True, False])
    i = p[k] if finite else c07.newcomer(dv, p)
    first = i.SSE
    hashes = lambda self: keys[0 if self.SSE is first else 1]
    dv.patch(I.Individual, '__hash__', hashes)
    dv.patch(I.Individual, 'key', property(hashes))
    # It has not been come across before its place
    dv.loopspec(loops.Spec(
        tag='members', inv=lambda L, idx, locs: [
            ('not-passed', k >= idx)] if finite else []))
    dv.call('blacklist', i.blacklist)
    if not finite:
        told(dv, p.history)
        return
    dv.check('told-once', len(p.history.told) == 1)
    for name, args, kw, keys_ in p.history.told:
        dv.check('told-what-happened', name == 'rekey' and not kw)
        dv.check('told-of-whom', len(args) == 2 and args[1] is i)
        dv.check('by-its-former-hash', args[0] is keys[0])
        dv.check('after-the-change', keys_[1] is keys[1])


@contract('C11', 'population.Population.setup', modes=('proof',))
def told_of_admission(dv):
    """Setup admits a member to any number of others."""
    admission(dv)


def admission(dv):
    from pydv import engine, loops
    dv = pieces.Softly(dv)
    p = c09.scene(dv, dv.size('Np', 1), 2)
    m = dv.size('m', 0)
    dv.assume(m <= p.Np)
    q = c07.population(dv, m)
    log = p.history = Log(dv)
    def hook(loop, frame):
        if 'setup' not in loop.loc:
            return
        if loop.count == 1:
            dv.check('told-of-nothing-yet', not [
                x for x in log.told if x[0] != 'clear'])
            log.told = []
            p.iList, p.dLocks = q.iList, q.dLocks
            dv.e.abstract.append('while loop')
            names = [x for x in loop.names if x in frame.f_locals]
            if any(type(frame.f_locals[x]) is not int for x in names):
                dv.skip("what do the loop's variables mean?")
            return {x: dv.int('k', 0) if x in names else None
                    for x in loop.names}
        if dv.truth(dv.eq(dv.length(p.iList), m)):
            told(dv, log)
        else:
            told(dv, log, ('add', [p.iList[m]]))
            dv.reach('admitted')
        dv.e.kill(engine.Dead("covered by the arbitrary state"))
    dv.e.ghost['whilehook'] = hook
    dv.loopspec(loops.Spec(tag='locks', name='locks'))
    p.func = lambda values: c07.error(dv, 'new')
    dv.call('setup', p.setup, blank=dv.choose('blank', [True, False]))


RUN = 'de.DifferentialEvolution.__call__ de.DifferentialEvolution._run'


@contract('C11', 'population.Population.load', modes=('proof',))
def told_of_refined_bounds(dv):
    """Each member moved: the history is told of the hash it had."""
    c12.refining(pieces.Softly(dv))


@contract('C11', 'population.Population.load history.History.rekey '
          'population.Population.__setitem__', modes=('concrete',), runs=60,
          weight=2)
def moved_by_bounds(dv):
    """
    Members moved by refined bounds keep their records, until they leave.
    """
    r = dv.rng()
    I = dv.mod('individual')
    w = sim.World(dv, 'none', Np_min=[4, 5, 8], bad=[0], complain=[0],
                  shape=['sphere', 'improving'])
    w.make_population()
    out = w.setup()
    if out[0] != 'ok' or not out[1] or not w.p.best().SSE > 0:
        return
    w.settle()
    w.p.setConstraints()
    q = w.reload(**w.refined())
    def marked():
        w.settle()
        out = dv.outcome(q.history.value_vs_SSE(
            w.names[:1], inPop=True, maxRatio=1E30))
        w.settle()
        return sorted(float(x) for x in out[1][0])
    n, before = len(q), marked()
    distinct = len(set(tuple(i.values) for i in q)) == n
    dv.check('as-many-marked-as-members', not distinct or len(before) == n,
             "%d marked, %d members" % (len(before), n))
    new = []
    for k in r.sample(range(n), n):
        i = I.Individual(q, [r.uniform(a, b) for a, b in w.bounds])
        # (no rounding in a record)
        i.SSE = 2.0**(-20 - k)
        q[k] = i
        new.append(i.SSE)
        if r.random() < 0.3:
            w.settle()
    got = marked()
    stale = [x for x in got if x not in new]
    dv.check('marked-are-members', not stale or not distinct,
             "marked although they left: errors %r" % (stale,))
    dv.check('members-are-marked', all(x in got for x in new),
             "not marked: errors %r" % ([x for x in new if x not in got],))


@contract('C11', RUN, modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C11', 'de.DifferentialEvolution.challenge '
          'population.Population.__setitem__', modes=('proof',), budget=100,
          weight=2)
def told_of_challenges(dv):
    """A loser is recorded as never having been a member."""
    challenge_contract(pieces.Softly(dv), 'C11')
