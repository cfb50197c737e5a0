from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import pieces, sim
from .challenge import challenge_contract

CHALLENGE = (
    'de.DifferentialEvolution.challenge de.DifferentialEvolution.crossover '
    'population.Population.lock population.Population.release '
    'population.Population.individuals population.Population.limit '
    'population.ParameterManager.limit population.Population.evalFunc '
    'population.Population.__setitem__ population.Population.report '
    'individual.Individual.evaluate individual.Individual.__add__ '
    'individual.Individual.__sub__ individual.Individual.__mul__ '
    'individual.Individual.__lt__ individual.Individual.__bool__ '
    'individual.Individual.SSE individual.Individual.__float__ '
    'individual.Individual.__getitem__ individual.Individual.__setitem__ '
    'individual.Individual.spawn individual.Individual.update '
    'population.Population.__getitem__')


@contract('C06', CHALLENGE, runs=400, weight=5)
def challenge(dv):
    challenge_contract(dv, 'C06')


@contract('C06', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C06', 'de.DifferentialEvolution.__call__ '
          'population.Population.lock population.Population.release',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C06', 'plain, fatal, fatal, event, event in run, event in run, complaints, callback fails, other constraints')


# --- requests -------------------------------------------------------------
def free(dv, p, k):
    """Whether somebody else would get the slot right away."""
    d = p.lock(k)
    if not d.called:
        return False
    p.release(k)
    return True


def turned_down(d):
    """Whether the request failed, one way or the other."""
    failed = []
    d.addErrback(failed.append)
    return bool(failed)


@contract('C06', 'population.Population.lock population.Population.release',
          modes=('proof', 'bounded'))
def request(dv):
    """One request for up to four slots, taken or free, of any number."""
    P = dv.mod('population')
    N = dv.choose('N', [1, 2, 3, 4])
    n = dv.size('n', 1, bounded=(N,))
    taken = dv.choose('taken', [False, True])
    locks = []
    def new_lock(z=None):
        lock = defer.DeferredLock()
        if taken:
            lock.acquire()
        locks.append(lock)
        return lock
    p = dv.bare(P.Population, running=dv.choose('running', [None, True]))
    p.dLocks = [new_lock() for _ in range(n)] if isinstance(n, int) else \
        sym_module().SSeq(n, new_lock, tag='locks')
    K = [dv.idx('k%d' % j, n) for j in range(N)]
    twice = any(dv.truth(dv.eq(K[j], K[l]))
                for j in range(N) for l in range(j))
    try:
        d = p.lock(*K)
        dv.alive()
        refused = turned_down(d)
    except ValueError:
        dv.alive()
        refused = True
    dv.check('refused-if-asked-twice', refused == twice)
    if twice:
        dv.check('nobody-waits', not any(
            lock.waiting or bool(lock.locked) != taken for lock in locks),
                 soft=True)
        dv.reach('refused')
        return
    dv.check('granted-when-free', bool(d.called) != taken)
    for j, k in enumerate(K):
        lock = p.dLocks[k]
        dv.check('reserved', lock.locked and
                 len(lock.waiting) == (1 if taken else 0), soft=True)
        if taken:
            # Whoever has it is done
            lock.release()
            dv.alive()
            dv.check('granted-when-all-are',
                     bool(d.called) == (j == N - 1))
    for j, k in enumerate(K):
        dv.call('release', p.release, k)
        for l, other in enumerate(K):
            dv.check('freed', bool(p.dLocks[other].locked) == (l > j),
                     soft=True)
    dv.reach('taken' if taken else 'free')


@contract('C06', 'population.Population.lock population.Population.release',
          modes=('concrete',), runs=40)
def requests(dv):
    """Several requests at a time for the slots of a population."""
    r = dv.rng()
    P = dv.mod('population')
    p = P.Population(lambda values: float(sum(values)), ['a', 'b'],
                     [(0, 1), (0, 2)], popsize=r.choice([1, 10, 15]))
    out = dv.outcome(p.setup(uniform=True))
    dv.reactor.spin(lambda: out[0] != 'pending', 100000)
    n = len(p)
    some = r.sample(range(n), min(n, r.choice([4, 5, 8])))
    parties = []
    def granted(party):
        return party[1].called
    for _ in range(r.randint(1, 60)):
        mine = [q for q in parties if granted(q)]
        what = r.choice(['ask', 'ask', 'done', 'done', 'twice'])
        if what == 'ask':
            K = r.sample(some, r.randint(1, 4))
            parties.append((K, dv.call('lock', p.lock, *K)))
        elif what == 'done' and mine:
            party = r.choice(mine)
            parties.remove(party)
            p.release(*party[0])
        elif what == 'twice':
            K = r.sample(some, r.randint(1, 3))
            K.insert(r.randrange(len(K) + 1), r.choice(K))
            before = [(q, granted(q)) for q in parties]
            try:
                refused = turned_down(p.lock(*K))
            except ValueError:
                refused = True
            dv.check('refused-if-asked-twice', refused, "slots %r" % K)
            if not refused: return
            dv.check('others-unaffected',
                     all(granted(q) == was for q, was in before))
            dv.reach('refused')
        held = [k for K, d in parties if d.called for k in K]
        dv.check('no-slot-reserved-by-two', len(set(held)) == len(held))
        dv.check('somebody-has-all', not parties or
                 any(granted(q) for q in parties))
    while parties:
        mine = [q for q in parties if granted(q)]
        dv.check('no-deadlock', bool(mine), "%r wait forever" % (
            [K for K, d in parties],))
        if not mine: return
        for party in mine:
            parties.remove(party)
            p.release(*party[0])
    dv.check('all-free-again', all(free(dv, p, k) for k in some))
