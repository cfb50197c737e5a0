"""C04: drawn members are valid, distinct and follow the base policy."""
import math

from pydv.harness import contract
from .common import *
from . import pieces, sim
from .challenge import challenge_contract

CHALLENGE = (
    'de.DifferentialEvolution.challenge de.DifferentialEvolution.crossover '
    'population.Population.lock population.Population.release '
    'population.Population.individuals population.Population.limit '
    'population.ParameterManager.limit population.Population.evalFunc '
    'population.Population.__setitem__ population.Population.report '
    'individual.Individual.evaluate individual.Individual.__add__ '
    'individual.Individual.__sub__ individual.Individual.__mul__ '
    'individual.Individual.__lt__ individual.Individual.__bool__ '
    'individual.Individual.SSE individual.Individual.__float__ '
    'individual.Individual.__getitem__ individual.Individual.__setitem__ '
    'individual.Individual.spawn individual.Individual.update '
    'population.Population.__getitem__')


@contract('C04', CHALLENGE, runs=400, weight=5)
def challenge(dv):
    challenge_contract(dv, 'C04')


@contract('C04', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C04', 'de.DifferentialEvolution.__call__ '
          'population.Population.sample '
          'population.ProbabilitySampler.__call__',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C04', 'plain, plain, complaints, loaded')


# --- drawing --------------------------------------------------------------
class Member(object):
    def __init__(self, SSE):
        self.SSE = SSE


def ranked(dv, n):
    """A population of n members with arbitrary errors."""
    P = dv.mod('population')
    p = dv.bare(P.Population)
    p.ps = P.ProbabilitySampler()
    if dv.sym and not isinstance(n, int):
        import z3
        V = sym_module()
        ser = z3.Function(dv.e.fresh('sse'), z3.IntSort(), z3.RealSort())
        kind = z3.Function(dv.e.fresh('sse_t'), z3.IntSort(), z3.IntSort())
        def make(z):
            dv.e.add(z3.And(ser(z) >= 0, z3.Or(kind(z) == 0, kind(z) == 1)))
            return Member(V.SFloat(ser(z), kind(z)))
        p.iList = V.SSeq(n, make, tag='members')
    else:
        p.iList = [Member(dv.flt('s%d' % k, nan=False, ninf=False, lo=0))
                   for k in range(n)]
    del p.KS
    return p


class Asked(object):
    """Takes down what the sampler is asked for."""
    def __init__(self, ps):
        self.ps = ps
        self.calls = []

    def __call__(self, *args, **kw):
        self.calls.append((args, kw))
        return self.ps(*args, **kw)


def eligible(dv, exclude, k):
    return dv.And(*[dv.Not(dv.eq(k, x)) for x in exclude])


@contract('C04', 'population.Population.sample population.Population.KS '
          'population.ProbabilitySampler.__call__ '
          'population.ProbabilitySampler.trapz', runs=1500, budget=100,
          weight=2, max_paths=20000)
def drawing(dv):
    """Any population, any setting, up to three draws and exclusions."""
    setting = dv.choose('setting', ['off', 'on', 'between', 'above'])
    n_excluded = dv.choose('n_excluded', [0, 1, 2, 3])
    N = dv.choose('N', [1, 2, 3] if not dv.sym or n_excluded < 2 and
                  setting != 'between' else [1, 2])
    n = dv.size('n', N + n_excluded, bounded=(3, 4))
    p = ranked(dv, n)
    exclude = [dv.idx('x%d' % k, n) for k in range(n_excluded)]
    kw = {}
    if setting == 'off':
        kw['randomBase'] = dv.choose('off', [False, 0, 0.0, None])
    elif setting == 'on':
        on = dv.choose('on', ['default', True, 1.0])
        if on != 'default':
            kw['randomBase'] = on
    else:
        rb = dv.real('randomBase', 0, 1 if setting == 'between' else None)
        dv.assume(dv.And(rb > 0, rb < 1) if setting == 'between' else rb > 1)
        kw['randomBase'] = rb
    if setting == 'above' or setting == 'off' and N > 1:
        dv.raises('refused', ValueError, p.sample, N, *exclude, **kw)
        dv.reach('refused')
        return
    if dv.sym and not isinstance(n, int):
        seqs = []
        def hook(seq):
            # There are enough candidates
            seqs.append(seq)
            for k in range(n_excluded + N):
                seq.contains_src(k)
        dv.e.ghost['filterhook'] = hook
        p.ps = Asked(p.ps)
    got = dv.call('sample', p.sample, N, *exclude, **kw)
    if N == 1:
        got = [got]
    dv.check('as-many-as-asked-for', dv.length(got) == N)
    for j, k in enumerate(got):
        dv.check('existing-member', dv.And(k >= 0, k < n))
        dv.check('not-excluded', eligible(dv, exclude, k))
        for k2 in got[:j]:
            dv.check('distinct', dv.Not(dv.eq(k, k2)))
    if setting == 'off':
        k = dv.idx('other', n)
        dv.assume(eligible(dv, exclude, k))
        if dv.sym and not isinstance(n, int):
            rank = p.KS.position(k)
            for seq in seqs:
                seq.contains_src(rank)
        dv.check('best-of-the-eligible',
                 p.iList[got[0]].SSE <= p.iList[k].SSE)
    elif setting == 'on' and dv.sym and not isinstance(n, int):
        # All of them drawn at once and without preference, from a list in
        # which everybody eligible appears once
        k = dv.idx('other', n)
        dv.assume(eligible(dv, exclude, k))
        drawn = dv.e.ghost.get('sampled', [])
        one = len(drawn) == 1 and drawn[0][1] == N and drawn[0][0] in seqs
        dv.check('drawn-without-preference', one, soft=True)
        if one:
            z = drawn[0][0].contains_src(p.KS.position(k))
            dv.check('everybody-eligible-may-be-drawn',
                     dv.eq(drawn[0][0].at(z), k), soft=True)
            i = dv.idx('i', dv.length(drawn[0][0]))
            j = dv.idx('j', dv.length(drawn[0][0]))
            dv.check('nobody-twice', dv.Or(dv.eq(i, j), dv.Not(dv.eq(
                dv.at(drawn[0][0], i), dv.at(drawn[0][0], j)))), soft=True)
    elif setting == 'between' and dv.sym and not isinstance(n, int):
        # Each drawn according to the setting from those left, best first
        calls = p.ps.calls
        dv.check('drawn-one-by-one', len(calls) == N and all(
            len(args) == 2 and any(args[0] is seq for seq in seqs) and
            args[1] is kw['randomBase'] and not others
            for args, others in calls), soft=True)
    dv.reach(setting)


@contract('C04', 'population.ProbabilitySampler.__call__ '
          'population.ProbabilitySampler.trapz', modes=('proof',))
def density(dv):
    """
    A single draw with a setting in between, from a ranked list of any
    length.  Where it falls along the ranking has a density that is never
    less for the better ranked, everybody having an equal share of it; so
    nobody is less likely than anybody ranked worse.
    """
    import z3
    V = sym_module()
    e = dv.e
    rb = dv.real('randomBase', 0, 1)
    dv.assume(dv.And(rb > 0, rb < 1))
    n = dv.size('n', 1)
    rank = V.SSeq(n, lambda z: V.SInt(z), tag='ranking')
    sampler = dv.mod('population').ProbabilitySampler()
    k = dv.call('sampler', sampler, rank, rb)
    draws = e.ghost.get('draws', [])
    *coins, last = draws or [None]
    one = len(draws) in (1, 2) and [c[0] for c in coins] == \
        ['random']*len(coins) and last[0] in ('uniform', 'triangular')
    dv.check('drawn-once', one, soft=True)
    if not one:
        return
    kind, v, args, mark = last
    v, b, r = V.to_float(v).r, V.to_float(args[1]).r, V.to_float(rb).r
    N = V.zi(n)
    def soft(name, cond):
        dv.check(name, V.SBool(cond), soft=True)
    # The density called for: flat up to c, straight down to nothing at 1;
    # or straight down from the start to nothing at c
    flat = r > z3.RealVal('1/2')
    c = z3.If(flat, 2*r - 1, 2*r)
    def g(x):
        return z3.If(flat, z3.If(x <= c, 2/(1 + c), 2*(1 - x)/(1 - c*c)),
                     2*(c - x)/(c*c))
    end = z3.If(flat, 1, c)
    x, y = z3.Reals(e.fresh('x') + ' ' + e.fresh('y'))
    ahead = z3.And(0 <= x, x <= y, y <= end)
    soft('better-ranked-at-least-as-likely',
         z3.Implies(ahead, z3.And(g(x) >= g(y), g(y) >= 0)))
    # Anything in the range of the draw gets here
    w = z3.Real(e.fresh('w'))
    for cond in e.branch[mark:]:
        soft('whatever-is-drawn', z3.Implies(
            z3.And(0 < w, w < b), z3.substitute(cond, (v, w))))
    soft('drawn-from-zero', V.to_float(args[0]).r == 0)
    if kind == 'triangular':
        dv.check('highest-at-zero', args[2] is not None and
                 dv.eq(args[2], args[0]), soft=True)
        start, of_draw = (c if coins else z3.RealVal(0)), lambda t: \
            2*(b - t)/(b*b)
    else:
        start, of_draw = z3.RealVal(0), lambda t: 1/b
    chance = z3.RealVal(1)
    if coins:
        # One part of it or the other
        u = V.to_float(coins[0][1]).r
        least = (1 - c)/(1 + c)
        below = kind == 'triangular'
        soft('which-part', u < least if below else u >= least)
        chance = least if below else 1 - least
    inside = z3.And(0 < x, x < b)
    soft('density', z3.Implies(inside, chance*of_draw(x) == g(start + x)))
    soft('part-ends', start + b == (end if kind == 'triangular' else c))
    dv.check('equal-shares', V.SBool(
        V.zi(k) == z3.ToInt((start + v)*z3.ToReal(N))), soft=True)
    dv.reach('triangle' if kind == 'triangular' else 'flat part')


@contract('C04', 'population.Population.sample population.Population.KS '
          'population.ProbabilitySampler.__call__ '
          'population.ProbabilitySampler.trapz', modes=('concrete',),
          runs=24, weight=2)
def likelihood(dv):
    """
    How often everybody gets drawn.  Statistical: a deviation of more than
    six standard deviations counts.
    """
    r = dv.rng()
    dv.random.open = True
    n = dv.choose('n', [4, 5, 6, 9, 20])
    p = ranked(dv, n)
    for k, i in enumerate(p.iList):
        if math.isinf(i.SSE):
            i.SSE = 1e3 + k
    del p.KS
    n_excluded = dv.choose('n_excluded', [0, 1, 1, 2, 3])
    exclude = r.sample(range(n), n_excluded)
    setting = dv.choose('setting', ['on', 'between', 'between', 'between'])
    kw = {}
    if setting == 'on':
        N = dv.choose('N', [1, 1, 2])
        if n - n_excluded < N:
            N = 1
        rb = dv.choose('on', [None, True, 1.0, 1])
        if rb is not None:
            kw['randomBase'] = rb
    else:
        N = 1
        kw['randomBase'] = dv.choose('randomBase', [
            0.02, 0.1, 0.3, 0.45, 0.5, 0.55, 0.7, 0.9, 0.99])
    total = 6000
    counts = [[0]*n for _ in range(N)]
    for _ in range(total):
        got = p.sample(N, *exclude, **kw)
        for j, k in enumerate([got] if N == 1 else got):
            counts[j][int(k)] += 1
    rest = [int(k) for k in p.KS if k not in exclude]
    if setting == 'on':
        want = float(total)/len(rest)
        sd = math.sqrt(want*(1 - 1.0/len(rest)))
        for c in counts:
            for k in rest:
                dv.check('equally-likely', abs(c[k] - want) <= 6*sd + 1,
                         "%r of %d draws" % (c, total))
    else:
        c = counts[0]
        for a, b in zip(rest, rest[1:]):
            sd = math.sqrt(c[a] + c[b] + 1)
            dv.check('better-at-least-as-likely', c[b] - c[a] <= 6*sd,
                     "%r of %d draws, ranking %r" % (c, total, rest))
            if p.iList[a].SSE < p.iList[b].SSE:
                dv.reach('compared')
    dv.reach(setting)
