"""C01: every evaluated parameter vector lies within the bounds."""
from pydv.harness import contract
from .common import *
from . import c12, pieces, sim
from .challenge import challenge_contract


@contract('C01', 'population.ParameterManager.limit '
          'population.ParameterManager.setup', runs=400)
def limit(dv):
    """Bound handling, for vectors of any length."""
    d = dv.size('n_dim', 1)
    b = Bounds(dv, d)
    pm = make_pm(dv, d, b)
    v = dv.vec('v', d)
    orig = dv.shadow(v)
    r = dv.call('limit', pm.limit, v)
    if not dv.sym:
        v = orig
    dv.check('same-length', dv.eq(dv.length(r), d))
    for j in dv.each(d):
        x, raw = dv.at(r, j), dv.at(orig, j)
        lo, hi = dv.at(b.lo, j), dv.at(b.hi, j)
        dv.check('in-range', b.inside(j, x))
        dv.check('in-range-values-unchanged', dv.implies(
            b.inside(j, raw), dv.eq(x, raw)))
        dv.check('reflected', b.limited(j, raw, x))
        dv.reach('coordinate')
        if dv.truth(raw < lo):
            dv.reach('below')
        elif dv.truth(raw > hi):
            dv.reach('above')
    b2 = Bounds(dv, d, 'b2')
    dv.call('setup', pm.setup, b2.pairs())
    r = dv.call('limit', pm.limit, dv.vec('v2', d))
    for j in dv.each(d):
        dv.check('refined-bounds-apply', b2.inside(j, dv.at(r, j)))


@contract('C01', 'population.Population.limit individual.Individual.update',
          runs=200)
def limit_individual(dv):
    """Limiting an individual leaves it with limited values."""
    d = dv.size('n_dim', 1)
    P, I = dv.mod('population'), dv.mod('individual')
    b = Bounds(dv, d)
    p = dv.bare(P.Population, Nd=d, pm=make_pm(dv, d, b))
    v = dv.vec('v', d)
    orig = dv.shadow(v)
    i = I.Individual(p, v)
    dv.call('limit', p.limit, i)
    for j in dv.each(d):
        dv.check('limited', b.limited(j, dv.at(orig, j), dv.at(i.values, j)))


@contract('C01', 'population.ParameterManager.fromUnity '
          'population.ParameterManager.limit', runs=200)
def from_unity(dv):
    """Initial values: unit interval to bounds, then limited."""
    d = dv.size('n_dim', 1)
    b = Bounds(dv, d)
    pm = make_pm(dv, d, b)
    u = dv.vec('u', d)
    dv.forall(d, lambda i: dv.And(dv.at(u, i) >= 0, dv.at(u, i) <= 1))
    raw = dv.call('fromUnity', pm.fromUnity, u)
    r = dv.call('limit', pm.limit, raw)
    for j in dv.each(d):
        dv.check('in-range', b.inside(j, dv.at(r, j)))


@contract('C01', 'de.DifferentialEvolution.challenge '
          'de.DifferentialEvolution.crossover population.Population.limit '
          'individual.Individual.evaluate population.Population.evalFunc',
          runs=300, weight=5)
def challenge(dv):
    """What a challenge hands to the evaluation function is in bounds."""
    challenge_contract(dv, 'C01')


@contract('C01', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C01', 'population.Population.setup', modes=('proof',))
def initial_values(dv):
    """What setup evaluates or admits has been limited."""
    pieces.initial(dv, True)


@contract('C01', 'population.Population.load', runs=100)
def loading(dv):
    """Each member is limited to the new bounds."""
    c12.refining(dv)


@contract('C01', 'population.Population.setup population.Population.load '
          'de.DifferentialEvolution.__call__',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C01', 'plain, fatal, event, small history, loaded, refined, refined, complaints')
