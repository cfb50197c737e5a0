from pydv.harness import contract
from .common import *
from . import pieces, sim
import itertools

import numpy as np
from twisted.internet import defer

from .challenge import challenge_contract

CHALLENGE = (
    'de.DifferentialEvolution.challenge de.DifferentialEvolution.crossover '
    'population.Population.lock population.Population.release '
    'population.Population.individuals population.Population.limit '
    'population.ParameterManager.limit population.Population.evalFunc '
    'population.Population.__setitem__ population.Population.report '
    'individual.Individual.evaluate individual.Individual.__add__ '
    'individual.Individual.__sub__ individual.Individual.__mul__ '
    'individual.Individual.__lt__ individual.Individual.__bool__ '
    'individual.Individual.SSE individual.Individual.__float__ '
    'individual.Individual.__getitem__ individual.Individual.__setitem__ '
    'individual.Individual.spawn individual.Individual.update '
    'population.Population.__getitem__')


@contract('C02', CHALLENGE, runs=400, weight=5)
def challenge(dv):
    challenge_contract(dv, 'C02')


@contract('C02', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C02', 'population.Population.setup '
          'population.Population.setConstraints '
          'population.ParameterManager.passesConstraints '
          'de.DifferentialEvolution.__call__',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C02', 'plain, plain, event, fatal, other constraints, loaded, refined')


class Name(object):
    """The name of one of any number of parameters."""
    def __init__(self, z):
        self.path = (z,)
    @property
    def __dv_rank__(self):
        import z3
        from pydv import values as V
        rank = z3.Function('rank', z3.IntSort(), z3.RealSort())
        return V.SFloat(rank(self.path[0]))


def Names(n, make, tag):
    from pydv import values as V
    class Names(V.SSeq):
        """A list of names"""
        __slots__ = ()
        def index(self, name):
            return V.SInt(name.path[0])
    return Names(n, make, tag)


# --- the check itself ---------------------------------------------------------
@contract('C02', 'population.ParameterManager.passesConstraints '
          'population.ParameterManager.__init__ '
          'population.ParameterManager.setConstraints '
          'population.Population.setConstraints', modes=('proof',))
def any_constraints(dv):
    """
    Any number of parameters, any number of constraints, given at
    construction or set later: accepted if all constraints say so, turned
    away if any does not, and each is asked about the mapping from names to
    values.
    """
    import z3
    from pydv import loops
    V = sym_module()
    case = dv.choose('case', ['all true', 'one false'])
    d = dv.size('n_dim', 1)
    n = dv.size('n_constraints', 0 if case == 'all true' else 1)
    vals = dv.vec('v', d)
    way = dv.choose('way', ['there', 'constructed', 'single', 'set',
                            'set via population'])
    if way == 'single':
        dv.assume(dv.eq(n, 1))
    names = Names(d, lambda z: Name(z), tag='names')
    complete = []               # dicts known to hold everything
    def dicts(locs):
        return [x for x in locs.values() if type(x) is dict]
    def filling(L, idx, locs):
        D = dicts(locs)
        if len(D) != 1:
            dv.skip("mapping built in a way not understood")
        D = D[0]
        if L.stage == 'entry':
            return [('starts-empty', len(D) == 0)]
        if L.stage == 'assume':
            D.clear()
            if L.phase == 2:
                complete.append(D)
            return []
        ks = list(D)
        ok = len(ks) == 1 and isinstance(ks[0], Name) and \
            z3.simplify(V.zi(ks[0].path[0])).eq(z3.simplify(L.idx))
        return [('adds-this-name', ok),
                ('adds-this-value', dv.eq(D[ks[0]], vals[V.SInt(L.idx)])
                 if ok else False)]
    asked = []
    def make(z):
        def check(params):
            ok = any(params is D and not D for D in complete)
            if isinstance(params, (dict,)) is False and \
               hasattr(params, 'parts'):
                ok = len(params.parts) == 1 and not params.native and \
                    params.parts[0][0] is names and same(params.parts[0][1])
            dv.check('asked-about-the-mapping', ok)
            asked.append(z)
            if case == 'all true':
                return dv.choose('yes', [True, 1])
            return V.SBool(ans(z))
        return check
    def same(v):
        j = dv.idx('same', d)
        return dv.truth(dv.eq(v[j], vals[j]))
    ans = z3.Function(dv.e.fresh('ans'), z3.IntSort(), z3.BoolSort())
    if case == 'one false':
        w = V.zi(dv.idx('w', n))
        dv.e.add(z3.Not(ans(w)))
    def asking(L, idx, locs):
        if case == 'all true':
            return []
        return [('not-past-the-violated-one', V.SBool(V.zi(idx) <= w))]
    dv.loopspec(loops.Spec(tag='zip:names,v', inv=filling,
                           allow=lambda obj, what: type(obj) is dict))
    given = V.SSeq(n, make, tag='constraints')
    phase = []
    def both(L, idx, locs):
        return asking(L, idx, locs) if phase else []
    dv.loopspec(loops.Spec(tag='constraints', inv=both))
    P = dv.mod('population')
    if way == 'there':
        pm = dv.bare(P.ParameterManager)
        pm.names = names
        pm.constraints = given
    else:
        bounds = V.SPure(d, lambda z: (0.0, 1.0), tag='bounds')
        if way == 'constructed':
            pm = dv.call('construct', P.ParameterManager, names, bounds,
                         given)
        elif way == 'single':
            pm = dv.call('construct', P.ParameterManager, names, bounds,
                         given.at(0))
        else:
            before = [lambda params: dv.check('no-longer-asked', False)]
            if dv.choose('before', [True, False]):
                pm = dv.call('construct', P.ParameterManager, names, bounds,
                             before)
            else:
                pm = dv.call('construct', P.ParameterManager, names, bounds)
            where = pm
            if way == 'set via population':
                where = dv.bare(P.Population)
                where.pm = pm
            dv.call('set', where.setConstraints, loops.Star(given))
    phase.append('asking')
    r = dv.call('passes', pm.passesConstraints, vals)
    if case == 'all true':
        dv.check('accepted', dv.truth(r))
        dv.reach('accepted')
    else:
        dv.check('turned-away', not dv.truth(r))
        dv.reach('turned-away')


@contract('C02', 'population.ParameterManager.passesConstraints '
          'population.ParameterManager.setConstraints '
          'population.ParameterManager.__init__',
          modes=('bounded', 'concrete'), runs=500)
def forms(dv):
    """All ways of supplying constraints; up to three parameters."""
    P = dv.mod('population')
    d = dv.choose('n_dim', [1, 2, 3])
    n = dv.choose('n_constraints', [0, 1, 2, 3])
    form = dv.choose('form', ['list', 'tuple', 'collection', 'set later',
                              'single', 'none'])
    if form == 'single':
        n = 1
    if form == 'none':
        n = 0
    names = ['pb', 'pa', 'pc'][:d]
    vals = dv.vec('v', d) if not dv.sym else \
        [dv.real('v%d' % k) for k in range(d)]
    given = [dv.at(vals, k) for k in range(d)]
    bad = dv.choose('violated', [None] + list(range(n)))
    also = dv.choose('also', [None, 0]) if n > 1 else None
    answer = dv.choose('answers', [bool, np.bool_, int])
    asked = []
    def constraint(k):
        def f(params):
            asked.append(k)
            dv.check('one-entry-per-parameter',
                     sorted(params.keys()) == sorted(names))
            for nm, x in zip(names, given):
                dv.check('value-under-its-name', dv.eq(params[nm], x))
            return answer(not (k == bad or (bad is not None and k == also)))
        return f
    fs = [constraint(k) for k in range(n)]
    arg = {'list': fs, 'tuple': tuple(fs), 'set later': [], 'none': [],
           'single': fs[0] if n else None}.get(form)
    if form == 'collection':
        class Mine(dv.mod('constraints').Constraints):
            registry = {}
        arg = Mine()
        for f in fs:
            arg.append(f)
    pm = P.ParameterManager(names, [(0, 1)]*d, arg)
    if form == 'set later':
        if dv.choose('replaced', [False, True]):
            pm.setConstraints(lambda params: False, lambda params: False)
            dv.check('first-set-counts',
                     not pm.passesConstraints(vals))
        pm.setConstraints(*fs)
    for again in range(2):
        asked[:] = []
        r = dv.call('passes', pm.passesConstraints, vals)
        dv.check('answer', dv.truth(r) == (bad is None))
        if bad is None:
            dv.check('everybody-asked', sorted(set(asked)) == list(range(n)))
        else:
            dv.check('violated-one-asked', bad in asked or also in asked)
    dv.check('values-untouched', dv.And(*[
        dv.eq(dv.at(vals, k), given[k]) for k in range(d)]))


@contract('C02', 'population.ParameterManager.setConstraints',
          modes=('concrete',), runs=40)
def not_callable(dv):
    pm = dv.mod('population').ParameterManager(['a'], [(0, 1)])
    asked = []
    def f(params):
        asked.append(params)
        return False
    pm.setConstraints(f)
    bad = dv.choose('bad', [None, 'x', 3, [f]])
    try:
        pm.setConstraints(f, bad)
    except ValueError:
        pass
    else:
        dv.check('refused', False)
    dv.check('constraints-kept', not pm.passesConstraints(np.array([0.5]))
             and len(asked) == 1)


# --- setup ----------------------------------------------------------------
class Asked(Standin):
    """
    A parameter manager keeping record of what was asked about; what it
    answers is up to the constraints.
    """
    def __init__(self, dv, chance):
        self.dv, self.chance = dv, chance
        self.log, self.limited = [], []
    def fromUnity(self, values):
        return values
    def limit(self, values):
        self.limited.append(float(values[0]))
        return values
    def prettyValues(self, values, *args):
        return "values"
    def passesConstraints(self, values):
        dv = self.dv
        if dv.sym:
            ok = dv.truth(dv.bool('passes'))
        else:
            ok = dv.rng().random() < self.chance
        self.log.append((float(values[0]), ok))
        return ok


@contract('C02', 'population.Population.setup population.Population.abort',
          runs=300, budget=60)
def tries(dv):
    """
    Setup with constraints that may be too tough, whatever the number of
    tries allowed: only what passed gets evaluated or admitted, and running
    out of tries is no success.
    """
    filling(dv)


def filling(dv, limited=False):
    from . import c09
    P = dv.mod('population')
    proof = dv.sym and dv.mode == 'proof'
    Np = dv.size('Np', 1, bounded=(1, 2))
    tries = dv.size('maxTries', 1, bounded=(1, 2))
    blank = dv.choose('blank', [False, True])
    p = c09.scene(dv, Np, 2)
    p.maxTries = tries
    pm = p.pm = Asked(dv, dv.choose('chance', [0.1, 0.5, 0.9])
                      if not dv.sym else None)
    done, phase = [], []
    def seen(values):
        x = float(values[0])
        done.append(x)
        mine = [ok for v, ok in pm.log if v == x]
        dv.check('constraints-consulted', len(mine) > 0)
        dv.check('constraints-satisfied', bool(mine) and mine[-1])
        if limited:
            dv.check('bounds-applied', x in pm.limited)
    def func(values):
        if values is None:
            return None
        seen(values)
        if proof:
            dv.reach('evaluated')
            dv.e.kill(engine.Dead("covered by the arbitrary state"))
        return 0.25
    p.func = func
    if proof:
        from pydv import engine, loops
        V = sym_module()
        dv.loopspec(loops.Spec(
            tag=lambda it, loc: isinstance(it, loops.SRange),
            name='tries', havoc=lambda L, idx, locs: phase.append(L.phase),
            allow=lambda obj, what: isinstance(
                obj, (list, dv.mod('individual').Individual))))
        class Room(V.SSeq):
            def append(self, obj):
                if isinstance(obj, dv.mod('individual').Individual):
                    seen(obj.values)
                    dv.reach('admitted')
                    dv.e.kill(engine.Dead("covered by the arbitrary state"))
        dv.loopspec(loops.Spec(tag='locks', name='locks'))
        def hook(loop, frame):
            # Any number of members so far
            if 'populate' in loop.loc and loop.count == 1:
                m = dv.size('m', 0)
                dv.assume(m <= Np)
                p.iList = Room(m, lambda z: None, tag='members')
                p.dLocks = V.SSeq(m, lambda z: defer.DeferredLock(),
                                  tag='locks')
                if 'k' in loop.names:
                    k = dv.int('k', 0)
                    return {n: (k if n == 'k' else frame.f_locals.get(n))
                            for n in loop.names}
        dv.e.ghost['whilehook'] = hook
    d = dv.call('setup', p.setup, blank=blank)
    out = dv.outcome(d)
    dv.reactor.spin(lambda: out[0] != 'pending', limit=100)
    dv.check('setup-finishes', out[0] != 'pending')
    if out[0] == 'pending':
        return
    ok = out[0] == 'ok' and dv.truth(out[1])
    if proof:
        if phase != [2]:
            # Nobody was missing
            dv.check('nobody-missing', not phase, soft=True)
            return
        dv.check('no-success', not ok)
        dv.reach('out-of-tries')
        return
    members = [float(i.values[0]) for i in p.iList]
    for x in members:
        mine = [y for v, y in pm.log if v == x]
        dv.check('member-satisfies-constraints', bool(mine) and mine[-1])
    # (whoever is turned away more than allowed in a row)
    row = worst = 0
    for v, y in pm.log:
        row = 0 if y else row + 1
        worst = max(row, worst)
    if worst < tries:
        dv.check('success', ok)
        for v, y in pm.log:
            if y:
                dv.check('conforming-vector-not-turned-away',
                         v in members or v in done)
    dv.reach('success' if ok else 'given-up')
