"""C12: saving and loading preserves the population."""
import json, math, os, random, shutil, subprocess, sys, tempfile

import numpy as np
from twisted.internet import defer

from pydv.harness import contract
from .common import *
from . import observe, pieces, roster, sim
from .c07 import population


STATE = ('population.Population.__getstate__ '
         'population.Population.__setstate__ ')
FILES = STATE + (
    'population.Population.save population.Population.load '
    'population.ParameterManager.__getstate__ '
    'population.ParameterManager.__setstate__ '
    'individual.Individual.__getstate__ individual.Individual.__setstate__ '
    'history.History.__getstate__ history.History.__setstate__ '
    'history.seq2bytes history.bytes2array ')


# --- piece by piece -------------------------------------------------------
@contract('C12', 'population.ParameterManager.__getstate__ '
          'population.ParameterManager.__setstate__', runs=200)
def parameters(dv):
    """Names, bounds and constraints; the same limits get applied."""
    P = dv.mod('population')
    d = dv.size('d', 1, bounded=(1, 2, 3))
    b = Bounds(dv, d)
    cons = [len]
    pm = make_pm(dv, d, b, cons)
    state = dv.call('save', pm.__getstate__)
    q = dv.bare(P.ParameterManager, guard=False)
    dv.call('load', q.__setstate__, state)
    j = dv.idx('j', d)
    dv.check('lower-bound', dv.eq(dv.at(q.mins, j), dv.at(b.lo, j)))
    dv.check('upper-bound', dv.eq(dv.at(q.maxs, j), dv.at(b.hi, j)))
    dv.check('names', q.names == pm.names)
    dv.check('constraints', list(q.constraints) == cons)
    u = dv.vec('u', d)
    dv.check('same-limits', dv.eq(dv.at(dv.call('limit', q.limit, u), j),
                                  dv.at(pm.limit(u), j)))
    dv.check('same-scale', dv.eq(
        dv.at(dv.call('scale', q.fromUnity, u), j),
        dv.at(pm.fromUnity(u), j)))
    if isinstance(d, int):
        dv.check('same-order', list(q.sortedNamerator()) ==
                 list(pm.sortedNamerator()))


@contract('C12', 'individual.Individual.__getstate__ '
          'individual.Individual.__setstate__', runs=200)
def individual(dv):
    """Values and error."""
    I = dv.mod('individual')
    d = dv.size('d', 1, bounded=(1, 2, 3))
    class P(object):
        Nd = d
    i = I.Individual(P(), dv.vec('v', d))
    evaluated = dv.choose('evaluated', [True, False])
    if evaluated:
        i.SSE = dv.flt('SSE', nan=False, ninf=False, lo=0)
    j = dv.idx('j', d)
    want = dv.at(i.values, j)
    state = dv.call('save', i.__getstate__)
    k = dv.bare(I.Individual, guard=False)
    dv.call('load', k.__setstate__, state)
    dv.check('no-population-dragged-along', not any(
        isinstance(x, P) for x in state.values()))
    k.p = P()
    dv.check('value', dv.eq(dv.at(k.values, j), want))
    if evaluated:
        dv.check('error', dv.eq(k.SSE, i.SSE))
    else:
        dv.check('not-evaluated', dv.isinf(k.SSE))


SETTINGS = ['Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore']


@contract('C12', STATE, runs=200)
def members(dv):
    """
    Any number of members in their slots, theirs the new population; the
    settings.
    """
    P = dv.mod('population')
    n = dv.size('n', 0, bounded=(0, 1, 2, 3))
    p = population(dv, n)
    p.running = dv.choose('running', [True, False, None])
    p.debug = dv.choose('debug', [True, False])
    p.popsize = dv.int('popsize', 1)
    p.targetFraction = dv.real('fraction')
    p.statusQuoScore = dv.real('score')
    if dv.choose('asked', [True, False]):
        p.KS
    before = p.iList[:]
    want = {name: getattr(p, name) for name in SETTINGS}
    if dv.sym:
        from pydv import loops
        V = sym_module()
        def inv(L, idx, locs):
            out = [('as-many-locks', dv.eq(dv.length(q.dLocks), idx))]
            if L.stage == 'preserve':
                out.append(('belongs-to-loaded', L.it[idx-1].p is q))
            return out
        def havoc(L, idx, locs):
            q.dLocks = V.SSeq(idx, lambda z: defer.DeferredLock(),
                              tag='locks')
        dv.loopspec(loops.Spec(
            tag='members', inv=inv, havoc=havoc,
            allow=lambda obj, what: obj is q.dLocks or isinstance(
                obj, dv.mod('individual').Individual)))
    state = dv.call('save', p.__getstate__)
    q = dv.bare(P.Population, guard=False)
    dv.call('load', q.__setstate__, state)
    for name in SETTINGS:
        dv.check('settings', dv.eq(getattr(q, name), want[name]))
    dv.check('debug', q.debug is p.debug)
    dv.check('size', dv.eq(dv.length(q), n))
    dv.check('ready-to-run', q.running is not False)
    dv.check('one-lock-per-slot', dv.eq(dv.length(q.dLocks), n), soft=True)
    dv.check('history', q.history is p.history)
    dv.check('parameters', q.pm is p.pm)
    if isinstance(n, int):
        dv.check('slots', all(a is b for a, b in zip(q, before)))
        dv.check('belong-to-loaded', all(i.p is q for i in q))
    else:
        k = dv.idx('k', n)
        dv.check('slots', q[k] is before[k])


@contract('C12', 'population.Population.load', runs=200)
def refined_bounds(dv):
    """Each member is limited to the new bounds, whatever it was."""
    refining(dv)


def refining(dv):
    P, I = dv.mod('population'), dv.mod('individual')
    d = dv.size('d', 1, bounded=(1, 2))
    n = dv.size('n', 0, bounded=(0, 1, 2, 3))
    b0, b = Bounds(dv, d, 'old'), Bounds(dv, d, 'new')
    p = dv.bare(P.Population)
    p.Nd = d
    p.pm = make_pm(dv, d, b0)
    p.clear()
    p.running = True
    p.history = HistoryStub(dv)
    j = dv.idx('j', d)
    if isinstance(n, int):
        for k in range(n):
            p.iList.append(I.Individual(p, dv.vec('v%d' % k, d)))
        raw = [dv.at(i.values, j) for i in p.iList]
    else:
        from pydv import loops
        V = sym_module()
        was = {}
        def make(z):
            i = I.Individual(p, dv.vec(dv.e.fresh('v'), d))
            was[id(i)] = i.values
            return i
        p.iList = V.SSeq(n, make, tag='members')
        keys, told = {}, []
        def key(i):
            # (goes with its values)
            at = (id(i), id(i.values))
            if at not in keys:
                keys[at] = i.values, dv.int('key')
            return keys[at][1]
        dv.patch(I.Individual, '__hash__', key)
        p.history.results['rekey'] = lambda former, i: told.append(
            (former, i, key(i)))
        def inv(L, idx, locs):
            if L.stage == 'preserve':
                i = L.it[idx-1]
                return [('member-limited', b.limited(
                    j, dv.at(was[id(i)], j), dv.at(i.values, j))),
                    ('history-told', len(told) == 1 and told[0][1] is i and
                     told[0][0] is keys[id(i), id(was[id(i)])][1] and
                     told[0][2] is key(i))]
            return []
        dv.loopspec(loops.Spec(tag='members', inv=inv,
                               allow=lambda obj, what: True))
    class File(object):
        def __init__(self, *args): pass
        def __enter__(self): return self
        def __exit__(self, *args): pass
    dv.patch(P, 'bz2', type('bz2', (), {'BZ2File': File}))
    dv.patch(P, 'pickle', type('pickle', (), {
        'load': staticmethod(lambda fh: p)}))
    dv.patch(P, 'Reporter', lambda *a: Recorder(dv))
    f = lambda values: 0
    q = dv.call('load', P.Population.load, 'whatever', func=f,
                bounds=b.pairs())
    dv.check('evaluation-function', q.func is f)
    dv.check('lower-bound', dv.eq(dv.at(q.pm.mins, j), dv.at(b.lo, j)))
    dv.check('upper-bound', dv.eq(dv.at(q.pm.maxs, j), dv.at(b.hi, j)))
    if isinstance(n, int):
        for k in range(n):
            dv.check('member-limited', b.limited(
                j, raw[k], dv.at(q[k].values, j)))


@contract('C12', 'population.Population.save population.Population.load',
          modes=('proof',))
def files(dv):
    """What is loaded is what has been saved, in the place named."""
    P = dv.mod('population')
    disk = {}
    class File(object):
        def __init__(self, path, mode='r'):
            self.at = path, mode[0]
            if self.at[1] == 'w':
                disk[path] = []
            self.open = True
        def __enter__(self): return self
        def __exit__(self, *args): self.close()
        def close(self): self.open = False
    def dump(obj, fh, *args, **kw):
        if not fh.open or fh.at[1] != 'w':
            raise IOError("not open for writing")
        disk[fh.at[0]].append(obj)
    def load(fh, **kw):
        if not fh.open or fh.at[1] != 'r':
            raise IOError("not open for reading")
        return disk[fh.at[0]][0]
    dv.patch(P, 'bz2', type('bz2', (), {'BZ2File': File}))
    dv.patch(P, 'pickle', type('pickle', (), {
        'load': staticmethod(load), 'dump': staticmethod(dump),
        'HIGHEST_PROTOCOL': 5}))
    dv.patch(P, 'Reporter', Reporting)
    n = dv.size('n', 0)
    p = population(dv, n)
    p.debug = False
    func, complain = (lambda values: 0), (lambda i, report: None)
    path = dv.choose('path', ['some.dat', '~/some.dat'])
    soft = pieces.Softly(dv)
    soft.call('save', p.save, path)
    soft.check('saved-once', [len(x) for x in disk.values()] == [1])
    given = dv.choose('given', [(), ('func',), ('func', 'complain')])
    kw = {}
    if 'func' in given:
        kw['func'] = func
    if 'complain' in given:
        kw['complaintCallback'] = complain
    q = soft.call('load', P.Population.load, path, **kw)
    soft.check('the-same', q is p)
    soft.check('evaluation-function', q.func is kw.get('func'))
    soft.check('reports-its-own', isinstance(q.reporter, Reporting) and
               q.reporter.args[0] is q)
    soft.check('complaints', q.reporter.args[1:] in (
        (complain,), ) if 'complain' in given else not any(
            q.reporter.args[1:]))


class Reporting(object):
    def __init__(self, *args):
        self.args = args


@contract('C12', 'history.History.rekey', modes=('proof',))
def change_of_hash(dv):
    """When a member is limited to new bounds."""
    from . import ledger
    ledger.renamed(pieces.Softly(dv))


@contract('C12', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C12', 'history.History.__getstate__ '
          'history.History.__setstate__ history.History._initialize '
          'history.seq2bytes history.bytes2array', modes=('proof',))
def history(dv):
    """Any history."""
    from . import ledger
    ledger.saved(pieces.Softly(dv))


# --- files ----------------------------------------------------------------
class Rule(object):
    """A constraint that can be saved."""
    def __init__(self, name, limit):
        self.name, self.limit = name, limit
    def __call__(self, params):
        return params[self.name] <= self.limit
    def __eq__(self, other):
        return isinstance(other, Rule) and vars(self) == vars(other)


def world(dv):
    """A population after whatever may have happened to it."""
    name = dv.choose('variant', [
        'plain', 'plain', 'event', 'fatal', 'bad ones', 'small history',
        'complaints', 'loaded', 'refined'])
    o = dict(sim.VARIANTS[name])
    reloaded = o.pop('loaded', False)
    refine = o.pop('refine', False)
    w = sim.World(dv, 'none', **o)
    w.make_population()
    w.n_constraints = getattr(w, 'n_constraints', 0)
    out = w.setup()
    if len(w.p) < w.p.Np:
        return w
    if reloaded:
        w.reload(**(w.refined() if refine else {}))
    if w.r.random() < 0.7 and out[0] == 'ok' and out[1]:
        w.make_de()
        w.run()
        if w.r.random() < 0.4 and not w.aborted:
            w.make_de()
            w.run()
    w.settle()
    return w


def difference(a, b):
    return [(k, a[k], b[k]) for k in a if a[k] != b[k]]


@contract('C12', FILES, modes=('concrete',), runs=220, weight=2)
def round_trip(dv):
    """Everything a user can see is the same afterwards."""
    w = world(dv)
    p, r = w.p, w.r
    p.history.shutdown()
    w.settle()
    p.debug = r.random() < 0.5
    p.targetFraction = r.choice([0.02, 0.05, 1.5])
    cons = r.choice([[], [Rule(w.names[0], 1e300)],
                     [Rule(n, 1e300) for n in w.names]])
    p.setConstraints(*cons)
    if r.random() < 0.2 and len(p) > 1:
        p[r.randrange(len(p))].blacklist()
        w.settle()
    if r.random() < 0.1:
        p.clear()
        p.history.clear()
        w.settle()
    top = tempfile.mkdtemp()
    try:
        path = os.path.join(top, 'pop.dat')
        before = observe.population(p)
        dv.call('save', p.save, path)
        dv.check('saving-changes-nothing', before == observe.population(p))
        for again in range(2):
            q = dv.call('load', w.P.Population.load, path, func=w.func)
            after = observe.population(q)
            diff = difference(before, after)
            dv.check('the-same-population', not diff, repr(diff)[:800])
            dv.check('members-belong-to-it', all(i.p is q for i in q))
            dv.check('constraints', list(q.pm.constraints) == cons)
            dv.check('evaluation-function', q.func == w.func)
            dv.check('as-good-as-set-up', bool(q) == (len(q) > 0))
            # Each lives on its own
            if len(q) and again == 0:
                q[0].blacklist()
                w.settle()
                dv.check('original-left-alone',
                         before == observe.population(p))
            # Saved again
            q = w.P.Population.load(path)
            dv.call('save', q.save, path)
    finally:
        shutil.rmtree(top)


@contract('C12', FILES, modes=('concrete',), runs=4, weight=2)
def large_history(dv):
    """Many more records than members."""
    r = dv.rng()
    dv.random.open = True
    P, I = dv.mod('population'), dv.mod('individual')
    nd = r.choice([1, 2, 3])
    func = lambda values: float(np.sum(np.square(values)))
    p = P.Population(func, names_for(nd), [(-2, 3)]*nd,
                     popsize=r.randint(2, 12))
    def finish(d):
        out = dv.outcome(d)
        dv.reactor.spin(lambda: out[0] != 'pending', 100000)
        return out
    finish(p.setup(uniform=True))
    for k in range(r.choice([300, 500, 700])):
        i = I.Individual(p, [r.uniform(-2, 3) for _ in range(nd)])
        i.SSE = func(i.values)
        if r.random() < 0.6:
            finish(p.history.add(i, neverInPop=True))
        else:
            k = r.randrange(len(p))
            finish(p.history.notInPop(p[k]))
            p[k] = i
            finish(p.history.add(i))
    finish(p.history.shutdown())
    top = tempfile.mkdtemp()
    try:
        path = os.path.join(top, 'pop.dat')
        before = observe.population(p)
        dv.call('save', p.save, path)
        q = dv.call('load', P.Population.load, path, func=func)
    finally:
        shutil.rmtree(top)
    diff = difference(before, observe.population(q))
    dv.check('the-same-population', not diff, repr(diff)[:800])


def reservable(dv, q):
    """Each slot can be had by one at a time."""
    if q.running is False:
        return
    for k in range(len(q)):
        first, second = q.lock(k), q.lock(k)
        dv.check('slot-reserved-once', first.called and not second.called,
                 "slot %d of %d" % (k, len(q)))
        q.release(k)
        dv.check('slot-passed-on', bool(second.called))
        q.release(k)


@contract('C12', FILES + 'history.History.rekey', modes=('concrete',),
          runs=120)
def new_bounds(dv):
    """Loaded with refined bounds."""
    w = world(dv)
    p, r = w.p, w.r
    w.settle()
    p.setConstraints()
    top = tempfile.mkdtemp()
    try:
        path = os.path.join(top, 'pop.dat')
        p.save(path)
        before = observe.population(p)
        bounds = w.refined()['bounds']
        q = dv.call('load', w.P.Population.load, path, func=w.func,
                    bounds=bounds)
        after = observe.population(q)
    finally:
        shutil.rmtree(top)
    lo = np.array([a for a, _ in bounds], dtype=float)
    hi = np.array([b for _, b in bounds], dtype=float)
    ref = w.P.ParameterManager(list(w.names), bounds)
    for name in ('size', 'errors', 'ranking', 'names', 'order', 'settings',
                 'best', 'history_counts', 'history_names'):
        dv.check('the-rest-unchanged', before[name] == after[name],
                 "%s: %r then %r" % (name, before[name], after[name]))
    dv.check('bounds-refined', after['bounds'] == [
        [observe.number(a), observe.number(b)] for a, b in bounds])
    for i, j in zip(p, q):
        v = np.array(j.values)
        dv.check('member-within-new-bounds',
                 bool(np.all(v >= lo) and np.all(v <= hi)),
                 "%r outside %r" % (v, bounds))
        inside = (i.values >= lo) & (i.values <= hi)
        dv.check('values-inside-kept', bool(np.all(
            v[inside] == np.array(i.values)[inside])))
        dv.check('members-belong-to-it', j.p is q)
    reservable(dv, q)


GUARANTEES = ['C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C08', 'C10', 'C11',
              'C13', 'C14', 'C16', 'C17']


@contract('C12', FILES + 'de.DifferentialEvolution.__call__',
          modes=('concrete',), runs=260, weight=3)
def resumed(dv):
    """A run with a loaded population has the usual guarantees."""
    which = dv.choose('guarantee', GUARANTEES)
    if which == 'C11':
        # (a member moved by refined bounds has no record of its own yet)
        return sim.whole(dv, which, 'loaded, loaded with small history')
    return sim.whole(dv, which, 'loaded, refined, '
                     'loaded with small history')


@contract('C12', FILES + 'de.DifferentialEvolution.__call__',
          modes=('concrete',), runs=80, weight=2)
def resumed_with_full_history(dv):
    """A loaded history that has to make room keeps the members' records."""
    resumed_with_room_to_make(dv)


def resumed_with_room_to_make(dv):
    sim.whole(dv, 'C11', 'loaded with small history', bad=[0, 0.1],
              maxiter=[5, 10], Np_min=[4, 5], popsize=[1], Nd=[1, 2],
              shape=['sphere', 'random'], N_max=[7, 8, 10, 15],
              constrained=['none'], callbacks=[0])


@contract('C12', FILES, modes=('concrete',), runs=6, weight=2)
def another_process(dv):
    """Loaded and continued elsewhere."""
    repo = os.path.dirname(os.path.dirname(os.path.abspath(
        dv.mod('population').__file__)))
    r = dv.rng()
    P = dv.mod('population')
    dv.random.open = True
    nd = r.choice([1, 2, 3])
    bounds = [(-r.uniform(0, 5), r.uniform(0.1, 5)) for _ in range(nd)]
    bad = r.choice([0, 0.3])
    def func(values):
        if r.random() < bad:
            return float('inf')
        return float(np.sum(np.square(values)))
    p = P.Population(func, names_for(nd), bounds, popsize=1)
    for k in range(2):
        d = p.setup()
        out = dv.outcome(d)
        dv.reactor.spin(lambda: out[0] != 'pending', 100000)
    d = p.history.shutdown()
    out = dv.outcome(d)
    dv.reactor.spin(lambda: out[0] != 'pending', 100000)
    top = tempfile.mkdtemp()
    try:
        path = os.path.join(top, 'pop.dat')
        before = observe.population(p)
        dv.call('save', p.save, path)
        env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10**6)))
        proc = subprocess.run(
            [sys.executable, os.path.join(os.path.dirname(
                os.path.abspath(__file__)), 'second_process.py'), repo, path,
             str(r.randint(1, 10**6))],
            env=env, stdout=subprocess.PIPE, stdin=subprocess.DEVNULL,
            timeout=120)
    finally:
        shutil.rmtree(top)
    dv.check('loads-in-another-process', proc.returncode == 0,
             "exit status %d" % proc.returncode)
    there = json.loads(proc.stdout)
    diff = difference(before, there['loaded'])
    dv.check('the-same-population', not diff, repr(diff)[:800])
    dv.check('members-belong-to-it', there['members_belong'])
    dv.check('run-completes', there['done'])
    dv.check('evaluations-within-bounds', all(
        a <= x <= b for v in there['evaluated']
        for x, (a, b) in zip(v, bounds)))
    after = there['after']
    want = sorted(
        [observe.number(np.float32(float.fromhex(e)))] + [
            observe.number(np.float32(float.fromhex(x))) for x in v]
        for e, v in zip(after['errors'], after['members'])
        if math.isfinite(float.fromhex(e)))
    # (no use telling identical members apart)
    if len(set(map(repr, after['members']))) == len(after['members']):
        dv.check('marks-as-they-should-be', want == after['marked'],
                 "%r, members %r" % (after['marked'], want))
