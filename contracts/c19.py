"""C19: constraint helper classes judge parameters as specified."""
import itertools

from pydv.harness import contract
from .common import *


def deviation_ok(dv, x, y, m, b, tol):
    return dv.And(m*x + b - y <= tol, y - (m*x + b) <= tol)


@contract('C19', 'constraints.RelationsChecker.__call__', modes=('proof',))
def relations_all(dv):
    """
    Any number of first parameters, each related to any number of second
    ones: accepted if all are within tolerance, turned away if any is not.
    """
    import z3
    from pydv import loops
    V = sym_module()
    C = dv.mod('constraints')
    case = dv.choose('case', ['all within', 'one outside'])
    n = dv.size('n_first', 0)
    Z, R = z3.IntSort(), z3.RealSort()
    f = {k: z3.Function(k, Z, Z, R) for k in 'ymbt'}
    fx = z3.Function('x', Z, R)
    fn = z3.Function('n_second', Z, Z)
    def fl(t):
        return V.SFloat(t, 0)
    if case == 'one outside':
        i0, j0 = dv.idx('i0', n), dv.int('j0', 0)
        dv.assume(V.SBool(V.zi(j0) < fn(V.zi(i0))))
        i0, j0 = V.zi(i0), V.zi(j0)
        x, y, m, b, t = [fl(fx(i0))] + [fl(f[k](i0, j0)) for k in 'ymbt']
        dv.assume(dv.Not(deviation_ok(dv, x, y, m, b, t)))

    def second(i):
        def value(j):
            y, m, b, t = [fl(f[k](i, j)) for k in 'ymbt']
            if case == 'all within':
                dv.assume(deviation_ok(dv, fl(fx(i)), y, m, b, t))
            return m, b, t
        dv.e.add(fn(i) >= 0)
        return V.SKeyed(fn(i), lambda j: V.Key(i, j), value, tag='second',
                        owner=i)
    first = V.SKeyed(n, lambda i: V.Key(i), second, tag='first')

    class Params(object):
        def __getitem__(self, k):
            if len(k.path) == 1:
                return fl(fx(k.path[0]))
            return fl(f['y'](*k.path))
        def get(self, k, default=None):
            return self[k]
        def __contains__(self, k):
            return True
    outer = []
    def inv_first(L, idx, locs):
        if case == 'all within':
            return []
        return [('not-past-the-violation', V.SBool(V.zi(idx) <= i0))]
    def inv_second(L, idx, locs):
        if case == 'all within':
            return []
        own = getattr(L.it, 'owner', None)
        if own is None:
            own = outer[-1] if outer else None
        if own is None:
            return []
        return [('not-past-the-violation', V.SBool(z3.Implies(
            own == i0, V.zi(idx) <= j0)))]
    dv.loopspec(loops.Spec(tag='first', inv=inv_first))
    dv.loopspec(loops.Spec(tag='second', inv=inv_second))
    rc = C.RelationsChecker(first)
    r = dv.call('check', rc, Params())
    if case == 'all within':
        dv.check('accepted', dv.truth(r))
        dv.reach('accepted')
    else:
        dv.check('turned-away', not dv.truth(r))
        dv.reach('turned-away')


@contract('C19', 'constraints.RelationsChecker.__call__',
          modes=('bounded', 'concrete'), runs=600)
def relations(dv):
    """Tables over three names."""
    C = dv.mod('constraints')
    names = ['a', 'b', 'c']
    params = {}
    for nm in names:
        params[nm] = dv.real(nm)
    pairs = dv.choose('pairs', [
        [], [('a', 'b')], [('a', 'b'), ('a', 'c')], [('a', 'b'), ('b', 'c')],
        [('b', 'a'), ('c', 'a')], [('a', 'b'), ('b', 'a')], [('a', 'a')]])
    table, oks = {}, []
    for k, (x, y) in enumerate(pairs):
        m, b = dv.real('m%d' % k), dv.real('b%d' % k)
        t = dv.real('t%d' % k, 0)
        if not dv.sym:
            # often near or beyond the tolerance
            how = dv.choose('how%d' % k, ['any', 'within', 'beyond', 'below'])
            if how != 'any':
                t = abs(t) + 0.01
                b = params[y] - m*params[x] + t*{
                    'within': 0.9, 'beyond': 1.1, 'below': -1.1}[how]
        table.setdefault(x, {})[y] = (m, b, t)
        oks.append(deviation_ok(dv, params[x], params[y], m, b, t))
    before = dict(params)
    r = dv.call('check', C.RelationsChecker(table), params)
    dv.check('accepted-exactly-if-within', dv.iff(r, dv.And(*oks))
             if oks else dv.truth(r))
    dv.check('parameters-unaltered', params == before)
    # again, with the same object
    dv.reach('judged')


class Seen(object):
    """A check that records what it is given."""
    def __init__(self, answer):
        self.answer = answer
        self.got = []
        self.__name__ = 'seen'
    def __call__(self, params):
        self.got.append(params)
        return self.answer


def present(dv, name, spec, params, seen, result, answer):
    """Judges one call of one check of the collection."""
    linear, log = spec
    linear, log = linear or set(), log or set()
    if not (linear | log) <= set(params):
        dv.check('satisfied-when-absent', dv.truth(result))
        dv.check('not-asked-when-absent', not seen)
        return
    dv.check('asked-once', len(seen) == 1)
    if len(seen) != 1:
        return
    got = seen[0]
    dv.check('exactly-its-parameters', set(got) == linear | log)
    if set(got) != linear | log:
        return
    for nm in linear:
        dv.check('linear-unchanged', dv.eq(got[nm], params[nm]))
    for nm in log:
        dv.check('log-to-the-power', dv.close(
            got[nm], power10(dv, params[nm])))
    dv.check('answer-passed-on', dv.truth(result) == answer)


def power10(dv, x):
    if dv.sym:
        from pydv import models
        return models.np_power(10.0, x)
    return 10.0**x


def build(dv, registry, answers):
    C = dv.mod('constraints')
    checks = {nm: Seen(answers[nm]) for nm in registry}
    space = {'registry': {nm: tuple(spec) for nm, spec in registry.items()}}
    for nm in registry:
        space[nm] = (lambda nm: lambda self, params: checks[nm](params))(nm)
    Coll = type('Coll', (C.Constraints,), space)
    return Coll(), checks


# --- any number of checks, each of any number of parameters -------------------
class Called(object):
    """The name of one of any number of registered methods."""
    def __init__(self, z, methods):
        self.z, self.methods = z, methods
    def __dv_getattr__(self, obj):
        return self.methods.at(self.z)


def name_set(n, z, which, P):
    """A set of any number of parameter names."""
    from pydv import values as V
    class Names(V.SSeq):
        __slots__ = ()
        def issubset(self, params):
            if params is not P:
                V.E().unsupported_("subset of something else")
            return P.all_there(self)
        def __le__(self, params):
            return self.issubset(params)
    return Names(n, lambda j: V.Key(z, which, j), tag=which)


@contract('C19', 'constraints.Constraints.__init__ '
          'constraints.Constraints.setup constraints.Constraints.__iter__ '
          'constraints.Constraints.__len__ constraints.Constraints.__bool__ '
          'constraints.Constraints.append', modes=('proof',))
def any_collection(dv):
    """
    Any number of registered checks, each of any number of linear and
    log-space parameters (no name being both), and any number of appended
    functions.
    """
    import z3
    from pydv import loops, values as V
    C = dv.mod('constraints')
    n = dv.size('n_registered', 0)
    m = dv.size('n_appended', 0)
    val = z3.Function('val', z3.IntSort(), z3.IntSort(), z3.IntSort(),
                      z3.RealSort())
    KIND = {'linear': 0, 'log': 1}
    def value(k):
        z, which, j = k.path
        return V.SFloat(val(V.zi(z), KIND[which], V.zi(j)))

    class Params(object):
        def __init__(self):
            self.known = []         # [(set of names, all there?)]
        def all_there(self, names):
            for x, ok in self.known:
                if x is names:
                    return ok
            ok = dv.choose('all-there', [True, False])
            if not ok:
                dv.assume(V.SBool(V.zi(names.n) > 0))
            self.known.append((names, ok))
            return ok
        def __getitem__(self, k):
            if not self.all_there(spec(k.path[0])[KIND[k.path[1]]]):
                # (this may be the one missing)
                raise KeyError(k)
            return value(k)
        def __contains__(self, k):
            return V.E().unsupported_("asks for a single name")
        def __iter__(self):
            return V.E().unsupported_("goes through all names")
    params = Params()

    asked = []
    class Method(object):
        def __init__(self, z):
            self.z = z
            self.answer = V.SBool(z3.Bool(dv.e.fresh('answer')))
            self.__name__ = 'method'
        def __call__(self, got):
            asked.append((self, got))
            return self.answer
    methods = V.SSeq(n, Method, tag='methods')
    specs = {}
    def spec(z):
        """What the check in position z is registered with."""
        z = z3.simplify(V.zi(z))
        if str(z) not in specs:
            out = []
            for which in ('linear', 'log'):
                form = dv.choose(which, ['names', None])
                if form:
                    k = V.zi(dv.size('n_' + which, 0))
                    form = name_set(k, z, which, params)
                out.append(form)
            specs[str(z)] = out
        return tuple(specs[str(z)])
    class Registry(V.SPure):
        __slots__ = ()
        def __getitem__(self, k):
            return spec(k.z)
        def keys(self):
            return self
        def items(self):
            return V.SPure(self.n, lambda z: (
                Called(z, methods), spec(z)), self.tag)
        def __contains__(self, k):
            return isinstance(k, Called)
    args = []
    class Coll(C.Constraints):
        registry = Registry(V.zi(n), lambda z: Called(z, methods), 'registry')
        def setup(self, *a):
            args.append((a, self.limit))
            C.Constraints.setup(self, *a)

    def the_list(locs):
        me = locs.get('self')
        found = [x for x in list(locs.values()) + list(
            getattr(me, '__dict__', {}).values()) if isinstance(x, V.GList)]
        return found[0] if len(found) == 1 else None
    def good(entry, z):
        if not isinstance(entry, (list, tuple)) or len(entry) != 3:
            return False
        f, a, b = entry
        a0, b0 = spec(z)
        return f is methods.at(z) and a is a0 and b is b0
    def inv(L, idx, locs):
        x = the_list(locs)
        if x is None:
            dv.skip("collected in a way not understood")
        out = [('one-for-each', V.SBool(
            V.zi(loops.length_of(x)) == V.zi(idx)))]
        if L.stage == 'preserve':
            out.append(('the-check-with-its-names', good(x[-1], L.idx)))
        return out
    def havoc(L, idx, locs):
        x = the_list(locs)
        if x is not None:
            x.become(V.SSeq(idx, lambda z: [methods.at(z)] + list(spec(z)),
                            tag='checks'))
    dv.loopspec(loops.Spec(
        tag='registry', name='registering', inv=inv, havoc=havoc,
        allow=lambda obj, what: isinstance(obj, V.GList)))
    c = dv.call('construct', Coll, 1, 2, limit=3)
    dv.check('set-up-with-the-arguments', args == [((1, 2), 3)])

    # Any number of functions appended
    class Function(object):
        def __init__(self, z):
            self.z = z
        def __call__(self, got):
            asked.append((self, got))
    functions = V.SSeq(m, Function, tag='appended')
    rest = [x for x in c.__dict__.values()
            if isinstance(x, V.GList) and x.sym is None]
    if len(rest) != 1:
        dv.skip("appended functions kept in a way not understood")
    rest[0].become(functions)
    more = dv.choose('one more', [False, True])
    if more:
        extra = Function(-1)
        dv.call('append', c.append, extra)
    total = V.zi(n) + V.zi(m) + (1 if more else 0)
    dv.check('counted', V.SBool(V.zi(c.__len__()) == total), soft=True)
    dv.check('true-if-any', V.SBool(
        z3.BoolVal(bool(c.__bool__())) == (total > 0)), soft=True)

    # Going through them
    at = {}
    dv.loopspec(loops.Spec(
        tag='checks', name='checks',
        allow=lambda obj, what: type(obj) is dict,
        havoc=lambda L, idx, locs: at.update(checks=L)))
    dv.loopspec(loops.Spec(
        tag='appended', name='appended',
        havoc=lambda L, idx, locs: at.update(appended=L)))
    # The parameters a check is asked about
    filled = []
    def dicts(locs):
        return [x for x in locs.values() if type(x) is dict]
    def filling(which):
        def inv(L, idx, locs):
            D = dicts(locs)
            if len(D) != 1:
                dv.skip("parameters collected in a way not understood")
            D = D[0]
            if L.stage == 'entry':
                return [('nothing-else', len(D) == 0)]
            if L.stage == 'assume':
                D.clear()
                if L.phase == 2:
                    filled.append((D, L.it, which))
                return []
            ks = list(D)
            ok = len(ks) == 1 and isinstance(ks[0], V.Key) and \
                ks[0] is L.it.at(L.idx)
            if not ok:
                return [('this-parameter', False)]
            x = value(ks[0])
            if which == 'log':
                x = power10(dv, x)
            return [('this-parameter', True),
                    ('its-value', dv.eq(D[ks[0]], x))]
        return inv
    for which in ('linear', 'log'):
        dv.loopspec(loops.Spec(
            tag=which, name=which, inv=filling(which),
            allow=lambda obj, what: type(obj) is dict))
    it = iter(c)
    try:
        f = next(it)
    except StopIteration:
        dv.check('all-given', set(at) == set(['checks', 'appended']) and
                 all(L.phase == 2 for L in at.values()), soft=True)
        dv.check('none-left-out', at['checks'].it.tag == 'checks' and V.SBool(
            z3.And(at['checks'].n == V.zi(n),
                   at['appended'].n == V.zi(m) + (1 if more else 0))),
                 soft=True)
        dv.reach('all-given')
        return
    if 'appended' in at:
        L = at['appended']
        if more and dv.truth(V.SBool(L.idx == V.zi(m))):
            dv.check('the-one-appended-last', f is extra, soft=True)
        else:
            dv.check('the-function-itself', f is functions.at(L.idx),
                     soft=True)
        dv.reach('appended')
    else:
        L = at['checks']
        linear, log = spec(L.idx)
        r = dv.call('check', f, params)
        absent = any(not ok for _, ok in params.known)
        if absent:
            dv.check('satisfied-when-absent', r is True)
            dv.check('not-asked-when-absent', not asked)
            dv.reach('absent')
        else:
            dv.check('asked-once', len(asked) == 1 and
                     asked[0][0] is methods.at(L.idx))
            got = asked[0][1]
            full = [names for D, names, which in filled
                    if D is got and names is
                    {'linear': linear, 'log': log}[which]]
            dv.check('exactly-its-parameters', len(got) == 0 and
                     len(full) == len(filled) == len(set(map(id, full))) and
                     set(map(id, full)) == set(
                         id(x) for x in (linear, log) if x is not None and
                         dv.truth(V.SBool(V.zi(x.n) > 0)) or x in full),
                     soft=True)
            dv.check('answer-passed-on', r is methods.at(L.idx).answer,
                     soft=True)
            dv.reach('asked')
    try:
        next(it)
    except StopIteration:
        dv.check('goes-on', False, soft=True)
    dv.check('one-at-a-time', False, soft=True)


SPECS = [({'a'}, None), (None, {'a'}), ({'a'}, {'b'}), ({'b'}, {'a'}),
         ({'a', 'b'}, None), (None, {'a', 'b'}), ({'c'}, {'a', 'b'})]


@contract('C19', 'constraints.Constraints.__iter__ '
          'constraints.Constraints.__init__',
          modes=('bounded', 'concrete'), runs=800)
def collection(dv):
    """Two registered checks sharing names, one appended function."""
    first = dv.choose('first', SPECS)
    second = dv.choose('second', SPECS if not dv.sym else SPECS[:4])
    answers = {'one': dv.choose('a1', [True, False]), 'two': True}
    c, checks = build(dv, {'one': first, 'two': second}, answers)
    extra = Seen(dv.choose('a3', [True, False]))
    c.append(extra)
    dv.check('length', len(c) == 3)
    dv.check('not-empty', bool(c))
    lacking = dv.choose('lacking', [None, 'a', 'b'])
    rounds = dv.choose('rounds', [1, 2])
    use = dv.choose('use', ['in turn', 'listed', 'reversed'])
    funcs = None
    for k in range(rounds):
        params = {}
        for nm in 'abc':
            x = dv.real('%s%d' % (nm, k), -3, 3)
            if nm != lacking or k > 0:
                params[nm] = x
        before = dict(params)
        if use == 'in turn':
            it = list(enumerate(iter(c)))
        else:
            if funcs is None:
                funcs = list(enumerate(c))
            it = funcs if use == 'listed' else funcs[::-1]
        dv.check('all-checks', len(it) == 3)
        if len(it) != 3:
            return
        for s in list(checks.values()) + [extra]:
            s.got = []
        results = {}
        for pos, func in it:
            results[pos] = dv.call('check', func, params)
            dv.check('parameters-unaltered',
                     set(params) == set(before) and all(
                         params[nm] is before[nm] for nm in before))
        order = {}
        present(dv, 'one', first, params, checks['one'].got, results[0],
                answers['one'])
        present(dv, 'two', second, params, checks['two'].got, results[1],
                answers['two'])
        dv.check('appended-asked', len(extra.got) == 1)
        if len(extra.got) == 1:
            dv.check('appended-gets-them-as-they-are',
                     dict(extra.got[0]) == before)
            dv.check('appended-answer', dv.truth(results[2]) == extra.answer)
    dv.reach('judged')


@contract('C19', 'constraints.Constraints.__init__ '
          'constraints.Constraints.__len__ constraints.Constraints.__bool__ '
          'constraints.Constraints.append', modes=('concrete',), runs=300)
def population_use(dv):
    """A collection, as a population's parameter manager consumes it."""
    r = dv.rng()
    P = dv.mod('population')
    n = r.randint(0, 4)
    names = ['a', 'b', 'c', 'd', 'e']
    registry, answers = {}, {}
    for k in range(n):
        picked = r.sample(names, r.randint(1, 3))
        cut = r.randint(0, len(picked))
        linear, log = set(picked[:cut]), set(picked[cut:])
        nm = 'check%d' % k
        registry[nm] = (linear or r.choice([None, set()]),
                        log or r.choice([None, set()]))
        answers[nm] = r.random() < 0.8
    c, checks = build(dv, registry, answers)
    dv.check('empty', bool(c) == (n > 0) and len(c) == n)
    extras = [Seen(r.random() < 0.8) for _ in range(r.randint(0, 2))]
    for x in extras:
        c.append(x)
    dv.check('counts', len(c) == n + len(extras))
    dv.check('truth', bool(c) == (n + len(extras) > 0))
    known = r.sample(names, r.randint(2, 5))
    pm = P.ParameterManager(known, [(-400.0, 400.0)]*len(known), c)
    for _ in range(3):
        for s in list(checks.values()) + extras:
            s.got = []
        values = [r.choice([r.uniform(-3, 3), r.uniform(-307, 307), -307.5])
                  for _ in known]
        params = dict(zip(known, values))
        ok = bool(pm.passesConstraints(values))
        expected = True
        for nm, (linear, log) in registry.items():
            need = (linear or set()) | (log or set())
            if need <= set(known) and not answers[nm]:
                expected = False
        for x in extras:
            expected = expected and x.answer
        dv.check('verdict', ok == expected)
        for nm, (linear, log) in registry.items():
            for got in checks[nm].got:
                dv.check('its-own-parameters', set(got) == (
                    (linear or set()) | (log or set())))
                for p, x in got.items():
                    if log and p in log:
                        dv.check('log', dv.close(x/10.0**params[p], 1))
                    elif p in params:
                        dv.check('linear', x == params[p])
        for x in extras:
            for got in x.got:
                dv.check('as-they-are', dict(got) == params)


@contract('C19', 'constraints.Constraints.__init__', modes=('concrete',),
          runs=50)
def construction(dv):
    """Keywords become attributes before setup gets the arguments."""
    C = dv.mod('constraints')
    log = []
    class Coll(C.Constraints):
        registry = {'one': ({'a'}, None)}
        def setup(self, *args):
            log.append((args, getattr(self, 'limit', None)))
            self.extra = 5
        def one(self, params):
            return params['a'] < self.limit + self.extra
    limit = dv.int('limit', 0, 9)
    c = Coll(1, 2, limit=limit)
    dv.check('setup', log == [((1, 2), limit)])
    x = dv.int('x', 0, 20)
    f = list(c)[0]
    dv.check('method-bound', bool(f({'a': x, 'b': 1})) == (x < limit + 5))
    d = Coll(limit=limit + 100)
    dv.check('instances-independent',
             bool(list(d)[0]({'a': x})) and
             bool(list(c)[0]({'a': x})) == (x < limit + 5))
    d.append(lambda params: False)
    dv.check('appended-to-one-only', len(c) == 1 and len(d) == 2)
