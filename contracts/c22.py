"""C22: an individual's error, truth value, order and equality."""
from twisted.internet import defer
from twisted.python import failure

from pydv.harness import contract
from .common import *

INF = float('inf')


class PStub(Standin):
    """What an individual needs of its population."""
    def __init__(self, d):
        self.Nd = d
        self.counter = 7
        self.asked = []
        self.answer = None
        self.KS_deleted = 0
    def evalFunc(self, values, xSSE=None):
        self.asked.append((values, xSSE))
        return self.answer


class FloatLike(object):
    """Behaves like a float without being one."""
    def __init__(self, x):
        self.x = x
    def __float__(self):
        return float(self.x)
    def __lt__(self, other):
        return self.x < float(other)
    def __gt__(self, other):
        return self.x > float(other)
    def __le__(self, other):
        return self.x <= float(other)
    def __ge__(self, other):
        return self.x >= float(other)
    def __eq__(self, other):
        return other is not None and self.x == float(other)
    def __ne__(self, other):
        return not self == other
    def __hash__(self):
        return hash(self.x)


def raw_error(dv, name):
    """What an evaluation may have returned."""
    kinds = ['number', 'missing'] if dv.sym else [
        'number', 'numpy', 'missing', 'integer', 'floatlike']
    kind = dv.choose(name + '_kind', kinds)
    if kind == 'missing':
        return None
    if kind == 'integer':
        return dv.int(name + '_i', -3, 5)
    x = dv.flt(name)
    if kind == 'numpy':
        import numpy as np
        return np.float64(x)
    if kind == 'floatlike':
        return FloatLike(x)
    return x


def number(dv, raw):
    return raw if dv.sym or raw is None else float(raw)


def error_of(dv, raw):
    """The error as specified."""
    if raw is None:
        return INF
    x = number(dv, raw)
    return dv.ite(dv.Or(dv.isnan(x), x < 0), INF, x)


def fatal(dv, raw):
    if raw is None:
        return False
    x = number(dv, raw)
    return dv.And(dv.Not(dv.isnan(x)), x < 0)


def make(dv, name, p, d, raw=0):
    I = dv.mod('individual')
    v = dv.vec(name + '_v', d)
    i = I.Individual(p, v)
    if raw == 0:
        raw = raw_error(dv, name)
    i.SSE = raw
    return i, v, raw


@contract('C22', 'individual.Individual.SSE individual.Individual.__bool__ '
          'individual.Individual.__float__ individual.Individual.__init__',
          runs=400)
def error_and_truth(dv):
    d = dv.size('d', 1)
    i, v, raw = make(dv, 'a', PStub(d), d)
    s = dv.call('SSE', lambda: i.SSE)
    dv.check('error', dv.eq(number(dv, s), error_of(dv, raw)))
    dv.check('as-float', dv.eq(dv.call('float', i.__float__),
                               error_of(dv, raw)))
    b = dv.call('bool', i.__bool__)
    dv.check('falsy-exactly-if-fatal', dv.iff(b, dv.Not(fatal(dv, raw))))
    for j in dv.each(d):
        dv.check('values-kept', dv.eq(dv.at(i.values, j), dv.at(v, j)))


@contract('C22', 'individual.Individual.__init__ individual.Individual.SSE '
          'individual.Individual.__bool__', runs=60)
def fresh(dv):
    """Not evaluated yet: infinite error, not fatal."""
    I = dv.mod('individual')
    d = dv.size('d', 1)
    i = I.Individual(PStub(d), dv.vec('v', d))
    dv.check('infinite', dv.eq(i.SSE, INF))
    dv.check('not-fatal', i.__bool__())


@contract('C22', 'individual.Individual.__lt__ individual.Individual.__gt__ '
          'individual.Individual.__float__', runs=600)
def order(dv):
    d = dv.size('d', 1)
    p = PStub(d)
    a, va, ra = make(dv, 'a', p, d)
    ea = error_of(dv, ra)
    if dv.choose('other', ['individual', 'number']) == 'individual':
        b, vb, rb = make(dv, 'b', p, d)
        eb = error_of(dv, rb)
    else:
        b = eb = dv.flt('x')
    dv.check('less', dv.iff(dv.call('lt', a.__lt__, b), ea < eb))
    dv.check('greater', dv.iff(dv.call('gt', a.__gt__, b), ea > eb))


@contract('C22', 'individual.Individual.__eq__ individual.Individual.equals',
          modes=('proof', 'bounded', 'concrete'), runs=600)
def equality(dv):
    d = dv.size('d', 1)
    p = PStub(d)
    a, va, ra = make(dv, 'a', p, d)
    b, vb, rb = make(dv, 'b', p, d)
    rel = dv.choose('rel', ['any', 'same values', 'same error', 'same'])
    if rel in ('same values', 'same'):
        if dv.sym:
            dv.forall(d, lambda j: dv.eq(dv.at(va, j), dv.at(vb, j)))
        else:
            vb[:] = va
    if rel in ('same error', 'same'):
        rb = ra
        b.SSE = rb
    same_error = dv.eq(error_of(dv, ra), error_of(dv, rb))
    r = dv.call('eq', a.__eq__, b)
    if dv.truth(r):
        dv.check('equal-only-with-same-error', same_error)
        for j in dv.each(d):
            dv.check('equal-only-with-same-values',
                     dv.eq(dv.at(va, j), dv.at(vb, j)))
        dv.reach('equal')
    else:
        # a difference somewhere
        if rel == 'same':
            dv.check('same-are-equal', False)
        elif rel == 'same values':
            dv.check('unequal-only-for-a-reason', dv.Not(same_error))
        elif not dv.sym:
            dv.check('unequal-only-for-a-reason', not (
                same_error and all(x == y for x, y in zip(va, vb))))
        elif rel == 'any' and isinstance(d, int):
            dv.check('unequal-only-for-a-reason', dv.Not(dv.And(
                same_error, *[dv.eq(dv.at(va, j), dv.at(vb, j))
                              for j in range(d)])))
        dv.reach('unequal')
    e = dv.call('equals', a.equals, b)
    if dv.truth(e):
        for j in dv.each(d, 'k'):
            dv.check('equals-only-with-same-values',
                     dv.eq(dv.at(va, j), dv.at(vb, j)))
    else:
        dv.check('same-values-are-equals', rel not in ('same values', 'same'))


@contract('C22', 'individual.Individual.__eq__ individual.Individual.equals '
          'individual.Individual.__lt__ individual.Individual.__gt__',
          modes=('concrete',), runs=300)
def nearly(dv):
    """Ever so slightly different, and quite different in size."""
    import numpy as np
    r = dv.rng()
    I = dv.mod('individual')
    d = r.randint(1, 4)
    p = PStub(d)
    def other(x):
        return float(r.choice([
            np.nextafter(x, INF), np.nextafter(x, -INF), x*(1 + 1e-9),
            x*(1 - 1e-6), x + 1e-9, x + 1e-12, x*(1 + 1e-4)]))
    v = [r.choice([r.uniform(-1, 1), r.uniform(-1e-9, 1e-9),
                   r.uniform(-1e12, 1e12), 0.0]) for _ in range(d)]
    w = list(v)
    e = f = r.choice([r.uniform(0, 1), r.uniform(0, 1e-9),
                      r.uniform(0, 1e12), 0.0])
    if r.random() < 0.8:
        k = r.randrange(d)
        w[k] = other(v[k])
    if r.random() < 0.5:
        f = abs(other(e))
    a, b = I.Individual(p, v), I.Individual(p, w)
    a.SSE, b.SSE = e, f
    dv.check('equal-exactly-if-the-same', bool(a == b) == (
        v == w and e == f), "%r %r, %r %r" % (v, e, w, f))
    dv.check('equals-exactly-with-the-same-values',
             bool(a.equals(b)) == (v == w))
    dv.check('less', bool(a < b) == (e < f))
    dv.check('greater', bool(a > b) == (e > f))


@contract('C22', 'individual.Individual.copy individual.Individual.update',
          runs=300)
def copies(dv):
    d = dv.size('d', 1)
    a, va, ra = make(dv, 'a', PStub(d), d)
    c = dv.call('copy', a.copy)
    dv.check('another-object', c is not a)
    dv.check('same-population', c.p is a.p)
    dv.check('same-error', dv.eq(number(dv, c.SSE), error_of(dv, ra)))
    dv.check('same-length', dv.length(c.values) == d)
    for j in dv.each(d):
        dv.check('same-values', dv.eq(dv.at(c.values, j), dv.at(va, j)))
    dv.check('equal', dv.truth(a == c))
    # No shared storage
    old = dv.shadow(va)
    for k in dv.each(d, 'k'):
        c[k] = dv.real('new')
    for j in dv.each(d):
        dv.check('original-unaltered', dv.eq(dv.at(a.values, j),
                                             dv.at(old, j)))
    c.SSE = 3.25
    dv.check('original-error-unaltered',
             dv.eq(number(dv, a.SSE), error_of(dv, ra)))


@contract('C22', 'individual.Individual.evaluate', runs=400)
def evaluation(dv):
    """Stores the result, counts it and yields the same individual."""
    d = dv.size('d', 1)
    p = PStub(d)
    i, v, raw0 = make(dv, 'a', p, d)
    old = dv.shadow(i.values)
    outcome = dv.choose('outcome', ['value', 'failure'])
    when = dv.choose('when', ['at once', 'later'])
    raw = raw_error(dv, 'r') if outcome == 'value' else None
    p.answer = D = defer.Deferred()
    def fire():
        if outcome == 'value':
            D.callback(raw)
        else:
            D.errback(failure.Failure(ValueError("failed")))
    if when == 'at once':
        fire()
    threshold = dv.choose('threshold', [None, 12.5])
    if threshold is None:
        d2 = dv.call('evaluate', i.evaluate)
    else:
        d2 = dv.call('evaluate', i.evaluate, xSSE=threshold)
    if when == 'later':
        dv.check('waits', not getattr(d2, 'called', False))
        fire()
    out = dv.outcome(d2)
    dv.check('one-evaluation', len(p.asked) == 1)
    dv.check('done', out[0] == 'ok')
    dv.check('yields-itself', out[1] is i)
    if len(p.asked) == 1:
        dv.check('own-values-evaluated', dv.length(p.asked[0][0]) == d)
        for j in dv.each(d):
            dv.check('own-values-evaluated',
                     dv.eq(dv.at(p.asked[0][0], j), dv.at(old, j)))
        dv.check('threshold-passed-on', p.asked[0][1] == threshold)
    if outcome == 'value':
        dv.check('counted', p.counter == 8)
        dv.check('error-stored', dv.eq(number(dv, i.SSE), error_of(dv, raw)))
        dv.check('truth', dv.iff(i.__bool__(), dv.Not(fatal(dv, raw))))
        dv.reach('value')
    else:
        dv.check('error-infinite', dv.eq(i.SSE, INF))
        dv.check('falsy', dv.Not(i.__bool__()))
        dv.reach('failure')
    dv.check('same-number-of-values', dv.length(i.values) == d)
    for j in dv.each(d):
        dv.check('values-unaltered', dv.eq(dv.at(i.values, j), dv.at(old, j)))


@contract('C22', 'individual.Individual.__add__ individual.Individual.__sub__ '
          'individual.Individual.__mul__ individual.Individual.spawn',
          runs=200)
def arithmetic(dv):
    """Sums, differences and multiples are new individuals."""
    d = dv.size('d', 1)
    p = PStub(d)
    a, va, ra = make(dv, 'a', p, d)
    b, vb, rb = make(dv, 'b', p, d)
    oa, ob = dv.shadow(va), dv.shadow(vb)
    F = dv.real('F')
    out = {'add': dv.call('add', lambda: a + b),
           'sub': dv.call('sub', lambda: a - b),
           'mul': dv.call('mul', lambda: a * F)}
    for op, c in out.items():
        dv.check(op + '.new', c is not a and c is not b and c.p is p)
        dv.check(op + '.length', dv.length(c.values) == d)
        dv.check(op + '.not-evaluated', dv.eq(c.SSE, INF))
    for j in dv.each(d):
        x, y = dv.at(oa, j), dv.at(ob, j)
        dv.check('sum', dv.close(dv.at(out['add'].values, j), x + y))
        dv.check('difference', dv.close(dv.at(out['sub'].values, j), x - y))
        dv.check('multiple', dv.close(dv.at(out['mul'].values, j), F*x))
        dv.check('operands-unaltered', dv.And(
            dv.eq(dv.at(a.values, j), x), dv.eq(dv.at(b.values, j), y)))
    dv.check('errors-unaltered', dv.And(
        dv.eq(number(dv, a.SSE), error_of(dv, ra)),
        dv.eq(number(dv, b.SSE), error_of(dv, rb))))
