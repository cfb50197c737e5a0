"""Contracts of the small functions in toys/, for testing the verifier."""
import math

import numpy as np
from twisted.internet import defer

from pydv.harness import contract
from .common import *


def both(functions):
    """Registers a contract for the right and for the wrong version."""
    def wrap(fn):
        for suffix in ('', '_bad'):
            def body(dv, suffix=suffix):
                f = getattr(dv.mod('toy'), functions + suffix)
                return fn(dv, f)
            body.__name__ = fn.__name__ + suffix
            body.__doc__ = fn.__doc__
            contract('TOYS', 'toy.' + functions + suffix, runs=600)(body)
        return fn
    return wrap


@both('clip')
def clipping(dv, f):
    x, lo, hi = dv.real('x'), dv.real('lo'), dv.real('hi')
    dv.assume(lo <= hi)
    y = f(x, lo, hi)
    dv.check('inside', dv.And(lo <= y, y <= hi))
    dv.check('kept', dv.implies(dv.And(lo <= x, x <= hi), dv.eq(x, y)))


@both('reflect')
def reflecting(dv, f):
    d = dv.size('d', 1, bounded=(1, 2))
    b = Bounds(dv, d)
    v = dv.vec('v', d)
    j = dv.idx('j', d)
    raw = dv.at(v, j)
    w = f(v, b.lo, b.hi)
    dv.check('limited', b.limited(j, raw, dv.at(w, j)))


@both('total')
def totalling(dv, f):
    n = dv.size('n', 0, bounded=(0, 1, 2, 9))
    if dv.sym:
        from pydv import loops
        def inv(L, idx, locs):
            s = locs['s']
            return [('sum', dv.eq(2*s, idx*(idx-1)))]
        dv.loopspec(loops.Spec(tag='range', inv=inv))
    s = f(n)
    dv.check('sum', dv.eq(2*s, n*(n-1)))


@both('first_at_least')
def finding(dv, f):
    n = dv.size('n', 0, bounded=(0, 1, 2))
    if isinstance(n, int):
        seq = [dv.int('x%d' % k, -3, 3) for k in range(n)]
    else:
        import z3
        from pydv import loops
        V = sym_module()
        F = z3.Function('F', z3.IntSort(), z3.IntSort())
        seq = V.SSeq(n, lambda z: V.SInt(F(z)), tag='seq')
        k = z3.Int('k')
        def inv(L, idx, locs):
            return [('none-so-far', V.SBool(z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < idx.z), F(k) < V.zi(x)))))]
        dv.loopspec(loops.Spec(tag='enumerate:seq', inv=inv))
    x = dv.int('x', -3, 3)
    j = f(seq, x)
    if j is None:
        if isinstance(n, int):
            dv.check('there-is-none', all(bool(y < x) for y in seq))
        else:
            i = dv.idx('i', n)
            dv.check('there-is-none', seq[i] < x)
    else:
        dv.check('found', seq[j] >= x)
        dv.reach('found')


@both('best')
def choosing(dv, f):
    n = dv.size('n', 1, bounded=(1, 2, 3))
    if isinstance(n, int):
        seq = [dv.real('x%d' % k) for k in range(n)]
    else:
        import z3
        V = sym_module()
        F = z3.Function('F', z3.IntSort(), z3.RealSort())
        seq = V.SSeq(n, lambda z: V.SFloat(F(z)), tag='seq')
    k = f(seq)
    j = dv.idx('j', n)
    dv.check('none-better', dv.Not(seq[j] < seq[k]))


@both('worse')
def comparing(dv, f):
    """Not the same thing with NaN."""
    a, b = dv.flt('a'), dv.flt('b')
    r = f(a, b)
    dv.check('negation', dv.iff(r, dv.Not(a < b)))


@both('average')
def averaging(dv, f):
    a, b = dv.real('a'), dv.real('b')
    x = f(a, b)
    dv.check('between', dv.implies(a <= b, dv.Or(
        dv.And(a <= x, x <= b), dv.close(a, x), dv.close(x, b))))


@both('Account')
def interleaving(dv, C):
    """Lost updates."""
    a = C()
    ds = [defer.Deferred(), defer.Deferred()]
    outs = [dv.outcome(a.deposit(d)) for d in ds]
    x, y = dv.int('x', -9, 9), dv.int('y', -9, 9)
    order = dv.choose('order', [0, 1])
    for k in ((0, 1), (1, 0))[order]:
        ds[k].callback((x, y)[k])
    dv.reactor.spin(lambda: all(o[0] != 'pending' for o in outs), 100)
    dv.check('done', all(o[0] == 'ok' for o in outs))
    dv.check('sum', dv.eq(a.balance, x + y))
