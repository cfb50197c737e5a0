"""
Scenes shared by several contracts.
"""
from twisted.internet import defer

from pydv.harness import Standin


def sym_module():
    from pydv import values
    return values


class Recorder(object):
    """Stand-in for a collaborator: records calls."""
    def __init__(self, dv, **results):
        self.__dict__['log'] = []
        self.__dict__['results'] = results
        self.__dict__['dv'] = dv

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        def method(*a, **k):
            self.log.append((name, a, k))
            r = self.results.get(name)
            return r(*a, **k) if callable(r) else r
        return method

    def __call__(self, *a, **k):
        self.log.append(('__call__', a, k))
        r = self.results.get('__call__')
        return r(*a, **k) if callable(r) else r


class HistoryStub(Recorder):
    N_total = 0

    def __init__(self, dv):
        Recorder.__init__(
            self, dv, add=lambda *a, **k: defer.succeed(None),
            notInPop=lambda *a, **k: defer.succeed(None),
            shutdown=lambda *a, **k: defer.succeed(None),
            clear=lambda *a, **k: defer.succeed(None))


class Bounds(object):
    """Arbitrary bounds for d parameters, lower <= upper."""
    def __init__(self, dv, d, name='b'):
        self.dv, self.d = dv, d
        self.lo = dv.vec(name + '_lo', d)
        self.hi = dv.vec(name + '_hi', d)
        if dv.sym:
            dv.forall(d, lambda i: dv.at(self.lo, i) <= dv.at(self.hi, i))
        else:
            import numpy as np
            a, b = np.minimum(self.lo, self.hi), np.maximum(self.lo, self.hi)
            self.lo, self.hi = a, b
            dv.inputs['%s_lo' % name] = list(a)
            dv.inputs['%s_hi' % name] = list(b)

    def pairs(self):
        if not isinstance(self.d, int):
            V = sym_module()
            lo, hi = self.lo, self.hi
            return V.SSeq(self.d, lambda z: (lo.at(z), hi.at(z)),
                          tag='bounds')
        return [(self.dv.at(self.lo, i), self.dv.at(self.hi, i))
                for i in range(self.d)]

    def inside(self, j, x):
        dv = self.dv
        return dv.And(dv.at(self.lo, j) <= x, x <= dv.at(self.hi, j))

    def limited(self, j, raw, x):
        """Is x an allowed outcome of bound handling for raw?"""
        dv = self.dv
        lo, hi = dv.at(self.lo, j), dv.at(self.hi, j)
        mlo, mhi = 2*lo - raw, 2*hi - raw
        return dv.And(
            lo <= x, x <= hi,
            dv.implies(dv.And(lo <= raw, raw <= hi), dv.eq(x, raw)),
            dv.implies(dv.And(raw < lo, mlo <= hi), dv.close(x, mlo)),
            dv.implies(dv.And(raw > hi, mhi >= lo), dv.close(x, mhi)))


def names_for(d):
    return ['p%s' % chr(ord('z') - i) for i in range(d)]


def make_pm(dv, d, bounds, constraints=()):
    """A parameter manager for d parameters (d possibly symbolic)."""
    P = dv.mod('population')
    if isinstance(d, int):
        return P.ParameterManager(
            names_for(d), bounds.pairs(), list(constraints))
    pm = dv.bare(P.ParameterManager)
    pm.names = None
    pm.constraints = list(constraints)
    pm.setup(bounds.pairs())
    return pm
