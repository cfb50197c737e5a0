"""
Proofs about functions several properties rest on, to go with the property
that is really about them.  Their obligations are sufficient conditions only
here: if one fails, nothing is said about the property at hand.
"""
from .common import *


class Softly(object):
    """Same as the harness, but obligations are sufficient conditions."""
    def __init__(self, dv):
        self.__dict__['dv'] = dv
    def __getattr__(self, name):
        return getattr(self.dv, name)
    def check(self, name, cond, detail=None, soft=True):
        return self.dv.check(name, cond, detail, soft=True)
    def call(self, name, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:
            self.dv.e.alive()
            self.dv.skip("%s: %r" % (name, e))


def the_run(dv):
    """
    A run acts on the population by challenges only (anything else asked of
    it is unsupported), one per slot and generation, the base not being the
    target.
    """
    from . import c17
    c17.Run(Softly(dv)).prove()


def initial(dv, limited=False):
    """Setup evaluates and admits what passed the constraints and limits."""
    from . import c02
    c02.filling(Softly(dv), limited)
