"""C13: the best reported and the delivery of reports."""
from pydv.harness import contract
from .common import *
from . import delivery, reporting, sim
from .c15 import PStub, individual

FUNCS = ('report.Reporter.__call__ report.Reporter.newBest '
         'report.Reporter.runCallbacks report.Reporter.isEquivSSE '
         'report.Reporter.waitForCallbacks report.Reporter.addCallback '
         'util.Bag.__call__ util.Bag.__bool__ util.Bag.pop')


@contract('C13', 'report.Reporter.__call__ report.Reporter.newBest '
          'report.Reporter.msgRatio report.Reporter.isEquivSSE', runs=600)
def best_step(dv):
    """
    Whatever was reported before, one more report leaves the best of all as
    the best.
    """
    p = PStub()
    rep = dv.mod('report').Reporter(p)
    had = dv.choose('had', [True, False])
    b = last = None
    if had:
        b = individual(dv, p, dv.flt('best', nan=False, ninf=False, lo=0))
        rep.iBest = b
        if dv.choose('reported', [True, False]):
            last = individual(dv, p, dv.flt(
                'last', nan=False, ninf=False, lo=0))
            last.values = last.values + 1
            rep.iLastReported = last
    kind = dv.choose('kind', ['number', 'missing', 'negative'])
    if kind == 'number':
        e = dv.flt('e', ninf=False, lo=0)
    elif kind == 'missing':
        e = None
    else:
        e = dv.real('neg', None, -0.001)
    i = individual(dv, p, e)
    i.values = i.values + 2
    other = None
    if kind != 'negative' and dv.choose('against', [True, False]):
        other = individual(dv, p, dv.flt('other', ninf=False, lo=0))
        other.values = other.values + 3
    dv.call('report', rep, i, other, noProgress=dv.choose(
        'quiet', [True, False]), force=dv.choose('force', [True, False]))
    got = rep.iBest
    if kind == 'negative':
        dv.check('fatal-never-best', got is b)
        return
    dv.check('somebody-is-best', got is not None)
    if got is None:
        return
    dv.check('among-the-reported', got is i or got is b)
    dv.check('not-worse-than-the-reported', dv.Not(i.SSE < got.SSE))
    if had:
        dv.check('not-worse-than-before', dv.Not(b.SSE < got.SSE))
    dv.reach('judged')


@contract('C13', FUNCS, modes=('bounded', 'concrete'), runs=200,
          note="up to three reports, two callbacks, arbitrary errors")
def scripts(dv):
    reporting.scripted(dv, 'C13', False)


@contract('C13', FUNCS, modes=('proof',))
def deliveries(dv):
    """Any number of callbacks and reports."""
    delivery.run(dv, False)


@contract('C13', 'report.Reporter.__call__ report.Reporter.newBest '
          'report.Reporter.runCallbacks report.Reporter.isEquivSSE',
          modes=('proof',))
def meanwhile(dv):
    """A report while callbacks are being run."""
    delivery.meanwhile(dv)


@contract('C13', FUNCS, modes=('concrete',), runs=800)
def sequences(dv):
    """Long random sequences."""
    reporting.random_script(dv, 'C13', False)


@contract('C13', FUNCS, modes=('concrete',), runs=300)
def with_complaints(dv):
    """Delivery is as orderly when callbacks complain."""
    reporting.random_script(dv, 'C13', True)


@contract('C13', 'population.Population.report '
          'population.Population.waitForReports',
          modes=('proof',))
def passed_on(dv):
    """The population tells the reporter, and waits for it."""
    delivery.passed_on(dv)


@contract('C13', 'population.Population.report '
          'population.Population.waitForReports',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C13', 'plain, plain, complaints, loaded, event')
