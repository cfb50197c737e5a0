"""C14: complaints."""
from pydv.harness import contract
from .common import *
from . import c07, delivery, reporting, sim

FUNCS = ('report.Reporter.runCallbacks report.Reporter.newBest '
         'report.Reporter.__call__ individual.Individual.blacklist '
         'population.Population.KS')


@contract('C14', FUNCS, modes=('bounded', 'concrete'), runs=300,
          note="up to three reports, two callbacks, arbitrary errors, one "
          "complaint at any delivery")
def scripts(dv):
    reporting.scripted(dv, 'C14', True)


@contract('C14', 'report.Reporter.runCallbacks report.Reporter.newBest '
          'report.Reporter.__call__ individual.Individual.blacklist',
          modes=('proof',))
def complaints(dv):
    """Any number of callbacks and former bests."""
    delivery.run(dv, True)


@contract('C14', 'individual.Individual.blacklist population.Population.KS',
          runs=200, budget=100)
def ranking(dv):
    """Reflects an individual's being blacklisted."""
    c07.blacklisting(dv)


@contract('C14', 'report.Reporter.__call__ report.Reporter.newBest '
          'report.Reporter.runCallbacks report.Reporter.isEquivSSE',
          modes=('proof',))
def meanwhile(dv):
    """A report while callbacks are being run."""
    delivery.meanwhile(dv)


@contract('C14', FUNCS, modes=('concrete',), runs=800)
def sequences(dv):
    """Long random sequences with any number of complaints."""
    reporting.random_script(dv, 'C14', True)


@contract('C14', 'population.Population.report '
          'population.Population.waitForReports',
          modes=('proof',))
def passed_on(dv):
    """The population tells the reporter, and waits for it."""
    delivery.passed_on(dv)


@contract('C14', 'population.Population.report',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C14', 'complaints')
