from pydv.harness import contract
from .common import *
from . import pieces, sim
from .challenge import challenge_contract

CHALLENGE = (
    'de.DifferentialEvolution.challenge de.DifferentialEvolution.crossover '
    'population.Population.lock population.Population.release '
    'population.Population.individuals population.Population.limit '
    'population.ParameterManager.limit population.Population.evalFunc '
    'population.Population.__setitem__ population.Population.report '
    'individual.Individual.evaluate individual.Individual.__add__ '
    'individual.Individual.__sub__ individual.Individual.__mul__ '
    'individual.Individual.__lt__ individual.Individual.__bool__ '
    'individual.Individual.SSE individual.Individual.__float__ '
    'individual.Individual.__getitem__ individual.Individual.__setitem__ '
    'individual.Individual.spawn individual.Individual.update '
    'population.Population.__getitem__')


@contract('C03', CHALLENGE, runs=400, weight=5)
def challenge(dv):
    challenge_contract(dv, 'C03')


@contract('C03', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)


@contract('C03', 'de.DifferentialEvolution.__call__',
          modes=('concrete',), runs=160, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C03', 'plain, plain, fatal, event, complaints, event in run')
