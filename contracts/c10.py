"""C10: the history roster is sorted, duplicate-free, bounded and faithful."""
from pydv.harness import contract
from . import ledger, pieces, roster, sim

H = ('history.History.add history.History.kkr history.History.purge '
     'history.History.notInPop history.History.clear '
     'history.History.purgePop history.History.__getitem__ '
     'history.History.__iter__ history.History.__len__ '
     'history.ClosestPairFinder.__call__ history.ClosestPairFinder.calculate '
     'history.ClosestPairFinder.calcerator history.ClosestPairFinder.setRow '
     'history.ClosestPairFinder.clearRow history.ClosestPairFinder.pairs_all ')


@contract('C10', H, modes=('bounded', 'concrete'), budget=100, weight=2, max_paths=20000, runs=200)
def short_sequences(dv):
    """All sequences of up to four operations on one or two places."""
    roster.short_script(dv, 'C10')


@contract('C10', H, modes=('concrete',), runs=700, weight=3)
def sequences(dv):
    roster.random_script(dv, 'C10', dv.choose('duplicates', [False, True]))


@contract('C10', H + 'history.ClosestPairFinder.pairs_sampled',
          modes=('concrete',), runs=6, weight=2)
def big_rosters(dv):
    roster.long_script(dv, 'C10')


@contract('C10', 'population.Population.setup '
          'de.DifferentialEvolution.__call__', modes=('concrete',),
          runs=120, weight=3)
def whole_runs(dv):
    """Setup and run through the public interface."""
    sim.whole(dv, 'C10', 'plain, small history, small history, complaints, '
              'loaded, fatal, refined')


@contract('C10', 'history.History.add history.History.kkr '
          'history.History.purge', modes=('proof',), budget=200, weight=2)
def any_addition(dv):
    ledger.add(pieces.Softly(dv))


@contract('C10', 'history.History.kkr', modes=('proof',), budget=100,
          weight=2)
def any_place(dv):
    ledger.place(pieces.Softly(dv))


@contract('C10', 'history.History.purge '
          'history.ClosestPairFinder.clearRow', modes=('proof',))
def any_purge(dv):
    ledger.purge(pieces.Softly(dv))


@contract('C10', 'history.History.notInPop '
          'history.ClosestPairFinder.setRow', modes=('proof',))
def any_departure(dv):
    ledger.leaves(pieces.Softly(dv))


@contract('C10', 'history.History.rekey', modes=('proof',))
def any_change_of_hash(dv):
    ledger.renamed(pieces.Softly(dv))


@contract('C10', 'history.History.clear', modes=('proof',))
def any_clearing(dv):
    ledger.cleared(pieces.Softly(dv))


@contract('C10', 'history.History.purgePop', modes=('proof',))
def any_purge_of_members(dv):
    ledger.without_members(pieces.Softly(dv))


@contract('C10', 'history.History.__len__ history.History.__getitem__ '
          'history.History.__iter__', modes=('proof',))
def any_listing(dv):
    ledger.listing(pieces.Softly(dv))


@contract('C10', 'history.History.__init__ history.History._initialize',
          modes=('proof',))
def any_new(dv):
    ledger.new(pieces.Softly(dv))


@contract('C10', 'history.ClosestPairFinder.pairs_all', modes=('proof',))
def any_pairs(dv):
    ledger.pairs(pieces.Softly(dv), 'all')


@contract('C10', 'history.ClosestPairFinder.pairs_sampled', modes=('proof',))
def any_sample(dv):
    ledger.pairs(pieces.Softly(dv), 'sampled')


@contract('C10', 'history.ClosestPairFinder.__call__ '
          'history.ClosestPairFinder.calculate '
          'history.ClosestPairFinder.calcerator '
          'history.ClosestPairFinder.done', modes=('proof',))
def any_candidates(dv):
    ledger.finder(pieces.Softly(dv))


@contract('C10', 'population.Population.setup', modes=('proof',))
def told_of_admission(dv):
    """Setup admits a member to any number of others."""
    from . import c11
    c11.admission(dv)


@contract('C10', 'de.DifferentialEvolution.__call__ '
          'de.DifferentialEvolution._run', modes=('proof',))
def the_run(dv):
    """Acts on the population by challenges only."""
    pieces.the_run(dv)
