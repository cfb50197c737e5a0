"""
Loads a saved population in a process of its own, says what it found, and
continues from there.

Usage: second_process.py REPO FILE SEED
"""
import json, math, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(repo, path, seed):
    sys.path.insert(0, ROOT)
    from pydv import run
    run.prepare_concrete(repo)
    import random
    random.seed(seed)
    import numpy as np
    np.random.seed(seed)
    from twisted.internet import reactor
    from ade import population, de
    from contracts import observe
    evaluated = []
    def func(values, xSSE=None):
        evaluated.append([float(x) for x in values])
        return float(np.sum(np.square(values)))
    p = population.Population.load(path, func=func)
    out = {'loaded': observe.population(p)}
    out['members_belong'] = all(i.p is p for i in p)
    d = de.DifferentialEvolution(p, maxiter=1, logHandle=None)()
    done = []
    d.addBoth(done.append)
    d2 = p.history.shutdown()
    reactor.spin(lambda: bool(done), 100000)
    out['done'] = bool(done) and done[0] is p
    out['evaluated'] = evaluated
    out['after'] = observe.population(p)
    out['after']['marked'] = observe.marked(p)
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    sys.stderr = open(os.devnull, 'w')
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]))
