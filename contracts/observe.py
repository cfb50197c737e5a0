"""What a user can see of a population."""
import math

import numpy as np


def number(x):
    """Comparable and the same after JSON."""
    if x is None:
        return None
    return float(x).hex()


def listing(h):
    """History in order of its records, with marks."""
    K = [int(k) for k in h.K]
    Kp, Kn = set(int(k) for k in h.Kp), set(int(k) for k in h.Kn)
    return [[[number(x) for x in h[j]], K[j] in Kp, K[j] in Kn]
            for j in range(len(h))]


def population(p):
    """Everything worth preserving."""
    pm = p.pm
    out = {
        'size': [len(p), int(p.Np), int(p.Nd), number(p.popsize)],
        'members': [[number(x) for x in i.values] for i in p],
        'errors': [number(i.SSE) for i in p],
        'ranking': None if p.KS is None else [int(k) for k in p.KS],
        'names': list(pm.names),
        'order': [name for _, name in pm.sortedNamerator()],
        'bounds': [[number(a), number(b)] for a, b in zip(pm.mins, pm.maxs)],
        'middle': [number(x) for x in pm.fromUnity(0.5*np.ones(p.Nd))],
        'settings': [bool(p.debug), number(p.targetFraction),
                     number(p.statusQuoScore)],
        'history': listing(p.history),
        'history_names': list(p.history.names),
        'history_counts': [int(p.history.N_total), int(p.history.N_max),
                           len(p.history)],
    }
    best = p.best()
    out['best'] = None if best is None else number(best.SSE)
    return out


def marked(p):
    """Records marked as being in the population."""
    h = p.history
    X = h.X
    return sorted([[number(x) for x in X[k]] for k in h.Kp])


def members(p):
    """What the records of the members should look like."""
    out = []
    with np.errstate(over='ignore'):
        for i in p:
            e = float(np.float32(i.SSE))
            if math.isfinite(e):
                out.append([number(e)] + [
                    number(np.float32(x)) for x in i.values])
    return sorted(out)
