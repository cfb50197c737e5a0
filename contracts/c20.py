"""C20: history analysis answers match the records."""
import math, os

import numpy as np

from pydv.harness import contract
from .common import *
from . import ledger, pieces, queries, roster


def records(dv, r):
    """A table with spare rows and the listing of some of its rows."""
    H = dv.mod('history')
    nd = r.choice([1, 2, 3, 5])
    names = names_for(nd)
    r.shuffle(names)
    n = r.choice([0, 1, 2, 3, 8, 40])
    rows = n + r.randint(0, 5)
    dtype = r.choice(['f4', 'f8'])
    X = np.zeros((max(rows, 1), nd+1), dtype=dtype)
    for k in range(len(X)):
        X[k, :] = [r.choice([r.random(), r.uniform(0, 100), 10**r.uniform(
            -3, 5), float(r.randint(0, 4))])] + [
                r.uniform(-10, 10) for _ in range(nd)]
        if dv.inputs.get('zeros') and r.random() < 0.3:
            X[k, 0] = r.choice([0, 1E-12])
    K = r.sample(range(len(X)), min(n, len(X)))
    K.sort(key=lambda k: X[k, 0])
    Kp, Kn = set(), set()
    for k in K:
        j = r.random()
        if j < 0.4:
            Kp.add(k)
        elif j < 0.7:
            Kn.add(k)
    return H.Analysis(names, X, K, Kp, Kn), names


def selection(dv, r, names):
    """Arguments and the names they stand for."""
    k = r.random()
    if k < 0.3:
        return [], sorted(names)
    if k < 0.7:
        chosen = r.sample(names, r.randint(1, len(names)))
        return chosen, chosen
    args = [r.randint(0, len(names)) for _ in range(r.choice([1, 2]))]
    return args, sorted(names)[slice(*args)]


CLASSES = [None, 'inPop', 'notInPop', 'neverInPop']


def in_class(a, k, which):
    if which == 'inPop':
        return k in a.Kp
    if which == 'notInPop':
        return k not in a.Kp and k not in a.Kn
    if which == 'neverInPop':
        return k in a.Kn
    return True


def judge_values(dv, a, names, args, want_names, which, ratio):
    kw = {}
    if which:
        kw[which] = True
    for other in CLASSES[1:]:
        if other != which and dv.rng().random() < 0.1:
            kw[other] = False
    limit = 1000
    if ratio is not None:
        kw['maxRatio'] = limit = ratio
    out = dv.call('values', a.value_vs_SSE, args, **kw)
    dv.check('an-array-for-each', len(out) == 1 + len(want_names))
    if len(a.K):
        best = a.X[a.K[0], 0]
    want = [k for k in a.K if in_class(a, k, which) and
            a.X[k, 0] <= limit*best]
    got = [float(x) for x in out[0]]
    dv.check('errors', got == [float(a.X[k, 0]) for k in want],
             "%r, expected those of rows %r" % (got, want))
    dv.check('ascending', all(x <= y for x, y in zip(got, got[1:])))
    for name, col in zip(want_names, out[1:]):
        j = names.index(name) + 1
        dv.check('values-aligned', [float(x) for x in col] == [
            float(a.X[k, j]) for k in want])


@contract('C20', 'history.Analysis.value_vs_SSE history.Analysis.args2names '
          'history.Analysis.name2k', modes=('concrete',), runs=900)
def value_queries(dv):
    r = dv.rng()
    dv.choose('zeros', [0, 0, 0, 1])
    a, names = records(dv, r)
    for _ in range(4):
        args, want = selection(dv, r, names)
        judge_values(dv, a, names, args, want, r.choice(CLASSES),
                     r.choice([None, 0, 1, 1.0, 1.5, 2, 10, 1000, 1e6]))


@contract('C20', 'history.Analysis.args2names', modes=('concrete',), runs=300)
def name_selections(dv):
    r = dv.rng()
    a, names = records(dv, r)
    args, want = selection(dv, r, names)
    dv.check('selected', list(dv.call('select', a.args2names, args)) == want)


class Names(object):
    """Any number of distinct names."""
    def __init__(self, dv, n):
        import z3
        self.dv, self.n = dv, n
        V = sym_module()
        self.f = z3.Function(dv.e.fresh('name'), z3.IntSort(), z3.IntSort())
        i, j = z3.Ints('i j')
        inside = lambda k: z3.And(k >= 0, k < V.zi(n))
        dv.e.add(z3.ForAll([i, j], z3.Implies(
            z3.And(inside(i), inside(j), self.f(i) == self.f(j)), i == j)))
    def __getitem__(self, k):
        V = sym_module()
        z = V.zi(k)
        if self.dv.e.fork(z < 0):
            z = z + V.zi(self.n)
        if self.dv.e.fork(z < 0) or self.dv.e.fork(z >= V.zi(self.n)):
            raise IndexError("list index out of range")
        return V.SInt(self.f(z))
    def index(self, x):
        """As of a list: where it is."""
        import z3
        V = sym_module()
        j = z3.Int(self.dv.e.fresh('where'))
        self.dv.e.add(z3.And(j >= 0, j < V.zi(self.n), self.f(j) == x.z))
        return V.SInt(j)


@contract('C20', 'history.Analysis.name2k history.Analysis.k2name', runs=200)
def columns(dv):
    """Column to name and back."""
    H = dv.mod('history')
    n = dv.size('n', 1, bounded=(1, 2, 3))
    a = dv.bare(H.Analysis)
    a.names = names_for(n) if isinstance(n, int) else Names(dv, n)
    k = dv.idx('k', n) + 1
    name = dv.call('name', a.k2name, k)
    dv.check('column-of-name', dv.eq(dv.call('column', a.name2k, name), k))
    j = dv.idx('j', n)
    name = a.names[j]
    k = dv.call('column', a.name2k, name)
    back = dv.call('name', a.k2name, k)
    dv.check('name-of-column', dv.eq(back, name) if not isinstance(n, int)
             else back == name)
    dv.check('errors-come-first', k >= 1)
    if isinstance(n, int):
        X = np.array([[0.0] + [float(i) for i in range(n)]])
        dv.check('column-of-values', X[0, k] == names_for(n).index(name))


@contract('C20', 'history.Analysis.Kf12 history.Analysis.Kp12',
          modes=('concrete',), runs=600)
def fractions(dv):
    """Records between two fractions of the errors or of the listing."""
    r = dv.rng()
    a, names = records(dv, r)
    if not len(a.K):
        dv.assume(False)
    f = sorted([r.choice([0, 0.25, 0.5, 1.0, 1.01, r.random()])
                for _ in range(2)])
    got = [int(k) for k in dv.call('values', a.Kf12, *f)]
    SSE = a.X[a.K, 0]
    lo, hi = [SSE[0] + x*(SSE[-1] - SSE[0]) for x in f]
    near = lambda x, y: abs(x - y) <= 1e-5*(abs(x) + abs(y))
    must = [k for k, e in zip(a.K, SSE) if lo <= e < hi and
            not near(e, lo) and not near(e, hi)]
    may = [k for k, e in zip(a.K, SSE) if lo <= e < hi or near(e, lo) or
           near(e, hi)]
    dv.check('between-error-fractions',
             set(must) <= set(got) <= set(may) and len(set(got)) == len(got),
             "%r, expected %r" % (got, must))
    if f[0] == 0 and hi > SSE[0]:
        dv.check('best-included', a.K[0] in got)
    N = len(a.K)
    p = sorted([r.choice([0, 0.25, 0.5, 1.0, r.random()]) for _ in range(2)])
    got = [int(k) for k in dv.call('portion', a.Kp12, *p)]
    want = [k for j, k in enumerate(a.K)
            if math.floor(p[0]*N) <= j <= math.floor(p[1]*N)]
    dv.check('between-portions', got == want,
             "%r of %r gives %r, expected %r" % (p, a.K, got, want))


@contract('C20', 'history.Analysis.filePath', modes=('concrete',), runs=60)
def plot_files(dv):
    """No name twice."""
    r = dv.rng()
    H = dv.mod('history')
    base = r.choice(['plot.png', '/some/where/plot.png', 'a/b.c.png', 'x'])
    if r.random() < 0.5:
        a = H.Analysis(['a'], np.zeros((1, 2)), [0], baseFilePath=base)
    else:
        a = H.Analysis(['a'], np.zeros((1, 2)), [0])
        dv.check('no-file', a.filePath() is None)
        dv.check('set', a.filePath(base, r.choice([
            None, '1000', '800x600'])) is None)
    seen = set()
    for k in range(r.choice([r.randint(1, 30), 300, 1200])):
        path, width, height = a.filePath()
        dv.check('never-the-same-twice', path not in seen,
                 "%r generated again" % path)
        dv.check('same-directory', os.path.dirname(path) ==
                 os.path.dirname(base))
        seen.add(path)


@contract('C20', 'history.Analysis.value_vs_SSE history.Analysis.name2k',
          modes=('proof',), budget=240, weight=3)
def any_query(dv):
    queries.value_vs_SSE(pieces.Softly(dv))


@contract('C20', 'history.Analysis.args2names', modes=('proof',))
def any_names(dv):
    queries.args2names(pieces.Softly(dv))


@contract('C20', 'history.Analysis.Kf12', modes=('proof',))
def any_fractions(dv):
    queries.Kf12(pieces.Softly(dv))


@contract('C20', 'history.Analysis.Kp12', modes=('proof',))
def any_portions(dv):
    queries.Kp12(pieces.Softly(dv))


@contract('C20', 'history.History.value_vs_SSE', modes=('proof',))
def any_query_of_history(dv):
    queries.asked_of_history(pieces.Softly(dv))


@contract('C20', 'history.Analysis.filePath', modes=('proof',))
def any_plot_files(dv):
    queries.plot_files(pieces.Softly(dv))


@contract('C20', 'history.History.add', modes=('proof',), budget=200,
          weight=2)
def any_addition(dv):
    ledger.add(pieces.Softly(dv))


@contract('C20', 'history.History.notInPop', modes=('proof',))
def any_departure(dv):
    ledger.leaves(pieces.Softly(dv))


@contract('C20', 'history.History.clear', modes=('proof',))
def any_clearing(dv):
    ledger.cleared(pieces.Softly(dv))


@contract('C20', 'history.History.purgePop', modes=('proof',))
def any_purge_of_members(dv):
    ledger.without_members(pieces.Softly(dv))


@contract('C20', 'history.History.value_vs_SSE history.History.add '
          'history.History.notInPop history.History.clear '
          'history.History.purgePop', modes=('concrete',), runs=400, weight=2)
def whole_histories(dv):
    """Queries at any point in a history's life."""
    roster.random_script(dv, 'C20')
