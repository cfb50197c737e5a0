"""
A model of the history's roster, for C10, C11 and C20: which records there
must be, in what order, and with which membership marks.
"""
import math, pickle

import numpy as np
from twisted.internet import defer

from .common import Standin, names_for


def f4(x):
    with np.errstate(over='ignore', invalid='ignore'):
        return float(np.float32(x))


class Pop(Standin):
    """As much of a population as an individual needs."""
    def __init__(self, h, Nd):
        self.history, self.Nd = h, Nd
        self.members = []
        self.sorts = 0
    def __iter__(self):
        return iter(self.members)
    def __len__(self):
        return len(self.members)
    @property
    def KS(self):
        return None
    @KS.deleter
    def KS(self):
        self.sorts += 1


class Roster(object):
    def __init__(self, dv, prop, N_max, Nd=2):
        self.dv, self.prop = dv, prop
        self.N_max, self.Nd = N_max, Nd
        self.names = names_for(Nd)
        self.h = dv.mod('history').History(self.names, N_max=N_max)
        self.p = Pop(self.h, Nd)
        self.members = []       # (individual, record) with a record
        self.pool = []          # records that may be there, not of members
        self.n_non = 0          # how many of them there are
        self.unique = True
        self.seen = set()
        self.waiting = []
        self.old = []           # members when everything was cleared

    def check(self, props, name, cond, detail=None):
        if self.prop in props.split():
            self.dv.check(name, cond, detail)

    def individual(self, SSE, values):
        i = self.dv.mod('individual').Individual(self.p, np.array(
            values, dtype=float))
        i.SSE = SSE
        v = tuple(f4(x) for x in values)
        if v in self.seen:
            self.unique = False
        self.seen.add(v)
        return i

    @staticmethod
    def record(i, status):
        return {'row': (f4(i.SSE),) + tuple(f4(x) for x in i.values),
                'status': status}

    def __len__(self):
        return len(self.members) + self.n_non

    # --- operations -------------------------------------------------------
    def done(self, d):
        out = self.dv.outcome(d)
        self.waiting.append(out)
        return out

    def add(self, i, never=False):
        rec = self.record(i, 'never' if never else 'member')
        if not never:
            self.p.members.append(i)
        d = self.h.add(i, neverInPop=True) if never else self.h.add(i)
        out = self.done(d)
        if not all(math.isfinite(x) for x in rec['row']):
            return out, None, None
        evicts = False
        if len(self) >= self.N_max:
            if not self.n_non:
                return out, rec, 'refused'
            self.n_non -= 1
            evicts = True
        if never:
            self.pool.append(rec)
            self.n_non += 1
        else:
            self.members.append((i, rec))
        return out, rec, 'evicts' if evicts else 'added'

    def leave(self, i):
        """No longer in the population."""
        self.p.members = [x for x in self.p.members if x is not i]
        out = self.done(self.h.notInPop(i))
        for k, (x, rec) in enumerate(self.members):
            if x is i:
                del self.members[k]
                rec['status'] = 'former'
                self.pool.append(rec)
                self.n_non += 1
                break
        return out

    def clear(self):
        out = self.done(self.h.clear())
        self.old += self.p.members
        self.members, self.pool, self.n_non = [], [], 0
        self.p.members = []
        return out

    def purge_members(self):
        out = self.done(self.h.purgePop())
        self.members = []
        return out

    def load(self):
        """Goes on with what has been saved."""
        if self.rest():
            self.h = self.p.history = pickle.loads(pickle.dumps(self.h))

    def rest(self):
        """Lets everything requested come to an end."""
        out = self.dv.outcome(self.h.shutdown())
        self.dv.reactor.spin(lambda: out[0] != 'pending', limit=3000)
        for o in self.waiting:
            if out[0] != 'ok' and o[0] == 'failed':
                self.dv.trace.append(o[1].getTraceback()[-800:])
        self.check('C10 C11 C20', 'comes-to-rest', out[0] == 'ok',
                   self.dv.trace[-1:])
        for o in self.waiting:
            if o[0] == 'failed':
                self.dv.trace.append(o[1].getTraceback()[-800:])
            self.check('C10 C11 C20', 'operations-finish', o[0] == 'ok',
                       self.dv.trace[-1:])
        self.waiting = []
        return out[0] == 'ok'

    # --- judgement --------------------------------------------------------
    def listing(self):
        h = self.h
        return [tuple(float(x) for x in h[k]) for k in range(len(h))]

    def judge(self):
        if not self.rest():
            return
        h = self.h
        rows = self.listing()
        self.check('C10', 'listing-without-the-errors', [
            tuple(float(x) for x in v) for v in h] == [
                r[1:] for r in rows])
        self.check('C10', 'at-most-maximum', len(rows) <= self.N_max,
                   "%d of %d" % (len(rows), self.N_max))
        self.check('C10', 'ascending', all(
            a[0] <= b[0] for a, b in zip(rows, rows[1:])), rows)
        K = [int(k) for k in h.K]
        self.check('C10', 'own-storage', len(set(K)) == len(K) and all(
            0 <= k < self.N_max for k in K), K)
        self.check('C10', 'as-many-as-there-should-be',
                   len(rows) == len(self), "%d, should be %d" % (
                       len(rows), len(self)))
        # Each listed record is one that was added
        left = [r['row'] for r in self.pool] + [
            r['row'] for i, r in self.members]
        ok = True
        for row in rows:
            if row in left:
                left.remove(row)
            else:
                ok = False
                self.check('C10', 'record-faithful', False,
                           "%r was not added or is gone" % (row,))
        if ok:
            self.check('C10', 'record-faithful', True)
            self.check('C10 C11', 'members-still-listed',
                       not self.unique or all(
                row in rows for row in [r['row'] for i, r in self.members]),
                "listed %r" % (rows,))
        if self.prop == 'C11':
            self.judge_marks(K, rows)
        if self.prop == 'C20' and self.unique:
            self.judge_queries(rows)

    def judge_marks(self, K, rows):
        h = self.h
        if len(K) != len(rows):
            return
        Kp, Kn = set(int(k) for k in h.Kp), set(int(k) for k in h.Kn)
        self.check('C11', 'marks-refer-to-records', Kp | Kn <= set(K))
        self.check('C11', 'marks-exclusive', not Kp & Kn)
        if not self.unique:
            return
        status = self.statuses()
        for k, row in zip(K, rows):
            got = 'member' if k in Kp else 'never' if k in Kn else 'former'
            self.check('C11', 'marked-as-what-it-is',
                       got == status.get(row), "%r marked %s, is %s" % (
                           row, got, status.get(row)))

    def statuses(self):
        status = {}
        for i, r in self.members:
            status[r['row']] = 'member'
        for r in self.pool:
            status[r['row']] = r['status']
        return status

    def judge_queries(self, rows):
        """What the history says about its records."""
        dv, h = self.dv, self.h
        r = dv.rng()
        status = self.statuses()
        if r.random() < 0.2:
            h = pickle.loads(pickle.dumps(h))
        which, of = r.choice([
            (None, None), ('inPop', 'member'), ('notInPop', 'former'),
            ('neverInPop', 'never')])
        kw = {which: True} if which else {}
        ratio = r.choice([None, 1, 1.7, 30.3, 1e6])
        if ratio is not None:
            kw['maxRatio'] = ratio
        limit = (ratio or 1000)*(rows[0][0] if rows else 0)
        if ratio != 1 and any(abs(row[0] - limit) <= 1e-5*row[0]
                              for row in rows):
            return
        names = r.sample(self.names, r.randint(1, self.Nd))
        out = self.done(h.value_vs_SSE(names, **kw))
        self.check('C20', 'query-answered', out[0] == 'ok', out[1])
        if out[0] != 'ok':
            return
        want = [row for row in rows if row[0] <= limit and
                of in (None, status.get(row))]
        cols = [0] + [self.names.index(n) + 1 for n in names]
        self.check('C20', 'an-array-for-each', len(out[1]) == len(cols))
        for c, got in zip(cols, out[1]):
            self.check('C20', 'exactly-the-records-asked-for', [
                float(x) for x in got] == [row[c] for row in want],
                "%s: column %d %r, expected of %r" % (which, c, got, want))

    def step_add(self, i, never=False):
        """One addition, everything at rest before and after."""
        before = self.listing()
        D = self.expendable() if len(self) >= self.N_max else None
        members = [r['row'] for _, r in self.members]
        out, rec, what = self.add(i, never)
        if not self.rest():
            return
        after = self.listing()
        gone = list(before)
        new = []
        for row in after:
            if row in gone:
                gone.remove(row)
            else:
                new.append(row)
        if rec is None or what == 'refused':
            self.check('C10', 'no-record', not gone and not new and
                       out[1] is None)
            self.check('C11', 'no-member-dropped', not gone)
            return
        # (if it is the same as the one dropped, neither shows)
        self.check('C10', 'exactly-the-new-record', new == [rec['row']] or
                   (what == 'evicts' and not new and not gone),
                   "added %r" % (new,))
        if out[0] == 'ok' and out[1] is not None:
            self.check('C10', 'row-told', tuple(
                float(x) for x in self.h.X[out[1], :]) == rec['row'])
        if what == 'added':
            self.check('C10 C11', 'nobody-dropped-while-room', not gone)
            return
        self.check('C10 C11', 'one-dropped', len(gone) == 1 or not new,
                   "dropped %r" % (gone,))
        if not gone:
            return
        self.check('C11', 'member-not-dropped', gone[0] not in members or
                   gone[0] in [r['row'] for r in self.pool])
        if D is not None and self.unique:
            self.check('C11', 'dropped-from-most-similar-pair',
                       gone[0] in D, "dropped %r, most similar: %r" % (
                           gone[0], D))
        # It cannot come back
        for k, r in enumerate(self.pool):
            if r['row'] == gone[0] and r is not rec:
                del self.pool[k]
                break

    def expendable(self):
        """
        Records in the most similar pair of those not in the population, by
        the documented measure; None if that cannot be told.
        """
        h = self.h
        Kp, Kn = set(h.Kp), set(h.Kn)
        K = [k for k in h.K if k not in Kp]
        rows = {k: np.array(h.X[k, :], dtype=float) for k in K}
        if len(K) < 2:
            return [tuple(float(x) for x in rows[k]) for k in K]
        if len(K)*(len(K) - 1)/2 >= 10000:
            return None
        var = np.var(np.array(list(rows.values())), axis=0) + 1e-20
        pairs = [(a, b) for a in K for b in K if a < b]
        never = [k for k in K if k in Kn]
        penalty = 1
        if never:
            penalty = 1 + np.exp(12*(np.floor(len(never)/len(pairs)) - 0.4))
        D = []
        for a, b in pairs:
            m = 0.5*(rows[a][0] + rows[b][0])
            if m == 0:
                return None
            x = np.sum(np.square(rows[a] - rows[b])/var)/m
            D.append(x/(penalty if a in Kn else 1))
        if not np.all(np.isfinite(D)):
            return None
        best = min(D)
        out = []
        for (a, b), x in zip(pairs, D):
            if x <= best*(1 + 1e-6) + 1e-300:
                out += [tuple(float(y) for y in rows[k]) for k in (a, b)]
        return out


# --- scripts ----------------------------------------------------------------
def error(r):
    k = r.random()
    if k < 0.5:
        return r.random()*10**r.randint(-2, 3)
    if k < 0.85:
        return float(r.randint(1, 4))
    return r.choice([0.0, math.inf, math.nan, None, -1.0, 1e39, 1e300, 1e-50,
                     np.float64(2.0), 3])


def values(r, Nd, dup=None):
    if dup is not None and r.random() < 0.1:
        return list(dup)
    k = r.random()
    if k < 0.05:
        return [r.choice([1e39, 0.0, -1e300]) for _ in range(Nd)]
    if k < 0.5:
        return [float(r.randint(-3, 3)) + r.random()*1e-3 for _ in range(Nd)]
    return [r.uniform(-5, 5) for _ in range(Nd)]


def random_script(dv, prop, duplicates=False):
    r = dv.rng()
    dv.random.open = True
    N_max = dv.choose('N_max', [1, 2, 3, 3, 5, 8, 12, 30])
    Nd = dv.choose('Nd', [1, 2, 3])
    style = dv.choose('style', ['waiting', 'waiting', 'overlapping'])
    R = Roster(dv, prop, N_max, Nd)
    last = None
    for _ in range(r.randint(1, 40)):
        what = r.choice(['add']*5 + ['never']*5 + ['replace']*6 +
                        ['leave', 'leave', 'blacklist', 'judge', 'judge'] +
                        (['clear', 'purge members'] if r.random() < 0.2
                         else []) + ['old leave', 'again']*bool(R.old) +
                        ['load'])
        if what in ('add', 'never', 'replace'):
            # (identical members cannot be told apart)
            v = values(r, Nd, last if duplicates and what == 'never'
                       else None)
            i = R.individual(error(r), v)
            last = v
        if what == 'add' and len(R.p) >= 10:
            what = 'replace'
        if what == 'replace' and len(R.p):
            R.leave(r.choice(R.p.members))
            what = 'add'
        elif what == 'replace':
            what = 'add'
        if what in ('add', 'never'):
            if style == 'waiting':
                R.rest()
                R.step_add(i, what == 'never')
            else:
                R.add(i, what == 'never')
        elif what == 'leave' and len(R.p):
            R.leave(r.choice(R.p.members))
        elif what == 'blacklist' and len(R.p):
            # (its record stays what it is)
            r.choice(R.p.members).blacklist()
        elif what == 'old leave':
            # Somebody from before everything was cleared
            R.done(R.h.notInPop(r.choice(R.old)))
        elif what == 'again':
            i = R.old.pop(r.randrange(len(R.old)))
            if style == 'waiting':
                R.rest()
                R.step_add(i)
            else:
                R.add(i)
        elif what == 'clear':
            R.clear()
        elif what == 'purge members':
            R.purge_members()
        elif what == 'load':
            R.load()
        elif what == 'judge':
            R.judge()
    R.judge()
    return R


def short_script(dv, prop, ops=4):
    """All short sequences of operations with a few errors."""
    N_max = dv.choose('N_max', [1, 2])
    R = Roster(dv, prop, N_max, 1)
    for n in range(ops):
        what = dv.choose('what', ['add', 'never', 'leave', 'clear',
                                  'purge members'])
        if what == 'stop':
            break
        if what in ('add', 'never'):
            e = dv.choose('error', [1.0, 2.0, math.inf] if n < 2 else
                          [1.0, 1.5, 2.0])
            i = R.individual(e, [float(n)])
            R.step_add(i, what == 'never')
        elif what == 'leave':
            if not len(R.p):
                break
            R.leave(R.p.members[0])
        elif what == 'clear':
            R.clear()
        else:
            R.purge_members()
        R.judge()
    return R


def long_script(dv, prop):
    """More records out of the population than pairs can all be examined."""
    r = dv.rng()
    N_max = dv.choose('N_max', [150, 160])
    R = Roster(dv, prop, N_max, 2)
    for k in range(N_max + 12):
        i = R.individual(r.random()*100, [r.random(), r.random()])
        if k >= N_max:
            R.step_add(i, k % 2 == 0)
        else:
            R.add(i, r.random() < 0.97)
    R.judge()
