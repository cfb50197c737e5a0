"""
A reporter with any number of report callbacks, fed with scripted reports
while the callbacks finish at once or later, complain or not.  The ghost
state is what the properties talk about: everybody reported so far, who was
best in turn, who is due for reporting, what was delivered.
"""
import math

import numpy as np
from twisted.internet import defer

from .common import *
from .c15 import PM


def norm(x):
    return math.inf if x is None or x != x or x < 0 else float(x)


class Scene(object):
    def __init__(self, dv, prop, n_callbacks, styles, complaints=False,
                 handler='immediate', members=2):
        self.dv, self.prop = dv, prop
        P, R = dv.mod('population'), dv.mod('report')
        p = self.p = dv.bare(P.Population)
        p.clear()
        p.running = True
        p.pm = PM()
        p.Nd, p.Np = 1, members
        p.debug = False
        p.targetFraction = 0.02
        p.statusQuoScore = 1.0
        p.history = HistoryStub(dv)
        self.handler_style = handler
        self.handled = []
        self.rep = p.reporter = R.Reporter(
            p, complaintCallback=self.handler)
        self.minDiff = self.rep.minDiff
        self.n = n_callbacks
        self.styles = styles            # 'now' or 'later', per delivery
        self.complain = complaints      # function: delivery number -> result
        for k in range(self.n):
            self.rep.addCallback(self.callback, k, extra='x%d' % k)
        self.everybody = []             # individuals made
        self.reported = []              # errors reported
        self.chain = []                 # successive bests
        self.blacklisted = []
        self.due = []                   # individuals due for reporting
        self.delivered = []             # (callback, individual)
        self.active = None
        self.pending = None
        for k in range(members):
            i = self.individual(dv.flt('member', nan=False, ninf=False, lo=0)
                                if dv.sym else abs(dv.real('member', 0)))
            p.iList.append(i)
        p.KS

    def check(self, props, name, cond, detail=None):
        if self.prop in props.split():
            return self.dv.check(name, cond, detail)

    def individual(self, SSE):
        i = self.dv.mod('individual').Individual(
            self.p, [float(len(self.everybody) + 1)])
        i.SSE = SSE
        self.everybody.append(i)
        return i

    # --- the user's side --------------------------------------------------
    def who(self, values):
        v = [float(x) for x in values]
        for i in self.everybody:
            if [float(x) for x in i.values] == v:
                return i

    def callback(self, values, counter, SSE, k, extra=None):
        dv = self.dv
        self.check('C13', 'no-overlap', self.active is None)
        i = self.who(values)
        self.check('C13', 'values-of-a-reported-individual', i is not None)
        if i is None:
            return
        self.check('C13', 'error-of-the-same-individual', dv.eq(SSE, i.SSE))
        self.check('C13', 'own-arguments', extra == 'x%d' % k)
        mine = [x for kk, x in self.delivered if kk == k]
        if not self.blacklisted:
            self.check('C13', 'not-twice-in-a-row',
                       not mine or mine[-1] is not i)
        n = len(self.delivered)
        self.check('C13', 'registration-order', k == n % self.n and (
            k == 0 or self.delivered[-1][1] is i))
        if k == 0:
            # A report due is being worked off
            self.check('C13', 'only-those-due',
                       any(x is i for x in self.due))
        self.delivered.append((k, i))
        result = self.complain(n) if self.complain else None
        rec = {'k': k, 'i': i, 'result': result, 'handled': 0}
        self.current = rec
        style = self.styles[n % len(self.styles)]
        if style == 'now':
            if result is not None:
                self.awaiting = rec
            return result
        self.active = k
        d = defer.Deferred()
        self.pending = (d, rec)
        return d
    awaiting = None
    current = None

    def handler(self, i, result):
        if i is None:
            return None
        rec = self.current
        self.check('C14', 'complaint-about-the-individual-delivered',
                   i is rec['i'] and result is rec['result'])
        rec['handled'] += 1
        self.check('C14', 'handled-once', rec['handled'] == 1)
        if self.handler_style == 'later':
            d = defer.Deferred()
            self.pending = (d, None)
            d.addCallback(lambda null: self.processed(i))
            return d
        self.processed(i)

    def processed(self, i):
        if not any(x is i for x in self.blacklisted):
            self.blacklisted.append(i)

    def finish(self):
        """The outstanding callback (or handler) completes."""
        if self.pending is None:
            return False
        d, rec = self.pending
        self.pending = None
        if rec is not None:
            self.active = None
            if rec['result'] is not None:
                self.awaiting = rec
            d.callback(rec['result'])
        else:
            d.callback(None)
        self.after()
        return True

    # --- reports ----------------------------------------------------------
    def report(self, i, other=None, force=False):
        dv = self.dv
        best = self.best()
        e = i.SSE
        alive = dv.truth(i)
        if alive:
            first = not self.chain
            better = first or dv.truth(i < best)
            last = self.due[-1] if self.due else None
            if i is last:
                due = False
            elif force and (other is None or better):
                due = True
            elif better:
                due = not self.equivalent(i, last)
            else:
                due = False
            if better:
                self.chain.append(i)
            if due:
                self.due.append(i)
            self.reported.append(e)
        dv.call('report', self.rep, i, other, noProgress=True, force=force)
        self.after()

    def equivalent(self, i, last):
        """Errors within the configured fraction of each other?"""
        dv = self.dv
        if last is None:
            return False
        if not dv.truth(dv.isfin(last.SSE)) or \
           not dv.truth(dv.isfin(i.SSE)):
            return False
        a, b = i.SSE, last.SSE
        if dv.truth(dv.eq(b, 0)):
            return False
        diff = dv.ite(a < b, b - a, a - b)
        if not dv.sym:
            dv.assume(abs(diff - self.minDiff*b) > 1e-9*b)
        return dv.truth(diff < self.minDiff*b)

    def best(self):
        """The lowest of those that were best in turn."""
        out = None
        for i in self.chain:
            if any(i is x for x in self.blacklisted):
                continue
            if out is None or self.dv.truth(i < out):
                out = i
        if out is None and self.chain:
            out = self.chain[0]
        return out

    def after(self):
        """Judges the state between events."""
        dv = self.dv
        if self.pending is not None and self.pending[1] is None:
            return
        if self.prop == 'C14':
            rec = self.awaiting
            if rec is not None:
                self.awaiting = None
                self.check('C14', 'complaint-handled', rec['handled'] == 1)
            for i in self.blacklisted:
                self.check('C14', 'error-becomes-infinite',
                           dv.isinf(i.SSE))
            if self.blacklisted:
                self.judge_ranking()
                b = self.best()
                got = self.rep.iBest
                if not any(b is x for x in self.blacklisted):
                    self.check('C14', 'previous-best-restored',
                               got is not None and
                               dv.truth(dv.eq(got.SSE, b.SSE)))
                dv.reach('complained')
            return
        if self.blacklisted or self.prop != 'C13':
            return
        if not self.reported:
            return
        got = self.rep.iBest
        self.check('C13', 'somebody-is-best', got is not None)
        if got is None:
            return
        for e in self.reported:
            self.check('C13', 'best-so-far', dv.Not(e < got.SSE))
        self.check('C13', 'best-was-reported',
                   any(got is i for i in self.chain))

    def judge_ranking(self):
        dv = self.dv
        p = self.p
        if not len(p):
            return
        KS = [int(k) for k in p.KS]
        self.check('C14', 'ranking-permutation',
                   sorted(KS) == list(range(len(p))))
        for a, b in zip(KS, KS[1:]):
            self.check('C14', 'ranking-reflects-complaint',
                       dv.Not(p[b].SSE < p[a].SSE))

    def wrap_up(self, when='before'):
        """Waits for the callbacks."""
        dv = self.dv
        fired = []
        def wait():
            d = self.rep.waitForCallbacks()
            d.addBoth(lambda x: fired.append(
                (list(self.delivered), self.active)))
        if when == 'before':
            wait()
        n = 0
        while self.finish():
            n += 1
            if n > 50:
                break
        dv.reactor.spin()
        if when != 'before':
            wait()
        dv.reactor.spin()
        self.check('C13', 'waiting-ends', len(fired) == 1)
        if not fired:
            return
        delivered, active = fired[0]
        self.check('C13', 'nothing-active-after-waiting', active is None)
        if not self.n:
            return
        self.check('C13', 'delivered-to-all', len(delivered) % self.n == 0)
        if self.due:
            last = self.due[-1]
            tail = delivered[-self.n:]
            self.check('C13', 'last-due-delivered-to-all',
                       [k for k, _ in tail] == list(range(self.n)) and
                       all(i is last for _, i in tail),
                       "%d due, %d delivered" % (
                           len(self.due), len(delivered)))
        # In the order in which they became due
        pos = 0
        for k, i in delivered:
            if k:
                continue
            while pos < len(self.due) and self.due[pos] is not i:
                pos += 1
            self.check('C13', 'delivered-in-order', pos < len(self.due))
        dv.reach('wrapped-up')


def error(dv, name, related=None):
    """Any error, in runs often related to an earlier one."""
    if dv.sym:
        return dv.flt(name, nan=False, ninf=False, lo=0)
    r = dv.rng()
    k = r.random()
    if k < 0.12:
        return r.choice([math.inf, None, math.nan, 0.0, 1e300])
    fin = [x for x in related or () if x is not None and x == x and
           0 < x < 1e200]
    if fin and k < 0.6:
        return r.choice(fin)*r.choice(
            [1.0, 0.999, 0.99, 0.985, 0.975, 0.97, 0.9, 0.5, 0.1, 1.01, 1.1])
    return r.choice([r.random(), r.random()*100, float(r.randint(0, 5))])


def scripted(dv, prop, complaints):
    """Short scripts, arbitrary errors."""
    if dv.sym and dv.tier == 'quick':
        script = dv.choose('script', FEW if complaints else SHORT)
        n = 1 if complaints or len(script.replace('.', '')) > 2 else \
            dv.choose('callbacks', [1, 2])
        styles = dv.choose('styles', ['L', 'N'])
        who = dv.choose('complaint', [0, 1]) if complaints else None
        wait = 'before' if styles == 'L' else 'after'
    else:
        script = dv.choose('script', SCRIPTS)
        n = dv.choose('callbacks', [1, 2])
        styles = dv.choose('styles', ['L', 'N', 'NL'])
        who = dv.choose('complaint', [0, 1, 2]) if complaints else None
        wait = dv.choose('wait', ['before', 'after'])
    s = Scene(dv, prop, n, [{'L': 'later', 'N': 'now'}[c] for c in styles],
              complaints=(lambda k: 'bad' if k == who else None)
              if complaints else False,
              handler='immediate' if not complaints or
              dv.sym and styles == 'N' else dv.choose(
                  'handler', ['immediate', 'later']),
              members=2 if prop == 'C14' else 0)
    last = None
    members = list(s.p.iList)
    for c in script:
        if c == '.':
            s.finish()
            continue
        if c == 'M':
            i = members.pop(0) if members else last
            if i is None:
                i = s.individual(error(dv, 'e'))
        elif c == 'A':
            i = last
        else:
            i = s.individual(error(dv, 'e', s.reported))
        last = i
        other = None
        if c == 'P':
            other = s.individual(error(dv, 'o', s.reported))
        s.report(i, other, force=c in 'FA')
    s.wrap_up(wait)


FEW = ['RR.', 'R.P', 'M.M']
SHORT = ['RR.', 'R.P', 'RF', 'RA', 'RRR', 'M.M', 'R.RR']
SCRIPTS = ['R', 'RR', 'RR.', 'R.R', 'RP', 'R.P', 'RF', 'R.F', 'RA', 'R.A',
           'RRR', 'RR.R', 'R.R.R', 'R.RR', 'RF.R', 'RRA', 'MM', 'M.M',
           'M.MR', 'P', 'FFF']


def random_script(dv, prop, complaints, length=14):
    r = dv.rng()
    rate = r.choice([0.1, 0.3, 0.7]) if complaints else 0
    n = r.choice([0, 1, 1, 2, 3]) if not complaints else r.choice([1, 2, 3])
    styles = [r.choice(['now', 'later']) for _ in range(12)]
    if r.random() < 0.3:
        styles = [r.choice(['now', 'later'])]*3
    s = Scene(dv, prop, n, styles, complaints=(
        lambda k: r.choice(['bad', 0, False, [], 1.5])
        if r.random() < rate else None) if complaints else False,
        handler=r.choice(['immediate', 'later']),
        members=r.choice([0, 2, 4]))
    members = list(s.p.iList)
    for _ in range(r.randint(1, length)):
        k = r.random()
        if k < 0.35:
            s.finish()
            continue
        if k < 0.45 and members:
            i = members.pop(0)
        elif k < 0.55 and s.everybody:
            i = r.choice(s.everybody)
            if any(i is x for x in s.blacklisted):
                continue
        elif k < 0.6 and s.due:
            i = s.due[-1]
            if any(i is x for x in s.blacklisted):
                continue
        else:
            i = s.individual(error(dv, 'e', s.reported))
            if r.random() < 0.05:
                i.SSE = -1
        other = None
        if r.random() < 0.3 and i:
            other = s.individual(error(dv, 'o', s.reported))
        s.report(i, other, force=r.random() < 0.15)
    s.wrap_up(r.choice(['before', 'after']))
