"""
One run of report callbacks from an arbitrary state of the reporter, for any
number of callbacks and of former bests.

The while loop that works off the reports due and the loop over the callbacks
are cut by invariants.  What they say: whoever was due last is either waiting
to be delivered or was the last to be delivered to all callbacks; callbacks
are served in order, one at a time, with one and the same individual; nobody
who ever was the best has a lower error than the reporter's best.
"""
from twisted.internet import defer

from .common import *
from .c15 import PStub


class Pop(PStub):
    """Knows when its ranking was invalidated."""
    def __init__(self):
        PStub.__init__(self)
        self.dropped = 0
        self.history = None
    @property
    def KS(self):
        return None
    @KS.deleter
    def KS(self):
        self.dropped += 1


class Machine(object):
    def __init__(self, dv, complaints):
        import z3
        from pydv import engine, loops
        self.z3, self.engine, self.loops = z3, engine, loops
        self.V = sym_module()
        self.dv = dv
        self.complaints = complaints
        self.R, self.I = dv.mod('report'), dv.mod('individual')
        self.made = 0
        p = self.p = Pop()
        self.rep = self.R.Reporter(p, complaintCallback=self.handler)
        before = dv.size('callbacks', 0)
        self.N = before + 1
        self.active = None          # the callback being waited for
        self.i = None               # whose delivery is in progress
        self.done = None            # how many callbacks have had it
        self.prev = self.due = None
        self.calls = []             # since the last cut
        self.handled = []
        self.aborted = False
        self.arbitrary = False
        self.over = False
        self.invalid = None
        self.install('callbacks', self.V.SSeq(
            before, lambda z: (self.callback, (self.V.SInt(z),), {}),
            tag='callbacks'))
        dv.call('register', self.rep.addCallback, self.callback, before)

    def any(self, name, options):
        """Not for complaints, which do not depend on it."""
        if self.complaints == 'judged':
            return options[0]
        return self.dv.choose(name, options)

    def install(self, name, value):
        """Part of an arbitrary state."""
        if name not in vars(self.rep):
            self.dv.e.unsupported_("reporter has no %s" % name)
        setattr(self.rep, name, value)

    def individual(self, name='e', SSE=None):
        dv = self.dv
        self.made += 1
        i = self.I.Individual(self.p, [float(self.made)])
        i.SSE = dv.flt(dv.e.fresh(name), nan=False, ninf=False, lo=0) \
            if SSE is None else SSE
        return i

    # --- what is called ---------------------------------------------------
    def callback(self, values, counter, SSE, k):
        dv = self.dv
        i = self.i
        dv.check('one-callback-at-a-time', self.active is None)
        dv.check('not-after-an-abort', not self.aborted)
        dv.check('only-while-working-off-reports', self.arbitrary and
                 i is not None and not self.over)
        if i is None:
            return
        dv.check('values-and-error-of-the-one-due', dv.And(
            values is i.values, dv.eq(SSE, i.SSE)))
        if not self.calls:
            dv.check('not-the-same-again', self.prev is None or
                     i is not self.prev)
        dv.check('in-registration-order', dv.eq(k, self.done))
        dv.check('once-each', not self.calls)
        self.calls.append((k, i))
        self.kind = dv.choose('answer', [
            'fine', 'complains' if self.complaints else 'fails'])
        self.result = object() if self.kind == 'complains' else None
        if dv.choose('when', ['now', 'later']) == 'now':
            if self.kind == 'fails':
                raise RuntimeError("callback failed")
            return self.result
        self.active = k
        self.d = defer.Deferred()
        return self.d

    def handler(self, i, result):
        dv = self.dv
        if self.i is None:
            return
        dv.check('handler-told-who-and-what', i is self.i and
                 result is self.result)
        self.handled.append(i)
        dv.check('handled-once', len(self.handled) == 1)
        if dv.choose('handler', ['now', 'later']) == 'now':
            return
        self.hd = defer.Deferred()
        return self.hd
    hd = d = None

    # --- arbitrary states -------------------------------------------------
    def bests(self):
        """
        The reporter's best and its former ones: nobody has been better than
        the best.
        """
        dv, V, z3, i = self.dv, self.V, self.z3, self.i
        self.formers, self.q = [], None
        if not self.complaints:
            self.install('iBest', self.individual('best'))
            return
        same = i is not None and dv.choose('best_is', ['it', 'other']) == 'it'
        best = i if same else self.individual('best')
        low = best.SSE
        m = dv.size('formers', 0)
        at = z3.Int(dv.e.fresh('at'))       # may itself be a former best
        if dv.choose('formers', ['some', 'none']) == 'some':
            self.q = dv.idx('q', m)
        else:
            dv.assume(m == 0)
        def former(z):
            if i is not None and dv.e.fork(z == at):
                f = i
            else:
                f = self.individual('former')
            dv.assume(dv.Not(f.SSE < low))
            return f
        if self.q is not None:
            self.formers = V.SSeq(m, former, tag='formers')
            # (made now, while the errors are what they are)
            self.formers[self.q]
        self.install('formerBests', self.formers)
        self.install('iBest', best)

    def waiting(self, may_be=()):
        """Somebody due meanwhile, perhaps."""
        dv = self.dv
        who = self.any('scheduled', ['nobody', 'somebody'])
        bag = dv.mod('util').Bag()
        if who == 'somebody':
            self.due = self.individual('due')
            bag(self.due)
        self.install('cbrScheduled', bag)

    def scheduled(self):
        return self.rep.cbrScheduled()

    # --- the loops --------------------------------------------------------
    def hook(self, loop, frame):
        dv = self.dv
        locs = frame.f_locals
        if not loop.loc.startswith('ade.report'):
            return
        if loop.count == 1:
            bound = [n for n in loop.names if locs.get(n) is not None]
            free = [n for n in loop.names if n in locs and locs[n] is None]
            if bound or len(free) != 1:
                dv.e.unsupported_("what do the loop's variables mean?")
            self.slot = free[0]
            dv.check('first-one-is-waiting', self.scheduled() is self.due)
            dv.e.abstract.append('while loop')
            # Any number of reports worked off
            self.arbitrary = True
            self.prev = self.individual('prev') if self.any(
                'before', ['nobody', 'somebody']) == 'somebody' else None
            who = dv.choose('next', ['new', 'none', 'same'] if
                            self.prev is not None else ['new', 'none'])
            if who == 'new':
                self.i = self.individual('next')
                self.due = self.i
            elif who == 'same':
                self.i = self.due = self.prev
            else:
                self.due = self.prev
            bag = dv.mod('util').Bag()
            if self.i is not None:
                bag(self.i)
            self.install('cbrScheduled', bag)
            self.done = self.V.SInt(self.z3.IntVal(0))
            out = dict.fromkeys(loop.names)
            out[self.slot] = self.prev
            return out
        # Once more
        if self.aborted or self.calls and self.kind == 'fails':
            return
        self.settled()
        dv.check('remembers-whom', locs.get(self.slot) is self.i, soft=True)
        dv.reach('worked-off')
        dv.e.kill(self.engine.Dead("covered by the arbitrary state"))

    def settled(self):
        """At the head of the loop, or at the end."""
        dv = self.dv
        if self.i is not None and self.i is not self.prev:
            dv.check('everyone-has-had-it', dv.eq(self.done, self.N))
        s = self.scheduled()
        if s is None:
            dv.check('nobody-due-forgotten',
                     self.due is self.i or self.i is None)
        else:
            dv.check('the-last-one-due-is-waiting', s is self.due)

    def complained(self):
        """A complaint has been dealt with."""
        dv = self.dv
        best = self.rep.iBest
        dv.check('complaint-handled', len(self.handled) == 1)
        dv.check('error-becomes-infinite', dv.isinf(self.i.SSE))
        dv.check('ranking-updated', self.p.dropped > 0)
        if self.q is not None:
            dv.check('former-best-restored',
                     dv.Not(self.formers[self.q].SSE < best.SSE))
        dv.reach('complained')

    def prove(self):
        dv, z3, V, m = self.dv, self.z3, self.V, self
        loops = self.loops

        class Callbacks(loops.Spec):
            def inv(self, L, idx, locs):
                if L.stage == 'entry':
                    dv.check('starts-with-the-first', m.arbitrary and
                             not m.calls)
                elif L.stage == 'preserve':
                    dv.check('called', len(m.calls) == 1)
                    dv.check('waited-for', m.active is None)
                    dv.check('failure-ends-it', m.kind != 'fails')
                    if m.kind == 'complains' and not m.aborted:
                        m.complained()
                    else:
                        dv.check('no-complaint-no-handling',
                                 not m.handled)
                    m.done = V.SInt(z3.simplify(V.zi(m.done) + 1))
                return [('served', V.zb(dv.eq(m.done, idx)))]
            def havoc(self, L, idx, locs, names):
                # Earlier callbacks may have complained, reports may have
                # come in
                m.done = idx
                m.calls, m.handled = [], []
                m.p.dropped = 0
                if m.complaints:
                    m.i.SSE = dv.flt('now', nan=False, ninf=False, lo=0)
                m.due = m.i
                m.waiting()
                m.bests()
                if m.any('aborted', [False, True]):
                    m.p.running = False
                    m.aborted = True
                return {}
            def allow(self, obj, what):
                return obj is m.rep or obj is m.rep.cbrScheduled or \
                    isinstance(obj, m.I.Individual) or obj is m.p or \
                    obj is m.formers or m.calls and m.kind == 'fails' or \
                    type(obj).__name__ == 'Messenger'

        class Formers(loops.Spec):
            def inv(self, L, idx, locs):
                best = m.rep.iBest
                if L.stage == 'entry':
                    self.start = best
                elif L.stage == 'preserve':
                    dv.check('best-is-a-former-one', best is self.was or
                             best is L.it[L.idx])
                return [('lowest-so-far', z3.Implies(
                    V.zi(idx) > V.zi(m.q), V.zb(dv.Not(
                        m.formers[m.q].SSE < best.SSE))))]
            def havoc(self, L, idx, locs, names):
                self.was = m.individual('best')
                m.rep.iBest = self.was
                return {}
            def allow(self, obj, what):
                return obj is m.rep and what == 'iBest'

        dv.loopspec(Callbacks(tag='callbacks', name='callbacks'))
        dv.loopspec(Formers(tag='formers', name='formers'))
        dv.e.ghost['whilehook'] = self.hook

        # Nothing going on, whatever may have been reported before
        first = self.individual('first')
        self.due = first
        self.i = None
        if dv.choose('before', [True, False]):
            self.install('iBest', self.individual('old_best'))
        dv.call('report', self.rep, first, noProgress=True, force=True)
        wait = []
        def waits():
            dw = self.rep.waitForCallbacks()
            dw.addBoth(wait.append)
            dv.reactor.spin(limit=8)
        waits()
        for _ in range(4):
            if self.active is not None:
                dv.check('waits-for-callback', not wait)
                self.meanwhile()
                self.active = None
                d, self.d = self.d, None
                if self.kind == 'fails':
                    dv.call('go-on', d.errback, RuntimeError("failed"))
                else:
                    dv.call('go-on', d.callback, self.result)
            elif self.hd is not None:
                dv.check('waits-for-handler', not wait)
                d, self.hd = self.hd, None
                dv.call('go-on', d.callback, None)
            else:
                break
            dv.alive()
            dv.reactor.spin(limit=8)
        # The run is over
        self.over = True
        dv.check('waiting-ends', len(wait) == 1)
        if self.aborted or self.calls and self.kind == 'fails':
            dv.check('failure-aborts', self.p.running is False)
            dv.reach('aborted')
            return
        dv.check('not-aborted-without-reason', self.p.running is True)
        self.settled()
        dv.check('nobody-left-waiting', self.scheduled() is None)
        dv.check('idle-again', not self.rep.cbrInProgress, soft=True)
        dv.reach('over')

    def meanwhile(self):
        """Things that happen while a callback is running."""
        dv = self.dv
        if dv.choose('meanwhile', ['nothing', 'abort']) == 'abort':
            self.p.running = False
            self.aborted = True

    def busy(self):
        """A report comes in while callbacks are being run."""
        dv = self.dv
        self.arbitrary = self.over = True
        self.bests()
        self.install('cbrInProgress', True)
        last = self.individual('last')
        self.install('iLastReported', last)
        self.waiting()
        before = self.scheduled()
        i, other = self.individual(), None
        if dv.choose('against', [False, True]):
            other = self.individual('other')
        forced = dv.choose('forced', [False, True])
        better = i < self.rep.iBest
        dv.call('report', self.rep, i, other, noProgress=True, force=forced)
        s = self.scheduled()
        equivalent = dv.And(
            dv.isfin(last.SSE), dv.isfin(i.SSE), dv.Not(dv.eq(last.SSE, 0)),
            abs(i.SSE - last.SSE) < self.rep.minDiff*last.SSE)
        if s is i:
            dv.check('only-if-better-or-forced', dv.Or(better, forced))
            if not forced:
                dv.check('not-if-merely-equivalent', dv.Not(equivalent))
            dv.check('remembered-as-the-last', self.rep.iLastReported is i,
                     soft=True)
            dv.reach('due')
        else:
            dv.check('others-stay-due', s is before)
            dv.check('last-due-not-forgotten',
                     self.rep.iLastReported is last, soft=True)
            dv.check('due-if-significantly-better',
                     dv.Not(dv.And(better, dv.Not(equivalent))))
            dv.check('due-if-forced', not forced or other is not None)
            dv.reach('not-due')
        best = self.rep.iBest
        dv.check('best-of-all', dv.Not(i.SSE < best.SSE))
        if self.q is not None:
            dv.check('best-of-all', dv.Not(
                self.formers[self.q].SSE < best.SSE))
            dv.check('former-bests-remembered',
                     self.rep.formerBests[self.q] is
                     self.formers[self.q], soft=True)
        dv.check('no-overlap', not self.calls)


def meanwhile(dv):
    Machine(dv, True).busy()


def run(dv, complaints):
    Machine(dv, complaints and 'judged').prove()


class Reports(object):
    """Stands in for the reporter."""
    def __init__(self):
        self.got = []
        self.d = defer.Deferred()
    def __call__(self, i, iOther=None, noProgress=False, force=False):
        self.got.append((i, iOther, force))
    def waitForCallbacks(self):
        return self.d


def passed_on(dv):
    """The population tells the reporter, and waits for it."""
    P, I = dv.mod('population'), dv.mod('individual')
    p = dv.bare(P.Population)
    p.clear()
    p.running = dv.choose('running', [True, None])
    rep = p.reporter = Reports()
    p.history = HistoryStub(dv)
    p.Nd = 1
    best, i, other = (I.Individual(p, [float(k)]) for k in range(3))
    for k, x in enumerate((best, i, other)):
        x.SSE = 1.0 + k
    p.iList.append(best)
    what = dv.choose('what', ['best', 'one', 'two'])
    force = dv.choose('force', [True, False])
    try:
        if what == 'best':
            p.report()
            want = (best, None, True)
        elif what == 'one':
            p.report(i, force=force)
            want = (i, None, force)
        else:
            p.report(i, other, force=force)
            want = (i, other, force)
        d = p.waitForReports()
    except Exception as e:
        dv.skip("does not go with the stand-ins: %r" % e)
    dv.check('reported-once', len(rep.got) == 1, soft=True)
    dv.check('as-told', len(rep.got) == 1 and all(
        a is b for a, b in zip(rep.got[0], want)), soft=True)
    if p.running:
        out = dv.outcome(d)
        dv.check('waits', out[0] == 'pending', soft=True)
        rep.d.callback(None)
        dv.check('waiting-ends', out[0] == 'ok', soft=True)
    dv.reach('told')
