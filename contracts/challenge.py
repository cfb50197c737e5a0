"""
One challenge against an arbitrary population, with arbitrary interference
by other challenges wherever the code gives up control.

proof: populations and vectors of any size, arbitrary contents; bounded and
concrete: small real populations.

The collaborators history and reporter are replaced by recorders (they have
contracts of their own), the drawing of indices by its contract (C04), the
constraint check by its contract when the number of parameters is symbolic
(C02).  Locks are Twisted's own.
"""
from twisted.internet import defer
from twisted.python import failure

from .common import *


class Boom(Exception):
    pass


class FStub(Standin):
    """Supplies arbitrary weights, one per request."""
    limited = False

    def __init__(self, dv):
        self.dv = dv
        self.drawn = []
    def get(self):
        x = self.dv.real('F')
        self.drawn.append(x)
        return x


class WatchedList(list):
    """Member list that reports reads by index."""
    hook = None
    def __getitem__(self, k):
        x = list.__getitem__(self, k)
        if self.hook and not isinstance(k, slice):
            self.hook(k, x)
        return x


class Scene(object):
    def __init__(self, dv, prop):
        self.dv = dv
        self.prop = prop
        self.evals = []
        self.constraint_calls = []
        self.reads = []
        self.watching = False
        self.segment = 0
        self.other_held = []
        self.member_vecs = []
        self.build()

    # --- construction -----------------------------------------------------
    def build(self):
        dv = self.dv
        DE, P, I = dv.mod('de'), dv.mod('population'), dv.mod('individual')
        self.I = I
        self.d = dv.size('n_dim', 1, bounded=(1, 2))
        self.n = dv.size('n_pop', 4, bounded=(4,))
        if not dv.sym and self.prop != 'C05':
            self.n = min(self.n, 8)
        self.bounds = Bounds(dv, self.d)
        self.proof = dv.sym and not isinstance(self.d, int)
        p = self.p = dv.bare(P.Population)
        p.history = HistoryStub(dv)
        p.reporter = Recorder(dv)
        p.func = self.func
        p.Nd = self.d
        p.Np = self.n
        p.clear()
        p.targetFraction = 0.02
        p.statusQuoScore = 1.0
        self.has_constraints = dv.choose('constrained', [True, False])
        p.pm = make_pm(dv, self.d, self.bounds)
        if self.proof:
            p.pm.passesConstraints = self.passes
        elif self.has_constraints:
            p.pm.setConstraints(self.constraint)
        self.make_members('m')
        p.running = True
        p.sample = self.sample
        self.xSSE = dv.choose('xSSE', [False, True])
        self.CR = dv.real('CR', 0, 1)
        self.de = DE.DifferentialEvolution(
            p, logHandle=None, CR=self.CR, xSSE=self.xSSE)
        self.de.fm = self.fm = FStub(dv)
        self.de.dwellCount = 0

    def sse_attr(self, name):
        """Error of a member: finite and non-negative, or infinite."""
        dv = self.dv
        return dv.flt(name, nan=False, ninf=False, lo=0)

    def new_member(self, name):
        dv = self.dv
        i = self.I.Individual(self.p, dv.vec(name + '_v', self.d))
        i.SSE = self.sse_attr(name + '_s')
        return i

    def make_members(self, name):
        dv, p = self.dv, self.p
        if not self.proof:
            items = [self.new_member('%s%d' % (name, k))
                     for k in range(self.n)]
            if not p.iList:
                p.iList = WatchedList(items)
                p.dLocks = [defer.DeferredLock() for _ in items]
            else:
                for k, i in enumerate(items):
                    list.__setitem__(p.iList, k, i)
                del p.KS
            return
        V = sym_module()
        if isinstance(p.iList, list):
            p.iList = V.SSeq(self.n, None, tag='members')
            p.dLocks = V.SSeq(
                self.n, lambda z: self.new_lock(), tag='locks')
            p.iList.on_read = lambda seq, z, obj: self.on_read(
                V.SInt(z), obj)
        self.havoc_members(name)

    def new_lock(self):
        lock = defer.DeferredLock()
        if self.prehold:
            lock.acquire()
            self.other_held.append(lock)
        return lock

    def havoc_members(self, name, keep=()):
        """Arbitrary members in every slot, apart from those kept."""
        import z3
        V = sym_module()
        e = self.dv.e
        nm = e.fresh(name)
        val = z3.Function(nm + '_val', z3.IntSort(), z3.IntSort(),
                          z3.RealSort())
        ser = z3.Function(nm + '_sse', z3.IntSort(), z3.RealSort())
        set_ = z3.Function(nm + '_sse_t', z3.IntSort(), z3.IntSort())
        def make(z):
            v = V.SVec(self.d, lambda i: V.SFloat(
                val(z, V.zi(i)), 0, True), nm)
            i = self.I.Individual(self.p, v)
            e.add(z3.And(z3.Or(set_(z) == 0, set_(z) == 1), ser(z) >= 0))
            i.SSE = V.SFloat(ser(z), set_(z))
            self.dv._reg('%s_at' % nm, V.SInt(z))
            self.dv._reg('%s_at_v' % nm, v.snapshot())
            self.dv._reg('%s_at_s' % nm, i.SSE)
            self.member_vecs.append(v)
            return i
        seq = self.p.iList
        seq.make = make
        seq.overlay = tuple(keep)
        seq.memo = []

    prehold = False
    aborted = False

    # --- collaborators ----------------------------------------------------
    def sample(self, N, *exclude, **kw):
        """Contract of Population.sample (C04)."""
        dv = self.dv
        got = []
        if not dv.sym:
            for j in range(N):
                ok = [k for k in range(self.n) if k not in exclude
                      and k not in got]
                k = dv._given('k%d' % j)
                if k not in ok:
                    k = dv.rng().choice(ok)
                got.append(dv._reg('k%d' % j, k))
            return got[0] if N == 1 else got
        if not self.proof:
            ok = [k for k in self.order[::-1] if k not in exclude]
            for j in range(N):
                got.append(dv._reg('k%d' % j, ok[j % len(ok)]))
            return got[0] if N == 1 else got
        for j in range(N):
            k = dv.int('k%d' % j, 0)
            dv.assume(k < self.n)
            for x in list(exclude) + got:
                dv.assume(k != x)
            got.append(k)
        return got[0] if N == 1 else got

    def passes(self, values):
        """Contract of ParameterManager.passesConstraints (C02)."""
        dv = self.dv
        ok = dv.bool('passes')
        if not self.has_constraints:
            ok = True
        self.constraint_calls.append((dv.shadow(values), ok))
        return ok

    def constraint(self, params):
        dv = self.dv
        ok = dv.bool('passes')
        self.constraint_calls.append((dict(params), ok))
        return ok

    def func(self, values, **kw):
        """The user's evaluation function."""
        dv = self.dv
        if values is None:
            self.evals.append((None, None, kw, self.segment))
            return dv.choose('none_result', [None, 0.0])
        self.evals.append((values, dv.shadow(values), kw, self.segment))
        self.at_evaluation(values)
        return self.respond()

    def respond(self):
        dv = self.dv
        kind = dv.choose('result', ['value', 'none', 'failure'])
        self.result_kind = kind
        self.pending = None
        if kind == 'value':
            self.result = dv.flt('r')
        else:
            self.result = None
        if dv.choose('deferred', [False, True]):
            self.pending = defer.Deferred()
            return self.pending
        if kind == 'failure':
            raise Boom()
        return self.result

    def fire(self):
        d, self.pending = self.pending, None
        if self.result_kind == 'failure':
            d.errback(failure.Failure(Boom()))
        else:
            d.callback(self.result)
        self.dv.alive()

    # --- the play ---------------------------------------------------------
    def locks(self, k):
        return self.p.dLocks[k]

    def on_read(self, k, obj):
        if self.watching:
            self.reads.append(k)
            lock = self.p.dLocks[k]
            if self.prop == 'C06' and not self.aborted:
                self.dv.check(
                    'slot-reserved-when-read',
                    lock.locked and lock not in self.other_held)

    def play(self):
        dv, p = self.dv, self.p
        if dv.sym and not self.proof:
            # Slots are interchangeable; two arrangements stand for all
            self.order = dv.choose('order', [(0, 1, 2, 3), (3, 2, 0, 1)])
            self.kt = dv._reg('kt', self.order[0])
            self.kb = dv._reg('kb', self.order[1])
        else:
            self.kt = dv.idx('kt', self.n)
            self.kb = dv.idx('kb', self.n)
            dv.assume(self.kt != self.kb)
        self.coords = list(dv.each(self.d))
        # Others may hold the locks when the challenge starts
        self.prehold = dv.choose('contended', [False, True])
        if self.prehold and not self.proof:
            for lock in p.dLocks:
                lock.acquire()
                self.other_held.append(lock)
        if self.proof:
            self.crossover_spec()
        elif dv.sym:
            dv.e.ghost['uniform_open'] = True
        else:
            dv.random.open = True
        if not self.proof:
            p.iList.hook = self.on_read
        self.watching = True
        d = self.de.challenge(self.kt, self.kb)
        dv.alive()
        early_events = ['none', 'shutdown', 'abort']
        self.early = 'none'
        if self.prehold:
            self.watching = False
            if self.prop == 'C06':
                dv.check('waits-for-slots', not self.evals)
            # Meanwhile others replace members, then let go
            if self.proof:
                self.havoc_members('w')
            else:
                self.make_members('w')
            self.early = dv.choose('early', early_events)
            self.watching = True
            self.segment += 1
            self.event(self.early)
            self.let_go()
        self.k0, self.k1 = self.drawn()
        self.late = 'none'
        self.suspended = False
        if getattr(self, 'pending', None) is not None:
            self.suspended = True
            self.watching = False
            self.others_interfere()
            self.late = dv.choose('late', early_events)
            self.watching = True
            self.segment += 1
            self.event(self.late)
            self.fire()
        self.outcome = dv.outcome(d)
        self.watching = False
        return self

    def let_go(self):
        while self.other_held:
            lock = self.other_held.pop(0)
            if lock.locked:
                lock.release()
            self.dv.alive()

    def event(self, what):
        """Things that may happen to the run while waiting."""
        if what == 'shutdown':
            self.de.shutdown()
        elif what == 'abort':
            self.aborted = True
            self.p.abort()
            # An abort frees everything, whoever held it
            self.other_held[:] = []
        self.dv.alive()

    def drawn(self):
        inp = self.dv.e.inputs if self.dv.sym else self.dv.inputs
        return inp.get('k0'), inp.get('k1')

    def at_evaluation(self, values):
        """Control passes to the evaluation function."""
        dv = self.dv
        self.watching = False
        k0, k1 = self.drawn()
        self.iTarget = self.p[self.kt]
        self.sources = [self.p[k] for k in (self.kb, k0, k1)]
        self.target_sse = self.iTarget.SSE
        self.slots_eval = None if self.proof else list(self.p.iList)
        self.frozen = [(dv.shadow(i.values), i.SSE)
                       for i in [self.iTarget] + self.sources]
        if self.prop == 'C06':
            lock = self.locks(self.kt)
            dv.check('target-slot-reserved-at-evaluation',
                     lock.locked and lock not in self.other_held)
        self.judge_evaluation(values)
        self.watching = True

    def others_interfere(self):
        """
        Other challenges change any slot but the target's (its lock is
        ours), and take locks that are free.
        """
        dv, p = self.dv, self.p
        k0, k1 = self.drawn()
        for k in (self.kb, k0, k1):
            lock = self.locks(k)
            if not lock.locked:
                lock.acquire()
                self.other_held.append(lock)
        if self.proof:
            self.before = p.iList
            V = sym_module()
            self.havoc_members('x', keep=((V.zi(self.kt), self.iTarget),))
            self.overlay0 = p.iList.overlay
        else:
            for k in range(self.n):
                if k != self.kt:
                    list.__setitem__(
                        p.iList, k, self.new_member('x%d' % k))
            self.slots0 = list(p.iList)

    # --- judgement --------------------------------------------------------
    def raw(self, j):
        """Mutant and target coordinate."""
        dv = self.dv
        ib, i0, i1 = self.sources
        F = self.fm.drawn[-1] if self.fm.drawn else dv.real('F')
        return (dv.at(ib.values, j) + (dv.at(i0.values, j) - dv.at(
            i1.values, j))*F), dv.at(self.iTarget.values, j)

    def judge_evaluation(self, values):
        dv = self.dv
        b = self.bounds
        if self.prop == 'C01':
            for j in self.coords:
                dv.check('evaluated-vector-within-bounds',
                         b.inside(j, dv.at(values, j)))
        elif self.prop == 'C02':
            self.judge_constraints(values)
        elif self.prop == 'C04':
            k0, k1 = self.drawn()
            K = [self.kt, self.kb, k0, k1]
            dv.check('two-difference-members-drawn',
                     k0 is not None and k1 is not None)
            for a in range(4):
                for c in range(a):
                    dv.check('four-different-members', K[a] != K[c])
        elif self.prop == 'C05':
            self.judge_recipe(values)

    def judge_constraints(self, values):
        dv = self.dv
        if not self.has_constraints:
            return
        calls = self.constraint_calls
        dv.check('constraints-consulted', len(calls) > 0)
        given, ok = calls[-1]
        dv.check('constraints-satisfied', ok)
        for j in self.coords:
            if self.proof:
                x = dv.at(given, j)
            else:
                x = given[names_for(self.d)[j]]
            dv.check('constraints-saw-the-evaluated-vector',
                     dv.eq(x, dv.at(values, j)))

    def judge_recipe(self, values):
        dv, b = self.dv, self.bounds
        dv.check('weight-drawn', len(self.fm.drawn) >= 1)
        dv.check('one-weight', len(self.fm.drawn) == 1, soft=True)
        ms = [self.iTarget] + self.sources
        for i in ms:
            dv.check('challenger-shares-no-storage',
                     i.values is not values)
        kept = []
        for j in self.coords:
            M, T = self.raw(j)
            x = dv.at(values, j)
            isM, isT = b.limited(j, M, x), b.limited(j, T, x)
            kept.append(isM)
            dv.check('coordinate-from-mutant-or-target', dv.Or(isM, isT))
            dv.check('rate-one-takes-mutant', dv.implies(self.CR == 1, isM))
        if self.proof:
            wit = [x for kind, x in dv.e.tape if kind == 'randint']
            some = [b.limited(j, self.raw(j)[0], dv.at(values, j))
                    for j in wit]
            dv.check('at-least-one-coordinate-from-mutant',
                     dv.Or(*some) if some else False)
            for j in self.coords:
                M, T = self.raw(j)
                x = dv.at(values, j)
                dv.check('rate-zero-takes-one', dv.implies(
                    self.CR == 0, dv.Or(b.limited(j, T, x), *[
                        dv.eq(j, w) for w in wit])))
        else:
            dv.check('at-least-one-coordinate-from-mutant', dv.Or(*kept))
            if dv.truth(self.CR == 0):
                # all but one coordinate come from the target
                T = [b.limited(j, self.raw(j)[1], dv.at(values, j))
                     for j in self.coords]
                alts = [dv.And(*[T[k] for k in range(len(T)) if k != j])
                        for j in range(len(T))]
                dv.check('rate-zero-takes-one', dv.Or(*alts))

    # --- after the challenge ----------------------------------------------
    def live(self):
        return self.early == 'none' and self.late == 'none'

    def error(self):
        """Error of the challenger as the property defines it."""
        dv = self.dv
        if self.result_kind != 'value':
            return dv.flt_inf()
        r = self.result
        return dv.ite(dv.Or(dv.isnan(r), r < 0), dv.flt_inf(), r)

    def fatal(self):
        """Negative result or failure."""
        dv = self.dv
        if self.result_kind == 'failure':
            return True
        if self.result_kind == 'none':
            return False
        return self.result < 0

    def evaluated(self):
        return [e for e in self.evals if e[0] is not None]

    def judge_end(self):
        dv, p = self.dv, self.p
        kind, res = self.outcome
        getattr(self, 'end_' + self.prop)()

    def end_C01(self):
        if self.evaluated():
            self.dv.reach('evaluated')

    end_C04 = end_C01

    def end_C02(self):
        dv = self.dv
        n = len(self.evaluated())
        if not self.live():
            return
        if not self.has_constraints:
            dv.check('nothing-turned-away-without-constraints', n == 1)
            return
        dv.check('constraints-consulted', len(self.constraint_calls) > 0)
        ok = self.constraint_calls[-1][1]
        if dv.truth(ok):
            dv.check('conforming-vector-not-turned-away', n == 1)
            dv.reach('conforming')
        else:
            dv.check('violating-vector-not-evaluated', n == 0)
            adds = [c for c in self.p.history.log if c[0] == 'add']
            dv.check('violating-vector-not-recorded', not adds)
            if self.proof:
                dv.check('violating-vector-not-admitted',
                         not self.p.iList.overlay)
            dv.reach('violating')

    def end_C03(self):
        dv, p = self.dv, self.p
        ev = self.evaluated()
        if not ev:
            if self.proof:
                dv.check('no-evaluation-no-replacement', not p.iList.overlay)
            return
        now = p[self.kt]
        error = self.error()
        wins = dv.And(self.live(), dv.Not(self.fatal()),
                      error < self.target_sse)
        if now is self.iTarget:
            dv.check('winner-installed', dv.Not(wins))
            dv.reach('kept')
        else:
            dv.check('only-strictly-better-replaces', wins)
            dv.check('winner-has-its-error', dv.eq(now.SSE, error))
            for j in self.coords:
                dv.check('winner-is-what-was-evaluated', dv.eq(
                    dv.at(now.values, j), dv.at(ev[-1][1], j)))
            dv.reach('replaced')
        dv.check('target-itself-unaltered', dv.eq(
            self.iTarget.SSE, self.target_sse))
        # Frame
        if self.proof:
            k = len(p.iList.overlay) - (1 if self.suspended else 0)
            for z, obj in p.iList.overlay[:k]:
                dv.check('other-slots-untouched', dv.eq(
                    sym_module().SInt(z), self.kt))
        else:
            before = self.slots0 if self.suspended else self.slots_eval
            for k in range(self.n):
                if k != self.kt:
                    dv.check('other-slots-untouched',
                             list.__getitem__(p.iList, k) is before[k])

    def end_C05(self):
        dv = self.dv
        if not self.evaluated():
            return
        for i, (vals, sse) in zip(
                [self.iTarget] + self.sources, self.frozen):
            for j in self.coords:
                dv.check('members-unaltered', dv.eq(
                    dv.at(i.values, j), dv.at(vals, j)))
            dv.check('member-errors-unaltered', dv.eq(i.SSE, sse))
        dv.reach('evaluated')

    def end_C06(self):
        dv, p = self.dv, self.p
        dv.check('challenge-finishes', self.outcome[0] != 'pending')
        K = [self.kt, self.kb] + [k for k in self.drawn() if k is not None]
        if self.early == 'abort' or self.late == 'abort':
            return
        for k in K:
            lock = self.locks(k)
            if lock in self.other_held:
                dv.check('lock-of-another-challenge-not-released',
                         lock.locked)
            else:
                dv.check('slot-free-afterwards', not lock.locked)
        dv.reach('over')

    def end_C11(self):
        """What the history is told about winner and loser."""
        dv, p = self.dv, self.p
        told = [c for c in p.history.log if c[0] in ('add', 'notInPop')]
        if not self.evaluated():
            dv.check('told-of-nothing', not told)
            return
        now = p[self.kt]
        if now is not self.iTarget:
            dv.check('told-of-both', len(told) == 2)
            for (name, args, kw), (name_, who) in zip(told, [
                    ('notInPop', self.iTarget), ('add', now)]):
                dv.check('told-who-left-and-who-came', name == name_ and
                         args == (who,) and not any(kw.values()))
            dv.reach('replaced')
            return
        dv.check('told-of-loser-only', len(told) <= 1)
        for name, args, kw in told:
            dv.check('loser-was-never-a-member', name == 'add' and
                     bool(dict(zip(('i', 'neverInPop'), args), **kw).get(
                         'neverInPop')))
            dv.check('loser-is-no-member', not any(
                args[0] is i for i in [self.iTarget] + self.sources))
            dv.reach('lost')

    def end_C16(self):
        dv, p = self.dv, self.p
        dv.check('challenge-finishes', self.outcome[0] != 'pending')
        ev = self.evaluated()
        if not ev:
            return
        if dv.truth(self.fatal()):
            dv.check('fatal-stops-the-run', not self.de.running)
            dv.check('fatal-not-in-population',
                     p[self.kt] is self.iTarget)
            adds = [c for c in p.history.log if c[0] == 'add']
            dv.check('fatal-not-in-history', not adds)
            dv.reach('fatal')
        elif self.live():
            dv.check('not-stopped-otherwise', self.de.running)
        if self.early == 'abort':
            dv.check('nothing-evaluated-after-abort', not ev)

    # --- crossover loop ---------------------------------------------------
    def crossover_spec(self):
        """
        Invariant of the crossover loop: coordinates not yet visited have
        the mutant's value, visited ones the mutant's or the target's; the
        reserved one has the mutant's.
        """
        import z3
        from pydv import loops
        V = sym_module()
        dv = self.dv
        scene = self

        def is_cross(it, loc):
            n = loops.length_of(it)
            return not isinstance(n, int) and dv.e._check(
                V.zi(n) != V.zi(scene.d)) == z3.unsat

        def vectors(locs):
            out = []
            for x in locs.values():
                v = getattr(x, 'values', None) if isinstance(
                    x, scene.I.Individual) else x
                if isinstance(v, V.SVec) and not any(
                        v is m for m in scene.member_vecs) and not any(
                            v is o for o in out):
                    out.append(v)
            return out

        def members():
            k0, k1 = scene.drawn()
            was, scene.watching = scene.watching, False
            try:
                ms = [scene.p[k] for k in (scene.kt, scene.kb, k0, k1)]
            finally:
                scene.watching = was
            return ms

        def M(ms, j):
            F = scene.fm.drawn[-1]
            return (ms[1].values.at(j) + (ms[2].values.at(j) -
                                          ms[3].values.at(j))*F)

        def forced():
            return [x for kind, x in dv.e.tape if kind == 'randint']

        def inv(L, idx, locs):
            if not hasattr(L, 'vecs'):
                L.ms = members()
                L.vecs = []
                for v in vectors(locs):
                    j = scene.coords[0]
                    same = V.zb(v.at(j) == M(L.ms, j))
                    if dv.e._check(z3.Not(same)) == z3.unsat:
                        L.vecs.append(v)
                if not L.vecs:
                    dv.e.unsupported_("no mutant vector at crossover")
            out = []
            for v in L.vecs:
                for k, j in enumerate(scene.coords + forced()):
                    x, m, t = v.at(j), M(L.ms, j), L.ms[0].values.at(j)
                    fs = [V.zi(j) == V.zi(f) for f in forced()]
                    out.append(('unvisited', z3.Implies(
                        V.zi(j) >= idx.z, V.zb(x == m))))
                    out.append(('visited', z3.Or(
                        V.zb(x == m), V.zb(x == t))))
                    if fs:
                        out.append(('reserved', z3.Implies(
                            fs[-1], V.zb(x == m))))
                    out.append(('rate-one', z3.Implies(
                        V.zb(scene.CR == 1), V.zb(x == m))))
                    out.append(('rate-zero', z3.Implies(
                        z3.And(V.zb(scene.CR == 0), V.zi(j) < idx.z,
                               *[z3.Not(f) for f in fs]),
                        V.zb(x == t))))
            return out

        def havoc(L, idx, locs):
            for v in L.vecs:
                g = z3.Function(dv.e.fresh('hv_vec'), z3.IntSort(),
                                z3.RealSort())
                v.f = lambda i, g=g: V.SFloat(g(V.zi(i)), 0, True)
            return {}

        class CrossSpec(loops.Spec):
            def allow(self, obj, what):
                vecs = self.L.vecs
                if any(obj is v for v in vecs):
                    return True
                v = getattr(obj, 'values', None)
                return any(v is x for x in vecs)
            def havoc(self, L, idx, locs, names):
                self.L = L
                return havoc(L, idx, locs)
        dv.loopspec(CrossSpec(tag=is_cross, inv=inv, name='crossover'))

        class LockSpec(loops.Spec):
            # Freed, or passed on to whoever waited first
            def inv(self, L, idx, locs):
                if L.stage == 'entry':
                    return []
                lock = loops.item_of(L.it, L.idx)
                if L.stage == 'assume':
                    L.waiting = len(lock.waiting)
                    return []
                return [('released', not lock.locked or
                         len(lock.waiting) < L.waiting)]
            def havoc(self, L, idx, locs, names):
                if L.phase == 2:
                    for z, lock in list(L.it.memo):
                        if lock.locked:
                            lock.release()
                            dv.alive()
                    scene.other_held[:] = []
                return {}
        dv.loopspec(LockSpec(tag='locks', name='release-all'))
        # Draws at the very ends of the unit interval have probability zero
        dv.e.ghost['uniform_open'] = True


def challenge_contract(dv, prop):
    s = Scene(dv, prop)
    s.play()
    s.judge_end()
    return s
