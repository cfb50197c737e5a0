"""
Whole runs through the public interface with a scripted environment: the
order in which evaluations and report callbacks finish, their outcomes,
complaints, failures, aborts and saving/loading are all chosen by the seeded
generator.  Concrete only: this is the run-time side of the contracts, where
the functions verified one by one are observed working together.
"""
import contextvars, math, os, tempfile

import numpy as np
from twisted.internet import defer
from twisted.python import failure

from .common import names_for


class Boom(Exception):
    pass


# The challenge on whose behalf code runs (Twisted keeps this per coroutine)
CURRENT = contextvars.ContextVar('challenge', default=None)


class FloatLike(float):
    pass


def key(values):
    return tuple(float(x) for x in values)


def norm(r):
    """Error of an evaluation result, as the properties define it."""
    if r is None or r != r or r < 0:
        return math.inf
    return float(r)


class World(object):
    max_steps = 6000

    def __init__(self, dv, prop, **opts):
        self.dv, self.prop = dv, prop
        self.r = dv.rng()
        dv.random.open = True
        self.opts = opts
        self.P, self.D = dv.mod('population'), dv.mod('de')
        self.I, self.H = dv.mod('individual'), dv.mod('history')
        self.A = dv.mod('abort')
        self.pending = []           # outstanding Deferreds of the environment
        self.evals = []             # every call of the evaluation function
        self.outcomes = {}          # vector -> results returned for it
        self.calls = []             # report callback deliveries
        self.complaints = []        # (individual, result)
        self.blacklisted = []
        self.n_eval = 0
        self.aborted = False        # abort requested and carried out
        self.stopping = False       # run told to stop
        self.fatal = False
        self.phase = 'idle'
        self.target_of = {}
        self.busy = {}
        self.traceable = True
        self.constraint_log = []
        self.steps = 0
        self.handlers = []
        self.active_cb = 0
        self.reported = []
        self.challenges = []
        self.reads_seen = False
        self.due = None
        self.was_bests = []
        self.n_black = 0
        self.configure()

    # --- reporting --------------------------------------------------------
    def check(self, props, name, cond, detail=None):
        if self.prop in props.split():
            return self.dv.check(name, cond, detail)
        return True

    def opt(self, name, options):
        x = self.opts.get(name)
        if x is None:
            x = options
        else:
            options = x
        if callable(options):
            return options(self.r)
        x = self.r.choice(options)
        self.dv._reg(name, x if isinstance(
            x, (int, float, str, bool, type(None))) else repr(x))
        return x

    # --- configuration ----------------------------------------------------
    def configure(self):
        r = self.r
        self.Nd = self.opt('Nd', [1, 2, 2, 3, 4])
        self.names = names_for(self.Nd)
        self.bounds = [self.bound() for _ in self.names]
        self.Np_min = self.opt('Np_min', [4, 5, 6, 8, 12])
        self.popsize = self.opt('popsize', [1, 2, 3])
        self.N_maxParallel = self.opt('parallel', [12, 1, 2, 4])
        self.style = self.opt('evals', ['deferred', 'deferred', 'mixed',
                                        'immediate'])
        self.order = self.opt('order', ['random', 'fifo', 'lifo', 'random'])
        self.shape = self.opt('shape', ['sphere', 'sphere', 'steps', 'random',
                                        'tiny', 'huge', 'improving'])
        self.bad = self.opt('bad', [0, 0, 0.1, 0.4])
        self.fatal_at = self.opt('fatal_at', [None])
        self.fatal_kind = self.opt('fatal_kind', [
            'negative', 'raise', 'errback'])
        self.n_callbacks = self.opt('callbacks', [0, 1, 2])
        self.cb_style = self.opt('cb_style', ['immediate', 'deferred',
                                              'mixed'])
        self.complain = self.opt('complain', [0])
        self.cb_fail_at = self.opt('cb_fail_at', [None])
        self.event_at = self.opt('event_at', [None])
        self.event_kind = self.opt('event', ['abortNow', 'p.abort',
                                             'de.shutdown', 'enter'])
        self.constrained = self.opt('constrained', ['none', 'none', 'one',
                                                    'list', 'collection'])
        self.N_max = self.opt('N_max', [1500, 40])
        self.uniform = self.opt('uniform', [False, True])
        self.maxiter = self.opt('maxiter', [1, 2, 3, 5])
        self.center = [r.uniform(a - 0.3*(b-a), b + 0.3*(b-a))
                       for a, b in self.bounds]

    def bound(self):
        r = self.r
        kind = r.choice(['unit', 'neg', 'int', 'wide', 'degenerate', 'tiny'])
        if kind == 'unit':
            return (0.0, 1.0)
        if kind == 'neg':
            return (-r.uniform(1, 5), -r.uniform(0.1, 1))
        if kind == 'int':
            a = r.randint(-5, 5)
            return (a, a + r.randint(1, 9))
        if kind == 'wide':
            return (-1e4*r.random(), 1e5*r.random())
        if kind == 'degenerate':
            if self.opts.get('no_degenerate'):
                return (2.0, 3.0)
            a = r.uniform(-1, 1)
            return (a, a)
        a = r.uniform(-1, 1)
        return (a, a + 1e-3)

    # --- the user's functions ---------------------------------------------
    def value(self, values):
        r = self.r
        if self.bad and r.random() < self.bad:
            return r.choice([math.inf, None, math.nan, np.float64('inf'),
                             np.float64('nan')])
        if self.shape == 'random':
            return r.choice([r.random(), r.random(), 0.0, 1.0])
        if self.shape == 'improving':
            return 1000.0 * 0.9**self.n_eval * r.uniform(0.5, 1.5)
        if self.shape == 'bursts':
            # Nothing good except now and then
            if r.random() < 0.08:
                self.lowest *= 0.01
                return self.lowest
            return 1e9*(1 + r.random())
        s = 0.0
        for x, c, (a, b) in zip(values, self.center, self.bounds):
            w = (b - a) or 1.0
            s += ((float(x) - c)/w)**2
        if self.shape == 'steps':
            return float(int(s*4))
        if self.shape == 'tiny':
            return s*1e-6
        if self.shape == 'huge':
            return s*1e30
        k = r.random()
        return (np.float64(s) if k < 0.3 else FloatLike(s) if k < 0.4 else s)

    lowest = 1e9

    def func(self, values, **kw):
        """The evaluation function."""
        if values is None:
            self.evals.append(None)
            return None
        self.check('C16', 'no-vector-evaluated-after-abort',
                   not self.aborted)
        self.n_eval += 1
        vals = np.array(values, dtype=float)
        ev = {'values': vals, 'object': values, 'kw': kw, 'n': self.n_eval,
              'phase': self.phase, 'done': False}
        self.evals.append(ev)
        ev['kt'] = None
        rec = CURRENT.get()
        if self.phase == 'run' and self.traceable and rec is not None:
            read = rec.get('read')
            if read is None or rec.get('evaluated'):
                self.traceable = False
            else:
                rec['evaluated'] = True
                ev['read'] = read
                ev['kt'] = read['K'][0]
                ev['target'] = read['members'][0]
                ev['target_sse'] = norm(ev['target'].SSE)
        self.judge_evaluation(ev)
        fatal = self.fatal_at is not None and self.n_eval >= self.fatal_at
        immediate = self.style == 'immediate' or (
            self.style == 'mixed' and self.r.random() < 0.5)
        if fatal:
            result = Boom("evaluation failed")
            if self.fatal_kind == 'negative':
                result = self.r.choice([-1, -0.5, -1e-9, -math.inf,
                                        np.float64(-2)])
        else:
            result = self.value(values)
        ev['result'] = result
        ev['fatal'] = isinstance(result, Exception) or (
            result is not None and result < 0)
        if not ev['fatal']:
            self.outcomes.setdefault(key(vals), []).append(norm(result))
        if immediate:
            self.finish_eval(ev)
            if isinstance(result, Exception):
                if self.fatal_kind == 'raise':
                    raise result
                return defer.fail(failure.Failure(result))
            return result
        if isinstance(result, Exception) and self.fatal_kind == 'raise':
            self.finish_eval(ev)
            raise result
        d = defer.Deferred()
        self.pending.append(('eval', d, ev))
        if ev['kt'] is not None:
            self.busy[ev['kt']] = ev
        return d

    def finish_eval(self, ev):
        ev['done'] = True
        if ev['fatal']:
            self.fatal = True
        elif not self.aborted:
            self.reported.append(norm(ev['result']))
        if self.busy.get(ev['kt']) is ev:
            del self.busy[ev['kt']]

    def callback(self, values, counter, SSE, which):
        """A report callback."""
        self.check('C13', 'callbacks-do-not-overlap', self.active_cb == 0)
        rec = {'which': which, 'values': np.array(values, dtype=float),
               'SSE': float(SSE), 'n': len(self.calls)}
        self.calls.append(rec)
        self.judge_delivery(rec)
        k = sum(1 for c in self.calls if c['which'] == which)
        if self.cb_fail_at is not None and which == 0 and \
           k == self.cb_fail_at:
            result = Boom("callback failed")
        elif self.complain and self.r.random() < self.complain:
            result = self.r.choice(['bad', 0, False, 1.5, []])
        else:
            result = None
        rec['result'] = result
        immediate = self.cb_style == 'immediate' or (
            self.cb_style == 'mixed' and self.r.random() < 0.5)
        if immediate:
            if isinstance(result, Exception):
                self.aborted = self.cb_failed = True
                raise result
            return result
        self.active_cb += 1
        d = defer.Deferred()
        self.pending.append(('callback', d, rec))
        return d
    cb_failed = False

    def complaint(self, i, result):
        if i is None:
            return
        rec = self.calls[-1] if self.calls else None
        self.complaints.append((i, result))
        self.blacklisted.append(i)
        if rec is not None:
            self.check('C14', 'handler-gets-the-individual-reported',
                       key(i.values) == key(rec['values']))
            self.check('C14', 'handler-gets-the-result',
                       result is rec['result'])
            rec['handled'] = rec.get('handled', 0) + 1

    def constraint(self, k, params):
        ok = self.predicate(k, params)
        self.constraint_log.append((k, dict(params), ok))
        # Comparing numbers of an array gives numpy's version
        return np.bool_(ok) if k % 2 == 0 else ok

    def predicate(self, k, params):
        """Deterministic answers."""
        x = params.get(self.names[k % self.Nd])
        a, b = self.bounds0[k % self.Nd]
        if x is None:
            return True
        if a == b:
            return True
        u = (float(x) - a)/(b - a)
        return u < 0.75 if k % 2 == 0 else u > 0.2

    def make_constraints(self):
        self.bounds0 = list(self.bounds)
        n = {'none': 0, 'one': 1}.get(self.constrained, 2)
        self.n_constraints = n
        fs = []
        for k in range(n):
            def f(params, k=k):
                return self.constraint(k, params)
            fs.append(f)
        self.constraint_funcs = fs
        if self.constrained == 'none':
            return []
        if self.constrained == 'one':
            return fs[0]
        if self.constrained == 'list':
            return fs
        C = self.dv.mod('constraints').Constraints
        class Coll(C):
            registry = {}
        c = Coll()
        for f in fs:
            c.append(f)
        return c

    # --- population and run -----------------------------------------------
    def make_population(self):
        w = self
        dv = self.dv
        dv.patch(self.H.History, 'N_max', self.N_max)
        base = self.P.Population

        class Pop(base):
            if w.Np_min is not None:
                Np_min = w.Np_min
            if w.N_maxParallel is not None:
                N_maxParallel = w.N_maxParallel
            def individuals(self, *K):
                out = base.individuals(self, *K)
                w.on_individuals(K, out)
                return out
        Pop.__qualname__ = 'Pop'
        globals()['Pop'] = Pop
        Pop.__module__ = __name__
        self.Pop = Pop
        cons = self.make_constraints()
        self.add_handler()
        p = self.p = Pop(self.func, list(self.names), list(self.bounds),
                         constraints=cons, popsize=self.popsize,
                         complaintCallback=self.complaint)
        self.expect_Np = max(20 if self.Np_min is None else self.Np_min, min(
            (self.popsize or 10)*self.Nd, 500))
        for k in range(self.n_callbacks):
            p.addCallback(self.callback, k)
        self.slots = []
        self.add_handler()
        return p

    def add_handler(self):
        """An abort handler of the user's."""
        if self.prop != 'C16':
            return
        rec = {'n': 0}
        def handler():
            rec['n'] += 1
        self.A.callOnAbort(handler)
        self.handlers.append(rec)

    def setup(self, **kw):
        self.phase = 'setup'
        if self.opts.get('blank'):
            kw['blank'] = True
        d = self.p.setup(uniform=self.uniform, **kw)
        out = self.drive(d)
        self.phase = 'idle'
        self.setup_result = out
        self.judge_setup(out)
        return out

    def make_de(self, **kw):
        w, base = self, self.D.DifferentialEvolution
        class DE(base):
            def challenge(self, kt, kb):
                rec = {'kt': int(kt), 'kb': int(kb), 'done': False,
                       'gen': w.gen, 'live': not w.stopping,
                       'n_eval': len(w.evals)}
                w.challenges.append(rec)
                w.on_challenge(rec)
                ctx = contextvars.copy_context()
                ctx.run(CURRENT.set, rec)
                d = ctx.run(base.challenge, self, kt, kb)
                def over(x):
                    rec['done'] = True
                    return x
                return d.addBoth(over)
        cfg = dict(
            logHandle=None,
            CR=self.opt('CR', [0.8, 0.0, 1.0, 0.3]),
            F=self.opt('F', [(0.5, 1.0), 0.7, (0, 1), (0.2, 0.4), 1.5]),
            maxiter=self.maxiter,
            randomBase=self.opt('randomBase', [False, True, 0.3, 0.7, 1.0]),
            adaptive=self.opt('adaptive', [True, False]),
            bitterEnd=self.opt('bitterEnd', [False, True]),
            dwellByGrave=self.opt('dwell', [5, 1, 2]),
            goalSSE=self.opt('goalSSE', [None, None, 0.05, 1e-3]),
            xSSE=self.opt('xSSE', [False, True]))
        cfg.update(kw)
        self.cfg = cfg
        self.de = DE(self.p, **cfg)
        return self.de

    def run(self):
        self.phase = 'run'
        self.gen = 0
        self.gens = []              # arguments of the generation callback
        self.limits = []
        self.challenges = []
        self.slots = list(self.p)
        self.slot_sse = [norm(i.SSE) for i in self.slots]
        self.frozen = {}
        self.freeze()
        for i in self.slots:
            self.outcomes.setdefault(key(i.values), []).append(norm(i.SSE))
        p0_running = self.p.running
        d = self.de(self.on_generation)
        if p0_running is not False:
            self.reported.append(min(self.slot_sse))
        out = self.drive(d)
        self.phase = 'idle'
        self.run_result = out
        self.judge_run(out)
        return out

    def on_generation(self, kg):
        self.check('C17', 'generation-number', kg == len(self.gens),
                   "callback got %r, expected %d" % (kg, len(self.gens)))
        self.gens.append(kg)
        fm = getattr(self.de, 'fm', None)
        self.limits.append(bool(getattr(fm, 'limited', False)))
        self.check('C17', 'all-challenges-over-at-generation-end',
                   all(c['done'] for c in self.challenges))
        self.gen += 1

    def on_challenge(self, rec):
        self.check('C17', 'previous-generation-finished', all(
            c['done'] for c in self.challenges if c['gen'] != rec['gen']))
        self.check('C04', 'base-differs-from-target',
                   rec['kt'] != rec['kb'] and
                   0 <= rec['kb'] < len(self.p) and
                   0 <= rec['kt'] < len(self.p))
        rb = self.cfg['randomBase']
        if not rb and self.prop == 'C04':
            others = [norm(i.SSE) for k, i in enumerate(self.p)
                      if k != rec['kt']]
            self.check('C04', 'base-is-best', norm(
                self.p[rec['kb']].SSE) <= min(others))

    def on_individuals(self, K, out):
        if self.phase != 'run' or out is None:
            return
        K = [int(k) for k in K]
        if self.stopping or self.aborted:
            return
        for k in K:
            ev = self.busy.get(k)
            self.check('C06', 'slot-not-read-while-challenged',
                       ev is None or ev['done'],
                       "slot %d read while its challenge is in progress" % k)
        if len(K) == 4:
            self.check('C04', 'four-different-members', len(set(K)) == 4)
            rec = CURRENT.get()
            if rec is None or rec['kt'] != K[0] or rec.get('read'):
                # Written so that it cannot be told who reads
                self.traceable = False
                return
            rec['read'] = {'K': K, 'members': list(out), 'values': [
                np.array(i.values, dtype=float) for i in out]}

    # --- the scheduler ----------------------------------------------------
    def drive(self, d):
        """Plays the environment until d fires; returns its outcome."""
        out = ['pending', None]
        self.ended = None
        def good(x):
            out[:] = ['ok', x]
            self.ended = self.fatal or self.aborted
        def bad(f):
            out[:] = ['failed', f]
        d.addCallbacks(good, bad)
        idle = 0
        while out[0] == 'pending' or (
                self.pending and not self.opts.get('leave_pending')):
            self.steps += 1
            if self.steps > self.max_steps:
                break
            if self.event_at is not None and self.steps >= self.event_at:
                self.event_at = None
                self.event(self.event_kind)
                self.after_step()
                continue
            calls = self.dv.reactor.calls
            if self.pending and not (calls and self.r.random() < 0.2):
                self.fire(self.pick())
                idle = 0
            elif calls:
                t = calls[0].getTime() - self.dv.reactor.seconds()
                self.dv.reactor.advance(max(t, 0))
                idle += 1
                if idle > 400 and not self.pending:
                    break
            else:
                break
            self.after_step()
        if out[0] == 'failed':
            self.dv.trace.append(out[1].getTraceback()[-800:])
        self.settle()
        return out

    def settle(self):
        """Lets everything due immediately happen."""
        for _ in range(200):
            calls = self.dv.reactor.calls
            if not calls or calls[0].getTime() > \
               self.dv.reactor.seconds() + 0.001:
                break
            self.dv.reactor.advance(max(
                calls[0].getTime() - self.dv.reactor.seconds(), 0))

    def pick(self):
        if self.order == 'fifo':
            k = 0
        elif self.order == 'lifo':
            k = len(self.pending) - 1
        else:
            k = self.r.randrange(len(self.pending))
        return self.pending.pop(k)

    def fire(self, item):
        kind, d, rec = item
        if kind == 'callback':
            self.active_cb -= 1
            if isinstance(rec['result'], Exception):
                self.aborted = self.cb_failed = True
                d.errback(failure.Failure(rec['result']))
            else:
                d.callback(rec['result'])
            return
        ev = rec
        live = not (self.stopping or self.aborted or self.fatal or
                    ev['fatal'])
        self.finish_eval(ev)
        before = list(self.p)
        if isinstance(ev['result'], Exception):
            d.errback(failure.Failure(ev['result']))
        else:
            d.callback(ev['result'])
        self.judge_outcome(ev, live, before)

    def event(self, kind):
        self.stopping = True
        if kind == 'abortNow':
            self.A.abortNow()
            self.settle()
            self.aborted = True
            self.keyboard = True
        elif kind == 'enter':
            kb = self.A.KeyboardHolder.KB
            if kb is None:
                return
            self.aborted = True
            self.keyboard = True
            kb.dataReceived(b'\n')
        elif kind == 'p.abort':
            self.aborted = True
            self.p.abort()
        elif kind == 'de.shutdown':
            if getattr(self, 'de', None) is not None:
                self.de.shutdown()
    keyboard = False

    # --- judgements -------------------------------------------------------
    def after_step(self):
        if self.prop == 'C07':
            self.judge_ranking()
        if self.prop == 'C14':
            self.judge_complaints()
        if self.phase == 'run' and self.prop in ('C03', 'C05'):
            self.judge_slots()

    def judge_complaints(self):
        """Between events."""
        if self.aborted or not self.complaints:
            return
        p = self.p
        for i in self.blacklisted:
            self.check('C14', 'error-becomes-infinite', math.isinf(i.SSE))
        sse = [norm(i.SSE) for i in p]
        if sse:
            KS = [int(k) for k in p.KS]
            self.check('C14', 'ranking-reflects-complaint',
                       sorted(KS) == list(range(len(sse))) and all(
                           sse[a] <= sse[b] for a, b in zip(KS, KS[1:])))
        # Never somebody blacklisted while somebody legitimate was best
        b = p.reporter.iBest
        black = set(id(i) for i in self.blacklisted)
        if b is not None and id(b) in black:
            self.check('C14', 'legitimate-best', all(
                math.isinf(norm(c['SSE'])) or any(
                    key(c['values']) == key(i.values)
                    for i in self.blacklisted) for c in self.calls))

    def judge_handled(self):
        if self.prop != 'C14' or self.aborted or self.fatal or self.stopping:
            return
        for c in self.calls:
            if c['result'] is not None:
                self.check('C14', 'complaint-handled-once',
                           c.get('handled') == 1)
            else:
                self.check('C14', 'handled-only-after-complaint',
                           not c.get('handled'))

    def freeze(self):
        for i in self.p:
            self.frozen.setdefault(id(i), (
                i, np.array(i.values, dtype=float), norm(i.SSE)))

    def judge_slots(self):
        p = self.p
        black = set(id(i) for i in self.blacklisted)
        self.freeze()
        if len(black) > self.n_black and self.style != 'deferred':
            # Somebody installed, blacklisted and replaced in one step
            self.n_black = len(black)
            self.slots = list(p)
            self.slot_sse = [norm(i.SSE) for i in p]
        self.check('C03', 'size-unchanged', len(p) == len(self.slots))
        for k, i in enumerate(p):
            sse = norm(i.SSE)
            old = self.slots[k]
            if id(i) not in black and id(old) not in black:
                self.check('C03', 'slot-never-gets-worse',
                           sse <= self.slot_sse[k],
                           "slot %d: %r -> %r" % (k, self.slot_sse[k], sse))
                if i is not old:
                    self.check('C03', 'replacement-strictly-better',
                               sse < self.slot_sse[k])
            if i is not old:
                self.check('C03', 'winner-was-evaluated',
                           key(i.values) in self.outcomes)
        self.slots = list(p)
        self.slot_sse = [norm(i.SSE) for i in p]
        if self.prop == 'C05':
            for i, vals, sse in self.frozen.values():
                self.check('C05', 'member-values-unaltered',
                           np.array_equal(vals, i.values))
                if id(i) not in black:
                    self.check('C05', 'member-error-unaltered',
                               sse == norm(i.SSE))

    def judge_outcome(self, ev, live, before):
        """Right after an evaluation came back during a run."""
        if ev['phase'] != 'run' or ev['kt'] is None or \
           not self.traceable or self.style != 'deferred':
            return
        p, kt = self.p, ev['kt']
        now = p[kt]
        if not live or ev['fatal']:
            self.check('C03 C16', 'not-replaced-unless-live',
                       now is ev['target'])
            return
        err = norm(ev['result'])
        if id(ev['target']) in set(id(i) for i in self.blacklisted):
            return
        if err < ev['target_sse']:
            self.check('C03', 'winner-installed',
                       key(now.values) == key(ev['values']) and
                       (norm(now.SSE) == err or id(now) in set(
                           id(i) for i in self.blacklisted)),
                       "slot %d" % kt)
        else:
            self.check('C03', 'loser-not-installed', now is ev['target'],
                       "slot %d: error %r against %r" % (
                           kt, err, ev['target_sse']))
        # The others
        gen = self.gen
        if self.n_callbacks == 0:
            for k, i in enumerate(p):
                if k != kt:
                    self.check('C03', 'other-slots-untouched',
                               i is before[k])

    def judge_evaluation(self, ev):
        vals = ev['values']
        if self.prop == 'C01':
            for x, (a, b) in zip(vals, self.bounds):
                self.check('C01', 'evaluated-within-bounds', a <= x <= b,
                           "%r not in [%r, %r]" % (x, a, b))
            self.check('C01', 'one-value-per-parameter',
                       len(vals) == self.Nd)
        elif self.prop == 'C02' and self.n_constraints:
            params = dict(zip(self.names, [float(x) for x in vals]))
            for k in range(self.n_constraints):
                self.check('C02', 'constraint-true-for-evaluated-vector',
                           self.predicate(k, params))
                seen = [ok for kk, q, ok in self.constraint_log[-60:]
                        if kk == k and set(q) == set(params) and all(
                                float(q[n]) == params[n] for n in params)]
                self.check('C02', 'constraint-saw-exactly-this-vector',
                           bool(seen) and seen[-1])
        elif self.prop == 'C05' and ev['kt'] is not None:
            self.judge_recipe(ev)
        if self.prop == 'C03' and ev['kt'] is not None and \
           self.cfg['xSSE']:
            self.check('C03', 'threshold-is-the-target-error',
                       norm(ev['kw'].get('xSSE')) == ev['target_sse'] or
                       'xSSE' not in ev['kw'])

    def judge_recipe(self, ev):
        T, B, X0, X1 = ev['read']['values']
        vals = ev['values']
        ws = []
        for x, t, b, x0, x1, (lo, hi) in zip(
                vals, T, B, X0, X1, self.bounds):
            d = x0 - x1
            w = (hi - lo)*(1 + 1e-9)
            far = [b + f*d for f in (self.de.fm.lowest, self.de.fm.highest)]
            if x == t or not lo < x < hi or d == 0 or \
               min(far) < lo - w or max(far) > hi + w:
                # Nothing to be told from this one
                continue
            # Either unreflected or mirrored about a bound
            c = sorted(((raw - b)/d) for raw in (
                x, 2*lo - x if 2*lo - x < lo else x,
                2*hi - x if 2*hi - x > hi else x))
            ws.append((c, abs(d), max(abs(x), abs(b), abs(lo), abs(hi), 1e-9)))
        fm = self.de.fm
        lo, hi = fm.lowest, fm.highest
        def ok(w, scale, mag):
            tol = 1e-6*max(1.0, abs(w)) + 1e-10*mag/scale
            return tol
        cands = None
        for c, scale, mag in ws:
            tol = ok(1.0, scale, mag)
            good = [w for w in c if lo - tol <= w <= hi + tol]
            self.check('C05', 'weight-in-range', bool(good),
                       "weights %r not in [%r, %r]" % (c, lo, hi))
            if not good:
                return
            if cands is None:
                cands = [(w, tol) for w in good]
            else:
                new = [(w, max(tol, t)) for w in good for v, t in cands
                       if abs(w - v) <= tol + t + 1e-6]
                self.check('C05', 'one-weight-for-all-coordinates', bool(new),
                           "%r vs %r" % (good, cands))
                if not new:
                    return
                cands = new
        n = sum(1 for x, t in zip(vals, T) if x != t)
        if self.cfg['CR'] == 0:
            self.check('C05', 'rate-zero-takes-one', n <= 1)

    def judge_ranking(self):
        p = self.p
        n = len(p)
        KS = p.KS
        if n == 0:
            self.check('C07', 'nobody-is-best', p.best() is None)
            return
        sse = [norm(i.SSE) for i in p]
        KS = [int(k) for k in KS]
        self.check('C07', 'ranking-is-a-permutation',
                   sorted(KS) == list(range(n)))
        if sorted(KS) != list(range(n)):
            return
        self.check('C07', 'ranking-ascending', all(
            sse[KS[j]] <= sse[KS[j+1]] for j in range(n-1)),
                   [sse[k] for k in KS])
        s = p.iSorted
        self.check('C07', 'sorted-listing-agrees', len(s) == n and all(
            norm(s[j].SSE) == sse[KS[j]] for j in range(n)) and
            set(map(id, s)) == set(map(id, p)))
        self.check('C07', 'best-has-lowest-error',
                   norm(p.best().SSE) == min(sse))

    def judge_delivery(self, rec):
        if self.prop not in ('C13', 'C14', 'C17'):
            return
        calls = self.calls
        n = self.n_callbacks
        black = [key(i.values) for i in self.blacklisted]
        got = self.outcomes.get(key(rec['values']), [])
        self.check('C13', 'values-and-error-belong-together',
                   rec['SSE'] in got or (key(rec['values']) in black and
                                         math.isinf(rec['SSE'])),
                   "error %r, evaluations gave %r" % (rec['SSE'], got))
        mine = [c for c in calls if c['which'] == rec['which']]
        if len(mine) > 1 and not self.complaints:
            a, b = mine[-2], mine[-1]
            self.check('C13', 'not-the-same-individual-twice-in-a-row',
                       not (key(a['values']) == key(b['values']) and
                            a['SSE'] == b['SSE']))
        if not self.cb_failed and not self.aborted:
            self.check('C13', 'registration-order',
                       rec['which'] == (len(calls) - 1) % n)
            if rec['which'] > 0:
                prev = calls[-2]
                self.check('C13', 'all-callbacks-get-the-same-individual',
                           key(prev['values']) == key(rec['values']))

    def judge_setup(self, out):
        p = self.p
        kind, res = out
        self.check('C09 C16', 'setup-finishes', kind != 'pending',
                   'setup did not finish: %d evaluations' % self.n_eval)
        if kind == 'pending':
            return
        self.check('C09 C16', 'setup-does-not-fail', kind == 'ok',
                   self.dv.trace[-1:])
        success = kind == 'ok' and res
        if self.ended:
            self.check('C09 C16', 'no-success-after-fatal-or-abort',
                       not success)
        elif not self.opts.get('may_give_up'):
            self.check('C09', 'success-otherwise', bool(success))
        if self.fatal:
            fat = [key(e['values']) for e in self.evals if e and e['fatal']]
            self.check('C16', 'fatal-not-in-population', not any(
                key(i.values) in fat and key(i.values) not in self.outcomes
                for i in p))
        if success and not self.opts.get('blank'):
            self.check('C09', 'configured-size', len(p) == self.expect_Np
                       == p.Np, "%d of %d" % (len(p), self.expect_Np))
            self.check('C09', 'distinct-individuals',
                       len(set(map(id, p))) == len(p))
            black = set(id(i) for i in self.blacklisted)
            for i in p:
                if id(i) in black:
                    continue
                e = norm(i.SSE)
                self.check('C09', 'finite-error', math.isfinite(e))
                self.check('C09', 'error-from-its-own-evaluation',
                           e in self.outcomes.get(key(i.values), []))
        if self.prop == 'C02' and success and self.n_constraints:
            for i in p:
                params = dict(zip(self.names, [float(x) for x in i.values]))
                self.check('C02', 'member-satisfies-constraints', all(
                    self.predicate(k, params)
                    for k in range(self.n_constraints)))
        if self.prop == 'C01':
            for i in p:
                self.check('C01', 'member-within-bounds', all(
                    a <= x <= b for x, (a, b) in zip(i.values, self.bounds)))
        self.judge_best()

    def judge_best(self):
        if self.prop != 'C13' or self.complaints or self.aborted or \
           self.fatal or not self.reported or self.stopping:
            return
        b = self.p.reporter.iBest
        self.check('C13', 'best-so-far', b is not None and norm(
            b.SSE) == min(self.reported), "%r, reported %r" % (
                b is not None and b.SSE, min(self.reported)))

    def judge_run(self, out):
        p, kind, res = self.p, out[0], out[1]
        self.check('C06 C16 C17', 'run-finishes', kind != 'pending',
                   'run hangs after %d evaluations' % self.n_eval)
        if kind == 'pending':
            return
        self.check('C06 C16 C17', 'run-does-not-fail', kind == 'ok',
                   self.dv.trace[-1:])
        self.check('C17', 'run-delivers-the-population', res is p)
        for k in range(len(p)):
            locks = getattr(p, 'dLocks', None)
            if locks is not None and k < len(locks):
                self.check('C06 C16', 'slot-free-at-end',
                           not locks[k].locked, "slot %d" % k)
        self.check('C06', 'every-challenge-over', all(
            c['done'] for c in self.challenges))
        if self.fatal:
            fat = [key(e['values']) for e in self.evals if e and e['fatal']]
            self.check('C16', 'fatal-not-in-population', not any(
                key(i.values) in fat and key(i.values) not in self.outcomes
                for i in p))
            gens = set(c['gen'] for c in self.challenges)
            first = [e for e in self.evals if e and e['fatal']]
            if first and first[0].get('read') is not None:
                g = self.gens
                self.check('C16', 'no-further-generation-after-fatal',
                           all(c['gen'] <= max(gens) for c in
                               self.challenges))
            del gens
        self.judge_generations()
        self.judge_best()
        self.judge_last_delivery()
        self.judge_handled()
        if self.prop in ('C10', 'C11'):
            self.judge_history()
        if self.prop == 'C02' and self.n_constraints and not (
                self.aborted or self.fatal or self.stopping):
            seen = set(key(e['values']) for e in self.evals if e)
            by = {}
            for k, q, ok in self.constraint_log:
                v = tuple(float(q[n]) for n in self.names)
                by.setdefault(v, {})[k] = ok
            for v, oks in by.items():
                if len(oks) == self.n_constraints and all(oks.values()):
                    self.check('C02', 'conforming-vector-not-turned-away',
                               v in seen)
        if self.prop == 'C02' and not self.n_constraints and not (
                self.aborted or self.fatal or self.stopping):
            n = sum(1 for e in self.evals if e and e['phase'] == 'run')
            self.check('C02', 'nothing-turned-away-without-constraints',
                       n == len(self.challenges))

    def judge_generations(self):
        if self.prop != 'C17':
            return
        n = len(self.p)
        by = {}
        for c in self.challenges:
            by.setdefault(c['gen'], []).append(c['kt'])
        live = not (self.aborted or self.fatal or self.stopping)
        for g, K in sorted(by.items()):
            full = live or g < max(by)
            if full:
                self.check('C17', 'one-challenge-per-slot',
                           sorted(K) == list(range(n)),
                           "generation %d: %r" % (g, K))
            else:
                self.check('C17', 'at-most-one-challenge-per-slot',
                           len(set(K)) == len(K))
        self.check('C17', 'at-most-maximum-generations',
                   len(by) <= self.cfg['maxiter'] and
                   len(self.gens) <= self.cfg['maxiter'])
        if not live:
            return
        cfg = self.cfg
        goal = cfg['goalSSE']
        errs = [norm(i.SSE) for i in self.p]
        trailing = 0
        for x in reversed(self.limits):
            if not x:
                break
            trailing += 1
        self.dv.trace.append(('gens', len(self.gens), 'limits', self.limits))
        D = cfg['dwellByGrave']
        if len(self.gens) < cfg['maxiter']:
            # The last generation was not continued from
            self.check('C17', 'last-generation-was-run',
                       len(by) == len(self.gens) + 1)
            met = goal is not None and min(errs) < goal
            exhausted = (not cfg['bitterEnd'] and trailing >= D)
            self.check('C17', 'stops-early-only-with-reason',
                       met or exhausted or (goal is not None and
                                            bool(self.complaints)),
                       "best %r goal %r, limited: %r" % (
                           min(errs), goal, self.limits))
        best = 0
        for x in self.limits:
            best = best + 1 if x else 0
            if not cfg['bitterEnd']:
                self.check('C17', 'stops-when-exhausted', best <= D)
        if not self.complaints:
            self.check('C17', 'goal-stops-the-run',
                       not (goal and len(self.gens) == cfg['maxiter'] and
                            min(errs) < goal))

    def judge_last_delivery(self):
        if self.prop not in ('C13', 'C17') or not self.n_callbacks or \
           self.aborted or self.fatal or self.stopping or self.complaints:
            return
        best = self.p.best()
        last = self.calls[-1] if self.calls else None
        self.check('C13 C17', 'final-best-reported', last is not None and
                   key(last['values']) == key(best.values) and
                   last['SSE'] == norm(best.SSE))
        n = self.n_callbacks
        self.check('C13 C17', 'final-best-reported-to-all',
                   len(self.calls) % n == 0)

    def judge_history(self):
        """Roster at rest."""
        h = self.p.history
        d = h.shutdown()
        out = self.drive(d)
        self.check('C10 C11', 'history-comes-to-rest', out[0] == 'ok')
        if out[0] != 'ok':
            return
        K = [int(k) for k in h.K]
        rows = [tuple(float(x) for x in h[k]) for k in range(len(h))]
        self.check('C10', 'at-most-maximum', len(K) <= self.N_max)
        self.check('C10', 'own-storage', len(set(K)) == len(K))
        self.check('C10', 'ascending', all(
            rows[j][0] <= rows[j+1][0] for j in range(len(rows)-1)))
        f4 = {}
        for v, es in self.outcomes.items():
            with np.errstate(over='ignore'):
                kk = tuple(float(np.float32(x)) for x in v)
                f4.setdefault(kk, set()).update(
                    float(np.float32(e)) for e in es)
        for row in rows:
            self.check('C10', 'record-faithful',
                       row[0] in f4.get(row[1:], ()),
                       "%r not among %r" % (row, f4.get(row[1:])))
        # Membership
        black = set(id(i) for i in self.blacklisted)
        members = []
        for i in self.p:
            with np.errstate(over='ignore'):
                v = tuple(float(np.float32(x)) for x in i.values)
                e = float(np.float32(norm(i.SSE)))
            if id(i) in black:
                e = None
            elif not math.isfinite(e):
                continue
            members.append((e, v))
        if self.prop != 'C11':
            return
        Kp = set(int(k) for k in h.Kp)
        Kn = set(int(k) for k in h.Kn)
        self.check('C11', 'marks-refer-to-records',
                   Kp <= set(K) and Kn <= set(K))
        self.check('C11', 'marks-exclusive', not (Kp & Kn))
        # No two individuals ever the same (to storage precision)
        seen = [tuple(float(np.float32(x)) for x in e['values'])
                for e in self.evals if e]
        distinct = len(set(seen)) == len(seen)
        X = h.X
        marked = [tuple(float(x) for x in X[k]) for k in sorted(Kp)]
        if distinct:
            self.check('C11', 'marked-are-members', all(
                any((e is None or e == m[0]) and v == m[1:]
                    for e, v in members) for m in marked),
                       "marked %r" % (marked,))
            if self.N_max > 2*len(self.p):
                self.check('C11', 'members-are-marked', all(
                    any((e is None or e == m[0]) and v == m[1:]
                        for m in marked) for e, v in members))
                self.check('C11', 'as-many-marked-as-members',
                           len(marked) == len(members),
                           "%d marked, %d members" % (
                               len(marked), len(members)))


def play(dv, prop, loaded=False, **opts):
    """Setup and one run."""
    w = World(dv, prop, **opts)
    p = w.make_population()
    w.n_constraints = getattr(w, 'n_constraints', 0)
    early = w.event_at
    if opts.get('event_phase', 'any') == 'run':
        w.event_at = None
    out = w.setup()
    if out[0] != 'ok' or not out[1]:
        w.over()
        return w
    if opts.get('event_phase', 'any') == 'run' and early is not None:
        w.event_at = w.steps + early
    if opts.get('replace_constraints'):
        w.replace_constraints()
    if loaded:
        w.reload(**(w.refined() if opts.get('refine') else {}))
    w.make_de()
    w.run()
    w.over()
    return w


def over(self):
    """After everything: abort handlers, second keypress, late requests."""
    if self.prop != 'C16':
        return
    if self.event_kind == 'abortNow' and self.keyboard:
        self.settle()
    for h in self.handlers:
        self.check('C16', 'abort-handler-ran-once',
                   h['n'] == (1 if self.keyboard else 0),
                   "ran %d times" % h['n'])
    if self.keyboard:
        # Nobody gets called again
        kb = self.A.KeyboardHolder.KB
        if kb is not None and self.r.random() < 0.5:
            kb.dataReceived(b'\n')
            for h in self.handlers:
                self.check('C16', 'abort-handler-ran-once', h['n'] == 1,
                           "ran %d times" % h['n'])
        # Registered too late, gets called all the same
        self.add_handler()
        self.settle()
        self.check('C16', 'late-abort-handler-runs',
                   self.handlers[-1]['n'] == 1)
    if self.aborted:
        n = self.n_eval
        out = self.drive(self.p.waitForReports())
        self.check('C16', 'waiting-for-reports-ends', out[0] == 'ok')
        de = self.D.DifferentialEvolution(self.p, logHandle=None)
        out = self.drive(de())
        self.check('C16', 'run-after-abort-ends', out[0] != 'pending')
        self.check('C16', 'no-vector-evaluated-after-abort',
                   self.n_eval == n)


World.over = over


def replace_constraints(self):
    """Other constraints for the run than for setup."""
    self.constrained = self.r.choice(['none', 'one', 'list', 'collection'])
    cons = self.make_constraints()
    if callable(cons):
        cons = [cons]
    self.p.setConstraints(*cons)
    self.constraint_log = []


World.replace_constraints = replace_constraints


def refined(self):
    """Tighter (or just other) bounds for continuing."""
    r = self.r
    bounds = []
    for a, b in self.bounds:
        w = b - a
        k = r.random()
        if k < 0.6:
            lo, hi = a + 0.3*w*r.random(), b - 0.3*w*r.random()
        elif k < 0.8:
            lo, hi = a, b
        else:
            lo, hi = a - w*r.random(), b + w*r.random()
        bounds.append((lo, hi))
    return {'bounds': bounds}


World.refined = refined


def reload(self, **kw):
    """Saves the population and continues with the loaded copy."""
    # everything in history at rest
    self.drive(self.p.history.shutdown())
    fd, path = tempfile.mkstemp(suffix='.dat')
    os.close(fd)
    try:
        cons = self.p.pm.constraints
        self.p.pm.constraints = []
        self.p.save(path)
        self.p.pm.constraints = cons
        q = self.Pop.load(path, func=self.func,
                          complaintCallback=self.complaint, **kw)
    finally:
        os.remove(path)
    if self.n_constraints:
        q.setConstraints(*self.constraint_funcs)
    for k in range(self.n_callbacks):
        q.addCallback(self.callback, k)
    if kw.get('bounds'):
        self.bounds = list(kw['bounds'])
    self.original = self.p
    self.p = q
    self.blacklisted = []
    self.complaints = []
    self.calls = []
    self.reported = []
    return q


World.reload = reload


VARIANTS = {
    'plain': {},
    'fatal': {'fatal_at': lambda r: r.randint(1, 60)},
    'event': {'event_at': lambda r: r.randint(1, 80)},
    'event in run': {'event_at': lambda r: r.randint(1, 40),
                     'event_phase': 'run'},
    'complaints': {'complain': [0.1, 0.5], 'callbacks': [1, 2, 3]},
    'callback fails': {'cb_fail_at': [1, 2, 3, 4], 'callbacks': [1, 2]},
    'small history': {'N_max': lambda r: r.randint(6, 40)},
    'loaded': {'loaded': True},
    'loaded with small history': {'loaded': True,
                                  'N_max': lambda r: r.randint(6, 40)},
    'refined': {'loaded': True, 'refine': True},
    'bad ones': {'bad': [0.5, 0.8, 0.9]},
    'plain sizes': {'Np_min': [None], 'popsize': [None, 1, 3, 10, 15],
                    'Nd': [1, 2, 3, 5, 9], 'parallel': [None]},
    'bursts': {'shape': ['bursts'], 'F': [0.1, 0.2, 0.3, (0.1, 0.2)],
               'adaptive': [True], 'maxiter': [8, 15], 'dwell': [1, 2, 5],
               'bitterEnd': [False, False, True], 'bad': [0],
               'goalSSE': [None, 1e-4], 'Np_min': [4, 5], 'Nd': [1, 2],
               'popsize': [1]},
    'other constraints': {'replace_constraints': True,
                          'constrained': ['none', 'one', 'list']},
}


def whole(dv, prop, variants='plain', **opts):
    """One of the variants, each as likely as listed."""
    names = [v.strip() for v in variants.split(',')]
    name = dv.choose('variant', names)
    o = dict(VARIANTS[name])
    o.update(opts)
    return play(dv, prop, **o)


def setup_only(dv, prop, variants='plain', **opts):
    name = dv.choose('variant', [v.strip() for v in variants.split(',')])
    o = dict(VARIANTS[name])
    o.update(opts)
    w = World(dv, prop, **o)
    w.make_population()
    w.setup()
    if w.aborted or w.fatal:
        return w
    # Once more, from scratch
    if w.r.random() < 0.3:
        w.calls, w.reported = [], []
        w.event_at = w.fatal_at = None
        w.setup()
    return w
