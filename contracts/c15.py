"""C15: improvement ratios and the replacement score."""
import math

import numpy as np

from pydv.harness import contract
from .common import *


class PM(Standin):
    maxLineLength = 100


class PStub(Standin):
    """What a reporter needs of its population."""
    def __init__(self):
        self.pm = PM()
        self.Nd = 1
        self.running = True
        self.debug = False
        self.counter = 0
        self.replaced = []
    def replacement(self, rir=None, sqs=None):
        self.replaced.append(rir)
    def abort(self, **kw):
        self.running = False
    def __iter__(self):
        return iter(())


def individual(dv, p, SSE):
    i = dv.mod('individual').Individual(p, [0.5])
    i.SSE = SSE
    return i


def reporter(dv, p):
    r = dv.mod('report').Reporter(p)
    r.minDiff = dv.real('minDiff', 0.0001, 0.5)
    return r


def errors(dv, name):
    """A proper error, or a bogus one."""
    kind = dv.choose(name + '_kind', ['proper', 'zero', 'bogus'] if dv.sym
                     else ['proper']*4 + ['zero', 'bogus'])
    if kind == 'zero':
        return kind, 0.0
    if kind == 'proper':
        x = dv.real(name)
        if not dv.sym:
            x = abs(x) or 1.0
        dv.assume(x > 0)
        return kind, x
    return kind, dv.choose(name + '_bogus', [
        float('inf'), None, float('nan')])


def near(dv, k1, a, k2, b):
    """Run time: the second error often close to the first."""
    if dv.sym or k1 != 'proper' or k2 != 'proper' or \
       dv.choose('unrelated', [True, False]):
        return b
    return a*dv.choose('factor', [
        1.0, 0.999, 0.99, 0.985, 0.97, 0.9, 0.7, 0.66, 0.4, 0.3, 0.2, 0.1,
        1.001, 1.1])


@contract('C15', 'report.Reporter.msgRatio report.Reporter.isEquivSSE',
          runs=1500)
def ratio(dv):
    """A former member against its challenger."""
    p = PStub()
    r = reporter(dv, p)
    kf, former = errors(dv, 'former')
    kc, challenger = errors(dv, 'challenger')
    challenger = near(dv, kf, former, kc, challenger)
    if kc == 'bogus':
        # never wins
        dv.assume(kf == 'bogus')
    iF, iC = individual(dv, p, former), individual(dv, p, challenger)
    x = dv.call('ratio', r.msgRatio, iF, iC,
                noProgress=dv.choose('quiet', [True, False]))
    if kf == 'bogus':
        if kc == 'bogus':
            dv.check('nothing-gained', x is None or x == 0)
        else:
            dv.check('very-high-for-bogus', x is not None and x >= 100)
            dv.reach('bogus')
        return
    if dv.truth(former < challenger):
        dv.check('nothing-when-former-is-better', x is None)
        dv.reach('better')
        return
    if kf == 'zero':
        return
    # challenger at least as good
    dv.check('something', x is not None)
    if x is None:
        return
    # errors within the configured fraction of each other
    diff = former - challenger
    tiny = 1e-9*former
    if dv.truth(diff < r.minDiff*former - tiny):
        dv.check('insignificant', x == 0)
        dv.reach('insignificant')
    elif dv.truth(diff > r.minDiff*former + tiny):
        if kc == 'zero':
            dv.check('significant', x >= 1)
            return
        dv.check('rounded-ratio', dv.And(
            x >= 1, x - 0.5 <= former/challenger*(1 + 1e-12),
            former/challenger <= (x + 0.5)*(1 + 1e-12)))
        if dv.sym:
            from pydv import values as V
            import z3
            z = V.to_float(x)
            dv.check('whole-number', V.SBool(z3.And(
                z.fin, z3.ToReal(z3.ToInt(z.r)) == z.r)))
        else:
            dv.check('whole-number', float(x) == int(x))
        dv.reach('significant')


@contract('C15', 'report.Reporter.isEquivSSE', runs=800)
def equivalence(dv):
    p = PStub()
    r = reporter(dv, p)
    kf, worse = errors(dv, 'worse')
    kc, better = errors(dv, 'better')
    better = near(dv, kf, worse, kc, better)
    if kf == 'bogus' or kc == 'bogus' or kf == 'zero':
        dv.assume(kf == 'proper' and kc == 'bogus')
        x = dv.call('equiv', r.isEquivSSE, individual(dv, p, better),
                    individual(dv, p, worse))
        dv.check('bogus-is-not-equivalent', not x)
        return
    x = dv.call('equiv', r.isEquivSSE, individual(dv, p, better),
                individual(dv, p, worse))
    d = abs(worse - better)
    tiny = 1e-9*worse
    if dv.truth(d < r.minDiff*worse - tiny):
        dv.check('equivalent', x)
        dv.reach('equivalent')
    elif dv.truth(d > r.minDiff*worse + tiny):
        dv.check('not-equivalent', dv.Not(x))
        dv.reach('not-equivalent')


# --- the score --------------------------------------------------------------
def population(dv):
    P = dv.mod('population')
    p = dv.bare(P.Population)
    p.clear()
    p.running = True
    p.pm = PM()
    p.Nd = 1
    p.debug = False
    p.targetFraction = 0.02
    p.statusQuoScore = dv.real('threshold', 0.001, 1000)
    p.reporter = dv.mod('report').Reporter(p)
    return p


def draws(dv, u):
    """Makes every unit-interval draw come out as u (run-time only)."""
    one = lambda *a, **k: u
    for name in ('random_sample', 'random', 'rand', 'ranf', 'sample'):
        dv.patch(np.random, name, one)
    dv.random.random = one


def check(dv, name, cond):
    """About internals, so a failure alone proves nothing."""
    return dv.check(name, cond, soft=True)


@contract('C15', 'population.Population.replacement', modes=('proof',))
def score_step(dv):
    """Each report adds what it should; inquiries reset."""
    p = population(dv)
    first = dv.choose('first', [True, False])
    if not first:
        # an inquiry was made before, and some reports since
        S = dv.real('S', 0)
        p.replacementScore = S
    what = dv.choose('what', ['ratio', 'inquiry', 'setting'])
    if what == 'ratio':
        if dv.choose('zero', [True, False]):
            r, add = 0, 0.1
        else:
            r = dv.int('r', 1, 10**6)
            add = r - 0.5
        dv.call('replacement', p.replacement, r)
        if first:
            check(dv, 'no-score-before-first-inquiry',
                     p.replacementScore is None)
        else:
            check(dv, 'score-grows', dv.close(p.replacementScore, S + add))
    elif what == 'inquiry':
        asked = []
        def keep(score):
            asked.append(score)
            return 'answer'
        p._keepStatusQuo = keep
        x = dv.call('inquiry', p.replacement)
        check(dv, 'reset', dv.eq(p.replacementScore, 0))
        if first:
            check(dv, 'first-answers-yes', x is True)
        else:
            check(dv, 'judged-by-score', len(asked) == 1 and x == 'answer'
                     and dv.truth(dv.eq(asked[0], S)))
    else:
        q = dv.real('q', 0.001, 1000)
        dv.call('setting', p.replacement, sqs=q)
        check(dv, 'threshold-set', dv.eq(p.statusQuoScore, q))
        if not first:
            check(dv, 'score-kept', dv.eq(p.replacementScore, S))


@contract('C15', 'population.Population._keepStatusQuo', modes=('proof',))
def chance(dv):
    """Never at zero, always from the threshold on, rising in between."""
    p = population(dv)
    s1, s2 = dv.real('s1', 0), dv.real('s2', 0)
    e = dv.e
    n = len(e.tape)
    a = dv.truth(dv.call('keep', p._keepStatusQuo, s1))
    t1 = e.tape[n:]
    n = len(e.tape)
    b = dv.truth(dv.call('keep', p._keepStatusQuo, s2))
    t2 = e.tape[n:]
    th = p.statusQuoScore
    check(dv, 'certain-above-threshold', dv.implies(s1 >= th, a))
    check(dv, 'never-without-score', dv.implies(dv.eq(s1, 0), not a))
    if t1 and t2:
        dv.assume(dv.eq(t1[0][1], t2[0][1]))
        check(dv, 'rising', dv.implies(dv.And(s1 <= s2, a), b))
        dv.reach('both-drawn')


@contract('C15', 'population.Population.replacement '
          'population.Population._keepStatusQuo', modes=('concrete',),
          runs=600)
def inquiries(dv):
    """Sequences of reports and inquiries, judged by the answers only."""
    p = population(dv)
    r = dv.rng()
    top = 1 - 2**-53
    score = None
    for _ in range(r.randint(1, 30)):
        k = r.random()
        if k < 0.6:
            rir = r.choice([0, 0, 1, 1, 2, 3, 8, 1000])
            p.replacement(r.choice([rir, np.float64(rir)]))
            if score is not None:
                score += 0.1 if rir == 0 else rir - 0.5
            continue
        if score is None:
            draws(dv, top)
            dv.check('first-answers-yes', bool(p.replacement()))
            score = 0
            continue
        mode = r.choice(['above', 'below', 'none', 'half'])
        if score == 0:
            mode = 'none'
        if mode == 'above':
            # threshold just below the score
            p.replacement(sqs=score*0.999)
            draws(dv, top)
            dv.check('above-threshold-answers-yes', bool(p.replacement()),
                     "score should be %r" % score)
        elif mode == 'below':
            p.replacement(sqs=score*1.001)
            draws(dv, top)
            dv.check('below-threshold-may-answer-no',
                     not p.replacement(), "score should be %r" % score)
        elif mode == 'half':
            p.replacement(sqs=score*r.uniform(1.5, 10))
            u = r.choice([0.0, top])
            draws(dv, u)
            x = bool(p.replacement())
            dv.check('in-between-either', x == (u == 0.0))
        else:
            if score != 0:
                # uses up the score
                p.replacement(sqs=score*0.5)
                p.replacement()
            p.replacement(sqs=r.choice([0.1, 1.0, 5.0]))
            draws(dv, r.choice([0.0, 0.1, 0.9]))
            dv.check('nothing-replaced-answers-no', not p.replacement())
        score = 0


@contract('C15', 'population.Population._keepStatusQuo '
          'population.Population.replacement', modes=('concrete',), runs=200)
def chances(dv):
    """The chance of yes rises with the score."""
    p = population(dv)
    p.replacement()
    th = p.statusQuoScore
    def yes(n, u):
        # n tenths of a score
        for _ in range(n):
            p.replacement(0)
        draws(dv, u)
        return bool(p.replacement())
    r = dv.rng()
    u = r.random()
    p.replacement(sqs=2.0)
    last = False
    for n in range(0, 26):
        x = yes(n, u)
        dv.check('rising', x or not last, "score %r" % (n/10))
        if n > 20:
            dv.check('certain', x)
        if n == 0:
            dv.check('none', not x)
        last = x


@contract('C15', 'population.Population.report report.Reporter.__call__ '
          'report.Reporter.msgRatio report.Reporter.newBest '
          'population.Population.replacement', runs=600)
def reports(dv):
    """A successful challenge adds to the score, a new best gets a bonus."""
    p = population(dv)
    best = dv.real('best', 0.001)
    iBest = individual(dv, p, best)
    p.reporter(iBest, noProgress=True)
    former = dv.real('former', 0.001)
    new = dv.real('new', 0.001)
    if not dv.sym:
        former = max(former, best)
        new = near(dv, 'proper', former, 'proper', new)
    dv.assume(former >= best)
    iF, iN = individual(dv, p, former), individual(dv, p, new)
    ratio = dv.call('ratio', p.reporter.msgRatio, iF, iN, noProgress=True)
    p.replacement()
    log = []
    old = p.replacement
    def replacement(rir=None, sqs=None):
        log.append(rir)
        return old(rir, sqs)
    p.replacement = replacement
    got = dv.call('report', p.report, iN, iF, noProgress=True)
    dv.check('ratio-returned', (got is None) == (ratio is None) and (
        got is None or dv.truth(dv.eq(got, ratio))))
    expected = 0
    if ratio is not None:
        expected = expected + dv.ite(dv.eq(ratio, 0), 0.1, ratio - 0.5)
    if dv.truth(new < best):
        expected = expected + 0.5
        dv.reach('new-best')
    added = 0
    for x in log:
        added = added + dv.ite(dv.eq(x, 0), 0.1, x - 0.5)
    dv.check('score', dv.close(added, expected))
    if ratio is None:
        dv.reach('failed-challenge')
