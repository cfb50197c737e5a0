# --- C01
bug('far-overshoot', 'C01', 'ade/population.py', [(
    "        return np.clip(values, self.mins, self.maxs)",
    "        return np.minimum(values, self.maxs)")],
    "a challenger so far above an upper bound that its mirror image is below "
    "the lower bound",
    "A coordinate mirrored about its upper bound can end up below the lower "
    "bound.", '''
from ade.population import ParameterManager
pm = ParameterManager(['x', 'y'], [(-1, 1), (0, 2)])
v = pm.limit(np.array([3.5, 1.0]))
verdict(v[0] >= -1 and v[0] <= 1, "limited to %r" % v)
''')

# --- C02
bug('sorted-names', 'C02', 'ade/population.py', [(
    "        for name, value in zip(self.names, values):\n"
    "            params[name] = value\n"
    "        for func in self.constraints:",
    "        for name, value in zip(sorted(self.names), values):\n"
    "            params[name] = value\n"
    "        for func in self.constraints:")],
    "parameter names that are not in alphabetical order",
    "Constraints are presented with values under the wrong names.", '''
from ade.population import ParameterManager
seen = {}
def f(params):
    seen.update(params)
    return True
pm = ParameterManager(['width', 'height'], [(0, 1), (5, 6)], [f])
pm.passesConstraints(np.array([0.5, 5.5]))
verdict(seen == {'width': 0.5, 'height': 5.5}, repr(seen))
''')

# --- C03
bug('ties-win', 'C03', 'ade/de.py', [(
    "                        if iChallenger < iTarget:",
    "                        if not iChallenger > iTarget:")],
    "a challenger with exactly its target's error, e.g. on a plateau",
    "A challenger with the same error replaces its target.", '''
from ade.population import Population
from ade.de import DifferentialEvolution
def flat(values):
    return 1.0
@defer.inlineCallbacks
def run():
    p = Population(flat, ['x', 'y'], [(-1, 1), (-1, 1)])
    yield p.setup()
    before = list(p)
    yield DifferentialEvolution(p, maxiter=2, logHandle=None)()
    defer.returnValue(sum(a is not b for a, b in zip(before, p)))
n = drive(run)
verdict(n == 0, "%r slots changed hands on a plateau" % n)
''')

# --- C04

# --- C05

# --- C06
bug('kept-after-constraint', 'C06', 'ade/de.py', [(
    "                    # Failed constraints\n"
    "                    self.p.showFailedConstraint()\n",
    "                    # Failed constraints\n"
    "                    self.p.showFailedConstraint()\n"
    "                    return\n")],
    "a challenger turned away by constraints",
    "A challenge turned away by constraints keeps its target's slot reserved.",
    '''
from ade.population import Population
from ade.de import DifferentialEvolution
allow = [True]
p = Population(lambda v: float(np.sum(v**2)), ['x', 'y'], [(-1, 1)]*2,
               constraints=[lambda params: allow[0]])
@defer.inlineCallbacks
def run():
    yield p.setup()
    de = DifferentialEvolution(p, maxiter=1, logHandle=None)
    from ade.de import FManager
    de.fm = FManager(0.5, 0.8, p.Np)
    allow[0] = False
    yield de.challenge(0, 1)
    defer.returnValue([k for k, d in enumerate(p.dLocks) if d.locked])
locked = drive(run)
verdict(locked == [], "slots still reserved: %r" % (locked,))
''')
bug('early-release', 'C06', 'ade/de.py', [(
    "                self.p.release(kb, k0, k1)",
    "                self.p.release(kt, kb, k0, k1)"), (
    "                self.p.release(kt)\n", "                pass\n")],
    "a slot drawn for another challenge while one against it is being "
    "evaluated",
    "A target's slot can be read by others while it is being challenged.", '''
from ade.population import Population
from ade.de import DifferentialEvolution, FManager
pending = []
slow = [False]
def func(v):
    if not slow[0]:
        return float(np.sum(v**2))
    d = defer.Deferred()
    pending.append(d)
    return d
p = Population(func, ['x', 'y'], [(-1, 1)]*2)
@defer.inlineCallbacks
def run():
    yield p.setup()
    de = DifferentialEvolution(p, maxiter=1, logHandle=None)
    de.fm = FManager(0.5, 0.8, p.Np)
    slow[0] = True
    de.challenge(3, 4)
    d = defer.Deferred()
    reactor.callLater(0.2, d.callback, None)
    yield d
    defer.returnValue(bool(p.dLocks[3].locked))
locked = drive(run)
verdict(locked is True, "slot being challenged reserved: %r" % locked)
''')

# --- C07
bug('stale-listing', 'C07', 'ade/population.py', [(
    "        self._KS = None\n        del self.iSorted\n",
    "        self._KS = None\n")],
    "asking for the ranking between a replacement and asking for the sorted "
    "listing",
    "The sorted listing lags behind the ranking.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
for k, e in enumerate([5.0, 1.0, 3.0]):
    i = p.spawn([0.1*k])
    i.SSE = e
    p.iList.append(i)
p.iSorted
i = p.spawn([0.7])
i.SSE = 0.5
p[0] = i
p.KS
verdict(p.iSorted[0] is i, "best in listing is %r" % p.iSorted[0].SSE)
''')
bug('push-second-worst', 'C07', 'ade/population.py', [(
    "        kWorst = self.KS[-1]\n        self[kWorst] = i\n",
    "        kWorst = max(range(len(self)), key=lambda k: (\n"
    "            np.isfinite(self[k].SSE), self[k].SSE))\n"
    "        self[kWorst] = i\n")],
    "pushing into a population that has a blacklisted member",
    "Pushing evicts the worst member with a finite error rather than one with "
    "an infinite error.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
for k, e in enumerate([5.0, np.inf, 3.0]):
    i = p.spawn([0.1*k])
    i.SSE = e
    p.iList.append(i)
i = p.spawn([0.7])
i.SSE = 0.5
p.push(i)
verdict(p[1] is i, "errors now %r" % [x.SSE for x in p])
''')

# --- C08
bug('limited-sticks', 'C08', 'ade/de.py', [(
    "        self.limited = False\n        highest = self.highest\n"
    "        if self.is_sequence and highest < self.origHighest:\n"
    "            self.highest = scaleUp(highest, self.scales[1], "
    "self.origHighest)\n            return\n",
    "        highest = self.highest\n"
    "        if self.is_sequence and highest < self.origHighest:\n"
    "            self.highest = scaleUp(highest, self.scales[1], "
    "self.origHighest)\n            return\n"
    "        self.limited = False\n")],
    "a range adapted all the way down and then up once",
    "The 'limited' indication survives an upward request.", '''
from ade.de import FManager
fm = FManager((0.5, 1.0), 0.8, 100, adaptive=True)
for _ in range(500):
    fm.down()
assert fm.limited
fm.up()
verdict(not fm.limited, "limited after going up: %r" % fm.limited)
''')
bug('highest-below-lowest', 'C08', 'ade/de.py', [(
    "            if proposedF > self.minHighestVsLowest * lowest:",
    "            if proposedF > self.criticalF:")],
    "many downward requests in a row with a range",
    "The upper end of the range can drop below the lower end.", '''
from ade.de import FManager
fm = FManager((0.5, 0.52), 0.8, 30, adaptive=True)
bad = False
for _ in range(500):
    fm.down()
    bad = bad or fm.F[1] < fm.F[0]
verdict(not bad, "range now %r" % fm)
''')

# --- C09
bug('counts-tries', 'C09', 'ade/population.py', [(
    "            while running() and needMore():",
    "            while running() and k < 2*self.Np and needMore():")],
    "more than half of the evaluations in setup coming back infinite",
    "Setup reports success with fewer members than configured when many "
    "evaluations come back infinite.", '''
from ade.population import Population
n = [0]
def func(v):
    n[0] += 1
    return float('inf') if n[0] % 4 else 1.0 + n[0]
@defer.inlineCallbacks
def run():
    p = Population(func, ['x', 'y'], [(-1, 1)]*2)
    ok = yield p.setup()
    defer.returnValue((ok, len(p), p.Np))
ok, n, want = drive(run)
verdict(not ok or n == want, "%r with %d of %d members" % (ok, n, want))
''')
bug('undefined-admitted', 'C09', 'ade/population.py', [(
    "            isFinite = not np.isinf(float(i.SSE))",
    "            isFinite = i.SSE is not np.inf")],
    "an initial evaluation without a finite error",
    "An initial individual with an infinite error is admitted.", '''
from ade.population import Population
n = [0]
def func(v):
    n[0] += 1
    return None if n[0] % 4 == 0 else 1.0 + n[0]
@defer.inlineCallbacks
def run():
    p = Population(func, ['x', 'y'], [(-1, 1)]*2)
    ok = yield p.setup()
    defer.returnValue(all(math.isfinite(i.SSE) for i in p))
ok = drive(run)
verdict(ok is True, "all finite: %r" % ok)
''')

# --- C10
# --- C11
bug('clear-keeps-never', 'C11', 'ade/history.py', [(
    "            self.Kp.clear()\n            self.Kn.clear()\n",
    "            self.Kp.clear()\n")],
    "a history cleared after recording individuals that never were members",
    "After a clear, a member's record can be marked as never in the "
    "population.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=6)
@defer.inlineCallbacks
def run():
    for k in range(4):
        yield h.add(I(k), neverInPop=True)
    yield h.clear()
    for k in range(3):
        yield h.add(I(k))
drive(run)
verdict(not (h.Kp & h.Kn), "in population %r, never %r" % (h.Kp, h.Kn))
''')
bug('never-mark-stays', 'C11', 'ade/history.py', [(
    "        self.Kp.discard(kr)     # May already have been discarded with "
    ".pop\n        self.Kn.discard(kr)\n",
    "        self.Kp.discard(kr)     # May already have been discarded with "
    ".pop\n")],
    "an evicted never-in-population record whose storage goes to a member",
    "A member's record can be marked as never in the population.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=3)
for e in (1.0, 2.0, 3.0):
    h.add(I(e), neverInPop=True)
drive(lambda: h.add(I(1.5)))
verdict(not (h.Kp & h.Kn), "in population %r, never %r" % (h.Kp, h.Kn))
''')
bug('leaver-not-expendable', 'C11', 'ade/history.py', [(
    "            self.Kp.discard(kr)\n"
    "            # This row is no longer a population member",
    "            if len(self.Kp) > 1: self.Kp.discard(kr)\n"
    "            # This row is no longer a population member")],
    "the only member on record leaving the population",
    "A departed individual stays marked as a member.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=3)
i = I(1.0)
h.add(i)
h.notInPop(i)
verdict(not h.Kp, "members %r" % h.Kp)
''')

# --- C12
bug('score-forgotten', 'C12', 'ade/population.py', [(
    "            'Nd', 'Np', 'popsize', 'targetFraction', 'statusQuoScore',",
    "            'Nd', 'Np', 'popsize', 'statusQuoScore',")],
    "a population with a target fraction of its own",
    "The target fraction setting is lost by saving and loading.", '''
import tempfile, shutil
from ade.population import Population
p = Population(lambda v: 0, ['x', 'y'], [(-1, 1)]*2, targetFraction=0.07)
top = tempfile.mkdtemp()
try:
    p.save(os.path.join(top, 'p.dat'))
    q = Population.load(os.path.join(top, 'p.dat'))
finally:
    shutil.rmtree(top)
verdict(q.targetFraction == 0.07, "target fraction %r" % q.targetFraction)
''')

# --- C13
bug('creeping-best', 'C13', 'ade/report.py', [(
    "            return not self.isEquivSSE(i, self.iLastReported)",
    "            return not self.isEquivSSE(i, iBackupBest)")],
    "improvements that are each insignificant but add up",
    "A best that has crept far below the last one reported is never "
    "delivered.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
p.running = True
got = []
p.addCallback(lambda values, counter, SSE: got.append(SSE))
for k in range(40):
    i = p.spawn([0.01*k])
    i.SSE = 100*0.99**k
    p.reporter(i)
verdict(len(got) > 1 and got[-1] < 100*0.99**36, "delivered %r" % got)
''')

# --- C14
bug('falsy-complaint', 'C14', 'ade/report.py', [(
    "                    if result is not None and i and not aborted():",
    "                    if result and i and not aborted():")],
    "a callback that complains with a falsy result such as 0 or an empty "
    "text",
    "A complaint that happens to be falsy is ignored.", '''
from ade.population import Population
seen = []
p = Population(lambda v: 0, ['x'], [(0, 1)],
               complaintCallback=lambda i, r: seen.append((i, r)))
p.running = True
p.addCallback(lambda values, counter, SSE: 0)
i = p.spawn([0.5])
i.SSE = 1.0
p.reporter(i)
verdict(len(seen) == 1 and i.SSE == np.inf, "%r, error %r" % (seen, i.SSE))
''')

# --- C15

# --- C16
bug('aborted-with-threshold', 'C16', 'ade/population.py', [(
    "        if self.running is False:\n"
    "            values = None\n        if xSSE is None:\n",
    "        if self.running is False and xSSE is None:\n"
    "            values = None\n        if xSSE is None:\n")],
    "an abort while a challenge with an error threshold is about to evaluate",
    "A parameter vector reaches the evaluation function after an abort.", '''
from ade.population import Population
got = []
p = Population(lambda v, xSSE=None: got.append(v) or 0, ['x'], [(0, 1)])
i = p.spawn([0.5])
p.abort()
i.evaluate(1.0)
verdict(got == [None], "evaluated %r" % got)
''')
bug('fatal-recorded', 'C16', 'ade/individual.py', [(
    "            self.SSE = -1\n            return self\n",
    "            self.SSE = None\n            return self\n")],
    "an evaluation that fails with an exception",
    "A failing evaluation is not treated as fatal.", '''
from ade.population import Population
def func(v):
    raise RuntimeError("no")
p = Population(func, ['x'], [(0, 1)])
i = p.spawn([0.5])
i.evaluate()
verdict(not i, "truth of the individual: %r" % bool(i))
''')

# --- C17
bug('dwell-accumulates', 'C17', 'ade/de.py', [(
    "                self.fm.up()\n                self.dwellCount = 0\n",
    "                self.fm.up()\n")],
    "exhausted generations interrupted by one with enough improvement",
    "The run stops although the exhausted generations were not consecutive.",
    '''
from ade.population import Population
from ade.de import DifferentialEvolution
@defer.inlineCallbacks
def run():
    p = Population(lambda v: float(np.sum(v**2)), ['x', 'y'], [(-1, 1)]*2)
    yield p.setup()
    answers = [k % 3 == 2 for k in range(100)]
    p.replacement = lambda *a, **k: (
        None if a or k else answers.pop(0))
    gens = []
    de = DifferentialEvolution(p, maxiter=12, dwellByGrave=3, F=0.001,
                               CR=0.9, adaptive=True, logHandle=None)
    yield de(gens.append)
    defer.returnValue(gens)
gens = drive(run)
verdict(len(gens) == 12, "generations %r" % (gens,))
''')
bug('one-generation-more', 'C17', 'ade/de.py', [(
    "        for kg in range(self.maxiter):\n",
    "        for kg in range(max(self.maxiter, 2)):\n")],
    "a maximum of one generation (or none)",
    "A run may exceed the maximum number of generations.", '''
from ade.population import Population
from ade.de import DifferentialEvolution
@defer.inlineCallbacks
def run():
    p = Population(lambda v: float(np.sum(v**2)), ['x', 'y'], [(-1, 1)]*2)
    yield p.setup()
    gens = []
    yield DifferentialEvolution(p, maxiter=1, logHandle=None)(gens.append)
    defer.returnValue(gens)
gens = drive(run)
verdict(gens == [0], "generations %r" % (gens,))
''')

# --- C18
bug('two-levels-only', 'C18', 'ade/specs.py', [(
    "        for part in first.split(':'):\n",
    "        for part in first.split(':', 1):\n")],
    "keys nested three or more levels deep",
    "Deeper nesting of dicts is misread.", '''
import tempfile, shutil
from ade.specs import SpecsLoader
top = tempfile.mkdtemp()
try:
    path = os.path.join(top, 'x')
    with open(path, 'w') as fh:
        fh.write("params\\n---\\na:b:c 5\\n---\\n")
    s = SpecsLoader(path)()
finally:
    shutil.rmtree(top)
verdict(s.params == {'a': {'b': {'c': 5.0}}}, repr(s.params))
''')
bug('truthy-words', 'C18', 'ade/specs.py', [(
    "            if value == string:\n",
    "            if value.startswith(string):\n")],
    "a word that begins with none, true or false",
    "Words such as 'nonesuch' are taken for constants.", '''
import tempfile, shutil
from ade.specs import SpecsLoader
top = tempfile.mkdtemp()
try:
    path = os.path.join(top, 'x')
    with open(path, 'w') as fh:
        fh.write("color trueblue\\n")
    s = SpecsLoader(path)()
finally:
    shutil.rmtree(top)
verdict(s.color == 'trueblue', repr(s.color))
''')

# --- C19
bug('first-relation-only', 'C19', 'ade/constraints.py', [(
    "                if abs(yr-y) > yMaxErr:\n"
    "                    return False\n",
    "                if abs(yr-y) > yMaxErr:\n"
    "                    return False\n"
    "                if yMaxErr == 0: break\n")],
    "a relation with zero tolerance followed by another one of the same "
    "parameter",
    "Relations after one with zero tolerance are not checked.", '''
from ade.constraints import RelationsChecker
rc = RelationsChecker({'x': {'y': (1, 0, 0), 'z': (1, 0, 0.5)}})
verdict(rc({'x': 1.0, 'y': 1.0, 'z': 9.0}) is False, "accepted")
''')
bug('signed-deviation', 'C19', 'ade/constraints.py', [(
    "                if abs(yr-y) > yMaxErr:\n",
    "                if yr-y > yMaxErr or y > yr*(1+yMaxErr):\n")],
    "a second parameter above its nominal value",
    "Deviation above the nominal value is judged by the wrong limit.", '''
from ade.constraints import RelationsChecker
rc = RelationsChecker({'x': {'y': (1, 0, 0.5)}})
verdict(rc({'x': 10.0, 'y': 12.0}) is False, "accepted")
''')

# --- C20
bug('never-means-not', 'C20', 'ade/history.py', [(
    "            K = [k for k in self.K if k not in self.Kp and k not in "
    "self.Kn]",
    "            K = [k for k in self.K if k not in self.Kp]")],
    "records of individuals that never were in the population",
    "Former members' query includes those who never were members.", '''
from ade.history import Analysis
X = np.array([[float(k+1), k] for k in range(5)])
a = Analysis(['x'], X, list(range(5)), {0, 1}, {4})
E = list(a.value_vs_SSE(['x'], notInPop=True)[0])
verdict(E == [3.0, 4.0], repr(E))
''')

# --- C21
bug('total-time', 'C21', 'ade/util.py', [(
    "            avgTime = self.times[ID] / self.Ns[ID]\n",
    "            avgTime = self.times[ID] / min(self.Ns[ID], 2)\n")],
    "a part called three times or more",
    "Order is not by average time.", '''
from ade import util
t = [0.0]
class Clock(object):
    def time(self): return t[0]
util.time = Clock()
et = util.EvalTimer(0)
def part(ID, dt):
    t[0] += dt
    return defer.succeed(None)
for _ in range(6):
    et(part, 'often', 1.0)
et(part, 'once', 2.0)
verdict(list(et) == ['often', 'once'], repr(list(et)))
''')

# --- C22
bug('nearly-equal', 'C22', 'ade/individual.py', [(
    "        return np.all(self.values == other)\n",
    "        return np.allclose(self.values, other)\n")],
    "two individuals with nearly the same values and the same error",
    "Different individuals compare equal.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
a, b = p.spawn([0.5]), p.spawn([0.5 + 1e-9])
a.SSE = b.SSE = 1.0
verdict(not a == b, "equal: %r" % (a == b))
''')
bug('copy-shares', 'C22', 'ade/individual.py', [(
    "        i = Individual(self.p, list(self.values))\n",
    "        i = Individual(self.p, self.values)\n")],
    "changing a copy in place",
    "A copy shares its storage with the original.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
a = p.spawn([0.5])
b = a.copy()
b[0] = 0.25
verdict(a[0] == 0.5, "original now %r" % a[0])
''')

# --- second round
bug('oldest-pending', 'C13', 'ade/report.py', [(
    "        self.cbrScheduled(i)\n        if self.cbrInProgress:\n",
    "        if not self.cbrScheduled or i.SSE > 0:\n"
    "            self.cbrScheduled(i)\n        if self.cbrInProgress:\n")],
    "a perfect individual reported while another one is waiting for its "
    "callbacks",
    "A best with zero error may never be delivered to the callbacks.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
p.running = True
got, busy = [], []
def slow(values, counter, SSE):
    got.append(SSE)
    d = defer.Deferred()
    busy.append(d)
    return d
p.addCallback(slow)
for x in (0.5, 0.25, 0.0):
    i = p.spawn([x])
    i.SSE = 10*x
    p.reporter(i)
while busy:
    busy.pop().callback(None)
verdict(got[-1] == 0, "delivered %r" % got)
''')
bug('rounded-search', 'C10', 'ade/history.py', [(
    "        k = np.searchsorted(self.X[K,0], SSE)\n",
    "        k = np.searchsorted(np.round(self.X[K,0], 3), SSE)\n")],
    "records whose errors differ in the fourth decimal only",
    "Records with close errors are listed out of order.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=6)
for e in (0.1004, 0.1001, 0.1003):
    h.add(I(e))
got = [float(h[k][0]) for k in range(len(h))]
verdict(got == sorted(got), "listed errors %r" % got)
''')
bug('small-roster-format', 'C12', 'ade/history.py', [(
    "            'Kn': seq2bytes(list(self.Kn), 'u2'),",
    "            'Kn': seq2bytes(list(self.Kn), 'u1'),")],
    "a history with more than 256 records",
    "Marks of never having been in the population are lost or moved by "
    "saving and loading.", '''
import pickle
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=500)
for k in range(300):
    h.add(I(k + 1.0), neverInPop=(k > 280))
g = pickle.loads(pickle.dumps(h))
verdict(set(map(int, g.Kn)) == set(map(int, h.Kn)),
        "marks %r" % sorted(map(int, g.Kn)))
''')
bug('zero-difference-alias', 'C05', 'ade/individual.py', [(
    "        return self.spawn(self.values + other.values)",
    "        if not np.any(other.values): return self\n"
    "        return self.spawn(self.values + other.values)")],
    "two difference members with the same values, as in a converged "
    "population",
    "Constructing a challenger alters the base member when the two "
    "difference members coincide.", '''
from ade.population import Population
from ade.de import DifferentialEvolution, FManager
p = Population(lambda v: float(np.sum(v**2)), ['x', 'y'], [(0, 1)]*2)
@defer.inlineCallbacks
def run():
    yield p.setup()
    for k in range(2, len(p)):
        p[k].update([0.5, 0.5])
    p[0].update([0.1, 0.2])
    p[1].update([0.8, 0.9])
    de = DifferentialEvolution(p, CR=0.0, logHandle=None)
    de.fm = FManager(0.5, 0.8, p.Np)
    base = p[1]
    yield de.challenge(0, 1)
    defer.returnValue(list(base.values))
got = drive(run)
verdict(got == [0.8, 0.9], "base member now %r" % (got,))
''')
bug('excluded-once', 'C04', 'ade/population.py', [(
    "        K = [k for k in self.KS if k not in exclude]",
    "        K = [k for k in self.KS if k not in exclude[:2]]")],
    "excluding more than two members",
    "A member excluded after two others can still be drawn.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
for k in range(5):
    i = p.spawn([0.1*k])
    i.SSE = 1.0 + k
    p.iList.append(i)
bad = sum(p.sample(1, 4, 3, 2) == 2 for _ in range(200))
verdict(not bad, "excluded member drawn %d times" % bad)
''')
bug('threshold-blurred', 'C15', 'ade/population.py', [(
    "        if x > 1:\n", "        if x > 1.1:\n")],
    "a score a little above the status quo threshold",
    "A score above the threshold may answer no.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
p.statusQuoScore = 1.0
n = sum(bool(p._keepStatusQuo(1.09)) for _ in range(5000))
verdict(n == 5000, "%d of 5000 times yes" % n)
''')
bug('score-capped', 'C15', 'ade/population.py', [(
    "            addition = 0.1 if rir == 0 else rir - 0.5\n",
    "            addition = 0.1 if rir == 0 else min(rir, 9) - 0.5\n")],
    "an improvement by a factor of ten or more",
    "The score grows by too little for large ratios.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)])
p.replacement()
p.replacement(20)
verdict(p.replacementScore == 19.5, "score %r" % p.replacementScore)
''')
bug('clear-new-list', 'C20', 'ade/history.py', [(
    "            del self.K[:]\n", "            self.K = []\n")],
    "a query after the history was cleared",
    "Queries keep answering with the records from before a clear.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=6)
@defer.inlineCallbacks
def run():
    for k in range(4):
        yield h.add(I(k + 1.0))
    yield h.clear()
    yield h.add(I(9.0))
    r = yield h.value_vs_SSE(['x'])
    defer.returnValue(list(map(float, r[0])))
got = drive(run)
verdict(got == [9.0], "errors %r" % (got,))
''')
bug('clear-keeps-map', 'C11', 'ade/history.py', [(
    "            self.kr.clear()\n            self.N_total = 0\n",
    "            self.N_total = 0\n")],
    "an individual from before a clear leaving afterwards",
    "A record can lose its membership mark to a departure of an individual "
    "from before a clear.", '''
from ade.history import History
class I(object):
    def __init__(self, e):
        self.SSE, self.values = e, np.array([e, -e])
h = History(['x', 'y'], N_max=6)
a, b = I(1.0), I(2.0)
h.add(a)
h.clear()
h.add(b)
h.notInPop(a)
verdict(len(h.Kp) == 1, "members %r" % h.Kp)
''')
bug('gives-up-on-constraints', 'C02', 'ade/population.py', [(
    "                msg(0, \"Couldn't generate a conforming Individual, "
    "aborting!\")\n                self.abort()\n",
    "                msg(0, \"Couldn't generate a conforming Individual!\")\n"
    )],
    "constraints that hardly any vector satisfies",
    "Setup evaluates a vector that violates constraints when it cannot find "
    "a better one.", '''
from ade.population import Population
n = [0]
def func(v):
    n[0] += 1
    return 1.0
@defer.inlineCallbacks
def run():
    p = Population(func, ['x', 'y'], [(-1, 1)]*2,
                   constraints=[lambda params: False])
    p.maxTries = 5
    yield p.setup()
drive(run)
verdict(n[0] == 0, "%d evaluated" % n[0])
''')
bug('handlers-again', 'C16', 'ade/abort.py', [(
    "        while self.callbacks:\n"
    "            func = self.callbacks.pop(0)\n            func()\n",
    "        for func in list(self.callbacks):\n            func()\n")],
    "pressing Enter twice, or a second abort",
    "Abort handlers run again on a second abort.", '''
from ade import abort
n = []
def run():
    abort.callOnAbort(lambda: n.append(1))
    abort.abortNow()
    abort.abortNow()
    d = defer.Deferred()
    reactor.callLater(0.2, d.callback, None)
    return d
drive(run)
verdict(len(n) == 1, "handler ran %d times" % len(n))
''')
bug('late-complaint', 'C14', 'ade/report.py', [(
    "                        i.blacklist()\n",
    "                        if i is self.iBest: i.blacklist()\n")],
    "a complaint that arrives after a better individual has been reported",
    "A complaint about an individual that is no longer the best has no "
    "effect.", '''
from ade.population import Population
p = Population(lambda v: 0, ['x'], [(0, 1)],
               complaintCallback=lambda i, r: None)
p.running = True
busy = []
def slow(values, counter, SSE):
    d = defer.Deferred()
    busy.append(d)
    return d
p.addCallback(slow)
I = []
for x in (0.5, 0.25):
    i = p.spawn([x])
    i.SSE = 10*x
    p.reporter(i)
    I.append(i)
busy.pop(0).callback("ugly")
verdict(I[0].SSE == np.inf, "error %r" % I[0].SSE)
''')
bug('failures-untimed', 'C21', 'ade/util.py', [(
    "        return func(*args, **kw).addBoth(done)",
    "        return func(*args, **kw).addCallback(done)")],
    "a part that fails",
    "Calls that fail are not counted.", '''
from ade import util
et = util.EvalTimer(0)
def part(ID):
    return defer.fail(RuntimeError("x")) if ID == 'b' else defer.succeed(1)
for ID in 'ab':
    et(part, ID).addErrback(lambda f: None)
verdict(set(et) == {'a', 'b'}, repr(list(et)))
''')
bug('plot-count-lost', 'C20', 'ade/history.py', [(
    "            self.fileSpec[3] = count\n",
    "            self.fileSpec[3] = count % 10\n")],
    "more than ten plots in a row",
    "File names repeat after ten plots.", '''
from ade.history import Analysis
a = Analysis(['x'], np.zeros((1, 2)), [])
a.filePath("/nowhere/plot.png")
names = [a.filePath()[0] for _ in range(30)]
verdict(len(set(names)) == 30, "%d different names" % len(set(names)))
''')
bug('falsy-result', 'C21', 'ade/util.py', [(
    "            return result\n        \n        t0 = time.time()",
    "            return result or None\n        \n        t0 = time.time()")],
    "a part whose result counts as false, e.g. an error of exactly zero",
    "The timer replaces such a result by None.", '''
from ade import util
et = util.EvalTimer(0)
got = []
et(lambda ID: defer.succeed(0.0), 'a').addCallback(got.append)
verdict(got == [0.0] and got[0] is not None, repr(got))
''')
bug('loaded-members-expendable', 'C11', 'ade/history.py', [(
    "            if kr in self.Kp: continue\n",
    "")],
    "a history that has been saved and loaded and then has to make room, "
    "with two members more alike than any two others",
    "Current members' records get dropped in a resumed run.", '''
import pickle
from ade.history import History
class I(object):
    def __init__(self, e, x):
        self.SSE, self.values = e, np.array([x, -x])
members = [1.0 + 1E-3*k for k in range(5)]
@defer.inlineCallbacks
def run():
    h = History(['x', 'y'], N_max=20)
    for e in members:
        yield h.add(I(e, e))
    for k in range(15):
        i = I(10.0*(k + 1), (k + 1)**2)
        yield h.add(i)
        yield h.notInPop(i)
    g = pickle.loads(pickle.dumps(h))
    for k in range(6):
        yield g.add(I(1000.0*(k + 2), -7.0*(k + 1)), neverInPop=True)
    defer.returnValue(g)
g = drive(run)
left = [float(g[k][0]) for k in range(len(g))]
gone = [e for e in members if not np.any(np.isclose(left, e, rtol=1E-6))]
verdict(not gone, "members with errors %r have no record" % gone)
''')
bug('discredited-slot-unguarded', 'C12', 'ade/population.py', [(
    "            i.p = self\n"
    "            self.dLocks.append(defer.DeferredLock())\n",
    "            i.p = self\n"
    "            if i.SSE < np.inf:\n"
    "                self.dLocks.append(defer.DeferredLock())\n")],
    "a population saved while a member somebody complained about is in it",
    "There are fewer locks than slots once loaded, so the last slot can be "
    "had by two challenges at a time.", '''
import os, shutil, tempfile
from ade.population import Population
p = Population(lambda v: float(np.sum(v**2)), ['x', 'y'], [(0, 1)]*2)
drive(p.setup)
p[2].blacklist()
top = tempfile.mkdtemp()
try:
    path = os.path.join(top, 'p.dat')
    p.save(path)
    q = Population.load(path)
finally:
    shutil.rmtree(top)
twice = []
for k in range(len(q)):
    q.lock(k)
    if q.lock(k).called:
        twice.append(k)
verdict(not twice, "slots %r reserved by two" % twice)
''')
