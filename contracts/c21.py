"""C21: timed partial evaluations are counted and ordered by average time."""
from twisted.internet import defer
from twisted.python import failure

from pydv.harness import contract
from .common import *


class Boom(Exception):
    pass


class Time(object):
    """The time module with a scripted clock."""
    def __init__(self, real, now):
        self.real = real
        self.now = now
    def time(self):
        return self.now()
    perf_counter = monotonic = process_time = default_timer = time
    def __getattr__(self, name):
        return getattr(self.real, name)


class Scene(object):
    def __init__(self, dv, k=0):
        self.dv = dv
        self.U = dv.mod('util')
        self.t = 1000.0
        dv.patch(self.U, 'time', Time(self.U.time, lambda: self.t))
        self.timer = self.U.EvalTimer(k)
        self.k = k
        self.model = {}         # ID -> [total, number]
        self.asked = []

    def begin(self, ID, style='deferred', busy=0, result=None):
        """
        Calls a part that is busy for some time before it returns; returns
        the call record.
        """
        dv = self.dv
        d = defer.Deferred()
        args = ['x%d' % j for j in range(self.k)] + [ID, 'more']
        result = object() if result is None else result[0]
        rec = {'ID': ID, 't0': self.t, 'd': d, 'result': result}
        def part(*a, **kw):
            self.asked.append((a, kw))
            self.t = self.t + busy
            if style == 'immediate':
                d.callback(result)
            return d
        n = len(self.asked)
        rec['out'] = dv.outcome(dv.call(
            'call', self.timer, part, *args, option=7))
        dv.check('part-called-once-with-its-arguments',
                 len(self.asked) == n + 1 and
                 self.asked[-1] == (tuple(args), {'option': 7}))
        if style == 'immediate':
            self.over(rec)
        return rec

    def end(self, rec, fails=False):
        if fails:
            rec['result'] = Boom("part failed")
            rec['d'].errback(failure.Failure(rec['result']))
        else:
            rec['d'].callback(rec['result'])
        self.over(rec)

    def over(self, rec):
        dv = self.dv
        m = self.model.setdefault(rec['ID'], [0.0, 0])
        m[0] = m[0] + (self.t - rec['t0'])
        m[1] += 1
        kind, x = rec['out']
        if isinstance(rec['result'], Boom):
            dv.check('failure-passed-on',
                     kind == 'failed' and x.value is rec['result'])
        else:
            dv.check('result-passed-on', kind == 'ok' and x is rec['result'])

    def judge(self):
        dv = self.dv
        got = dv.call('iterate', lambda: list(self.timer))
        dv.check('every-finished-part-exactly-once',
                 len(got) == len(self.model) and
                 set(got) == set(self.model))
        if set(got) != set(self.model):
            return
        avg = [self.model[ID][0]/self.model[ID][1] for ID in got]
        for a, b in zip(avg, avg[1:]):
            dv.check('ascending-average', a <= b if dv.sym
                     else a <= b + 1e-9)


@contract('C21', 'util.EvalTimer.__call__ util.EvalTimer.__iter__',
          modes=('bounded', 'concrete'), runs=200,
          note="three parts, up to four overlapping calls, arbitrary times")
def overlapping(dv):
    s = Scene(dv, dv.choose('k', [0, 1]))
    script = dv.choose('script', [
        'Aa', 'AaBb', 'ABab', 'ABba', 'AaAa', 'AAaa', 'AaBbAa', 'AaABab',
        'ABbaBb', 'ABCabc', 'ABCcba', 'AaBbCc', 'AaB', 'ABb', 'A', '',
        'AaBbAaCc'])
    fails = dv.choose('fails', [None, 0])
    open_ = {}
    n = 0
    for c in script:
        dt = dv.real('dt', 0)
        s.t = s.t + (dt if dv.sym else abs(dt))
        if c.isupper():
            open_.setdefault(c, []).append(s.begin(c))
        else:
            rec = open_[c.upper()].pop(0)
            s.end(rec, fails == n)
            n += 1
    s.judge()
    dv.reach('judged')


@contract('C21', 'util.EvalTimer.__call__', modes=('proof',))
def accumulation(dv):
    """
    Whatever was recorded before, a call adds its elapsed time and one call
    to its own part only.
    """
    s = Scene(dv)
    tm = s.timer
    known = dv.choose('known', [True, False])
    T, N = dv.real('T', 0), dv.int('N', 1)
    T2, N2 = dv.real('T2', 0), dv.int('N2', 1)
    tm.times['other'], tm.Ns['other'] = T2, N2
    if known:
        tm.times['part'], tm.Ns['part'] = T, N
    else:
        T, N = 0, 0
    busy, dt = dv.real('busy', 0), dv.real('dt', 0)
    rec = s.begin('part', busy=busy, result=dv.choose('result', [
        None, (None,), (0,), ((),)]))
    s.t = s.t + dt
    s.end(rec, dv.choose('fails', [True, False]))
    def soft(name, cond):
        dv.check(name, cond, soft=True)
    soft('elapsed-added', 'part' in tm.times and
         dv.truth(dv.eq(tm.times['part'], T + (busy + dt))))
    soft('call-counted', 'part' in tm.Ns and
         dv.truth(dv.eq(tm.Ns['part'], N + 1)))
    soft('others-unaffected', dv.And(
        dv.eq(tm.times['other'], T2), dv.eq(tm.Ns['other'], N2)))
    soft('no-other-entries', set(tm.times) == set(tm.Ns) ==
         set(['part', 'other']))


class PartID(object):
    """The identifier of one of any number of parts."""
    __hash__ = None
    def __init__(self, z):
        self.z = z
    def __eq__(self, other):
        from pydv import values as V
        return isinstance(other, PartID) and V.SBool(self.z == other.z)
    def __ne__(self, other):
        from pydv import values as V
        return not isinstance(other, PartID) or V.SBool(self.z != other.z)


def table(n, value, tag):
    """A dict with a value for each of n parts, as numbers given by index."""
    from pydv import values as V
    class Table(V.SPure):
        __slots__ = ()
        def __getitem__(self, k):
            if not isinstance(k, PartID):
                return V.SPure.__getitem__(self, k)
            return value(k.z)
        def get(self, k, default=None):
            return self[k]
        def __contains__(self, k):
            return isinstance(k, PartID)
        def keys(self):
            return self
        def items(self):
            return V.SPure(
                self.n, lambda z: (PartID(z), value(z)), self.tag)
        def values(self):
            return V.SPure(self.n, value, self.tag)
        def copy(self):
            return self
        def __setitem__(self, k, v):
            V.E().unsupported_("store while iterating")
    return Table(n, PartID, tag=tag)


@contract('C21', 'util.EvalTimer.__iter__', modes=('proof',))
def ordering(dv):
    """Any number of parts with any totals and counts."""
    import z3
    from pydv import values as V, loops
    s = Scene(dv)
    tm = s.timer
    n = dv.size('n', 0)
    n = V.zi(n)
    T = z3.Function('T', z3.IntSort(), z3.RealSort())
    N = z3.Function('N', z3.IntSort(), z3.IntSort())
    def total(z):
        dv.e.add(T(z) >= 0)
        return V.SFloat(T(z))
    def count(z):
        dv.e.add(N(z) >= 1)
        return V.SInt(N(z))
    tm.times = table(n, total, 'parts')
    tm.Ns = table(n, count, 'parts')
    def avg(z):
        return T(z)/z3.ToReal(N(z))

    # Collecting the parts
    def collected(L, idx, locs):
        """The list being filled, and what the loop puts there."""
        found = [x for x in locs.values() if isinstance(x, V.GList)]
        return found[0] if len(found) == 1 else None
    def inv(L, idx, locs):
        pairs = collected(L, idx, locs)
        if pairs is None:
            return []
        k = loops.length_of(pairs)
        out = [('one-for-each', V.SBool(V.zi(k) == V.zi(idx)))]
        if L.stage == 'preserve':
            x = pairs[-1]
            ok = isinstance(x, (list, tuple)) and len(x) == 2 and \
                isinstance(x[0], PartID)
            out.append(('a-part-and-its-average', dv.And(
                ok, ok and V.SBool(z3.And(
                    x[0].z == L.idx, V.to_float(x[1]).fin,
                    V.to_float(x[1]).r == avg(L.idx))))))
        return out
    def havoc(L, idx, locs):
        pairs = collected(L, idx, locs)
        if pairs is not None:
            def pair(z):
                dv.e.add(N(z) >= 1)
                return [PartID(z), V.SFloat(avg(z))]
            pairs.become(V.SPure(idx, pair, 'pairs'))
    dv.loopspec(loops.Spec(
        tag='parts', name='collecting', inv=inv, havoc=havoc,
        allow=lambda obj, what: isinstance(obj, V.GList)))
    # Giving them in order
    given = []
    dv.loopspec(loops.Spec(
        tag=lambda it, loc: str(loops.tag_of(it)).startswith('sorted:'),
        name='giving', havoc=lambda L, idx, locs: given.append(L)))
    got = []
    it = iter(tm)
    try:
        got.append(next(it))
    except StopIteration:
        pass
    if not given or not isinstance(
            getattr(given[-1].it, 'perm', None), V.SSeq):
        dv.e.unsupported_("parts not given in a loop over a sorted list")
    seq = given[-1].it
    dv.check('each-once', V.SBool(V.zi(loops.length_of(seq)) == n), soft=True)
    if got:
        # one after j others
        j = given[-1].idx
        at_j = loops.item_of(seq, j)
        at_j = at_j if isinstance(at_j, PartID) else at_j[0]
        dv.check('the-part-there', isinstance(got[0], PartID) and V.SBool(
            got[0].z == at_j.z), soft=True)
        k = dv.idx('k', V.SInt(n))
        other = loops.item_of(seq, V.zi(k))
        other = other if isinstance(other, PartID) else other[0]
        dv.check('ascending-average', V.SBool(z3.And(
            z3.Implies(V.zi(k) < j, avg(other.z) <= avg(got[0].z)),
            z3.Implies(j < V.zi(k), avg(got[0].z) <= avg(other.z)))),
            soft=True)
        dv.check('no-part-twice', V.SBool(z3.Implies(
            V.zi(k) != j, other.z != got[0].z)), soft=True)
        dv.reach('given')
        try:
            next(it)
        except StopIteration:
            dv.check('goes-on', False, soft=True)
    else:
        dv.reach('all given')
        # Every part is somewhere in the order
        a = dv.idx('a', V.SInt(n))
        p = seq.perm.position(a)
        x = loops.item_of(seq, V.zi(p))
        x = x if isinstance(x, PartID) else x[0]
        dv.check('none-missing', V.SBool(x.z == V.zi(a)), soft=True)


@contract('C21', 'util.EvalTimer.__call__ util.EvalTimer.__iter__',
          modes=('concrete',), runs=300)
def sequences(dv):
    """Long random sequences, asked in between."""
    r = dv.rng()
    s = Scene(dv, r.randint(0, 2))
    IDs = [1, 'two', (3, 4), 5.5, None][:r.randint(1, 5)]
    running = []
    for _ in range(r.randint(1, 40)):
        s.t += r.choice([0.0, r.random(), r.random()*100, 1e-6])
        k = r.random()
        if k < 0.45 or not running:
            rec = s.begin(r.choice(IDs), r.choice(
                ['deferred', 'deferred', 'immediate']), r.choice(
                    [0, 0, r.random()*10]), r.choice(
                        [None, (None,), (0,), ('',), (False,), ([],)]))
            if rec['out'][0] == 'pending':
                running.append(rec)
        elif k < 0.9:
            s.end(running.pop(r.randrange(len(running))), r.random() < 0.2)
        else:
            s.judge()
        if k > 0.95:
            # going on while an iteration is under way
            it = iter(s.timer)
            expected = list(s.timer)
            got = []
            for ID in it:
                got.append(ID)
                if running:
                    s.t += r.random()
                    s.end(running.pop())
            dv.check('iteration-undisturbed', got == expected)
    s.judge()
