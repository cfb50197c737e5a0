"""
pydv.harness: the API contracts are written against.

One contract, three interpretations: 'proof' (symbolic, sizes unbounded),
'bounded' (symbolic, sizes enumerated small), 'concrete' (the unmodified
modules; inputs from a seeded generator or from a verifier model).
"""
import dis, importlib, math, random as _random, sys, time, traceback

import numpy as np

from . import reactor as fake

CONTRACTS = {}          # property id -> [Contract]


class Discard(Exception):
    """Generated input does not satisfy the precondition."""


ASKS = [dis.opmap[x] for x in ('LOAD_ATTR', 'LOAD_METHOD', 'LOAD_SUPER_ATTR')
        if x in dis.opmap]


def unknown(obj, name, depth=2):
    """
    An attribute is asked for that an object standing in for a real one, or
    made without its constructor, does not have.  That is no fault of the
    code's: the run is of no use.  (Unless it is just being asked whether
    there is such an attribute.)
    """
    if not name.startswith('__') and current is not None:
        f = sys._getframe(depth)
        if f.f_code.co_code[f.f_lasti] in ASKS:
            current.skip("%s of a %s" % (name, type(obj).__name__))
    raise AttributeError("'%s' object has no attribute '%s'" % (
        type(obj).__name__, name))


current = None


class Standin(object):
    """Stands in for a real object in as far as the contract knows it."""
    def __getattr__(self, name):
        unknown(self, name)


class Contract(object):
    def __init__(self, prop, name, fn, functions, modes, runs, budget,
                 max_paths, note, weight, timeout_ms):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.functions = functions      # functions of /repo under contract
        self.modes = modes
        self.runs = runs                # concrete runs in the quick tier
        self.budget = budget            # seconds, symbolic
        self.max_paths = max_paths
        self.note = note
        self.weight = weight
        self.timeout_ms = timeout_ms

    @property
    def id(self):
        return "%s.%s" % (self.prop, self.name)


def contract(prop, functions=(), modes=('proof', 'bounded', 'concrete'),
             runs=200, budget=60, max_paths=6000, note='', weight=1,
             timeout_ms=6000, name=None):
    if isinstance(functions, str):
        functions = functions.split()
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            CONTRACTS.setdefault(p, []).append(Contract(
                p, name or fn.__name__, fn, functions, modes, runs, budget,
                max_paths, note or (fn.__doc__ or '').strip(), weight,
                timeout_ms))
        return fn
    return deco


class Base(object):
    sym = False
    tier = 'quick'

    discarded = False

    def __init__(self):
        self.undo = []
        self.made = []
        self.trace = []

    def mod(self, name):
        return importlib.import_module('ade.' + name)

    def patch(self, obj, name, value):
        """Sets an attribute for the duration of this path."""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(
            obj, '__dict__') else getattr(obj, name, missing)
        self.undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def start(self):
        global current
        current = self
        self.undo = []
        self.made = []
        fake.the.reset()
        ab = sys.modules.get('ade.abort')
        if ab is not None and hasattr(ab, 'KeyboardHolder'):
            ab.KeyboardHolder.KB = None
        ut = sys.modules.get('ade.util')
        if ut is not None:
            ut.msg.fh = None
        import twisted.internet.task as task
        # One step per turn, whatever the time it takes
        task._theCooperator = task.Cooperator(
            terminationPredicateFactory=lambda: lambda: True)
        np.random.seed(1)
        _random.seed(1)

    def finish(self):
        for obj, name, old, missing in reversed(self.undo):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self.undo = []
        fake.the.reset()

    @property
    def reactor(self):
        return fake.the

    def outcome(self, d):
        """What became of a Deferred: kind and value."""
        out = ['pending', None]
        def good(x):
            out[:] = ['ok', x]
        def bad(f):
            out[:] = ['failed', f]
        d.addCallbacks(good, bad)
        self.alive()
        return out

    def bare(self, cls, guard=True, **attrs):
        """
        An object made without the constructor.  If it is asked for what
        only that can have provided, the run is of no use.
        """
        obj = object.__new__(cls)
        if guard:
            if not any(o is cls for o, n, _, _ in self.undo
                       if n == '__getattr__') and not hasattr(
                           cls, '__getattr__'):
                made = self.made
                def missing(self, name):
                    if any(self is x for x in made):
                        unknown(self, name)
                    raise AttributeError("'%s' object has no attribute '%s'"
                                         % (type(self).__name__, name))
                self.patch(cls, '__getattr__', missing)
            self.made.append(obj)
        for k, v in attrs.items():
            setattr(obj, k, v)
        return obj


# --- symbolic ---------------------------------------------------------------
class SymDV(Base):
    sym = True

    def __init__(self, mode, engine, tier='quick'):
        Base.__init__(self)
        self.mode = mode
        self.e = engine
        self.tier = tier

    # inputs
    def _reg(self, name, x):
        if name in self.e.inputs:
            k = 2
            while "%s#%d" % (name, k) in self.e.inputs:
                k += 1
            name = "%s#%d" % (name, k)
        self.e.inputs[name] = x
        return x

    def size(self, name, lo=0, hi=None, bounded=(1, 2, 3)):
        import z3
        from .values import SInt
        if self.mode == 'bounded':
            opts = [b for b in bounded if b >= lo and (hi is None or b <= hi)]
            x = opts[self.e.choose(len(opts))]
            return self._reg(name, x)
        z = z3.Int(self.e.fresh(name))
        self.e.assume(z >= lo)
        if hi is not None:
            self.e.assume(z <= hi)
        self.e.ghost.setdefault('sizes', []).append(z)
        return self._reg(name, SInt(z))

    def int(self, name, lo=None, hi=None):
        import z3
        from .values import SInt, zi
        z = z3.Int(self.e.fresh(name))
        if lo is not None:
            self.e.assume(z >= zi(lo))
        if hi is not None:
            self.e.assume(z <= zi(hi))
        return self._reg(name, SInt(z))

    def real(self, name, lo=None, hi=None, npf=False):
        import z3
        from .values import SFloat, to_float
        r = z3.Real(self.e.fresh(name))
        if lo is not None:
            self.e.assume(r >= to_float(lo).r)
        if hi is not None:
            self.e.assume(r <= to_float(hi).r)
        return self._reg(name, SFloat(r, 0, npf))

    def flt(self, name, nan=True, inf=True, ninf=True, npf=False, lo=None):
        """A float that may also be infinite or NaN."""
        import z3
        from .values import SFloat, to_float
        n = self.e.fresh(name)
        t = z3.Int(n + '_t')
        ok = [t == 0]
        if inf: ok.append(t == 1)
        if ninf: ok.append(t == 2)
        if nan: ok.append(t == 3)
        self.e.assume(z3.Or(ok))
        r = z3.Real(n)
        if lo is not None:
            self.e.assume(r >= to_float(lo).r)
        return self._reg(name, SFloat(r, t, npf))

    def bool(self, name):
        import z3
        from .values import SBool
        return self._reg(name, SBool(z3.Bool(self.e.fresh(name))))

    def choose(self, name, options):
        options = list(options)
        k = self.e.choose(len(options))
        self._reg(name, k)
        return options[k]

    def vec(self, name, n, elem=None):
        """A vector of arbitrary finite reals."""
        import z3
        from .values import SVec, SFloat, SInt, zi
        nm = self.e.fresh(name)
        f = z3.Function(nm, z3.IntSort(), z3.RealSort())
        v = SVec(n, lambda i: SFloat(f(zi(i)), 0, True), nm)
        # the model wants the original contents even if the array is
        # modified in place later
        self._reg(name, SVec(n, v.f, nm))
        return v

    def idx(self, name, n, tag=True):
        """An arbitrary valid index."""
        import z3
        from .values import SInt, zi, interesting
        if isinstance(n, int) and self.mode == 'bounded':
            k = self.e.choose(n) if n > 0 else self._dead()
            self._reg(name, k)
            return k
        z = z3.Int(self.e.fresh(name))
        self.e.assume(z3.And(z >= 0, z < zi(n)))
        interesting(z)
        return self._reg(name, SInt(z))

    def _dead(self):
        from .engine import Dead
        self.e.kill(Dead("nothing to choose from"))

    def each(self, n, name='j'):
        """
        Iterates over all indices (proof: one arbitrary index stands for all).
        """
        import z3
        from .values import SInt, zi, interesting
        if isinstance(n, int):
            for i in range(n):
                yield i
            return
        z = z3.Int(self.e.fresh(name))
        self.e.assume(z3.And(z >= 0, z < zi(n)))
        interesting(z)
        yield SInt(z)

    def forall(self, n, cond):
        """Assumes cond(i) for all i < n."""
        import z3
        from .values import SInt, zi, zb, register_forall
        if isinstance(n, int):
            for i in range(n):
                self.e.assume(zb(cond(i)))
            return
        def inst(i):
            return z3.Implies(z3.And(zi(i) >= 0, zi(i) < zi(n)),
                              zb(cond(SInt(zi(i)))))
        register_forall(inst)

    # logic
    def assume(self, cond):
        from .values import zb
        self.e.assume(zb(cond))

    def check(self, name, cond, detail=None, soft=False):
        """
        An obligation.  soft: sufficient for the property rather than
        equivalent to it, so a failure alone proves nothing.
        """
        from .values import zb
        if soft:
            self.e.abstract.append('sufficient condition ' + name)
        r = self.e.check(name, zb(cond), detail)
        if soft and r:
            self.e.abstract.pop()
        return r

    def reach(self, name):
        self.e.alive()
        self.e.reach(name)

    def alive(self):
        self.e.alive()

    def And(self, *cs):
        import z3
        from .values import SBool, zb
        return SBool(z3.And([zb(c) for c in cs]))

    def Or(self, *cs):
        import z3
        from .values import SBool, zb
        return SBool(z3.Or([zb(c) for c in cs]))

    def Not(self, c):
        import z3
        from .values import SBool, zb
        return SBool(z3.Not(zb(c)))

    def implies(self, a, b):
        import z3
        from .values import SBool, zb
        return SBool(z3.Implies(zb(a), zb(b)))

    def iff(self, a, b):
        from .values import SBool, zb
        return SBool(zb(a) == zb(b))

    def ite(self, c, a, b):
        from .values import ite
        return ite(c, a, b)

    def eq(self, a, b):
        """Same value (NaN equals NaN)."""
        from .values import SBool, to_float, SInt
        import z3
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            from .values import zi
            return SBool(zi(a) == zi(b))
        fa, fb = to_float(a), to_float(b)
        return SBool(z3.Or(fa.eq(fb), z3.And(fa.nan, fb.nan)))
    close = eq

    def flt_inf(self):
        from .values import to_float
        return to_float(math.inf)

    def isnan(self, a):
        from .values import SBool, to_float
        return SBool(to_float(a).nan)

    def isinf(self, a):
        from .values import SBool, to_float
        return SBool(to_float(a).inf)

    def isfin(self, a):
        from .values import SBool, to_float
        return SBool(to_float(a).fin)

    def truth(self, c):
        """Branches on a condition."""
        return bool(c)

    def at(self, v, i):
        """Element without bounds-check branches."""
        if hasattr(v, 'at'):
            from .values import zi
            return v.at(i if isinstance(i, int) else zi(i))
        return v[i]

    def length(self, v):
        from .models import b_len
        return b_len(v)

    def call(self, name, fn, *a, **k):
        """A call that must not raise."""
        try:
            return fn(*a, **k)
        except Exception as exc:
            self.e.alive()
            if self.e._quick_feasible():
                inputs, tape = self.e.model()
                self.e.stats['obligations'] += 1
                self.e.fail(name + '.no-exception', 'exception', repr(exc),
                            inputs, tape, traceback.format_exc())
            from .engine import Dead
            self.e.kill(Dead("raised"))

    def raises(self, name, exc, fn, *a, **k):
        """A call that must raise exc."""
        import z3
        try:
            fn(*a, **k)
        except exc:
            self.e.alive()
            self.check(name, True)
            return True
        self.e.alive()
        self.check(name, False, "did not raise")
        return False

    def loopspec(self, spec):
        self.e.ghost.setdefault('loopspecs', []).append(spec)

    def skip(self, why):
        self.e.unsupported_(why)

    def rng(self):
        return _random.Random(1)

    def shadow(self, v):
        """A frozen copy of a vector's contents."""
        return v.snapshot()


# --- concrete ---------------------------------------------------------------
POOL = [0.0, 1.0, -1.0, 2.0, 0.5, 1e-3, 100.0, -2.5, 3.0, 10.0, 1.01, 0.99]


def num(x):
    if isinstance(x, str):
        return float(x)
    return x


class TapeRandom(object):
    """
    random as seen by the real modules during a concrete run: outcomes come
    from the verifier's model first, then from a seeded generator.  Some
    outcomes are extreme on purpose.
    """
    open = False        # avoid the very ends of intervals

    def __init__(self, rng, tape=None, log=None):
        self.rng = rng
        self.tape = list(tape or [])
        self.log = log if log is not None else []

    def __getattr__(self, name):
        return getattr(self.rng, name)

    def _next(self, kind):
        if self.tape and self.tape[0][0] == kind:
            return self.tape.pop(0)[1]
        for k, (kd, v) in enumerate(self.tape):
            if kd == kind:
                self.tape.pop(k)
                return v
        return None

    def random(self):
        v = self._next('random')
        if v is None:
            v = self.rng.random()
            if self.rng.random() < 0.1 and not self.open:
                v = self.rng.choice([0.0, 1.0 - 2**-53])
        self.log.append(('random', v))
        return v

    def uniform(self, a, b):
        v = self._next('uniform')
        if v is not None:
            if not (min(a, b) <= v <= max(a, b)):
                v = None
        if v is None:
            v = self.rng.uniform(a, b)
            if self.rng.random() < 0.1 and not self.open:
                v = self.rng.choice([a, b])
        self.log.append(('uniform', v))
        return v

    def triangular(self, low=0.0, high=1.0, mode=None):
        v = self._next('triangular')
        if v is not None and not (low <= v <= high):
            v = None
        if v is None:
            v = self.rng.triangular(low, high, mode)
        self.log.append(('triangular', v))
        return v

    def randint(self, a, b):
        v = self._next('randint')
        if v is not None and not (a <= v <= b):
            v = None
        if v is None:
            v = self.rng.randint(a, b)
        self.log.append(('randint', v))
        return v

    def randrange(self, *a):
        return self.rng.randrange(*a)

    def sample(self, K, N):
        v = self._next('sample')
        K = list(K)
        if v is not None and len(set(v)) == N and all(
                isinstance(i, int) and 0 <= i < len(K) for i in v):
            self.log.append(('sample', v))
            return [K[i] for i in v]
        v = self.rng.sample(range(len(K)), N)
        self.log.append(('sample', v))
        return [K[i] for i in v]

    def choice(self, K):
        return self.sample(K, 1)[0]


def expand(given):
    """
    Symbolic populations register the members that were looked at as
    X_at (slot), X_at_v (values), X_at_s (error).
    """
    for name, k in list(given.items()):
        base, _, num_ = name.partition('#')
        if not base.endswith('_at') or not isinstance(k, int):
            continue
        x = base[:-3].split('!')[0]
        suffix = '#' + num_ if num_ else ''
        given.setdefault('%s%d_v' % (x, k), given.get(base + '_v' + suffix))
        given.setdefault('%s%d_s' % (x, k), given.get(base + '_s' + suffix))
    return given


class ConDV(Base):
    sym = False
    mode = 'concrete'

    def __init__(self, seed, inputs=None, tape=None, tier='quick'):
        Base.__init__(self)
        self.seed = seed
        self.r = _random.Random(seed)
        self.given = expand(dict(inputs or {}))
        self.tape = tape
        self.tier = tier
        self.inputs = {}
        self.failures = []      # (name, detail)
        self.checks = 0
        self.passed_names = {}
        self.reached = set()
        self.log = []
        self.trace = []

    def start(self):
        # All loaded beforehand, so that the first run is like the others
        for name in ('util', 'abort', 'individual', 'history', 'population',
                     'de'):
            self.mod(name)
        Base.start(self)
        np.random.seed(self.seed % (2**32))
        _random.seed(self.seed)
        tr = TapeRandom(_random.Random(self.seed + 1), self.tape, self.log)
        self.random = tr
        for name in ('population', 'de', 'individual', 'history'):
            m = sys.modules.get('ade.' + name)
            if m is not None and getattr(m, 'random', None) is not None:
                self.patch(m, 'random', tr)

    def _reg(self, name, x):
        base = name
        k = 2
        while name in self.inputs:
            name = "%s#%d" % (base, k)
            k += 1
        self.inputs[name] = x
        return x

    def _given(self, name):
        base = name
        k = 2
        while name in self.inputs:
            name = "%s#%d" % (base, k)
            k += 1
        return self.given.get(name)

    def size(self, name, lo=0, hi=None, bounded=(1, 2, 3)):
        v = self._given(name)
        if v is None or v > lo + 300:
            top = lo + 9 if hi is None else min(hi, lo + 9)
            v = self.r.choice(list(bounded) + [
                self.r.randint(lo, top)] * 2)
        v = max(lo, v)
        if hi is not None:
            v = min(hi, v)
        return self._reg(name, v)

    def int(self, name, lo=None, hi=None):
        v = self._given(name)
        if v is None:
            a = lo if lo is not None else (hi - 10 if hi is not None else -10)
            b = hi if hi is not None else a + 20
            if b < a:
                raise Discard()
            v = self.r.choice([a, b, self.r.randint(a, b),
                               self.r.randint(a, b)])
        return self._reg(name, v)

    def _real(self, lo, hi):
        r = self.r
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            return r.choice([lo, hi, r.uniform(lo, hi), r.uniform(lo, hi),
                             r.uniform(lo, hi), (lo+hi)/2])
        if lo is not None:
            return float(lo) + r.choice(
                [0.0, r.random(), abs(r.choice(POOL)), r.expovariate(0.1),
                 r.random()*1e-6, r.random()*1e6])
        if hi is not None:
            return float(hi) - r.choice(
                [0.0, r.random(), abs(r.choice(POOL)), r.expovariate(0.1)])
        return r.choice([r.choice(POOL), r.uniform(-3, 3), r.gauss(0, 10),
                         float(r.randint(-5, 5)), r.gauss(0, 1e4)])

    def real(self, name, lo=None, hi=None, npf=False):
        v = self._given(name)
        if v is None:
            v = self._real(lo, hi)
        v = float(num(v))
        if npf:
            v = np.float64(v)
        return self._reg(name, v)

    def flt(self, name, nan=True, inf=True, ninf=True, npf=False, lo=None):
        v = self._given(name)
        if v is None:
            opts = [None]*5
            if nan: opts.append(math.nan)
            if inf: opts.append(math.inf)
            if ninf: opts.append(-math.inf)
            v = self.r.choice(opts)
            if v is None:
                v = self._real(lo, None)
        v = float(num(v))
        if npf:
            v = np.float64(v)
        return self._reg(name, v)

    def bool(self, name):
        v = self._given(name)
        if v is None:
            v = self.r.random() < 0.5
        return self._reg(name, bool(v))

    def choose(self, name, options):
        options = list(options)
        v = self._given(name)
        if v is None or not 0 <= v < len(options):
            v = self.r.randrange(len(options))
        self._reg(name, v)
        return options[v]

    def vec(self, name, n, elem=None):
        v = self._given(name)
        if v is None or len(v) != n:
            v = [self._real(None, None) for _ in range(n)]
        v = [float(num(x)) for x in v]
        self._reg(name, list(v))
        return np.array(v)

    def idx(self, name, n, tag=True):
        if n <= 0:
            raise Discard()
        return self.int(name, 0, n-1)

    def each(self, n, name='j'):
        return range(n)

    def forall(self, n, cond):
        for i in range(n):
            if not cond(i):
                raise Discard()

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, name, cond, detail=None, soft=False):
        if soft:
            return bool(cond)
        self.checks += 1
        ok = bool(cond)
        if ok:
            self.passed_names[name] = self.passed_names.get(name, 0) + 1
        else:
            self.failures.append((name, detail))
        return ok

    def reach(self, name):
        self.reached.add(name)

    def alive(self):
        pass

    def And(self, *cs): return all(cs)
    def Or(self, *cs): return any(cs)
    def Not(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b

    def eq(self, a, b):
        a, b = float(a), float(b)
        return a == b or (a != a and b != b)

    def close(self, a, b):
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return True
        if math.isinf(a) or math.isinf(b) or a != a or b != b:
            return False
        return abs(a - b) <= 1e-9*max(1.0, abs(a), abs(b))

    def flt_inf(self): return math.inf
    def isnan(self, a): return math.isnan(float(a))
    def isinf(self, a): return math.isinf(float(a))
    def isfin(self, a): return math.isfinite(float(a))
    def truth(self, c): return bool(c)
    def at(self, v, i): return v[i]
    def length(self, v): return len(v)

    def call(self, name, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except Discard:
            raise
        except Exception as exc:
            self.checks += 1
            self.failures.append((name + '.no-exception', repr(exc) + '\n' +
                                  traceback.format_exc()))
            raise Stop()
        return r

    def raises(self, name, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return self.check(name, True)
        return self.check(name, False, "did not raise")

    def loopspec(self, spec):
        pass

    def skip(self, why):
        # (the exception may get caught by the code under test)
        self.discarded = not self.failures
        raise Discard(why)

    def rng(self):
        return self.r

    def shadow(self, v):
        return np.array(v).copy()


class Stop(Exception):
    """Concrete run is over after a recorded failure."""
