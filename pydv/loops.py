"""
pydv.loops: cutting loops over sequences of symbolic length by invariants.

A loop specification is keyed by what is iterated over (the tag of the
iterable), not by where the loop stands in the source.  It supplies

 - inv(idx, locs): conditions that must hold before each iteration and after
   the last one (idx = number of items consumed so far);
 - havoc(idx, locs, names): arbitrary values for everything the body changes;
 - allow(obj, what): which stores to existing objects the body may do.
"""
import sys, weakref

import z3

from .engine import E, Dead, Unsupported
from .values import *
from .values import zi, zb

UNBOUND = type('UNBOUND', (), {'__repr__': lambda s: '<unbound>'})()


class SRange(Sym):
    """range() with symbolic ends, step one."""
    def __init__(self, lo, hi):
        self.lo = zi(lo)
        self.hi = zi(hi)
        d = z3.simplify(self.hi - self.lo)
        self.n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        self.tag = 'range'
    def at(self, z):
        return SInt(z3.simplify(self.lo + zi(z)))
    def __dv_len__(self):
        return SInt(self.n)
    def __iter__(self):
        s = z3.simplify(self.n)
        if z3.is_int_value(s):
            return iter([self.at(i) for i in range(s.as_long())])
        E().unsupported_("native iteration over symbolic range")
    def __contains__(self, x):
        return bool(SBool(z3.And(zi(x) >= self.lo, zi(x) < self.hi)))


class SZip(Sym):
    def __init__(self, parts, tag=None):
        self.parts = parts
        e = E()
        ns = [length_of(p) for p in parts]
        n = ns[0]
        for m in ns[1:]:
            if isinstance(n, int) and isinstance(m, int):
                n = min(n, m)
            else:
                n = z3.simplify(z3.If(zi(n) < zi(m), zi(n), zi(m)))
        self.n = n
        self.tag = tag or 'zip:' + ','.join(str(tag_of(p)) for p in parts)
    def at(self, z):
        return tuple(item_of(p, z) for p in self.parts)
    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in range(self.n)])
        E().unsupported_("native iteration over symbolic zip")


class SEnum(Sym):
    def __init__(self, seq, start=0):
        self.seq = seq
        self.start = start
        self.n = length_of(seq)
        self.tag = 'enumerate:%s' % (tag_of(seq),)
    def at(self, z):
        return (SInt(z3.simplify(zi(z) + zi(self.start))),
                item_of(self.seq, z))
    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in range(self.n)])
        E().unsupported_("native iteration over symbolic enumerate")


class SMap(Sym):
    """Lazily mapped symbolic sequence (from a comprehension)."""
    def __init__(self, n, fn, tag=None, src=None, filtered=False):
        self.n = n
        self.fn = fn
        self.tag = tag
        self.src = src
        self.filtered = filtered
        self.memo = []
    def at(self, z):
        e = E()
        z = z3.simplify(zi(z))
        for zk, obj in self.memo:
            if z.eq(zk):
                return obj
        obj = self.fn(z)
        self.memo.append((z, obj))
        return obj
    def __dv_len__(self):
        return self.n if isinstance(self.n, int) else SInt(self.n)
    def __len__(self):
        return self.n if isinstance(self.n, int) else SInt(self.n).__index__()
    def __bool__(self):
        return E().fork(zi(self.n) > 0)
    def __getitem__(self, k):
        e = E()
        e.alive()
        if isinstance(k, slice):
            e.unsupported_("slice of comprehension over symbolic sequence")
        z = zi(k)
        if e.fork(z < 0):
            z = z + zi(self.n)
        if e.fork(z3.Or(z < 0, z >= zi(self.n))):
            raise IndexError("list index out of range")
        return self.at(z)
    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.at(i) for i in range(self.n)])
        E().unsupported_("native iteration over symbolic list")
    def remove(self, x):
        """Removes the first occurrence of an item obtained from here."""
        e = E()
        wrote(self, '.remove')
        for zk, obj in self.memo:
            if obj is x:
                break
        else:
            e.unsupported_("removal of an item not read from this list")
        # The first occurrence, at or before where it was read
        p = z3.Int(e.fresh('first'))
        e.add(z3.And(p >= 0, p <= zk, zk < zi(self.n)))
        e.add(zb(self.at(p) == x))
        for z2, obj in list(self.memo):
            e.add(z3.Implies(z3.And(z2 >= 0, z2 < p), z3.Not(zb(obj == x))))
        old, memo, n = self.fn, self.memo, zi(self.n)
        before = SMap(n, old)
        before.memo = memo
        def fn(z):
            return before.at(z3.If(z < p, z, z + 1))
        self.fn, self.memo, self.n = fn, [], z3.simplify(n - 1)
    def __radd__(self, before):
        """A list in front of this one."""
        if not isinstance(before, list):
            return NotImplemented
        before = list(before)
        k = len(before)
        def fn(z):
            z = zi(z)
            r = self.at(z - k)
            for j in range(k - 1, -1, -1):
                x = before[j]
                if x is None:
                    x = float('nan')
                r = ite(z == j, x, r)
            return r
        return SMap(z3.simplify(zi(self.n) + k), fn, tag='joined')

    def __repr__(self):
        return "<SMap %s>" % (self.tag,)


def length_of(x):
    x = plain(x)
    if isinstance(x, (SVec, SSeq, SRange, SZip, SEnum, SMap)):
        n = x.n
        if not isinstance(n, int):
            s = z3.simplify(zi(n))
            if z3.is_int_value(s):
                return s.as_long()
        return n
    if hasattr(x, '__dv_len__'):
        n = x.__dv_len__()
        return n.z if isinstance(n, SInt) else n
    return len(x)


def tag_of(x):
    t = getattr(x, 'tag', None)
    if t is None:
        t = getattr(x, 'name', None)
    return t


def item_of(x, z):
    x = plain(x)
    if hasattr(x, 'at'):
        return x.at(z)
    s = z3.simplify(zi(z))
    if z3.is_int_value(s):
        return x[s.as_long()]
    return x[SInt(s)]


def symbolic_iterable(x):
    x = plain(x)
    if not isinstance(x, Sym) and not hasattr(x, '__dv_len__'):
        return False
    if isinstance(x, (SVec, SSeq, SRange, SZip, SEnum, SMap)) or hasattr(
            x, '__dv_len__'):
        n = length_of(x)
        return not isinstance(n, int)
    return False


class Star(object):
    """Stands for any number of positional arguments."""
    __slots__ = ('seq',)
    def __init__(self, seq):
        self.seq = seq
    def _bad(self, *a, **k):
        E().unsupported_("any number of arguments passed to something not "
                         "under contract")
    __call__ = __iter__ = __len__ = __eq__ = __bool__ = __getitem__ = _bad
    __hash__ = __str__ = __repr__ = _bad
    def __getattr__(self, name):
        self._bad()


def star(seq):
    seq = plain(seq)
    return (Star(seq),) if symbolic_iterable(seq) else seq


def varargs(args):
    if len(args) == 1 and type(args[0]) is Star:
        return args[0].seq
    if any(type(x) is Star for x in args):
        E().unsupported_("any number of arguments after others")
    return args


class Spec(object):
    """Default: no locals matter, nothing on the heap changes."""
    def __init__(self, tag=None, inv=None, havoc=None, allow=None, name=None,
                 live=()):
        self.tag = tag
        self.inv_ = inv
        self.havoc_ = havoc
        self.allow_ = allow
        self.name = name or 'loop:%s' % (tag,)

    def matches(self, it, loc):
        t = tag_of(it)
        if callable(self.tag):
            return self.tag(it, loc)
        return t == self.tag

    def inv(self, L, idx, locs):
        if self.inv_:
            return self.inv_(L, idx, locs)
        return []

    def havoc(self, L, idx, locs, names):
        d = {}
        if self.havoc_:
            d = self.havoc_(L, idx, locs) or {}
        return d

    def allow(self, obj, what):
        return bool(self.allow_ and self.allow_(obj, what))


def generic_havoc(name, value):
    e = E()
    if value is UNBOUND:
        return UNBOUND
    if isinstance(value, (SBool, bool)):
        return SBool(z3.Bool(e.fresh('hv_' + name)))
    if isinstance(value, (SInt, int)):
        return SInt(z3.Int(e.fresh('hv_' + name)))
    if isinstance(value, (SFloat, float)):
        n = e.fresh('hv_' + name)
        t = z3.Int(n + '_t')
        e.add(z3.And(t >= 0, t <= 3))
        return SFloat(z3.Real(n), t)
    return Havoced(name)


class Havoced(Sym):
    """
    Placeholder for a variable whose value after an arbitrary number of
    iterations is not described by the invariant: any use is unsupported.
    """
    def __init__(self, name):
        object.__setattr__(self, '_n', name)
    def _bad(self, *a, **k):
        E().unsupported_("use of loop-carried variable %r not covered by "
                         "the invariant" % object.__getattribute__(self, '_n'))
    __bool__ = __iter__ = __getitem__ = __len__ = __call__ = _bad
    __add__ = __radd__ = __sub__ = __mul__ = __eq__ = __lt__ = __gt__ = _bad
    __setitem__ = __contains__ = __le__ = __ge__ = __ne__ = _bad
    __hash__ = _bad
    def __getattr__(self, name):
        self._bad()


class ForLoop(object):
    def __init__(self, it, loc, bnames, tnames):
        it = plain(it)
        self.loc = loc
        self.bnames = bnames
        self.tnames = tnames
        self.it = it
        self.sym = symbolic_iterable(it)
        self.phase = 0
        self.spec = None
        if self.sym:
            e = E()
            for spec in e.ghost.get('loopspecs', []):
                if spec.matches(it, loc):
                    self.spec = spec
                    break
            else:
                e.unsupported_("no invariant for loop over %s at %s" % (
                    tag_of(it), loc))
            self.n = zi(length_of(it))

    def __iter__(self):
        if not self.sym:
            return iter(self.it)
        return self

    def _locs(self, frame):
        return {k: v for k, v in frame.f_locals.items()
                if not isinstance(v, ForLoop)}

    def __next__(self):
        e = E()
        e.alive()
        locs = self._locs(sys._getframe(1))
        spec = self.spec
        if self.phase == 0:
            self.pre = locs
            self.stage = 'entry'
            e.ghost.setdefault('looplog', []).append(
                '%s @ %s' % (spec.name, self.loc))
            e.abstract.append('loop ' + spec.name)
            for nm, cond in spec.inv(self, SInt(z3.IntVal(0)), locs):
                e.check('%s.entry.%s' % (spec.name, nm), zb(cond))
            if e.choose(2) == 0:
                self.phase = 1
                idx = z3.Int(e.fresh('idx'))
                e.assume(z3.And(idx >= 0, idx < self.n))
                self.idx = idx
                if not e.feasible():
                    e.kill(Dead("loop never iterates"))
                self.hv = self._havoc(locs, SInt(idx))
                self._assume_inv(SInt(idx))
                item = item_of(self.it, idx)
                e.ghost.setdefault('watch', []).append(weakref.ref(self))
                return item
            self.phase = 2
            self.idx = self.n
            self.hv = self._havoc(locs, SInt(self.n))
            self._assume_inv(SInt(self.n))
            raise StopIteration
        # End of the arbitrary iteration
        self.stage = 'preserve'
        nxt = SInt(self.idx + 1)
        for nm, cond in spec.inv(self, nxt, locs):
            e.check('%s.preserved.%s' % (spec.name, nm), zb(cond))
        e.reach(spec.name + '.preserved')
        e.kill(Dead("iteration covered by invariant"))

    def _havoc(self, locs, idx):
        given = self.spec.havoc(self, idx, locs, self.bnames)
        out = {}
        for n in self.bnames:
            if n in given:
                out[n] = given[n]
            else:
                v = locs.get(n, UNBOUND)
                out[n] = generic_havoc(n, v)
        out_t = {}
        for n in self.tnames:
            out_t[n] = given.get(n, Havoced(n))
        self.hv_t = out_t
        return out

    def _assume_inv(self, idx):
        e = E()
        self.stage = 'assume'
        locs = dict(self.pre)
        locs.update(self.hv)
        for nm, cond in self.spec.inv(self, idx, locs):
            e.assume(zb(cond))

    def enter(self):
        if self.phase != 1:
            E().unsupported_("loop protocol")
        return [self.hv[n] for n in self.bnames]

    def leave(self):
        e = E()
        # Loop variable after the loop: the last item, if there was any
        vals = [self.hv[n] for n in self.bnames]
        tv = dict(self.hv_t)
        if len(self.tnames) == 1 and isinstance(
                tv[self.tnames[0]], Havoced):
            pass
        return vals + [tv[n] for n in self.tnames]

    def wrote(self, obj, what):
        if self.phase == 1 and not self.spec.allow(obj, what):
            E().unsupported_(
                "loop over %s stores to %s of %s, not covered by invariant" % (
                    tag_of(self.it), what, type(obj).__name__))


class WhileLoop(object):
    """
    While loops run natively.  Two means keep the exploration finite: a state
    that was seen before at the loop head needs no further exploration (the
    set of head states seen is then an inductive invariant), and a bound.
    """
    limit = 60
    def __init__(self, loc, names):
        self.loc = loc
        self.names = names
        self.count = 0
        self.seen = []
        self._vals = None

    def step(self):
        e = E()
        e.alive()
        self.count += 1
        frame = sys._getframe(1)
        hook = e.ghost.get('whilehook')
        if hook:
            r = hook(self, frame)
            if r is not None:
                self._vals = r
                return True
        if self.count > self.limit:
            e.unsupported_("while loop at %s exceeds %d iterations" % (
                self.loc, self.limit))
        return False

    def vals(self):
        return [self._vals[n] for n in self.names]


ENTERED = set()


def truth_result(fn):
    """The truth value of a symbolic result is decided, as bool() would."""
    import functools
    @functools.wraps(fn)
    def wrapper(*a, **k):
        r = fn(*a, **k)
        return bool(r) if isinstance(r, Sym) else r
    return wrapper


def enter(name):
    ENTERED.add(name)


def wrote(obj, what):
    e = Engine_current()
    if e is None:
        return
    for ref in e.ghost.get('watch', []):
        L = ref()
        # (gone when left early: by return, or a generator abandoned)
        if L is not None:
            L.wrote(obj, what)


def mut(obj, what):
    if isinstance(obj, (list, dict, set)):
        wrote(obj, '.' + what)
    return obj


def Engine_current():
    from .engine import Engine
    return Engine.current


# --- comprehensions --------------------------------------------------------
def comp(kind, it, elt, cond, star):
    it = plain(it)
    if not symbolic_iterable(it):
        if star:
            if cond is None:
                g = (elt(*x) for x in it)
            else:
                g = (elt(*x) for x in it if cond(*x))
        elif cond is None:
            g = (elt(x) for x in it)
        else:
            g = (elt(x) for x in it if cond(x))
        if kind == 'list':
            return list(g)
        if kind == 'set':
            return set(g)
        return g
    e = E()
    if kind == 'set':
        e.unsupported_("set comprehension over symbolic sequence")
    def app(f, x):
        return f(*x) if star else f(x)
    n = length_of(it)
    snap = snapshot_heap()
    if cond is None:
        # Try a numeric summary at a generic index first: exact, and immune
        # to later stores
        g = z3.Int(e.fresh('g'))
        def probe():
            e.add(z3.And(g >= 0, g < zi(n)))
            return app(elt, item_of(it, g))
        cases = summarize(probe)
        if cases and all(isinstance(c[1], (SFloat, SInt, SBool, int, float))
                         for c in cases):
            merged = merge(cases)
            facts = []
            for guard, _, fs in cases:
                for f in fs:
                    facts.append(z3.Implies(guard, f))
            def fn(z):
                pairs = [(g, zi(z))]
                ee = E()
                inr = z3.And(zi(z) >= 0, zi(z) < zi(n))
                for f in facts:
                    ee.add(z3.Implies(inr, z3.substitute(f, *pairs)))
                return subst(merged, pairs)
            return SMap(n, fn, tag='map:%s' % tag_of(it), src=it)
        def fn(z):
            with at_snapshot(snap):
                return app(elt, item_of(it, z))
        return SMap(n, fn, tag='map:%s' % tag_of(it), src=it)
    # Filtered: the j-th element stems from source index src(j), strictly
    # increasing, with the condition true there
    name = e.fresh('flt')
    src = z3.Function(name + '_src', z3.IntSort(), z3.IntSort())
    pos = z3.Function(name + '_pos', z3.IntSort(), z3.IntSort())
    m = z3.Int(name + '_n')
    e.add(z3.And(m >= 0, m <= zi(n)))
    seq = SMap(m, None, tag='filter:%s' % tag_of(it), src=it, filtered=True)
    read = []
    def passes(x):
        """The condition for x, as a formula."""
        ee = E()
        try:
            cases = summarize(lambda: bool(app(cond, x)))
        except (Dead, Unsupported):
            raise
        except Exception:
            # Branch by branch, then
            return zb(bool(app(cond, x)))
        for guard, _, fs in cases:
            for f in fs:
                ee.add(z3.Implies(guard, f))
        return z3.Or([guard for guard, r, _ in cases if r])
    inside = lambda z: z3.And(z >= 0, z < m)
    def apart(p):
        """The order of what is at p and at positions read before."""
        ee = E()
        for z2 in read:
            if not p.eq(z2):
                ee.add(z3.Implies(z3.And(inside(p), inside(z2)), z3.And(
                    z3.Implies(p < z2, src(p) < src(z2)),
                    z3.Implies(z2 < p, src(z2) < src(p)))))
        read.append(p)
    def fn(z):
        ee = E()
        i = src(z)
        # Everything before src(z) in excess of z items was filtered out;
        # in particular index z <= src(z)
        ee.add(z3.Implies(inside(z), z3.And(i >= 0, i < zi(n), z <= i,
                                            pos(i) == z)))
        apart(z)
        with at_snapshot(snap):
            x = item_of(it, i)
            ee.add(z3.Implies(inside(z), passes(x)))
            return app(elt, x)
    seq.fn = fn
    seq.src_index = src
    def contains_src(i):
        """
        Completeness: if source index i (an int or z3 Int) passes the filter
        it appears, at the position returned.
        """
        ee = E()
        i = zi(i)
        p = pos(i)
        with at_snapshot(snap):
            ok = z3.And(passes(item_of(it, i)), i >= 0, i < zi(n))
        ee.add(z3.Implies(ok, z3.And(p >= 0, p < m, src(p) == i)))
        apart(p)
        return p
    seq.contains_src = contains_src
    hook = e.ghost.get('filterhook')
    if hook:
        hook(seq)
    return seq
