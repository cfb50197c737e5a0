"""
The history for any number of records of any number of parameters: what holds
of it at rest is kept by each thing asked of it.

At rest: the list of rows has no row twice and is ordered by the error stored
in the row; current members and those never in the population are among the
rows listed and apart; rows that may be dropped are exactly those listed that
aren't of members; each member has one key and each key one member.
"""
import z3

from pydv import arrays, engine, loops, values as V
from .common import *

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
zi = V.zi


class Untouchable(object):
    """Stands for something that may not be looked at yet."""
    def __init__(self, **allowed):
        self.__dict__.update(allowed)
    def __getattr__(self, name):
        V.E().unsupported_("history used without its lock")
    def _no(self, *a):
        V.E().unsupported_("history used without its lock")
    __len__ = __bool__ = __iter__ = __getitem__ = __contains__ = _no
    __dv_len__ = _no


class Base(object):
    """Arbitrary contents satisfying what holds at rest."""
    def __init__(self, dv, tag='', N_max=None, nc=None, X=None):
        self.dv = dv
        fn = lambda name, *sorts: z3.Function(
            dv.e.fresh(name + tag), *sorts)
        self.N_max = dv.size('N_max', 1) if N_max is None else N_max
        self.nc = dv.size('nc', 2) if nc is None else nc
        self.n = zi(dv.size('n' + tag, 0))
        dv.e.assume(self.n <= zi(self.N_max))
        self.K_, self.pos_ = fn('K', INT, INT), fn('pos', INT, INT)
        self.live_ = fn('live', INT, BOOL)
        self.inP_, self.inN_ = fn('Kp', INT, BOOL), fn('Kn', INT, BOOL)
        self.X_ = fn('X', INT, INT, REAL) if X is None else X
        self.CX_ = fn('CX', INT, INT, REAL)
        self.hk_, self.row_ = fn('haskey', INT, BOOL), fn('rowof', INT, INT)
        self.keyof_ = fn('keyof', INT, INT)
        self.read, self.rows, self.keys = [], [], []
        self.total = dv.int('N_total' + tag, 0)

    def _once(self, seen, z):
        if any(z.eq(x) for x in seen):
            return False
        seen.append(z)
        return True

    # What is in the list
    def K(self, z):
        z = z3.simplify(zi(z))
        x = self.K_(z)
        if self._once(self.read, z):
            add = V.E().add
            inr = z3.And(z >= 0, z < self.n)
            add(z3.Implies(inr, z3.And(
                self.live_(x), self.pos_(x) == z,
                x >= 0, x < zi(self.N_max))))
            v = self.value(x, 0)
            for y in self.read[:-1]:
                w = self.value(self.K_(y), 0)
                add(z3.Implies(z3.And(y >= 0, y <= z, z < self.n), w <= v))
                add(z3.Implies(z3.And(z >= 0, z <= y, y < self.n), v <= w))
        return x

    def value(self, r, c):
        c = zi(c)
        return arrays.f4_fixed(self.X_(r, c))

    def X(self, r, c):
        return V.SFloat(self.value(z3.simplify(zi(r)), z3.simplify(zi(c))),
                        0, True)

    def CX(self, r, c):
        r, c = zi(r), zi(c)
        v = arrays.f4_fixed(self.CX_(r, c))
        V.E().add(z3.Implies(self.candidate(r), v == self.X_(r, c)))
        return V.SFloat(v, 0, True)

    def _row(self, r):
        r = z3.simplify(zi(r))
        if self._once(self.rows, r):
            p, k = self.pos_(r), self.keyof_(r)
            V.E().add(z3.And(
                z3.Implies(self.live_(r), z3.And(
                    p >= 0, p < self.n, self.K_(p) == r,
                    r >= 0, r < zi(self.N_max))),
                z3.Implies(self.inP_(r), z3.And(
                    self.live_(r), self.hk_(k), self.row_(k) == r)),
                z3.Implies(self.inN_(r), z3.And(
                    self.live_(r), z3.Not(self.inP_(r))))))
            self.K(p)
        return r

    def _key(self, k):
        k = z3.simplify(zi(k))
        if self._once(self.keys, k):
            r = self.row_(k)
            V.E().add(z3.Implies(self.hk_(k), z3.And(
                self.inP_(r), self.keyof_(r) == k)))
            self._row(r)
        return k

    def live(self, r): return self.live_(self._row(r))
    def pos(self, r): return self.pos_(self._row(r))
    def inP(self, r): return self.inP_(self._row(r))
    def inN(self, r): return self.inN_(self._row(r))
    def candidate(self, r):
        return z3.And(self.live(r), z3.Not(self.inP(r)))
    def hk(self, k): return self.hk_(self._key(k))
    def row(self, k): return self.row_(self._key(k))
    def keyof(self, r): return self.keyof_(self._row(r))

    # Objects with these contents
    def history(self, lookahead=True):
        H = self.dv.mod('history')
        nc = zi(self.nc)
        cpf = self.dv.bare(
            H.ClosestPairFinder, Nr=self.N_max, Nc=self.nc, S=None,
            X=arrays.SMat(self.N_max, self.nc, self.CX, 'f8'),
            K=arrays.SRowSet(self.candidate, 'candidates'),
            Kn=arrays.SRowSet(self.inN, 'candidates never'))
        names = V.SSeq(nc - 1, lambda z: V.Opaque('name', z), tag='names')
        h = self.dv.bare(
            H.History, names=names, N_max=self.N_max, N_total=self.total,
            X=arrays.SMat(self.N_max, self.nc, self.X, 'f4'),
            K=arrays.SRows(self.n, self.K, self.live, self.pos, 'K'),
            Kp=arrays.SRowSet(self.inP, 'Kp'),
            Kn=arrays.SRowSet(self.inN, 'Kn'),
            kr=arrays.SRowMap(self.hk, self.row, 'kr'),
            cpf=cpf, dLock=H.defer.DeferredLock())
        h.a = H.Analysis(h.names, h.X, h.K, h.Kp, h.Kn)
        return h

    def put(self, h):
        """Replaces the contents of h."""
        h.K.n, h.K.f, h.K.has, h.K.pos = self.n, self.K, self.live, self.pos
        h.Kp.has, h.Kn.has = self.inP, self.inN
        h.Kp.version = h.Kn.version = None
        h.kr.has, h.kr.get_ = self.hk, self.row
        h.cpf.K.has, h.cpf.Kn.has = self.candidate, self.inN
        h.cpf.K.version = h.cpf.Kn.version = None


def of_set(x):
    if isinstance(x, arrays.SRowSet):
        return x.has
    if isinstance(x, arrays.SRows):
        return x.has
    if isinstance(x, (set, list)):
        x = [zi(y) for y in x]
        return lambda r: z3.Or([zi(r) == y for y in x])
    V.E().unsupported_("set kept as %s" % type(x).__name__)


class View(object):
    """The contents now."""
    def __init__(self, dv, h):
        if not isinstance(h.K, arrays.SRows) or not isinstance(
                h.X, arrays.SMat) or not isinstance(h.kr, arrays.SRowMap):
            dv.skip("records kept in a way not understood")
        self.n = zi(h.K.n)
        self.K, self.live, self.pos = h.K.f, h.K.has, h.K.pos
        self.X = h.X.f
        self.inP, self.inN = of_set(h.Kp), of_set(h.Kn)
        self.candidate, self.cN = of_set(h.cpf.K), of_set(h.cpf.Kn)
        self.CX = h.cpf.X.f
        self.hk, self.row = h.kr.has, h.kr.get_
        self.total = h.N_total


class Any(object):
    """Arbitrary things to look at."""
    def __init__(self, dv):
        new = lambda name: zi(dv.int(name))
        self.r = new('any_row')
        self.a, self.b = new('any_place'), new('later_place')
        self.k, self.l = new('any_key'), new('other_key')
        self.c = zi(V.interesting(dv.int('any_column', 0)))
        for z in (self.a, self.b):
            V.interesting(z)
            V.interesting(z - 1)


def same(a, b):
    """Same number, both finite."""
    a, b = V.to_float(a), V.to_float(b)
    return z3.And(a.fin, b.fin, a.r == b.r)


def at_rest(dv, h, s, any_, key_of, keys=True):
    """What holds at rest holds of h."""
    v = View(dv, h)
    N, nc = zi(h.N_max), zi(s.nc)
    a, b, r, c, k, l = (any_.a, any_.b, any_.r, any_.c, any_.k, any_.l)
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    ina = z3.And(a >= 0, a < v.n)
    ck('no-more-than-allowed', z3.And(v.n >= 0, v.n <= N))
    x = v.K(a)
    ck('listed-once', z3.Implies(ina, z3.And(
        v.live(x), v.pos(x) == a, x >= 0, x < N)))
    p = v.pos(r)
    ck('every-row-in-use-listed', z3.Implies(v.live(r), z3.And(
        p >= 0, p < v.n, v.K(p) == r)))
    y = v.K(b)
    f, g = V.to_float(v.X(x, 0)), V.to_float(v.X(y, 0))
    ck('ordered', z3.Implies(z3.And(ina, a < b, b < v.n), z3.And(
        f.fin, g.fin, f.r <= g.r)))
    ck('members-listed', z3.Implies(v.inP(r), v.live(r)))
    ck('never-members-listed', z3.Implies(v.inN(r), v.live(r)))
    ck('members-not-never', z3.Not(z3.And(v.inP(r), v.inN(r))))
    ck('droppable-unless-members', v.candidate(r) == z3.And(
        v.live(r), z3.Not(v.inP(r))))
    ck('droppable-never-members', v.cN(r) == v.inN(r))
    ck('same-data-for-dropping', z3.Implies(z3.And(
        v.candidate(r), c >= 0, c < nc), same(v.CX(r, c), v.X(r, c))))
    if keys:
        ck('key-of-a-member', z3.Implies(v.hk(k), v.inP(v.row(k))))
        ck('keys-apart', z3.Implies(z3.And(
            v.hk(k), v.hk(l), k != l), v.row(k) != v.row(l)))
        m = key_of(r)
        ck('member-has-key', z3.Implies(v.inP(r), z3.And(
            v.hk(m), v.row(m) == r)))
    dv.check('queries-see-it', h.a.X is h.X and h.a.K is h.K and
             h.a.Kp is h.Kp and h.a.Kn is h.Kn)
    lock = h.dLock
    dv.check('not-left-locked', not lock.locked and not lock.waiting)
    return v


def unchanged(dv, h, s, any_, name='unchanged'):
    v = View(dv, h)
    a, r, c, k = any_.a, any_.r, any_.c, any_.k
    same_rows = z3.And(
        v.n == s.n,
        z3.Implies(z3.And(a >= 0, a < s.n), v.K(a) == s.K(a)),
        v.inP(r) == s.inP(r), v.inN(r) == s.inN(r),
        v.candidate(r) == s.candidate(r),
        z3.Implies(z3.And(s.live(r), c >= 0, c < zi(s.nc)),
                   same(v.X(r, c), s.X(r, c))),
        v.hk(k) == s.hk(k), z3.Implies(s.hk(k), v.row(k) == s.row(k)),
        zi(v.total) == zi(s.total))
    dv.check(name, V.SBool(same_rows))


class Somebody(object):
    """An individual."""
    def __init__(self, dv, nc, name='i'):
        e = dv.e
        if dv.choose(name + ' without error', [False, True]):
            self.SSE = None
        else:
            self.SSE = dv.flt(name + '_SSE')
        f = z3.Function(e.fresh(name + '_v'), INT, REAL)
        t = z3.Function(e.fresh(name + '_vt'), INT, INT)
        def value(j):
            j = zi(j)
            V.E().add(z3.And(t(j) >= 0, t(j) <= 3))
            return V.SFloat(f(j), t(j), True)
        self.values = V.SVec(z3.simplify(zi(nc) - 1), value)
        self.key = dv.int(name + '_key')
    def __hash__(self):
        return self.key
    def entry(self, c):
        """To be stored in column c."""
        x = V.ite(zi(c) == 0, arrays.number(self.SSE),
                  self.values.f(zi(c) - 1))
        return arrays.f4(x)


def done(dv, d, limit=8):
    out = dv.outcome(d)
    dv.reactor.spin(lambda: out[0] != 'pending', limit=limit)
    if out[0] == 'failed':
        out[1].raiseException()
    return out


def place(dv):
    """
    Where a new record goes: a row not in use, and a place in the list that
    keeps its order once errors are stored.
    """
    s = Base(dv)
    h = s.history()
    SSE = dv.real('SSE')
    new = arrays.f4(SSE)
    dv.e.assume(new.fin)
    k, kr = dv.call('kkr', h.kkr, SSE, V.SInt(s.n))
    k, kr = zi(k), zi(kr)
    hint(h.K, kr)
    a = zi(V.interesting(dv.int('any_place')))
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    ck('place-in-list', z3.And(k >= 0, k <= s.n))
    x = s.X(s.K(a), 0)
    ck('place-keeps-order', z3.Implies(z3.And(a >= 0, a < s.n), z3.And(
        z3.Implies(a < k, x.r <= new.r), z3.Implies(a >= k, x.r >= new.r))))
    ck('row-not-in-use', z3.Not(s.live(kr)))
    ck('row-among-the-first', z3.And(kr >= 0, kr <= s.n))
    v = View(dv, h)
    ck('list-as-it-was', z3.And(v.n == s.n, z3.Implies(z3.And(
        a >= 0, a < s.n), v.K(a) == s.K(a))))
    dv.reach('end')


def hint(K, row):
    """Suggests looking at the sorted position of a row."""
    for p, v in V.E().ghost.get('sorts', []):
        V.interesting(p.position(V.SInt(K.pos(zi(row)))))


def add(dv):
    """
    Adding anybody: with room, or with nothing to drop, or dropping what is
    to be dropped according to the contract of the function finding that.
    """
    s = Base(dv)
    h = s.history()
    i = Somebody(dv, s.nc)
    V.interesting(z3.IntVal(0))
    never = dv.choose('never', [False, True])
    if not never:
        # (as long as members differ from one another)
        dv.e.assume(z3.Not(s.hk(i.key)))
    dropped = []
    def cpf():
        dv.check('looks-for-one-when-full', V.SBool(
            zi(h.K.n) == zi(s.N_max)))
        kr = None
        if dv.choose('nothing to drop', [False, True]):
            pass
        else:
            kr = dv.int('drop')
            dv.e.assume(s.candidate(zi(kr)))
            dropped.append(zi(kr))
        return dv.mod('history').defer.succeed(kr)
    places = []
    def kkr(SSE, N):
        """Where a new record goes, according to its contract."""
        new = arrays.f4(SSE)
        K = h.K.snapshot()
        n, X = zi(K.n), h.X.f
        dv.check('place-asked-for-finite-error', V.SBool(new.fin))
        k, kr = dv.int('k', 0), dv.int('kr', 0)
        dv.e.assume(z3.And(zi(k) <= n, zi(kr) <= n, z3.Not(K.has(zi(kr)))))
        def inst(z):
            z = zi(z)
            x = V.to_float(X(K.f(z), 0))
            return z3.Implies(z3.And(z >= 0, z < n), z3.And(
                z3.Implies(z < zi(k), x.r <= new.r),
                z3.Implies(z >= zi(k), x.r >= new.r)))
        V.register_forall(inst)
        return k, kr
    h.kkr = kkr
    class Finder(dv.mod('history').ClosestPairFinder):
        def __call__(self, *a, **k):
            return cpf()
    h.cpf.__class__ = Finder
    # Asked now, while somebody else is busy with the history?
    SSE, values, key = i.SSE, i.values, i.key
    def entry(c):
        x = V.ite(zi(c) == 0, arrays.number(SSE), values.f(zi(c) - 1))
        return arrays.f4(x)
    wait = dv.choose('busy', [False, True])
    if wait:
        real = {}
        for name in ('K', 'Kp', 'Kn', 'kr', 'cpf'):
            real[name] = getattr(h, name)
            setattr(h, name, Untouchable())
        X, h.X = h.X, Untouchable(dtype=h.X.dtype, shape=h.X.shape)
        h.dLock.acquire()
    d = dv.call('add', h.add, i, neverInPop=True) if never else dv.call(
        'add', h.add, i)
    if wait:
        i.SSE = float('inf')
        i.key = dv.int('later_key')
        i.values = V.SVec(i.values.n, lambda j: float('inf'))
        for name in real:
            setattr(h, name, real[name])
        h.X = X
        h.dLock.release()
    out = dv.call('add', done, dv, d)
    dv.check('finished', out[0] == 'ok')
    if out[0] != 'ok':
        return
    kr = out[1]
    any_ = Any(dv)
    c = any_.c
    if kr is None:
        unchanged(dv, h, s, any_)
        at_rest(dv, h, s, any_, s.keyof)
        x = entry(z3.IntVal(0))
        full = s.n == zi(s.N_max)
        w = dv.e.ghost['indices']
        bad = [z3.Not(entry(j).fin) for j in w + [z3.IntVal(0)]]
        bad = [z3.And(j >= 0, j < zi(s.nc), y)
               for j, y in zip(w + [z3.IntVal(0)], bad)]
        dv.check('left-out-only-if-not-finite-or-no-room', V.SBool(
            z3.Or(bad + [full])))
        dv.reach('end')
        return
    kr = zi(kr)
    dv.check('recorded-only-if-finite', V.SBool(z3.Implies(z3.And(
        c >= 0, c < zi(s.nc)), entry(c).fin)))
    v = at_rest(dv, h, s, any_, (lambda r: s.keyof(r)) if never else
                lambda r: z3.If(r == kr, zi(key), s.keyof(r)))
    r, k = any_.r, any_.k
    gone = (lambda r: z3.Or([r == x for x in dropped]))
    was = lambda r: z3.And(s.live(r), z3.Not(gone(r)))
    one = lambda cond: z3.If(cond, z3.IntVal(1), z3.IntVal(0))
    dv.check('one-more', V.SBool(v.n == s.n + 1 - len(dropped)))
    dv.check('new-row-not-of-another', V.SBool(z3.Not(was(kr))))
    dv.check('listed', V.SBool(v.live(r) == z3.Or(r == kr, was(r))))
    dv.check('new-record-as-it-was', V.SBool(z3.Implies(z3.And(
        c >= 0, c < zi(s.nc)), same(v.X(kr, c), entry(c)))))
    dv.check('others-kept', V.SBool(z3.Implies(z3.And(
        was(r), c >= 0, c < zi(s.nc)), same(v.X(r, c), s.X(r, c)))))
    dv.check('members', V.SBool(v.inP(r) == z3.Or(
        s.inP(r), r == kr if not never else z3.BoolVal(False))))
    dv.check('never-members', V.SBool(v.inN(r) == z3.Or(
        z3.And(s.inN(r), z3.Not(gone(r))),
        r == kr if never else z3.BoolVal(False))))
    dv.check('keys', V.SBool(v.hk(k) == z3.Or(
        s.hk(k), k == zi(key) if not never else z3.BoolVal(False))))
    dv.check('key-of-old-member', V.SBool(z3.Implies(
        s.hk(k), v.row(k) == s.row(k))))
    if not never:
        dv.check('key-of-new-member', V.SBool(v.row(zi(key)) == kr))
    dv.check('total', V.SBool(zi(v.total) == zi(s.total) + 1))
    if dropped:
        dv.check('dropped-no-member', V.SBool(z3.Not(s.inP(dropped[0]))))
    dv.reach('end')
    dv.reach('dropped' if dropped else 'room')


# --- other things asked of it ------------------------------------------------
def run_locked(dv, h, name, fn, meanwhile=None):
    """Asks for something, maybe while somebody else is busy with it."""
    wait = dv.choose('busy', [False, True])
    if wait:
        real = {}
        for attr in ('K', 'Kp', 'Kn', 'kr', 'cpf', 'X'):
            real[attr] = getattr(h, attr)
            setattr(h, attr, Untouchable())
        h.dLock.acquire()
    d = dv.call(name, fn)
    if wait:
        if meanwhile:
            meanwhile()
        for attr in real:
            setattr(h, attr, real[attr])
        h.dLock.release()
    out = dv.call(name, done, dv, d)
    dv.check('finished', out[0] == 'ok')
    return out


def kept(dv, v, s, any_, still):
    """Records are the same, except those not there any more."""
    r, c = any_.r, any_.c
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    ck('listed', v.live(r) == z3.And(s.live(r), still(r)))
    ck('data-kept', z3.Implies(z3.And(
        s.live(r), still(r), c >= 0, c < zi(s.nc)),
        same(v.X(r, c), s.X(r, c))))
    ck('never-members', v.inN(r) == z3.And(s.inN(r), still(r)))
    ck('total', zi(v.total) == zi(s.total))


def purge(dv):
    """Dropping a record, whoever it is of."""
    s = Base(dv)
    h = s.history()
    kr = dv.int('kr')
    try:
        h.purge(kr)
    except IndexError:
        dv.e.alive()
        dv.check('refused-if-not-there', V.SBool(z3.Not(s.live(zi(kr)))))
        any_ = Any(dv)
        unchanged(dv, h, s, any_)
        dv.reach('end')
        return
    kr = zi(kr)
    dv.check('was-there', V.SBool(s.live(kr)))
    any_ = Any(dv)
    v = at_rest(dv, h, s, any_, s.keyof, keys=False)
    kept(dv, v, s, any_, lambda r: r != kr)
    r, k = any_.r, any_.k
    dv.check('members', V.SBool(v.inP(r) == z3.And(s.inP(r), r != kr)))
    dv.check('one-less', V.SBool(v.n == s.n - 1))
    dv.reach('end')


def leaves(dv):
    """Somebody leaves the population."""
    s = Base(dv)
    h = s.history()
    i = Somebody(dv, s.nc)
    key = zi(i.key)
    def meanwhile():
        i.key = dv.int('later_key')
    how = dv.choose('how', ['individual', 'row'])
    if how == 'row':
        # (the map of keys is of no concern then)
        x = dv.int('x')
        dv.e.assume(s.live(zi(x)))
        run_locked(dv, h, 'notInPop', lambda: h.notInPop(x))
        gone = lambda r: r == zi(x)
        known = z3.BoolVal(True)
    else:
        run_locked(dv, h, 'notInPop', lambda: h.notInPop(i), meanwhile)
        known = s.hk(key)
        gone = lambda r: z3.And(known, r == s.row(key))
    any_ = Any(dv)
    v = at_rest(dv, h, s, any_, s.keyof, keys=how == 'individual')
    kept(dv, v, s, any_, lambda r: z3.BoolVal(True))
    r, k = any_.r, any_.k
    dv.check('members', V.SBool(v.inP(r) == z3.And(
        s.inP(r), z3.Not(gone(r)))))
    if how == 'individual':
        dv.check('keys', V.SBool(v.hk(k) == z3.And(
            s.hk(k), k != key)))
        dv.check('rows-of-keys', V.SBool(z3.Implies(
            v.hk(k), v.row(k) == s.row(k))))
    dv.reach('end')


def renamed(dv):
    """A member's hash changes."""
    s = Base(dv)
    h = s.history()
    i = Somebody(dv, s.nc)
    new = zi(i.key)
    old = dv.int('old_key')
    dv.e.assume(z3.Or(zi(old) == new, z3.Not(s.hk(new))))
    def meanwhile():
        i.key = dv.int('later_key')
    run_locked(dv, h, 'rekey', lambda: h.rekey(old, i), meanwhile)
    old = zi(old)
    any_ = Any(dv)
    had = s.hk(old)
    v = at_rest(dv, h, s, any_, lambda r: z3.If(
        z3.And(had, r == s.row(old)), new, s.keyof(r)))
    kept(dv, v, s, any_, lambda r: z3.BoolVal(True))
    r, k = any_.r, any_.k
    dv.check('members', V.SBool(v.inP(r) == s.inP(r)))
    dv.check('known-by-new-key', V.SBool(z3.Implies(had, z3.And(
        v.hk(new), v.row(new) == s.row(old)))))
    dv.check('others-by-theirs', V.SBool(z3.Implies(z3.And(
        k != old, k != new), z3.And(v.hk(k) == s.hk(k), z3.Implies(
            s.hk(k), v.row(k) == s.row(k))))))
    dv.reach('end')


def cleared(dv):
    """Everything gone."""
    s = Base(dv)
    h = s.history()
    run_locked(dv, h, 'clear', h.clear)
    any_ = Any(dv)
    v = at_rest(dv, h, s, any_, s.keyof)
    dv.check('empty', V.SBool(z3.And(
        v.n == 0, z3.Not(v.live(any_.r)), z3.Not(v.inP(any_.r)),
        z3.Not(v.inN(any_.r)), z3.Not(v.hk(any_.k)), zi(v.total) == 0)))
    dv.reach('end')


def without_members(dv):
    """All records of members dropped, one at a time."""
    s = Base(dv)
    h = s.history()
    state = {}
    def relation(v, r):
        """Some of the members' records are gone already."""
        return z3.And(
            z3.Implies(v.live(r), s.live(r)),
            z3.Implies(z3.And(s.live(r), z3.Not(v.live(r))), s.inP(r)),
            v.inP(r) == z3.And(s.inP(r), v.live(r)),
            v.inN(r) == s.inN(r), v.candidate(r) == s.candidate(r))
    def data(v, r, c):
        return z3.Implies(z3.And(v.live(r), c >= 0, c < zi(s.nc)),
                          same(v.X(r, c), s.X(r, c)))
    def judge(name):
        any_ = Any(dv)
        v = at_rest(dv, h, s, any_, None, keys=False)
        dv.check(name, V.SBool(relation(v, any_.r)))
        dv.check(name + '-data', V.SBool(data(v, any_.r, any_.c)))
        return v
    class Between(Base):
        """An arbitrary moment in between."""
        def _row(self, r):
            r = z3.simplify(zi(r))
            new = not any(r.eq(x) for x in self.rows)
            Base._row(self, r)
            if new:
                V.E().add(relation_(self, r))
            return r
    def relation_(b, r):
        return z3.And(
            z3.Implies(b.live_(r), s.live(r)),
            z3.Implies(z3.And(s.live(r), z3.Not(b.live_(r))), s.inP(r)),
            b.inP_(r) == z3.And(s.inP(r), b.live_(r)),
            b.inN_(r) == s.inN(r))
    locked = [None]
    def hook(loop, frame):
        if loop.count == 1:
            locked[0] = h.dLock.locked
            b = state['b'] = Between(dv, '_b', s.N_max, s.nc, s.X_)
            b.put(h)
            h.cpf.X.f = b.CX
            # (whether any key is there yet is of no concern)
            h.kr.has, h.kr.get_ = s.hk, s.row
            return None
        # One more dropped
        h.dLock.release()
        v = judge('one-more-dropped')
        dv.check('fewer', V.SBool(v.n < state['b'].n), soft=True)
        dv.reach('next')
        dv.e.kill(engine.Dead("covered by the arbitrary moment"))
    dv.e.ghost['whilehook'] = hook
    run_locked(dv, h, 'purgePop', h.purgePop)
    dv.check('locked-meanwhile', bool(locked[0]))
    any_ = Any(dv)
    V.interesting(any_.r)
    v = at_rest(dv, h, s, any_, s.keyof)
    kept(dv, v, s, any_, lambda r: z3.Not(s.inP(r)))
    dv.check('no-members', V.SBool(z3.Not(v.inP(any_.r))))
    dv.check('no-keys', V.SBool(z3.Not(v.hk(any_.k))))
    dv.reach('end')


def listing(dv):
    """Length, records by position, and going through their values."""
    s = Base(dv)
    h = s.history()
    dv.check('length', V.SBool(zi(h.__len__()) == s.n))
    k = dv.int('k')
    n = s.n
    inr = z3.And(zi(k) >= -n, zi(k) < n)
    try:
        x = h[k]
    except IndexError:
        dv.e.alive()
        dv.check('refused-outside', V.SBool(z3.Not(inr)))
    else:
        dv.check('inside', V.SBool(inr))
        c = zi(dv.idx('c', s.nc))
        z = z3.If(zi(k) < 0, zi(k) + n, zi(k))
        dv.check('as-many', V.SBool(zi(x.n) == zi(s.nc)))
        dv.check('record', V.SBool(same(x.f(c), s.X(s.K(z), c))))
    at = []
    dv.loopspec(loops.Spec(tag='K', name='records',
                           havoc=lambda L, idx, locs: at.append(L)))
    for x in h.__iter__():
        dv.e.alive()
        if not at:
            dv.skip("goes through them in a way not understood")
        z = zi(at[-1].idx)
        j = zi(dv.idx('j', zi(s.nc) - 1))
        dv.check('as-many-values', V.SBool(zi(x.n) == zi(s.nc) - 1))
        dv.check('values-in-order', V.SBool(same(
            x.f(j), s.X(s.K(z), j + 1))))
        dv.reach('gone-through')
    dv.check('all-of-them', V.SBool(zi(at[-1].n) == s.n)
             if at else V.SBool(s.n == 0))
    dv.reach('end')


def new(dv):
    """A new history."""
    H = dv.mod('history')
    nc = dv.size('nc', 2)
    names = V.SSeq(zi(nc) - 1, lambda z: V.Opaque('name', z), tag='names')
    how = dv.choose('maximum', ['given', 'default'])
    if how == 'given':
        N_max = dv.size('N_max', 1)
        h = dv.call('construct', H.History, names, N_max)
    else:
        h = dv.call('construct', H.History, names)
        N_max = H.History.N_max
    dv.check('maximum', V.SBool(zi(h.N_max) == zi(N_max)))
    dv.check('empty', len(h.K) == 0 and len(h.Kp) == 0 and len(
        h.Kn) == 0 and len(h.kr) == 0 and len(h.cpf.K) == 0 and len(
            h.cpf.Kn) == 0 and h.N_total == 0)
    X, CX = h.X, h.cpf.X
    for name, x in (('records', X), ('copies', CX)):
        dv.check('room-for-all-' + name, V.SBool(z3.And(
            zi(x.shape[0]) == zi(N_max), zi(x.shape[1]) == zi(nc))))
    dv.check('queries-see-it', h.a.X is h.X and h.a.K is h.K and
             h.a.Kp is h.Kp and h.a.Kn is h.Kn and h.a.names is names)
    dv.check('not-locked', not h.dLock.locked)
    dv.reach('end')


def saved(dv):
    """
    Any history at rest, saved and loaded: the same records with the same
    marks, known by the same hashes, and at rest.
    """
    H = dv.mod('history')
    s = Base(dv)
    # (rows are saved as 16-bit numbers)
    dv.e.assume(zi(s.N_max) < 2**16)
    h = s.history()
    dv.patch(H, 'BytesIO', arrays.SBytesIO)
    state = dv.call('save', h.__getstate__)
    unchanged(dv, h, s, Any(dv), 'saving-changes-nothing')
    # Pickling makes copies
    state = {k: x.copy() if isinstance(x, (
        arrays.SRowMap, arrays.SMat, arrays.SRows, arrays.SRowSet)) else x
        for k, x in state.items()}
    q = dv.bare(H.History)
    def seen(idx):
        return lambda r: z3.And(s.candidate(r), s.pos(r) < zi(idx))
    def inv(L, idx, locs):
        if L.stage == 'assume':
            return []
        r, c = zi(any_.r), zi(any_.c)
        got, never = of_set(q.cpf.K), of_set(q.cpf.Kn)
        return [
            ('so-far', got(r) == seen(idx)(r)),
            ('never-so-far', never(r) == z3.And(seen(idx)(r), s.inN(r))),
            ('same-data', z3.Implies(z3.And(
                seen(idx)(r), c >= 0, c < zi(s.nc)),
                same(q.cpf.X.f(r, c), s.X(r, c))))]
    def havoc(L, idx, locs):
        f = seen(idx)
        q.cpf.K = arrays.SRowSet(f, 'candidates')
        q.cpf.Kn = arrays.SRowSet(
            lambda r: z3.And(f(r), s.inN(r)), 'candidates never')
        g = z3.Function(dv.e.fresh('rest'), INT, INT, REAL)
        q.cpf.X.f = lambda r, c: V.SFloat(z3.If(
            f(zi(r)), s.X(r, c).r, g(zi(r), zi(c))), 0, True)
    dv.loopspec(loops.Spec(
        tag='K', name='candidates', inv=inv, havoc=havoc,
        allow=lambda obj, what: True))
    any_ = Any(dv)
    V.interesting(any_.r)
    dv.call('load', q.__setstate__, state)
    dv.check('names', q.names is h.names)
    dv.check('maximum', V.SBool(zi(q.N_max) == zi(s.N_max)))
    after = Any(dv)
    V.interesting(after.r)
    unchanged(dv, q, s, after, 'the-same')
    at_rest(dv, q, s, after, s.keyof)
    dv.check('records-of-its-own', q.X is not h.X and q.K is not h.K and
             q.Kp is not h.Kp and q.Kn is not h.Kn and q.kr is not h.kr)
    dv.reach('end')


# --- finding what to drop ----------------------------------------------------
class Candidates(object):
    """A finder with any number of candidates."""
    def __init__(self, dv):
        self.dv = dv
        e = dv.e
        self.Nr = dv.size('Nr', 1)
        self.nc = dv.size('nc', 2)
        X_ = z3.Function(e.fresh('X'), INT, INT, REAL)
        K_ = z3.Function(e.fresh('K'), INT, BOOL)
        N_ = z3.Function(e.fresh('Kn'), INT, BOOL)
        self.X = lambda r, c: V.SFloat(X_(zi(r), zi(c)), 0, True)
        def has(r):
            r = zi(r)
            V.E().add(z3.And(
                z3.Implies(K_(r), z3.And(r >= 0, r < zi(self.Nr))),
                z3.Implies(N_(r), K_(r))))
            return K_(r)
        self.has = has
        self.never = N_
        C = dv.mod('history').ClosestPairFinder
        self.table = arrays.SMat(self.Nr, self.nc, self.X, 'f8')
        self.cpf = dv.bare(
            C, Nr=self.Nr, Nc=self.nc, X=self.table,
            K=arrays.SRowSet(has, 'candidates'),
            Kn=arrays.SRowSet(N_, 'candidates never'), S=None)

    def pair(self, P, z):
        """Two different candidates, in order."""
        x, y = zi(P.f(z, z3.IntVal(0))), zi(P.f(z, z3.IntVal(1)))
        return z3.And(self.has(x), self.has(y), x < y)


def pairs(dv, which):
    """Pairs of candidates to look at."""
    c = Candidates(dv)
    V.interesting(z3.IntVal(0))
    n = zi(c.cpf.K.n)
    if which == 'all':
        P = dv.call('pairs', c.cpf.pairs_all)
    else:
        N = dv.size('N', 1)
        dv.e.assume(n >= 2)
        real = c.cpf.pairs_sampled
        asked = []
        def more(k):
            """What it says about itself, for those still missing."""
            dv.check('some-missing', V.SBool(z3.And(
                zi(k) >= 1, zi(k) <= zi(N))))
            g = z3.Function(dv.e.fresh('more'), INT, INT, INT)
            def at(r, j):
                r, j = zi(r), zi(j)
                x, y = g(r, z3.IntVal(0)), g(r, z3.IntVal(1))
                V.E().add(z3.Implies(z3.And(r >= 0, r < zi(k)), z3.And(
                    c.has(x), c.has(y), x < y)))
                return V.SInt(g(r, j), True)
            return arrays.SMat(k, 2, at)
        c.cpf.pairs_sampled = more
        P = dv.call('pairs', real, N)
    if not isinstance(P, arrays.SMat):
        dv.skip("pairs given in a way not understood")
    m = zi(P.nr)
    z = zi(V.interesting(dv.int('any_pair')))
    dv.check('two-different-candidates', V.SBool(z3.Implies(z3.And(
        z >= 0, z < m), c.pair(P, z))))
    dv.check('two-columns', V.SBool(zi(P.nc) == 2))
    if which == 'all':
        # Each pair is there
        x, y = [zi(dv.int(name)) for name in ('x', 'y')]
        dv.e.assume(z3.And(c.has(x), c.has(y), x < y))
        for v in (x, y):
            V.interesting(v)
        K = c.cpf.K._enumerate()
        i, j = K.pos(x), K.pos(y)
        w = arrays.flat_place(n, n, i, j)
        V.interesting(w)
        chosen = [s for s in V.E().ghost.get('sseqs', [])
                  if isinstance(s, arrays.SRows) and s.tag == 'nonzero'][-1]
        chosen.has(w)
        q = chosen.pos(w)
        dv.check('each-pair', V.SBool(z3.And(
            q >= 0, q < m, zi(P.f(q, z3.IntVal(0))) == x,
            zi(P.f(q, z3.IntVal(1))) == y)))
    else:
        dv.check('as-many-as-wanted', V.SBool(m == zi(N)))
    dv.reach('end')


def finder(dv):
    """
    Nothing without candidates, the only one if there is but one, else the
    first of a pair of different candidates such that no other pair examined
    differs by less: the squared differences over the variance of all
    candidates, in relation to the pair's errors and with regard to the first
    having been a member.
    """
    c = Candidates(dv)
    cpf = c.cpf
    n = zi(cpf.K.n)
    dv.e.ghost['smooth'] = True
    # What the least means is asked for positive errors only
    positive = dv.choose('errors', ['any', 'positive']) == 'positive'
    if positive:
        X = c.X
        def X_(r, j):
            x = X(r, j)
            V.E().add(z3.Implies(zi(j) == 0, x.r > 0))
            return x
        c.X = c.table.f = X_
    made = []
    def some(m):
        g = z3.Function(dv.e.fresh('pairs'), INT, INT, INT)
        def at(r, j):
            r = zi(r)
            x, y = g(r, z3.IntVal(0)), g(r, z3.IntVal(1))
            V.E().add(z3.Implies(z3.And(r >= 0, r < zi(m)), z3.And(
                c.has(x), c.has(y), x < y)))
            return V.SInt(g(r, zi(j)), True)
        P = arrays.SMat(m, 2, at)
        made.append(P)
        return P
    def sampled(N):
        dv.check('some-wanted', V.SBool(zi(N) >= 1))
        dv.check('pairs-exist', V.SBool(n >= 2))
        m = dv.size('n_sample', 1)
        dv.e.assume(zi(m) == zi(N))
        return some(m)
    def all_():
        # (two candidates make a pair)
        dv.check('pairs-exist', V.SBool(n >= 2))
        return some(dv.size('n_pairs', 1))
    cpf.pairs_sampled, cpf.pairs_all = sampled, all_
    given = dv.choose('how many', ['default', 'given'])
    if dv.choose('again', [False, True]):
        cpf.S = V.SVec(c.nc, lambda j: V.SFloat(S_(zi(j)), 0, True))
    S_ = z3.Function(dv.e.fresh('S'), INT, REAL)
    had = cpf.S
    if given == 'given':
        Np = dv.size('Np', 1)
        d = dv.call('find', cpf, Np)
    else:
        d = dv.call('find', cpf)
    out = dv.outcome(d)
    dv.reactor.spin(lambda: out[0] != 'pending', limit=40)
    if out[0] == 'failed':
        dv.skip("failed: %s" % out[1])
    dv.check('finished', out[0] == 'ok')
    kr = out[1]
    if kr is None:
        r = zi(V.interesting(dv.int('any_row')))
        dv.check('nothing-only-without-candidates', V.SBool(
            z3.Not(c.has(r))))
        dv.reach('end')
        return
    kr = zi(kr)
    dv.check('a-candidate', V.SBool(c.has(kr)))
    if not made:
        r = zi(V.interesting(dv.int('any_row')))
        dv.check('the-only-one', V.SBool(z3.Implies(c.has(r), r == kr)))
        dv.reach('end')
        return
    P = made[-1]
    m = zi(P.nr)
    found = dv.e.ghost.get('extremes', [])
    if len(found) != 1:
        dv.skip("compared in a way not understood")
    w, D, best = found[0]
    w = zi(w)
    dv.check('first-of-the-pair', V.SBool(z3.And(
        w >= 0, w < m, kr == zi(P.f(w, z3.IntVal(0))))))
    if not positive:
        dv.reach('end')
        return
    z = zi(V.interesting(dv.int('any_pair')))
    j = zi(dv.int('any_column'))
    inr = z3.And(z >= 0, z < m)
    inc = z3.And(j >= 0, j < zi(c.nc))
    x, y = [zi(P.f(z, z3.IntVal(k))) for k in (0, 1)]
    red = dv.e.ghost.get('reductions', [])
    var = [(f, g) for kind, f, _, g in red if kind == 'var']
    sums = [(f, g) for kind, f, _, g in red if kind == 'sum']
    if len(sums) != 1 or len(var) != (
            0 if had is not None else 1):
        dv.skip("compared in a way not understood")
    # The differences
    if had is None:
        f, g = var[0]
        k = zi(dv.int('any_candidate', 0))
        dv.check('variance-of-candidates', V.SBool(z3.And(
            zi(f.nr) == n, zi(f.nc) == zi(c.nc), z3.Implies(z3.And(
                k < n, inc), same(f.f(k, j), c.X(zi(cpf.K.at(k)), j))))))
        scale = lambda j: 1.0/(g(j) + 1E-20)
    else:
        scale = lambda j: V.SFloat(S_(zi(j)), 0, True)
    f, total = sums[0]
    diff = c.X(x, j) - c.X(y, j)
    dv.check('difference', V.SBool(z3.Implies(z3.And(inr, inc), same(
        f.f(z, j), diff*diff*scale(j)))))
    dv.check('all-columns', V.SBool(z3.And(
        zi(f.nr) == m, zi(f.nc) == zi(c.nc))))
    # The least
    for v in (x, kr):
        V.interesting(v)
    def measure(z):
        x, y = [zi(P.f(z, z3.IntVal(k))) for k in (0, 1)]
        return total(z)/((c.X(x, 0) + c.X(y, 0))/2)
    N_never = V.SInt(cpf.Kn.n)
    share = V.SInt(zi(N_never))
    from pydv import models
    penalty = 1 + models.np_exp(12*(models.np_floor(
        V.to_float(share)/V.to_float(V.SInt(m))) - 0.4))
    def judged(z):
        x = zi(P.f(z, z3.IntVal(0)))
        return V.ite(c.never(x), measure(z)/penalty, measure(z))
    a, b = V.to_float(judged(w)), V.to_float(judged(z))
    d1, d2 = V.to_float(D(w)), V.to_float(D(z))
    def alike(u, v):
        return z3.And(u.t == v.t, z3.Implies(u.fin, u.r == v.r))
    dv.check('measure-of-found', V.SBool(alike(a, d1)))
    dv.check('measure-of-any', V.SBool(z3.Implies(inr, alike(b, d2))))
    dv.check('least', V.SBool(z3.Implies(inr, z3.Or(
        d1.nan, d1.lt(d2), d1.eq(d2)))))
    dv.reach('end')
    dv.reach('compared')
