"""
What the analysis of a history answers, for any number of records of any
number of parameters.
"""
import z3

from pydv import arrays, loops, values as V
from .common import *
from . import ledger

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
zi = V.zi


class Cell(V.SFloat):
    """A value that tells which row it is of, for use as a witness."""
    __slots__ = ('row',)


class Records(ledger.Base):
    def X(self, r, c):
        r = z3.simplify(zi(r))
        x = ledger.Base.X(self, r, c)
        y = Cell(x.r, x.t, x.npf)
        y.row = r
        return y

    def analysis(self, names):
        return self.dv.bare(
            self.dv.mod('history').Analysis, names=names,
            X=arrays.SMat(self.N_max, self.nc, self.X, 'f4'),
            K=arrays.SRows(self.n, self.K, self.live, self.pos, 'K'),
            Kp=arrays.SRowSet(self.inP, 'Kp'),
            Kn=arrays.SRowSet(self.inN, 'Kn'))


class Name(V.Sym):
    """A parameter's name: z tells which, rank where in the alphabet."""
    __slots__ = ('z', 'rank')
    def __init__(self, z, rank):
        self.z, self.rank = z, rank
    @property
    def __dv_rank__(self):
        return V.SInt(self.rank(self.z))
    def __eq__(self, other):
        return isinstance(other, Name) and V.SBool(self.z == other.z)
    def __ne__(self, other):
        return V.SBool(z3.Not(V.zb(self == other)))
    __hash__ = None


class Names(V.SPure):
    """A list of any number of different names."""
    __slots__ = ('rank', 'where')
    def __init__(self, dv, n, tag='names'):
        e = dv.e
        f = z3.Function(e.fresh('name'), INT, INT)
        self.where = z3.Function(e.fresh('where'), INT, INT)
        self.rank = z3.Function(e.fresh('rank'), INT, INT)
        def make(z):
            x = f(z)
            V.E().add(z3.Implies(z3.And(z >= 0, z < zi(n)),
                                 self.where(x) == z))
            return Name(x, self.rank)
        V.SPure.__init__(self, n, make, tag)
    def index(self, x):
        """As of a list: where it is."""
        if not isinstance(x, Name):
            raise ValueError("not in list")
        p = self.where(x.z)
        e = V.E()
        if not e.fork(z3.And(p >= 0, p < zi(self.n), self.at(p).z == x.z)):
            raise ValueError("not in list")
        return V.SInt(p)
    def __contains__(self, x):
        try:
            self.index(x)
        except ValueError:
            return False
        return True


def row_of(dv, x):
    if not isinstance(x, Cell):
        dv.skip("values not taken from the records directly")
    return x.row


def vector(dv, x):
    v = arrays.index_vec(x)
    if v is None:
        dv.skip("answer given as %s" % type(x).__name__)
    return v


def in_class(s, r, which):
    if which == 'inPop':
        return s.inP(r)
    if which == 'notInPop':
        return z3.And(z3.Not(s.inP(r)), z3.Not(s.inN(r)))
    if which == 'neverInPop':
        return s.inN(r)
    return z3.BoolVal(True)


def remember_filters(dv):
    seqs = []
    dv.e.ghost['filterhook'] = seqs.append
    return seqs


def chosen_place(dv, filters, p):
    """
    Where among those selected the item in position p of the listing is, as
    far as selections were made by filtering in the ways understood.
    """
    for seq in filters:
        p = seq.contains_src(p)
    for nz in dv.e.ghost.get('nonzeros', []):
        nz.has(p)
        p = nz.pos(p)
    return p


def value_vs_SSE(dv):
    s = Records(dv)
    N = z3.simplify(zi(s.nc) - 1)
    names = Names(dv, N)
    a = s.analysis(names)
    # The names asked for, whatever way they were
    m = dv.size('m', 1)
    g = z3.Function(dv.e.fresh('asked'), INT, INT)
    def name(z):
        k = g(z)
        V.E().add(z3.Implies(z3.And(z >= 0, z < zi(m)), z3.And(
            k >= 0, k < N)))
        return names.at(k)
    asked = V.SPure(zi(m), name, 'asked')
    dv.patch(type(a), 'args2names', lambda self, args: asked)
    which = dv.choose('class', [None, 'inPop', 'notInPop', 'neverInPop'])
    kw = {which: True} if which else {}
    limit = 1000
    if dv.choose('limit given', [False, True]):
        limit = kw['maxRatio'] = dv.real('maxRatio')
    filters = remember_filters(dv)

    def filled(locs):
        found = [x for x in locs.values() if isinstance(x, V.GList)]
        return found[0] if len(found) == 1 else None
    def expected(first, z):
        """What goes with the errors, for the z-th name."""
        def at(i):
            x = first.f(i)
            return s.X(row_of(dv, x), g(z) + 1)
        return V.SVec(first.n, at)
    def first_of(out):
        return vector(dv, loops.item_of(out, z3.IntVal(0)))
    i, i2 = [zi(V.interesting(dv.int(x, 0))) for x in ('i', 'i2')]
    def agrees(first, out, z):
        x = vector(dv, loops.item_of(out, z + 1))
        y = expected(first, z)
        c = zi(x.n) == zi(y.n)
        if arrays.proves(zi(first.n) == 0):
            return c
        return z3.And(c, z3.Implies(i < zi(first.n), ledger.same(
            x.f(i), y.f(i))))
    def inv(L, idx, locs):
        out = filled(locs)
        if out is None:
            return [('not-gone-through-otherwise', V.SBool(zi(idx) == 0))]
        c = [('one-for-each', V.SBool(zi(loops.length_of(out)) ==
                                      zi(idx) + 1))]
        if L.stage == 'preserve':
            c.append(('values-of-the-same-records', V.SBool(agrees(
                first_of(out), out, L.idx))))
        return c
    def havoc(L, idx, locs):
        out = filled(locs)
        if out is None:
            return
        if out.sym is not None or len(out) != 1:
            dv.skip("answer collected in another way")
        first = first_of(out)
        def make(z):
            z = z3.simplify(z)
            if z3.is_int_value(z) and z.as_long() == 0:
                return first
            if arrays.proves(zi(first.n) == 0):
                return V.SVec(first.n, lambda i: 0.0)
            return expected(first, z3.simplify(z - 1))
        out.become(V.SPure(z3.simplify(zi(idx) + 1), make, 'answer'))
    dv.loopspec(loops.Spec(
        tag='asked', name='columns', inv=inv, havoc=havoc,
        allow=lambda obj, what: isinstance(obj, V.GList)))
    out = dv.call('query', a.value_vs_SSE, asked, **kw)
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    ck('an-array-for-each', zi(loops.length_of(out)) == zi(m) + 1)
    first = first_of(out)
    j = zi(dv.int('j', 0))
    dv.e.assume(j < zi(m))
    ck('values-aligned', agrees(first, out, j))
    best = s.X(s.K(z3.IntVal(0)), 0)
    def within(r):
        x = s.X(r, 0)
        return V.zb(x <= best*limit)
    p = zi(dv.int('p', 0))
    V.interesting(p)
    wanted = z3.And(p < s.n, in_class(s, s.K(p), which), within(s.K(p)))
    at = chosen_place(dv, filters, p)
    if arrays.proves(zi(first.n) == 0):
        ck('none-left-out', z3.Not(wanted))
    else:
        r, r2, r3 = [row_of(dv, first.f(x)) for x in (i, i2, at)]
        here = i < zi(first.n)
        ck('of-listed-records', z3.Implies(here, s.live(r)))
        ck('errors', z3.Implies(here, ledger.same(first.f(i), s.X(r, 0))))
        ck('in-class', z3.Implies(here, in_class(s, r, which)))
        ck('within-ratio', z3.Implies(here, within(r)))
        ck('in-order', z3.Implies(z3.And(i < i2, i2 < zi(first.n)),
                                  s.pos(r) < s.pos(r2)))
        x, y = V.to_float(first.f(i)), V.to_float(first.f(i2))
        ck('ascending', z3.Implies(z3.And(i < i2, i2 < zi(first.n)),
                                   x.r <= y.r))
        ck('none-left-out', z3.Implies(wanted, z3.And(
            at >= 0, at < zi(first.n), r3 == s.K(p))))
    dv.reach('end')


def args2names(dv):
    """All names, those listed or a slice of all, in alphabetical order."""
    N = zi(dv.size('N', 1))
    names = Names(dv, N)
    a = dv.bare(dv.mod('history').Analysis, names=names)
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    how = dv.choose('how', ['all', 'listed', 'upto', 'fromto'])
    i, i2 = [zi(V.interesting(dv.int(x, 0))) for x in ('i', 'i2')]
    if how == 'listed':
        m = zi(dv.size('m', 1))
        g = z3.Function(dv.e.fresh('asked'), INT, INT)
        def name(z):
            V.E().add(z3.Implies(z3.And(z >= 0, z < m), z3.And(
                g(z) >= 0, g(z) < N)))
            return names.at(g(z))
        asked = V.SPure(m, name, 'asked')
        dv.loopspec(loops.Spec(
            tag='asked', name='kinds', inv=lambda L, idx, locs: [
                ('not-gone-through', V.SBool(zi(idx) == 0))]))
        out = dv.call('select', a.args2names, asked)
        ck('as-many', zi(loops.length_of(out)) == m)
        ck('those', z3.Implies(i < m, loops.item_of(out, i).z ==
                               asked.at(i).z))
        dv.reach('end')
        return
    lo, hi = z3.IntVal(0), N
    if how == 'all':
        args = []
    elif how == 'upto':
        args = [dv.int('upto', 0)]
        hi = zi(args[0])
    else:
        args = [dv.int('from', 0), dv.int('to', 0)]
        lo, hi = [zi(x) for x in args]
    top = z3.If(hi > N, N, hi)
    m = z3.If(top > lo, top - lo, z3.IntVal(0))
    out = dv.call('select', a.args2names, args)
    ck('as-many', zi(loops.length_of(out)) == m)
    x, y = [loops.item_of(out, z) for z in (i, i2)]
    inside = z3.And(i < i2, i2 < m)
    ck('alphabetical', z3.Implies(inside, x.__dv_rank__.z <=
                                  y.__dv_rank__.z))
    ck('known', z3.Implies(i < m, z3.And(
        names.where(x.z) >= 0, names.where(x.z) < N)))
    ck('no-name-twice', z3.Implies(inside, x.z != y.z))
    if how != 'all':
        # Those of all of them in order
        every = dv.call('select', a.args2names, [])
        ck('that-slice', z3.Implies(i < m, x.__dv_rank__.z == loops.item_of(
            every, i + lo).__dv_rank__.z))
    dv.reach('end')


def Kf12(dv):
    s = Records(dv)
    dv.e.assume(s.n >= 1)
    a = s.analysis(Names(dv, z3.simplify(zi(s.nc) - 1)))
    f1, f2 = dv.real('f1'), dv.real('f2')
    lowest = s.X(s.K(z3.IntVal(0)), 0)
    highest = s.X(s.K(z3.simplify(s.n - 1)), 0)
    V.interesting(z3.IntVal(0))
    def between(r):
        x = s.X(r, 0)
        lo, hi = [lowest + f*(highest - lowest) for f in (f1, f2)]
        return z3.And(V.zb(x >= lo), V.zb(x < hi))
    i, i2 = [zi(V.interesting(dv.int(x, 0))) for x in ('i', 'i2')]
    filters = remember_filters(dv)
    out = vector(dv, dv.call('fractions', a.Kf12, f1, f2))
    m = zi(out.n)
    r, r2 = [zi(out.f(x)) for x in (i, i2)]
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    ck('listed-records', z3.Implies(i < m, s.live(r)))
    ck('between', z3.Implies(i < m, between(r)))
    ck('in-order', z3.Implies(z3.And(i < i2, i2 < m), s.pos(r) < s.pos(r2)))
    p = zi(V.interesting(dv.int('p', 0)))
    at = chosen_place(dv, filters, p)
    ck('none-left-out', z3.Implies(
        z3.And(p < s.n, between(s.K(p))),
        z3.And(at >= 0, at < m, zi(out.f(at)) == s.K(p))))
    dv.reach('end')


def Kp12(dv):
    s = Records(dv)
    a = s.analysis(Names(dv, z3.simplify(zi(s.nc) - 1)))
    ps = [dv.real('p1'), dv.real('p2')]
    dv.e.assume(z3.And(ps[0].r >= 0, ps[0].r <= ps[1].r, ps[1].r <= 1))
    ends = [z3.ToInt(p.r*z3.ToReal(s.n)) for p in ps]
    out = dv.call('portion', a.Kp12, *ps)
    m = zi(loops.length_of(out))
    i = zi(V.interesting(dv.int('i', 0)))
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    last = z3.If(ends[1] < s.n, ends[1], s.n - 1)
    ck('as-many', m == z3.If(last >= ends[0], last - ends[0] + 1, 0))
    ck('those-between', z3.Implies(i < m, zi(loops.item_of(out, i)) ==
                                   s.K(ends[0] + i)))
    dv.reach('end')


def asked_of_history(dv):
    """The history answers as its analysis does, once it has the lock."""
    H = dv.mod('history')
    s = ledger.Base(dv)
    h = s.history()
    asked, answer = [], object()
    def value_vs_SSE(self, *a, **k):
        dv.check('of-its-records', self is h.a)
        dv.check('not-while-busy', isinstance(h.K, arrays.SRows) and
                 self.K is h.K and self.X is h.X and self.Kp is h.Kp and
                 self.Kn is h.Kn)
        asked.append((a, k))
        return answer
    dv.patch(H.Analysis, 'value_vs_SSE', value_vs_SSE)
    names, ratio = object(), object()
    out = ledger.run_locked(dv, h, 'query', lambda: h.value_vs_SSE(
        names, inPop=True, maxRatio=ratio))
    if out[0] != 'ok':
        return
    dv.check('answered', out[1] is answer)
    dv.check('as-asked', asked == [
        ((names,), {'inPop': True, 'maxRatio': ratio})])
    dv.check('not-left-locked', not h.dLock.locked and not h.dLock.waiting)
    dv.reach('end')


DIRECTORY, BASE, EXT = '\ue100', '\ue101', '\ue102'


def differ(dv, a, b):
    """Two texts made of the same arbitrary pieces and of numbers differ."""
    import re
    texts = dv.e.ghost['texts']
    def parse(s):
        numbers = [texts[ord(x) - 0xe010]
                   for x in re.findall('\ue000(.)\ue001', s)]
        return re.sub('\ue000(.)\ue001', '\ue000', s), numbers
    (s, m), (t, n) = parse(a), parse(b)
    if s == t:
        # Digits stand between the same texts
        if len(m) > 1:
            dv.skip("several numbers in a name")
        return z3.Or([x != y for x, y in zip(m, n)])
    for x in (DIRECTORY, BASE, EXT):
        if s.count(x) != t.count(x):
            dv.skip("names made of different pieces")
    for (s, m), (t, n) in (((s, m), (t, n)), ((t, n), (s, m))):
        if not m and len(t) > len(s):
            # The other is longer, whatever the number's length
            return z3.BoolVal(True)
    dv.skip("names not of a kind understood")


def plot_files(dv):
    """
    Names made from an arbitrary directory, base name and extension differ
    from any generated before.
    """
    dv.e.ghost['texts'] = []
    a = dv.bare(dv.mod('history').Analysis)
    base = dv.choose('kind', [
        DIRECTORY + '/' + BASE + '.' + EXT, BASE + '.' + EXT,
        '/' + BASE + '.' + EXT, DIRECTORY + '/' + BASE, BASE])
    dv.check('no-file-yet', dv.call('path', a.filePath) is None)
    dv.check('set', dv.call('set', a.filePath, base) is None)
    spec = a.fileSpec
    if not isinstance(spec, list) or len(spec) != 6:
        dv.skip("names counted in another way")
    dv.check('none-yet', spec[3] == 0)
    def after(name, least):
        """Gets a name after some number of others."""
        before = list(spec)
        spec[3] = c = dv.int(name, 0)
        dv.e.assume(c.z >= zi(least))
        path = dv.call('path', a.filePath)[0]
        dv.check('counted', V.SBool(zi(a.fileSpec[3]) > c.z))
        dv.check('nothing-else-changed', a.fileSpec is spec and all(
            x is y for k, (x, y) in enumerate(zip(before, spec)) if k != 3))
        dv.check('same-directory', path.startswith(
            base[:base.rfind('/') + 1]))
        return path
    one = after('others', 0)
    two = after('more', spec[3])
    dv.check('never-the-same-twice', V.SBool(differ(dv, one, two)))
    dv.reach('end')
