"""
pydv.arrays: tables with symbolic numbers of rows and columns, lists of their
rows, sets of rows and maps to rows.
"""
import numpy as _np
import z3

from .engine import E
from .values import *
from .values import zi, zb

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# --- single precision --------------------------------------------------------
RND = z3.Function('f4', REAL, REAL)
F4_LIMIT = z3.Q(int(2**128 - 2**103), 1)      # where rounding overflows


def f4_fixed(r):
    """States that r is a single-precision number; returns r."""
    e = E()
    seen = e.ghost.setdefault('f4_fixed', [])
    if any(r.eq(x) for x in seen):
        return r
    seen.append(r)
    e.add(z3.And(RND(r) == r, r > -F4_LIMIT, r < F4_LIMIT))
    for a in e.ghost.get('f4_args', []):
        e.add(z3.And(z3.Implies(r <= a, r <= RND(a)),
                     z3.Implies(a <= r, RND(a) <= r)))
    return r


def f4(x):
    """Rounding to single precision: monotonic, overflowing to infinity."""
    e = E()
    x = to_float(x)
    a = x.r
    args = e.ghost.setdefault('f4_args', [])
    if not any(a.eq(b) for b in args):
        for b in args:
            e.add(z3.And(z3.Implies(a <= b, RND(a) <= RND(b)),
                         z3.Implies(b <= a, RND(b) <= RND(a))))
        for r in e.ghost.get('f4_fixed', []):
            e.add(z3.And(z3.Implies(r <= a, r <= RND(a)),
                         z3.Implies(a <= r, RND(a) <= r)))
        e.add(z3.Implies(z3.And(a > -F4_LIMIT, a < F4_LIMIT), z3.And(
            RND(a) > -F4_LIMIT, RND(a) < F4_LIMIT, RND(RND(a)) == RND(a))))
        args.append(a)
    over = z3.And(x.fin, z3.Or(a >= F4_LIMIT, a <= -F4_LIMIT))
    t = z3.If(over, z3.If(a > 0, z3.IntVal(1), z3.IntVal(2)), x.t if not
              isinstance(x.t, int) else z3.IntVal(x.t))
    return SFloat(RND(a), z3.simplify(t), True)


def astype(v, dtype):
    """SVec.astype"""
    dtype = getattr(dtype, 'real', dtype) if not isinstance(
        dtype, (str, _np.dtype)) else dtype
    try:
        kind = _np.dtype(dtype)
    except TypeError:
        E().unsupported_("astype(%r)" % (dtype,))
    g = v.f
    if kind == _np.dtype('f8'):
        return SVec(v.n, lambda i: npf(to_float(g(i))))
    if kind == _np.dtype('f4'):
        return SVec(v.n, lambda i: f4(number(g(i))))
    if kind.kind in 'iu':
        def f(i):
            x = g(i)
            if not isinstance(x, (int, SInt)):
                E().unsupported_("conversion to integers")
            return x
        return SVec(v.n, f)
    E().unsupported_("astype(%r)" % (dtype,))


def number(x):
    return to_float(float('nan') if x is None else x)


# --- tables ------------------------------------------------------------------
def in_range(v, n):
    """Raises IndexError if an element of v isn't an index of n things."""
    f = v.f
    ok = all_of(SVec(v.n, lambda i: SBool(z3.And(
        zi(f(i)) >= 0, zi(f(i)) < zi(n)))))
    if not ok:
        raise IndexError("index out of bounds")


def index_vec(K):
    """A vector of indices from anything list-like, or None for a scalar."""
    K = plain(K)
    if isinstance(K, SVec):
        return K
    if isinstance(K, (list, _np.ndarray)) and len(K) == 0:
        return SVec(0, lambda i: 0)
    from .models import as_vec
    return as_vec(K)


class SMat(Sym):
    """A 2-D array; element (r, c) given by a closure."""
    __slots__ = ('nr', 'nc', 'f', 'kind', 'name')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, nr, nc, f, kind='f8', name=None):
        self.nr, self.nc, self.f, self.kind = nr, nc, f, kind
        self.name = name

    @property
    def shape(self):
        return (as_int(self.nr), as_int(self.nc))

    @property
    def dtype(self):
        return _np.dtype(self.kind)

    ndim = 2

    def __dv_len__(self):
        return as_int(self.nr)

    def at(self, z):
        f, z = self.f, zi(z)
        n = as_int(self.nc)
        return SVec(n if isinstance(n, int) else self.nc,
                    lambda j: f(z, zi(j)))

    def astype(self, dtype, **kw):
        g = self.f
        one = lambda r, c: astype(SVec(1, lambda i: g(r, c)), dtype).f(0)
        one(z3.IntVal(0), z3.IntVal(0))
        return SMat(self.nr, self.nc, one)

    def flatten(self):
        """Row by row; which is where is left to be any one-to-one map."""
        e = E()
        nr, nc = z3.simplify(zi(self.nr)), z3.simplify(zi(self.nc))
        known = e.ghost.setdefault('flat', {})
        key = '%s*%s' % (nr, nc)
        if key not in known:
            name = e.fresh('flat')
            M = z3.Int(name + '_n')
            e.add(z3.And(M >= 0, (M > 0) == z3.And(nr > 0, nc > 0)))
            known[key] = (M, z3.Function(name + '_r', INT, INT),
                          z3.Function(name + '_c', INT, INT),
                          z3.Function(name, INT, INT, INT))
        M, R, C, A = known[key]
        f = self.f
        def at(j):
            j = zi(j)
            r, c = R(j), C(j)
            E().add(z3.Implies(z3.And(j >= 0, j < M), z3.And(
                r >= 0, r < nr, c >= 0, c < nc, A(r, c) == j)))
            return f(r, c)
        return SVec(M, at)

    def copy(self):
        return SMat(self.nr, self.nc, self.f, self.kind)

    def _one(self, k, n):
        e = E()
        e.alive()
        z = zi(k)
        if e.fork(z < 0):
            z = z + zi(n)
        if e.fork(z3.Or(z < 0, z >= zi(n))):
            raise IndexError("index out of bounds")
        return z3.simplify(z)

    def __getitem__(self, k):
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        f, lo = self.f, 0
        if isinstance(c, slice):
            if c.step is not None or c.stop is not None or not (
                    c.start is None or isinstance(c.start, int) and
                    c.start >= 0):
                E().unsupported_("columns %r" % (c,))
            lo = c.start or 0
            nc = z3.simplify(zi(self.nc) - lo)
            col = None
        else:
            if index_vec(c) is not None:
                E().unsupported_("list of columns")
            col = self._one(c, self.nc)
        if isinstance(r, slice):
            if r.start is not None or r.step is not None:
                E().unsupported_("rows %r" % (r,))
            if r.stop is not None:
                n, m = zi(self.nr), zi(r.stop)
                m = z3.If(m < 0, z3.If(m + n < 0, z3.IntVal(0), m + n),
                          z3.If(m > n, n, m))
                return SMat(z3.simplify(m), self.nc, f, self.kind)[:, c]
            if col is not None:
                return SVec(self.nr, lambda i: f(zi(i), col))
            return SMat(self.nr, nc, lambda i, j: f(i, j + lo), self.kind)
        v = index_vec(r)
        if v is None:
            z = self._one(r, self.nr)
            if col is not None:
                return f(z, col)
            return SVec(nc, lambda j: f(z, zi(j) + lo))
        in_range(v, self.nr)
        g = v.f
        if col is not None:
            return SVec(v.n, lambda i: f(zi(g(i)), col))
        return SMat(v.n, nc, lambda i, j: f(zi(g(i)), j + lo), self.kind)

    def __setitem__(self, k, x):
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        if c != slice(None) or index_vec(r) is not None or isinstance(
                r, slice):
            E().unsupported_("store to part of a table")
        z = self._one(r, self.nr)
        v = index_vec(x)
        if v is None:
            E().unsupported_("store of a scalar to a row")
        v._same_n(SVec(self.nc, None))
        g, old = v.f, self.f
        if self.kind == 'f4':
            g = astype(v, 'f4').f
        self.f = lambda a, b: ite(zi(a) == z, g(b), old(a, b))

    def _map(self, fn):
        f = self.f
        return SMat(self.nr, self.nc, lambda i, j: fn(f(i, j), i, j))

    def _with(self, other, op):
        if isinstance(other, SMat):
            g = other.f
            return self._map(lambda x, i, j: op(x, g(i, j)))
        if isinstance(other, SVec):
            g = other.f
            return self._map(lambda x, i, j: op(x, g(j)))
        if isinstance(other, (SFloat, SInt, int, float)):
            return self._map(lambda x, i, j: op(x, other))
        E().unsupported_("arithmetic with %s" % type(other).__name__)

    def __sub__(self, o): return self._with(o, lambda a, b: a - b)
    def __add__(self, o): return self._with(o, lambda a, b: a + b)
    def __mul__(self, o): return self._with(o, lambda a, b: a*b)
    def __truediv__(self, o): return self._with(o, lambda a, b: a/b)

    def _inplace(self, r):
        self.f = r.f
        return self
    def __isub__(self, o): return self._inplace(self - o)
    def __iadd__(self, o): return self._inplace(self + o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __iter__(self):
        E().unsupported_("native iteration over a table")

    __hash__ = None


def as_int(n):
    if isinstance(n, int):
        return n
    s = z3.simplify(zi(n))
    return s.as_long() if z3.is_int_value(s) else SInt(s)


# --- lists of different rows -------------------------------------------------
class SRows(SPure):
    """
    A list of integers no two of which are equal: f(z) is the one in position
    z, has(r) tells if r is there, and pos(r) where.
    """
    __slots__ = ('f', 'has', 'pos', 'touched')

    def __init__(self, n, f, has, pos, tag='rows'):
        SPure.__init__(self, n, None, tag)
        self.f, self.has, self.pos = f, has, pos
        self.touched = []           # rows inserted or removed

    def snapshot(self):
        return SRows(self.n, self.f, self.has, self.pos, self.tag)

    def at(self, z):
        E().alive()
        return SInt(self.f(z3.simplify(zi(z))), True)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return self.snapshot()
            if k.step is not None:
                E().unsupported_("slice with step")
            lo, m = slice_range(k, zi(self.n))
            f, has, pos = self.f, self.has, self.pos
            return SRows(
                m, lambda z: f(zi(z) + lo),
                lambda r: z3.And(has(r), pos(r) >= lo, pos(r) < lo + m),
                lambda r: pos(r) - lo, 'part:%s' % self.tag)
        return self.at(self._idx(k))

    def __contains__(self, x):
        if not isinstance(x, (int, SInt, _np.integer)):
            E().unsupported_("search for %r" % type(x))
        return E().fork(self.has(zi(x)))

    def index(self, x):
        if x not in self:
            raise ValueError("not in list")
        return SInt(self.pos(zi(x)))

    def insert(self, k, x):
        e = E()
        x = zi(x)
        n = zi(self.n)
        k = zi(k)
        k = z3.simplify(z3.If(k < 0, z3.If(k + n < 0, z3.IntVal(0), k + n),
                              z3.If(k > n, n, k)))
        if e.fork(self.has(x)):
            e.unsupported_("row inserted that is there already")
        f, has, pos = self.f, self.has, self.pos
        self.f = lambda z: z3.If(z < k, f(z), z3.If(z == k, x, f(z - 1)))
        self.has = lambda r: z3.Or(r == x, has(r))
        self.pos = lambda r: z3.If(r == x, k, z3.If(
            pos(r) < k, pos(r), pos(r) + 1))
        self.n = z3.simplify(n + 1)
        self.touched.append(('insert', k, x))

    def append(self, x):
        self.insert(self.n, x)

    def remove(self, x):
        if x not in self:
            raise ValueError("not in list")
        x = zi(x)
        self._drop(self.pos(x), x)

    def _drop(self, p, x):
        f, has, pos = self.f, self.has, self.pos
        self.f = lambda z: z3.If(z < p, f(z), f(z + 1))
        self.has = lambda r: z3.And(r != x, has(r))
        self.pos = lambda r: z3.If(pos(r) > p, pos(r) - 1, pos(r))
        self.n = z3.simplify(zi(self.n) - 1)
        self.touched.append(('remove', p, x))

    def pop(self, k=-1):
        z = self._idx(k)
        x = self.f(z)
        self._drop(z, x)
        return SInt(x)

    def __delitem__(self, k):
        if isinstance(k, slice):
            if k != slice(None):
                E().unsupported_("deletion of a slice")
            self.clear()
        else:
            self.pop(k)

    def clear(self):
        self.n = 0
        self.has = lambda r: z3.BoolVal(False)
        self.f = lambda z: z3.IntVal(0)
        self.pos = lambda r: z3.IntVal(0)

    def copy(self):
        return self.snapshot()

    def __setitem__(self, k, x):
        E().unsupported_("store to a list of rows")


class SRowArray(SRows):
    """An array of such integers."""
    __slots__ = ()

    def _list(self):
        return SRows(self.n, self.f, self.has, self.pos, 'K')

    def copy(self):
        return SRowArray(self.n, self.f, self.has, self.pos, self.tag)

    def insert(self, *a): E().unsupported_("insertion into an array")
    remove = pop = __delitem__ = clear = insert


UINTS = {'u1': 8, 'u2': 16, 'u4': 32, 'uint8': 8, 'uint16': 16, 'uint32': 32}


def row_array(x, dtype):
    """
    np.array of a list of rows in an integer type of limited size; they have
    to fit.  None for other types.
    """
    name = (getattr(dtype, '__name__', None) or str(dtype)).lstrip('<>=')
    if name not in UINTS:
        return None
    z = z3.Int(E().fresh('anywhere'))
    v = x.f(z)
    if not proves(z3.Implies(z3.And(z >= 0, z < zi(x.n)), z3.And(
            v >= 0, v < 2**UINTS[name]))):
        E().unsupported_("rows may not fit %s" % name)
    return SRowArray(x.n, x.f, x.has, x.pos, x.tag)


def np_save(fh, x, **kw):
    if not hasattr(fh, 'dv_write'):
        E().unsupported_("array written to a file")
    fh.dv_write(x.copy() if isinstance(x, (SMat, SRowArray, SVec)) else
                E().unsupported_("np.save of %s" % type(x).__name__))


def np_load(fh, **kw):
    if not hasattr(fh, 'dv_read'):
        E().unsupported_("array read from a file")
    return fh.dv_read().copy()


class SBytes(Sym):
    """What np.save has written."""
    __slots__ = ('array',)
    def __init__(self, array): self.array = array
    __hash__ = None


class SBytesIO(Sym):
    """io.BytesIO holding at most one array."""
    def __init__(self, data=None):
        if data is not None and not isinstance(data, SBytes):
            E().unsupported_("array read from other bytes")
        self.array = None if data is None else data.array
        self.closed = False
    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
    def dv_write(self, x):
        self._open()
        if self.array is not None:
            E().unsupported_("several arrays in one file")
        self.array = x
    def dv_read(self):
        self._open()
        if self.array is None:
            raise EOFError("No data left in file")
        return self.array
    def getvalue(self):
        self._open()
        return SBytes(self.array)
    def close(self):
        self.closed = True
    def __enter__(self):
        return self
    def __exit__(self, *exc):
        self.close()


# --- sets of rows ------------------------------------------------------------
class SRowSet(Sym):
    """A set of integers given by a condition."""
    __slots__ = ('has', 'tag', 'version')

    def __init__(self, has, tag='set'):
        self.has, self.tag = has, tag
        self.version = None

    def _new(self, has):
        self.has = has
        self.version = None

    def __contains__(self, x):
        if not isinstance(x, (int, SInt, _np.integer)):
            E().unsupported_("search for %r" % type(x))
        return E().fork(self.has(zi(x)))

    def add(self, x):
        x, has = zi(x), self.has
        self._new(lambda r: z3.Or(r == x, has(r)))

    def discard(self, x):
        x, has = zi(x), self.has
        self._new(lambda r: z3.And(r != x, has(r)))

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        self._new(lambda r: z3.BoolVal(False))

    def pop(self):
        if not self:
            raise KeyError("pop from an empty set")
        x = z3.Int(E().fresh('popped'))
        E().add(self.has(x))
        interesting(x)
        self.discard(SInt(x))
        return SInt(x)

    def copy(self):
        return SRowSet(self.has, self.tag)

    def __or__(self, o):
        a, b = self.has, o.has
        return SRowSet(lambda r: z3.Or(a(r), b(r)))

    def __and__(self, o):
        a, b = self.has, o.has
        return SRowSet(lambda r: z3.And(a(r), b(r)))

    def __sub__(self, o):
        a, b = self.has, o.has
        return SRowSet(lambda r: z3.And(a(r), z3.Not(b(r))))

    # Their number, and going through them in some order
    def _enumerate(self):
        if self.version is None:
            e = E()
            name = e.fresh('enum')
            n = z3.Int(name + '_n')
            item = z3.Function(name, INT, INT)
            pos = z3.Function(name + '_pos', INT, INT)
            has = self.has
            e.add(n >= 0)
            w = item(0)
            e.add(z3.Implies(n > 0, has(w)))
            def inst(r):
                r = zi(r)
                return z3.Implies(has(r), z3.And(
                    pos(r) >= 0, pos(r) < n, item(pos(r)) == r, n > 0,
                    z3.Implies(n == 1, r == w)))
            register_forall(inst)
            def f(z):
                z = zi(z)
                x = item(z)
                E().add(z3.Implies(z3.And(z >= 0, z < n), z3.And(
                    has(x), pos(x) == z)))
                return x
            self.version = SRows(n, f, has, pos, 'members:%s' % self.tag)
            if getattr(self, 'tag', None):
                e.ghost.setdefault('enumerated', []).append(self)
        return self.version

    @property
    def n(self):
        return self._enumerate().n

    def __dv_len__(self):
        return SInt(self.n)

    def __len__(self):
        E().unsupported_("native number of a symbolic set")

    def __bool__(self):
        return E().fork(zi(self.n) > 0)

    def at(self, z):
        return self._enumerate().at(z)

    def __iter__(self):
        E().unsupported_("native iteration over a symbolic set")

    __hash__ = None


class SRowMap(Sym):
    """A dict from integers to integers."""
    __slots__ = ('has', 'get_', 'tag')

    def __init__(self, has, get, tag='map'):
        self.has, self.get_, self.tag = has, get, tag

    def snapshot(self):
        return SRowMap(self.has, self.get_, self.tag)

    def __contains__(self, k):
        if not isinstance(k, (int, SInt)):
            E().unsupported_("search for %r" % type(k))
        return E().fork(self.has(zi(k)))

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return SInt(self.get_(zi(k)), True)

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, x):
        k, x = zi(k), zi(x)
        has, get = self.has, self.get_
        self.has = lambda r: z3.Or(r == k, has(r))
        self.get_ = lambda r: z3.If(r == k, x, get(r))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        k, has = zi(k), self.has
        self.has = lambda r: z3.And(r != k, has(r))

    def pop(self, k, *default):
        if k not in self:
            if default:
                return default[0]
            raise KeyError(k)
        x = SInt(self.get_(zi(k)), True)
        del self[k]
        return x

    def clear(self):
        self.has = lambda r: z3.BoolVal(False)

    def copy(self):
        return self.snapshot()

    def __iter__(self):
        E().unsupported_("native iteration over a symbolic dict")

    __hash__ = None


# --- library functions -------------------------------------------------------
def proves(cond):
    """Does the condition follow from what is known?"""
    e = E()
    return e._check(z3.Not(cond)) == z3.unsat


def sort_vec(v):
    """v.sort() for integers; by induction also that none is too small."""
    e = E()
    from .models import SPerm, used
    used('array.sort()')
    g, n = v.f, zi(v.n)
    if not isinstance(g(z3.IntVal(0)), (int, SInt)):
        e.unsupported_("array.sort() of floats")
    p = SPerm(v.n, lambda i: g(i))
    def S(z):
        return zi(g(zi(p.at(z))))
    v.f = lambda i: SInt(S(zi(i)), True)
    e.ghost.setdefault('sorts', []).append((p, v))
    i = z3.Int(e.fresh('ind'))
    a, b = S(i), S(i + 1)
    s0 = S(z3.IntVal(0))
    if proves(z3.Implies(n > 0, s0 >= 0)) and proves(z3.Implies(z3.And(
            i >= 0, i + 1 < n, a >= i), b >= i + 1)):
        register_forall(lambda z: z3.Implies(z3.And(
            zi(z) >= 0, zi(z) < n), S(zi(z)) >= zi(z)))


def np_searchsorted(a, v, side='left', **kw):
    from .models import as_vec, used
    used('np.searchsorted')
    e = E()
    a = as_vec(a)
    if a is None or kw or index_vec(v) is not None:
        e.unsupported_("searchsorted")
    n, f = zi(a.n), a.f
    v = to_float(v)
    i, j = z3.Int(e.fresh('ss_i')), z3.Int(e.fresh('ss_j'))
    x, y = to_float(f(i)), to_float(f(j))
    if not proves(z3.Implies(z3.And(i >= 0, i < j, j < n), z3.And(
            x.fin, y.fin, x.r <= y.r))):
        e.unsupported_("searchsorted in an array not known to be sorted")
    k = z3.Int(e.fresh('found'))
    e.add(z3.And(k >= 0, k <= n))
    def inst(z):
        z = zi(z)
        x = to_float(f(z))
        # (NaN would come last)
        before = z3.Or(x.lt(v), v.nan)
        if side == 'right':
            before = z3.Or(before, x.eq(v))
        return z3.Implies(z3.And(z >= 0, z < n), (z < k) == before)
    register_forall(inst)
    interesting(k)
    interesting(k - 1)
    return SInt(k, True)


def np_flatnonzero(v):
    from .models import as_vec, used
    used('np.flatnonzero')
    e = E()
    v = as_vec(v)
    n, f = zi(v.n), v.f
    name = e.fresh('nonzero')
    src = z3.Function(name, INT, INT)
    pos = z3.Function(name + '_pos', INT, INT)
    m = z3.Int(name + '_n')
    e.add(z3.And(m >= 0, m <= n))
    def good(z):
        return zb(truth(f(z)))
    read = []
    def at(z):
        z = zi(z)
        x = src(z)
        if not any(z.eq(r) for r in read):
            E().add(z3.Implies(z3.And(z >= 0, z < m), z3.And(
                x >= 0, x < n, good(x), pos(x) == z, z <= x)))
            for r in read:
                E().add(z3.Implies(z3.And(z >= 0, z < r, r < m),
                                   src(z) < src(r)))
                E().add(z3.Implies(z3.And(r >= 0, r < z, z < m),
                                   src(r) < src(z)))
            read.append(z)
        return x
    def has(r):
        r = zi(r)
        E().add(z3.Implies(z3.And(r >= 0, r < n, good(r)), z3.And(
            pos(r) >= 0, pos(r) < m, src(pos(r)) == r)))
        return z3.And(r >= 0, r < n, good(r))
    def inst(i):
        i = zi(i)
        h = has(i)
        first = at(z3.IntVal(0))
        return z3.Implies(h, z3.And(m > 0, first <= i))
    register_forall(inst)
    out = SRows(m, at, has, pos, tag='nonzero')
    e.ghost.setdefault('nonzeros', []).append(out)
    interesting(at(z3.IntVal(0)))
    return out


def flat_place(nr, nc, r, c):
    """Where the element of a table is in the flattened one."""
    M, R, C, A = E().ghost['flat']['%s*%s' % (
        z3.simplify(zi(nr)), z3.simplify(zi(nc)))]
    j = A(r, c)
    E().add(z3.Implies(z3.And(r >= 0, r < zi(nr), c >= 0, c < zi(nc)), z3.And(
        j >= 0, j < M, R(j) == r, C(j) == c)))
    return j


def reduction(kind, m, n, axis, sign=None):
    """A sum or suchlike over one axis of a table, left open."""
    e = E()
    from .models import used
    used('np.sum/var')
    g = z3.Function(e.fresh(kind), INT, REAL)
    def f(i):
        i = zi(i)
        if sign:
            E().add(g(i) >= 0)
        return SFloat(g(i), 0, True)
    e.ghost.setdefault('reductions', []).append((kind, m.copy(), axis, f))
    return SVec(n, f)


def np_var(x, axis=None, **kw):
    if not isinstance(x, SMat) or axis != 0 or kw:
        E().unsupported_("numpy.var")
    return reduction('var', x, x.nc, axis, True)


def np_sum(x, axis=None, **kw):
    if not isinstance(x, SMat) or axis != 1 or kw:
        E().unsupported_("numpy.sum")
    return reduction('sum', x, x.nr, axis)


def np_mean(x, axis=None, **kw):
    n = as_int(x.nc) if isinstance(x, SMat) else None
    if not isinstance(n, int) or axis != 1 or kw:
        E().unsupported_("numpy.mean")
    f = x.f
    def mean(i):
        t = to_float(f(zi(i), z3.IntVal(0)))
        for j in range(1, n):
            t = t + to_float(f(zi(i), z3.IntVal(j)))
        return t/n
    return SVec(x.nr, mean)


def np_column_stack(parts):
    from .models import as_vec
    parts = [as_vec(x) for x in parts]
    for x in parts[1:]:
        parts[0]._same_n(x)
    fs = [x.f for x in parts]
    def at(r, c):
        c = z3.simplify(zi(c))
        if z3.is_int_value(c):
            return fs[c.as_long()](r)
        x = fs[-1](r)
        for j in range(len(fs) - 2, -1, -1):
            x = ite(c == j, fs[j](r), x)
        return x
    return SMat(parts[0].n, len(parts), at)


def np_row_stack(parts):
    for x in parts:
        if not isinstance(x, SMat):
            E().unsupported_("row_stack")
    out = parts[0]
    for x in parts[1:]:
        if not E().fork(zi(out.nc) == zi(x.nc)):
            raise ValueError("must match")
        def at(r, c, f=out.f, g=x.f, n=zi(out.nr)):
            return ite(zi(r) < n, f(r, c), g(zi(r) - n, c))
        out = SMat(z3.simplify(zi(out.nr) + zi(x.nr)), out.nc, at)
    return out


def np_meshgrid(a, b, indexing='xy', **kw):
    from .models import as_vec
    a, b = as_vec(a), as_vec(b)
    if indexing != 'ij' or kw:
        E().unsupported_("meshgrid")
    f, g = a.f, b.f
    return [SMat(a.n, b.n, lambda i, j: f(i)),
            SMat(a.n, b.n, lambda i, j: g(j))]


def np_choose(which, options, **kw):
    from .models import as_vec
    v = as_vec(which)
    if v is None or kw or any(as_vec(x) is not None for x in options):
        E().unsupported_("choose")
    f = v.f
    def at(i):
        k = zi(f(i))
        x = options[-1]
        for j in range(len(options) - 2, -1, -1):
            x = ite(k == j, options[j], x)
        return x
    return SVec(v.n, at)


def random_choice(seq, shape):
    """np.random.choice: anything from the sequence, each time."""
    from .models import as_vec, used
    used('np.random.choice')
    e = E()
    v = as_vec(seq)
    n = zi(v.n)
    if not isinstance(shape, tuple) or len(shape) != 2:
        e.unsupported_("np.random.choice")
    if e.fork(zi(shape[0]) < 0):
        raise ValueError("negative dimensions are not allowed")
    if e.fork(n <= 0):
        raise ValueError("a cannot be empty")
    g = z3.Function(e.fresh('chosen'), INT, INT, INT)
    f = v.f
    def at(r, c):
        k = g(zi(r), zi(c))
        E().add(z3.And(k >= 0, k < n))
        return f(k)
    return SMat(shape[0], shape[1], at)
