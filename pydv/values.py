"""
pydv.values: symbolic stand-ins for Python/numpy values.

Finite floating point arithmetic is modelled by exact real arithmetic; +inf,
-inf and NaN are modelled explicitly with IEEE comparison rules.
"""
import math, operator
from fractions import Fraction

import numpy as _np
import z3

from .engine import E, Dead, Unsupported, Engine

FIN, PINF, NINF, NAN = 0, 1, 2, 3


def is_sym(x):
    return isinstance(x, Sym)


class Sym(object):
    """Base class of all symbolic proxies."""
    __slots__ = ()


def zb(x):
    """Lifts a condition to a z3 Bool."""
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    raise TypeError("Not a condition: %r" % (x,))


def zi(x):
    """Lifts an integer to a z3 Int."""
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    raise TypeError("Not an integer: %r" % (x,))


def rv(x):
    f = Fraction(x)
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------------------
class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E().fork(self.z)

    def __and__(self, other):
        return SBool(z3.And(self.z, zb(other)))
    __rand__ = __and__

    def __or__(self, other):
        return SBool(z3.Or(self.z, zb(other)))
    __ror__ = __or__

    def __xor__(self, other):
        return SBool(z3.Xor(self.z, zb(other)))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.z))

    def __eq__(self, other):
        if isinstance(other, (SBool, bool, _np.bool_)):
            return SBool(self.z == zb(other))
        if isinstance(other, (int, float, SInt, SFloat)):
            return to_int(self) == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return SBool(z3.Not(r.z))

    def __hash__(self):
        E().unsupported_("hash of a symbolic bool")

    def _arith(self, op, other):
        return op(to_int(self), other)

    def __add__(self, other):
        return to_int(self) + other
    __radd__ = __add__

    def __mul__(self, other):
        return to_int(self) * other
    __rmul__ = __mul__

    def __lt__(self, other):
        return to_int(self) < other

    def __gt__(self, other):
        return to_int(self) > other

    def __le__(self, other):
        return to_int(self) <= other

    def __ge__(self, other):
        return to_int(self) >= other

    def __repr__(self):
        return "<SBool %s>" % (str(self.z)[:60],)

    def __format__(self, spec):
        return "<b>"


def to_int(b):
    if isinstance(b, SBool):
        return SInt(z3.If(b.z, z3.IntVal(1), z3.IntVal(0)))
    return b


# ---------------------------------------------------------------------------
class SInt(Sym):
    __slots__ = ('z', 'npint')

    def __init__(self, z, npint=False):
        self.z = z
        self.npint = npint

    def _lift(self, other):
        if isinstance(other, SInt):
            return other.z
        if isinstance(other, SBool):
            return zi(other)
        if isinstance(other, bool):
            return z3.IntVal(int(other))
        if isinstance(other, (int, _np.integer)):
            return z3.IntVal(int(other))
        return None

    def _bin(self, other, op, rev=False):
        E().alive()
        o = self._lift(other)
        if o is None:
            if isinstance(other, (float, SFloat)):
                a, b = to_float(self), to_float(other)
                return op(b, a) if rev else op(a, b)
            if isinstance(other, SVec):
                return NotImplemented
            return NotImplemented
        np_ = self.npint or isinstance(other, _np.integer) or (
            isinstance(other, SInt) and other.npint)
        return SInt(op(o, self.z) if rev else op(self.z, o), np_)

    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._bin(o, operator.mul, True)

    def __truediv__(self, o):
        return to_float(self) / o

    def __rtruediv__(self, o):
        return o / to_float(self) if isinstance(o, SFloat) \
            else to_float(o) / to_float(self)

    def __floordiv__(self, o):
        oz = self._lift(o)
        if oz is None:
            E().unsupported_("floor division")
        if E().fork(oz == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if E().fork(oz < 0):
            return SInt((-self.z) / (-oz))
        return SInt(self.z / oz)

    def __mod__(self, o):
        oz = self._lift(o)
        if oz is None:
            E().unsupported_("modulo")
        if E().fork(oz == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if E().fork(oz < 0):
            E().unsupported_("negative modulus")
        return SInt(self.z % oz)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return SInt(r)
        E().unsupported_("integer power")

    def __neg__(self): return SInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))

    def _cmp(self, other, op):
        E().alive()
        o = self._lift(other)
        if o is None:
            if isinstance(other, (float, SFloat)):
                return op(to_float(self), to_float(other))
            return NotImplemented
        return SBool(op(self.z, o))

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, operator.eq)
    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, operator.ne)

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return E().fork(self.z != 0)

    def __index__(self):
        """
        Concretizes by case distinction; used where native code demands a
        real int.  Gives up if there are too many possibilities.
        """
        e = E()
        e.alive()
        s = z3.simplify(self.z)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(40):
            if e._check() != z3.sat:
                e.unsupported_("cannot concretize integer")
            v = e.solver.model().eval(self.z, model_completion=True).as_long()
            if e.fork(self.z == v):
                return v
        e.unsupported_("integer with too many values used natively")
    __int__ = __index__

    def __float__(self):
        E().unsupported_("native float() of symbolic int")

    def item(self):
        return self

    def __repr__(self):
        return "<SInt %s>" % (str(self.z)[:60],)

    def __format__(self, spec):
        texts = E().ghost.get('texts')
        if texts is not None and spec in ('', 'd'):
            # Digits, to be told apart by what number they are of
            texts.append(self.z)
            return '\ue000%s\ue001' % chr(0xe010 + len(texts) - 1)
        return "<i>"

    def __str__(self):
        return self.__format__('') if 'texts' in E().ghost else repr(self)


# ---------------------------------------------------------------------------
class SFloat(Sym):
    """
    t: 0 (python int) when known finite, else a z3 Int expression in 0..3.
    r: the real value when finite.
    npf: behaves like numpy float (division by zero gives inf/nan).
    """
    __slots__ = ('t', 'r', 'npf')

    def __init__(self, r, t=FIN, npf=False):
        self.r = r
        self.t = t
        self.npf = npf

    # --- classification as z3 Bool --------------------------------------
    def is_(self, kind):
        if isinstance(self.t, int):
            return z3.BoolVal(self.t == kind)
        return self.t == kind

    @property
    def fin(self): return self.is_(FIN)
    @property
    def nan(self): return self.is_(NAN)
    @property
    def inf(self): return z3.Or(self.is_(PINF), self.is_(NINF))

    def known_fin(self):
        return isinstance(self.t, int) and self.t == FIN

    # --- comparison ------------------------------------------------------
    def _lift(self, other):
        if isinstance(other, SFloat):
            return other
        if isinstance(other, (int, float, _np.integer, _np.floating,
                              SInt, SBool, bool)):
            return to_float(other)
        return None

    def lt(self, o):
        if self.known_fin() and o.known_fin():
            return self.r < o.r
        return z3.Or(
            z3.And(self.fin, o.fin, self.r < o.r),
            z3.And(self.is_(NINF), z3.Or(o.fin, o.is_(PINF))),
            z3.And(self.fin, o.is_(PINF)))

    def eq(self, o):
        if self.known_fin() and o.known_fin():
            return self.r == o.r
        return z3.Or(
            z3.And(self.fin, o.fin, self.r == o.r),
            z3.And(self.is_(PINF), o.is_(PINF)),
            z3.And(self.is_(NINF), o.is_(NINF)))

    def same(self, o):
        """Identity of values, NaN included."""
        o = self._lift(o)
        return z3.Or(self.eq(o), z3.And(self.nan, o.nan))

    def _cmp(self, other, f):
        E().alive()
        o = self._lift(other)
        if o is None:
            return NotImplemented
        return SBool(f(self, o))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a.lt(b))
    def __gt__(self, o): return self._cmp(o, lambda a, b: b.lt(a))
    def __le__(self, o):
        return self._cmp(o, lambda a, b: z3.Or(a.lt(b), a.eq(b)))
    def __ge__(self, o):
        return self._cmp(o, lambda a, b: z3.Or(b.lt(a), a.eq(b)))
    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, lambda a, b: a.eq(b))
    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, lambda a, b: z3.Not(a.eq(b)))

    def __hash__(self):
        E().unsupported_("hash of a symbolic float")

    def __bool__(self):
        return E().fork(z3.Not(z3.And(self.fin, self.r == 0)))

    # --- arithmetic ------------------------------------------------------
    def _arith(self, other, op, rev=False):
        E().alive()
        if isinstance(other, SVec):
            return NotImplemented
        o = self._lift(other)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return getattr(a, op)(b)

    def __add__(self, o): return self._arith(o, '_add')
    def __radd__(self, o): return self._arith(o, '_add', True)
    def __sub__(self, o): return self._arith(o, '_sub')
    def __rsub__(self, o): return self._arith(o, '_sub', True)
    def __mul__(self, o): return self._arith(o, '_mul')
    def __rmul__(self, o): return self._arith(o, '_mul', True)
    def __truediv__(self, o): return self._arith(o, '_div')
    def __rtruediv__(self, o): return self._arith(o, '_div', True)

    def _add(self, o):
        npf = self.npf or o.npf
        if self.known_fin() and o.known_fin():
            return SFloat(self.r + o.r, FIN, npf)
        t = z3.If(z3.Or(self.nan, o.nan,
                        z3.And(self.is_(PINF), o.is_(NINF)),
                        z3.And(self.is_(NINF), o.is_(PINF))), NAN,
                  z3.If(z3.Or(self.is_(PINF), o.is_(PINF)), PINF,
                        z3.If(z3.Or(self.is_(NINF), o.is_(NINF)), NINF, FIN)))
        return SFloat(self.r + o.r, t, npf)

    def __neg__(self):
        if self.known_fin():
            return SFloat(-self.r, FIN, self.npf)
        t = z3.If(self.is_(PINF), NINF, z3.If(self.is_(NINF), PINF, self.t))
        return SFloat(-self.r, t, self.npf)

    def __pos__(self): return self

    def _sub(self, o):
        return self._add(-o)

    def _mul(self, o):
        npf = self.npf or o.npf
        if self.known_fin() and o.known_fin():
            return SFloat(self.r * o.r, FIN, npf)
        zero = z3.Or(z3.And(self.fin, self.r == 0), z3.And(o.fin, o.r == 0))
        neg = z3.Xor(self._isneg(), o._isneg())
        t = z3.If(z3.Or(self.nan, o.nan,
                        z3.And(zero, z3.Or(self.inf, o.inf))), NAN,
                  z3.If(z3.Or(self.inf, o.inf),
                        z3.If(neg, z3.IntVal(NINF), z3.IntVal(PINF)),
                        z3.IntVal(FIN)))
        return SFloat(self.r * o.r, t, npf)

    def _isneg(self):
        return z3.Or(self.is_(NINF), z3.And(self.fin, self.r < 0))

    def _div(self, o):
        npf = self.npf or o.npf
        e = E()
        if npf and e.ghost.get('smooth'):
            # Without telling the cases apart
            zero = z3.And(o.fin, o.r == 0)
            neg = z3.Xor(self._isneg(), o._isneg())
            I = z3.IntVal
            t = z3.If(z3.Or(self.nan, o.nan, z3.And(self.inf, o.inf),
                            z3.And(zero, self.fin, self.r == 0)), I(NAN),
                      z3.If(z3.Or(self.inf, zero),
                            z3.If(neg, I(NINF), I(PINF)), I(FIN)))
            r = z3.If(z3.Or(o.inf, zero), z3.RealVal(0), self.r / z3.If(
                o.r == 0, z3.RealVal(1), o.r))
            return SFloat(r, t, npf)
        if e.fork(z3.And(o.fin, o.r == 0)):
            if not npf:
                raise ZeroDivisionError("float division by zero")
            # Sign of zero is not tracked: treat zero as positive
            t = z3.If(z3.Or(self.nan, z3.And(self.fin, self.r == 0)), NAN,
                      z3.If(self._isneg(), z3.IntVal(NINF), z3.IntVal(PINF)))
            return SFloat(z3.RealVal(0), t, npf)
        if o.known_fin() and self.known_fin():
            return SFloat(self.r / o.r, FIN, npf)
        neg = z3.Xor(self._isneg(), o._isneg())
        t = z3.If(z3.Or(self.nan, o.nan, z3.And(self.inf, o.inf)), NAN,
                  z3.If(self.inf,
                        z3.If(neg, z3.IntVal(NINF), z3.IntVal(PINF)),
                        z3.IntVal(FIN)))
        r = z3.If(o.inf, z3.RealVal(0),
                  self.r / z3.If(o.r == 0, z3.RealVal(1), o.r))
        return SFloat(r, t, npf)

    def __floordiv__(self, o):
        E().unsupported_("float floor division")

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = to_float(1.0)
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, float) and o == 0.5 and self.known_fin():
            return sqrt(self)
        return opaque_fn('pow', self, o)

    def __rpow__(self, o):
        return opaque_fn('rpow', self, o)

    def __abs__(self):
        if self.known_fin():
            return SFloat(z3.If(self.r >= 0, self.r, -self.r), FIN, self.npf)
        t = z3.If(self.is_(NINF), PINF, self.t)
        return SFloat(z3.If(self.r >= 0, self.r, -self.r), t, self.npf)

    def __round__(self, nd=None):
        if nd:
            E().unsupported_("round to digits")
        if not self.known_fin() and not E().fork(self.fin):
            raise ValueError("cannot convert float to integer")
        return SInt(rint_z(self.r))

    def __float__(self):
        E().unsupported_("native float() of a symbolic float")

    def __int__(self):
        E().unsupported_("native int() of a symbolic float")

    def trunc(self):
        """int(x)"""
        e = E()
        if not self.known_fin():
            if e.fork(self.nan):
                raise ValueError("cannot convert float NaN to integer")
            if e.fork(self.inf):
                raise OverflowError("cannot convert float infinity to integer")
        return SInt(z3.If(self.r >= 0, z3.ToInt(self.r),
                          -z3.ToInt(-self.r)))

    def is_integer(self):
        return SBool(z3.And(self.fin, z3.IsInt(self.r)))

    # A few ndarray-scalar niceties
    def item(self): return SFloat(self.r, self.t, False)
    def copy(self): return self
    @property
    def shape(self): return ()

    def __repr__(self):
        return "<SFloat %s>" % (str(self.r)[:60],)

    def __format__(self, spec):
        return "<f>"


def rint_z(r):
    """Round half to even."""
    n = z3.ToInt(r + rv(Fraction(1, 2)))
    tie = z3.ToReal(n) == r + rv(Fraction(1, 2))
    return z3.If(z3.And(tie, n % 2 != 0), n - 1, n)


def to_float(x):
    if isinstance(x, SFloat):
        return x
    if isinstance(x, SInt):
        return SFloat(z3.ToReal(x.z), FIN, x.npint)
    if isinstance(x, SBool):
        return SFloat(z3.If(x.z, z3.RealVal(1), z3.RealVal(0)))
    if isinstance(x, (bool, int, _np.integer, _np.bool_)):
        return SFloat(z3.RealVal(int(x)), FIN, isinstance(x, _np.generic))
    if isinstance(x, (float, _np.floating)):
        npf = isinstance(x, _np.generic)
        x = float(x)
        if x != x:
            return SFloat(z3.RealVal(0), NAN, npf)
        if x == math.inf:
            return SFloat(z3.RealVal(0), PINF, npf)
        if x == -math.inf:
            return SFloat(z3.RealVal(0), NINF, npf)
        return SFloat(rv(x), FIN, npf)
    raise TypeError("Not a float: %r" % (x,))


def sqrt(x):
    e = E()
    x = to_float(x)
    if e.fork(z3.And(x.fin, x.r < 0)):
        return SFloat(z3.RealVal(0), NAN, True)
    name = e.fresh('sqrt')
    s = z3.Real(name)
    e.add(z3.Implies(x.fin, z3.And(s >= 0, s*s == x.r)))
    return SFloat(s, x.t, True)


_FN = {}
def opaque_fn(name, *args):
    """Uninterpreted real function; constants are folded into the name."""
    e = E()
    zs = []
    for a in args:
        if is_sym(a):
            a = to_float(a)
            if not a.known_fin():
                e.unsupported_("opaque function of possibly non-finite value")
            zs.append(a.r)
        else:
            name += "_%r" % (a,)
    f = z3.Function(name, *([z3.RealSort()]*(len(zs)+1)))
    e.abstract.append("uninterpreted " + name)
    return SFloat(f(*zs), FIN, True)


def ite(c, a, b):
    """Merges two values under a z3 condition without branching."""
    c = z3.simplify(zb(c))
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(
            b, (SBool, bool, _np.bool_)):
        return SBool(z3.If(c, zb(a), zb(b)))
    if isinstance(a, (SInt, int, _np.integer)) and isinstance(
            b, (SInt, int, _np.integer)) and not isinstance(
                a, bool) and not isinstance(b, bool):
        return SInt(z3.If(c, zi(a), zi(b)))
    try:
        fa, fb = to_float(a), to_float(b)
    except TypeError:
        return a if E().fork(c) else b
    if fa.known_fin() and fb.known_fin():
        t = FIN
    else:
        t = z3.If(c, z3.IntVal(fa.t) if isinstance(fa.t, int) else fa.t,
                  z3.IntVal(fb.t) if isinstance(fb.t, int) else fb.t)
    return SFloat(z3.If(c, fa.r, fb.r), t, fa.npf or fb.npf)


# ---------------------------------------------------------------------------
class SVec(Sym):
    """
    A 1-D array with n elements (n an int or a z3 Int), element i given by a
    closure from a z3 Int (or int) to a scalar proxy.  Mutable in place, like
    numpy arrays, so that aliasing shows.
    """
    __slots__ = ('n', 'f', 'name', 'log', 'is_list')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n, f, name=None):
        self.n = n if isinstance(n, int) else (
            n.z if isinstance(n, SInt) else n)
        s = z3.simplify(self.n) if not isinstance(self.n, int) else None
        if s is not None and z3.is_int_value(s):
            self.n = s.as_long()
        self.f = f
        self.name = name
        self.log = 0

    # --- basics ----------------------------------------------------------
    def __dv_len__(self):
        return self.n if isinstance(self.n, int) else SInt(self.n)

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        return SInt(self.n).__index__()

    @property
    def shape(self):
        return (self.__dv_len__(),)

    @property
    def size(self):
        return self.__dv_len__()

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        return _np.dtype(float)

    def _idx(self, k):
        """Normalizes and bounds-checks an index; returns int or z3."""
        e = E()
        e.alive()
        if isinstance(k, (int, _np.integer)) and isinstance(self.n, int):
            k = int(k)
            if k < -self.n or k >= self.n:
                raise IndexError("index out of bounds")
            return k if k >= 0 else k + self.n
        z = zi(k)
        if e.fork(z < 0):
            z = z + zi(self.n)
        if e.fork(z3.Or(z < 0, z >= zi(self.n))):
            raise IndexError("index out of bounds")
        return z3.simplify(z)

    def at(self, z):
        """Element at a z3/int index without a bounds check."""
        if not isinstance(z, int):
            s = z3.simplify(zi(z))
            z = s.as_long() if z3.is_int_value(s) else s
        return self.f(z)

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, (int, _np.integer, SInt)):
            return self.at(self._idx(k))
        if isinstance(k, (list, _np.ndarray)) and not any(
                isinstance(x, (bool, _np.bool_, SBool)) for x in k):
            items = [self[x] for x in k]
            return vec_of(items)
        from . import arrays
        v = arrays.index_vec(k)
        if v is not None and isinstance(v.f(z3.IntVal(0)), (int, SInt)):
            arrays.in_range(v, self.n)
            f, g = self.f, v.f
            return SVec(v.n, lambda i: f(zi(g(i))))
        E().unsupported_("fancy indexing of a symbolic vector")

    def _slice(self, k):
        if k.start is None and k.stop is None and k.step is None:
            return self         # A view shares storage
        if not isinstance(self.n, int):
            if k.step is None and k.start is None and isinstance(k.stop, int):
                E().unsupported_("slice of a symbolic-length vector")
            E().unsupported_("slice of a symbolic-length vector")
        ks = list(range(*k.indices(self.n)))
        f = self.f
        return SVec(len(ks), lambda i: _pick([f(j) for j in ks], i))

    def __setitem__(self, k, x):
        e = E()
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                if isinstance(x, SVec):
                    self._same_n(x)
                    self.f = x.f
                else:
                    self.f = lambda i, x=x: x
                self.log += 1
                return
            e.unsupported_("slice store in symbolic vector")
        if isinstance(k, SVec):
            g, old = k.f, self.f
            if isinstance(x, SVec):
                e.unsupported_("masked vector store")
            self.f = lambda i: ite(g(i), x, old(i))
            self.log += 1
            return
        z = self._idx(k)
        old = self.f
        if isinstance(z, int):
            self.f = lambda i: (x if i == z else old(i)) if isinstance(
                i, int) else ite(zi(i) == z, x, old(i))
        else:
            self.f = lambda i: ite(zi(i) == z, x, old(i))
        self.log += 1

    def __iter__(self):
        if isinstance(self.n, int):
            for i in range(self.n):
                yield self.at(i)
            return
        E().unsupported_("native iteration over a symbolic-length vector")

    def copy(self):
        return SVec(self.n, self.f)

    def flatten(self):
        return self.copy()

    def tolist(self):
        if isinstance(self.n, int):
            return [self.at(i) for i in range(self.n)]
        E().unsupported_("tolist of a symbolic-length vector")

    def astype(self, dtype, **kw):
        from . import arrays
        return arrays.astype(self, dtype)

    def sort(self, axis=-1):
        from . import arrays
        arrays.sort_vec(self)

    def tobytes(self):
        return Opaque('bytes', self)

    def snapshot(self):
        return SVec(self.n, self.f)

    # --- elementwise -----------------------------------------------------
    def _same_n(self, other):
        if isinstance(self.n, int) and isinstance(other.n, int):
            if self.n != other.n:
                raise ValueError("operands could not be broadcast together")
            return
        if not E().fork(zi(self.n) == zi(other.n)):
            raise ValueError("operands could not be broadcast together")

    def _map(self, other, op, rev=False):
        e = E()
        e.alive()
        f = self.f
        if isinstance(other, (list, tuple, _np.ndarray)):
            other = vec_of(list(other))
        if isinstance(other, SVec):
            self._same_n(other)
            g = other.f
            if rev:
                return SVec(self.n, lambda i: npf(op(g(i), f(i))))
            return SVec(self.n, lambda i: npf(op(f(i), g(i))))
        if other is None or isinstance(other, str):
            return NotImplemented
        if rev:
            return SVec(self.n, lambda i: npf(op(other, f(i))))
        return SVec(self.n, lambda i: npf(op(f(i), other)))

    def __add__(self, o): return self._map(o, operator.add)
    def __radd__(self, o): return self._map(o, operator.add, True)
    def __sub__(self, o): return self._map(o, operator.sub)
    def __rsub__(self, o): return self._map(o, operator.sub, True)
    def __mul__(self, o): return self._map(o, operator.mul)
    def __rmul__(self, o): return self._map(o, operator.mul, True)
    def __truediv__(self, o): return self._map(o, operator.truediv)
    def __rtruediv__(self, o): return self._map(o, operator.truediv, True)
    def __neg__(self):
        f = self.f
        return SVec(self.n, lambda i: -f(i))
    def __abs__(self):
        f = self.f
        return SVec(self.n, lambda i: abs(f(i)))
    def __lt__(self, o): return self._map(o, operator.lt)
    def __le__(self, o): return self._map(o, operator.le)
    def __gt__(self, o): return self._map(o, operator.gt)
    def __ge__(self, o): return self._map(o, operator.ge)
    def __eq__(self, o): return self._map(o, operator.eq)
    def __ne__(self, o): return self._map(o, operator.ne)
    def __and__(self, o): return self._map(o, lambda a, b: SBool(
        z3.And(zb(a), zb(b))))
    def __or__(self, o): return self._map(o, lambda a, b: SBool(
        z3.Or(zb(a), zb(b))))
    def __invert__(self):
        f = self.f
        return SVec(self.n, lambda i: SBool(z3.Not(zb(f(i)))))
    __hash__ = None

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        self.f = r.f
        self.log += 1
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __bool__(self):
        if self.n == 1:
            return bool(self.at(0))
        raise ValueError("The truth value of an array is ambiguous")

    def all(self):
        return all_of(self)

    def any(self):
        return any_of(self)

    def clip(self, lo, hi):
        from . import models
        return models.np_clip(self, lo, hi)

    def __repr__(self):
        return "<SVec %s>" % (self.name,)

    def __format__(self, spec):
        return "<v>"


def npf(x):
    if isinstance(x, SFloat):
        return SFloat(x.r, x.t, True)
    return x


def _pick(items, i):
    """items[i] for int or z3 index i."""
    if isinstance(i, int):
        return items[i]
    i = zi(i)
    r = items[-1]
    for j in range(len(items)-2, -1, -1):
        r = ite(i == j, items[j], r)
    return r


def vec_of(items):
    items = list(items)
    n = len(items)
    if n == 0:
        return _np.array([])
    return SVec(n, lambda i: _pick(items, i))


def all_of(v):
    """
    Condition 'every element true'.  For symbolic length this is a universally
    quantified fact: on the true branch every later-created instance is
    available through the instantiation list, on the false branch a witness
    index exists.
    """
    e = E()
    if isinstance(v.n, int):
        if v.n == 0:
            return True
        return SBool(z3.And([zb(truth(v.at(i))) for i in range(v.n)]))
    w = z3.Int(e.fresh('w_all'))
    b = z3.Bool(e.fresh('all'))
    n = zi(v.n)
    f = v.f
    # b false: w is a counterexample
    e.add(z3.Implies(z3.Not(b), z3.And(
        w >= 0, w < n, z3.Not(zb(truth(f(w)))))))
    interesting(w)
    # b true: holds at each index of interest
    register_forall(lambda i: z3.Implies(
        z3.And(b, zi(i) >= 0, zi(i) < n), zb(truth(f(i)))))
    return SBool(b)


def any_of(v):
    e = E()
    f = v.f
    r = all_of(SVec(v.n, lambda i: SBool(z3.Not(zb(truth(f(i)))))))
    if isinstance(r, bool):
        return not r
    return SBool(z3.Not(r.z))


def truth(x):
    """Truthiness of a scalar as a condition, without branching."""
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return SBool(x.z != 0)
    if isinstance(x, SFloat):
        return SBool(z3.Not(z3.And(x.fin, x.r == 0)))
    return bool(x)


def register_forall(inst):
    """
    Registers a universally quantified fact over integer indices; it gets
    instantiated at every index the harness declared interesting (Skolem
    constants), now and later.
    """
    e = E()
    e.lazy.append(inst)
    for i in e.ghost.get('indices', []):
        e.add(inst(i))


def interesting(i):
    """Declares an index at which universal facts should be instantiated."""
    e = E()
    z = zi(i)
    e.ghost.setdefault('indices', []).append(z)
    for inst in list(e.lazy):
        e.add(inst(z))
    return i


# ---------------------------------------------------------------------------
class Opaque(Sym):
    """A value only known by how it was made (structural equality)."""
    __slots__ = ('kind', 'args')
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
    def __add__(self, other):
        return Opaque('+', self, other)
    def __radd__(self, other):
        return Opaque('+', other, self)
    def __repr__(self):
        return "<Opaque %s>" % (self.kind,)
    def __format__(self, spec):
        return "<o>"


# ---------------------------------------------------------------------------
class SSeq(Sym):
    """
    A list-like object of symbolic length.  Elements are created lazily;
    writes go to an overlay.
    """
    __slots__ = ('n', 'make', 'memo', 'overlay', 'tag', 'on_read', 'name')

    def __init__(self, n, make, tag=None, on_read=None):
        self.n = n.z if isinstance(n, SInt) else n
        self.make = make            # z3 index -> object
        self.memo = []              # [(z3 index, object)]
        self.overlay = ()           # ((z3 index, object), ...) newest first
        self.tag = tag
        self.on_read = on_read
        E().ghost.setdefault('sseqs', []).append(self)

    def __dv_len__(self):
        if isinstance(self.n, int):
            return self.n
        s = z3.simplify(self.n)
        if z3.is_int_value(s):
            return s.as_long()
        return SInt(self.n)

    def __len__(self):
        n = self.__dv_len__()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        return E().fork(zi(self.n) > 0)

    def _idx(self, k):
        e = E()
        e.alive()
        z = zi(k)
        if e.fork(z < 0):
            z = z + zi(self.n)
        if e.fork(z3.Or(z < 0, z >= zi(self.n))):
            raise IndexError("list index out of range")
        return z3.simplify(z)

    def at(self, z):
        e = E()
        e.alive()
        z = z3.simplify(zi(z))
        obj = self._at(z)
        if self.on_read:
            self.on_read(self, z, obj)
        return obj

    def _at(self, z):
        e = E()
        for zk, obj in self.overlay:
            if e.fork(z == zk):
                return obj
        for zk, obj in self.memo:
            if z.eq(zk):
                return obj
        for zk, obj in self.memo:
            if e.fork(z == zk):
                return obj
        obj = self.make(z)
        self.memo.append((z, obj))
        return obj

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                s = SSeq(self.n, self.make, self.tag, self.on_read)
                s.memo = self.memo
                s.overlay = self.overlay
                return s
            E().unsupported_("slice of symbolic sequence")
        return self.at(self._idx(k))

    def __setitem__(self, k, obj):
        z = self._idx(k)
        self.overlay = ((z, obj),) + self.overlay

    def append(self, obj):
        z = z3.simplify(zi(self.n))
        self.overlay = ((z, obj),) + self.overlay
        self.n = z3.simplify(zi(self.n) + 1)

    def __iter__(self):
        n = self.__dv_len__()
        if isinstance(n, int):
            for i in range(n):
                yield self.at(i)
            return
        E().unsupported_("native iteration over symbolic sequence")

    def __contains__(self, x):
        n = self.__dv_len__()
        if isinstance(n, int):
            for i in range(n):
                y = self.at(i)
                if y is x or y == x:
                    return True
            return False
        E().unsupported_("membership test in symbolic sequence")

    def copy(self):
        return self[:]

    def __repr__(self):
        return "<SSeq %s>" % (self.tag,)

    def __format__(self, spec):
        return "<s>"


def slice_range(k, n):
    """Where a slice without step starts, and the number of items in it."""
    def norm(x):
        x = zi(x)
        x = z3.If(x < 0, x + n, x)
        return z3.If(x < 0, z3.IntVal(0), z3.If(x > n, n, x))
    lo = z3.IntVal(0) if k.start is None else norm(k.start)
    hi = n if k.stop is None else norm(k.stop)
    return z3.simplify(lo), z3.simplify(
        z3.If(hi > lo, hi - lo, z3.IntVal(0)))


class SPure(SSeq):
    """
    A sequence whose elements are values given by a function of the index:
    reading twice need not give the same object, so indices read before need
    not be told apart.
    """
    __slots__ = ('perm',)

    def _at(self, z):
        if self.overlay:
            e = E()
            for zk, obj in self.overlay:
                if e.fork(z == zk):
                    return obj
        for zk, obj in self.memo:
            if z.eq(zk):
                return obj
        obj = self.make(z)
        self.memo.append((z, obj))
        return obj

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                s = SPure(self.n, self.make, self.tag, self.on_read)
                s.overlay = self.overlay
                return s
            if k.step is not None or self.overlay:
                E().unsupported_("slice of symbolic sequence")
            lo, m = slice_range(k, zi(self.n))
            make = self.make
            return SPure(m, lambda z: make(z3.simplify(zi(z) + lo)),
                         'part:%s' % self.tag)
        return self.at(self._idx(k))


    def pop(self, k=-1):
        if self.overlay or not isinstance(k, int) or k not in (0, -1):
            E().unsupported_("removal from a symbolic sequence")
        x = self.at(self._idx(k))
        if k == 0:
            make = self.make
            self.make = lambda z: make(z3.simplify(zi(z) + 1))
            self.memo = []
        self.n = z3.simplify(zi(self.n) - 1)
        return x


class GList(list):
    """
    A list written out by the code under verification.  An ordinary list,
    until a loop specification lets it stand for the list after an arbitrary
    number of iterations (become).
    """
    sym = None

    def become(self, seq):
        list.clear(self)
        self.sym = seq

    def __dv_len__(self):
        return list.__len__(self) if self.sym is None else \
            self.sym.__dv_len__()

    @property
    def tag(self):
        return getattr(self.sym, 'tag', None)

    def __reduce_ex__(self, protocol):
        return list, (list(iter(self)),)


def _delegate(name):
    plain = getattr(list, name)
    def method(self, *a, **k):
        if self.sym is None:
            if name in ('__add__', '__mul__') and isinstance(a[0], Sym):
                return NotImplemented
            return plain(self, *a, **k)
        f = getattr(type(self.sym), name, None)
        if f is None:
            E().unsupported_("list.%s with symbolic contents" % name)
        return f(self.sym, *a, **k)
    method.__name__ = name
    return method


for _n in ('__len__ __iter__ __getitem__ __setitem__ __delitem__ '
           '__contains__ __eq__ __ne__ __add__ __iadd__ __mul__ __reversed__ '
           'append extend insert remove pop clear index count sort reverse '
           'copy').split():
    setattr(GList, _n, _delegate(_n))
GList.__hash__ = None
GList.__bool__ = lambda self: (
    list.__len__(self) > 0 if self.sym is None else bool(self.sym))


def plain(x):
    """What an iterable really is."""
    if isinstance(x, GList) and x.sym is not None:
        return x.sym
    return x


def newlist(*items):
    from .engine import Engine
    if Engine.current is None:
        return list(items)
    from .loops import varargs
    items = varargs(items)
    if not isinstance(items, tuple):
        E().unsupported_("list of any number of items")
    return GList(items)


class Key(object):
    """An arbitrary dictionary key."""
    __slots__ = ('path',)
    def __init__(self, *path):
        self.path = path
    def __repr__(self):
        return "<key>"


class SKeyed(SSeq):
    """
    A dict with an arbitrary number of entries: key(z) makes the z-th key,
    value(z) the value there.
    """
    __slots__ = ('value', 'vmemo', 'owner')

    def __init__(self, n, key, value, tag=None, owner=None):
        SSeq.__init__(self, n, key, tag)
        self.value = value
        self.vmemo = []
        self.owner = owner

    def value_at(self, z):
        z = z3.simplify(zi(z))
        for zk, obj in self.vmemo:
            if z.eq(zk):
                return obj
        obj = self.value(z)
        self.vmemo.append((z, obj))
        return obj

    def __getitem__(self, k):
        for z, obj in self.memo:
            if obj is k:
                return self.value_at(z)
        E().unsupported_("foreign key in symbolic dict")

    def get(self, k, default=None):
        return self[k]

    def __setitem__(self, k, v):
        E().unsupported_("store to symbolic dict")

    def keys(self):
        return self

    def items(self):
        s = SSeq(self.n, lambda z: (self.at(z), self.value_at(z)), self.tag)
        return s

    def values(self):
        return SSeq(self.n, self.value_at, self.tag)


def snapshot_heap():
    return [(s, s.overlay, s.n) for s in E().ghost.get('sseqs', [])]


class at_snapshot(object):
    """Evaluates closures against list contents as of a snapshot."""
    def __init__(self, snap):
        self.snap = snap
    def __enter__(self):
        self.saved = [(s, s.overlay, s.n) for s, _, _ in self.snap]
        for s, o, n in self.snap:
            s.overlay, s.n = o, n
    def __exit__(self, *a):
        for s, o, n in self.saved:
            s.overlay, s.n = o, n


def summarize(fn):
    """
    Runs fn() exploring all its branches locally and returns
    [(guard, result, facts)] with mutually exclusive, exhaustive guards; the
    path condition outside is unchanged.  The facts are what the symbolic
    values involved are known to satisfy whatever branch is taken.
    """
    e = E()
    saved = (e.prefix, e.decisions, e.pending, e.solver, e.pc, e.branch)
    base_pc = list(e.pc)
    results = []
    work = [[]]
    count = 0
    memo_saved = [(s, list(s.memo)) for s in e.ghost.get('sseqs', [])]
    try:
        while work:
            count += 1
            if count > 64:
                e.unsupported_("too many cases in summary")
            prefix = work.pop()
            for s, m in memo_saved:
                s.memo[:] = m
            e.prefix = prefix
            e.decisions = []
            e.pending = []
            e.branch = []
            e.solver = z3.Solver()
            e.solver.set('timeout', e.timeout_ms)
            e.solver.add(base_pc)
            e.pc = list(base_pc)
            try:
                r = fn()
            except Dead:
                e.dead = None
                work.extend(e.pending)
                continue
            ids = set(c.get_id() for c in e.branch)
            facts = [c for c in e.pc[len(base_pc):] if c.get_id() not in ids]
            results.append((
                z3.And(e.branch) if e.branch else z3.BoolVal(True), r, facts))
            work.extend(e.pending)
    finally:
        e.prefix, e.decisions, e.pending, e.solver, e.pc, e.branch = saved
        for s, m in memo_saved:
            s.memo[:] = m
    return results


def merge(cases):
    r = cases[-1][1]
    for case in reversed(cases[:-1]):
        r = ite(case[0], case[1], r)
    return r


def subst(x, pairs):
    if isinstance(x, SFloat):
        return SFloat(z3.substitute(x.r, *pairs),
                      x.t if isinstance(x.t, int) else
                      z3.substitute(x.t, *pairs), x.npf)
    if isinstance(x, SInt):
        return SInt(z3.substitute(x.z, *pairs))
    if isinstance(x, SBool):
        return SBool(z3.substitute(x.z, *pairs))
    return x


# ---------------------------------------------------------------------------
class Evaluator(object):
    """Evaluates proxies in a model to plain JSON-able values."""
    def __init__(self, model):
        self.m = model

    def z(self, expr):
        return self.m.eval(expr, model_completion=True)

    def __call__(self, x):
        if isinstance(x, SBool):
            return z3.is_true(self.z(x.z))
        if isinstance(x, SInt):
            return self.z(x.z).as_long()
        if isinstance(x, SFloat):
            t = x.t if isinstance(x.t, int) else self.z(x.t).as_long()
            if t == PINF:
                return 'inf'
            if t == NINF:
                return '-inf'
            if t == NAN:
                return 'nan'
            v = self.z(x.r)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return float(f)
        if isinstance(x, SVec):
            n = x.n if isinstance(x.n, int) else self.z(x.n).as_long()
            n = min(n, 50)
            return [self(x.at(i)) for i in range(n)]
        if isinstance(x, dict):
            return {k: self(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self(v) for v in x]
        if isinstance(x, (int, float, str, bool)) or x is None:
            return x
        return repr(x)
