"""
pydv.models: builtins, numpy and random as seen by the code under proof.

Each model dispatches to the real thing unless a symbolic value is involved.
What is assumed of the library functions is written down in TRUSTED.
"""
import builtins, math, sys, random as _random, types

import numpy as _np
import z3

from .engine import E, Dead, Unsupported, Engine
from .values import *
from .values import zi, zb, npf, truth, rint_z, vec_of, _pick, rv
from . import loops, arrays
from .loops import (SRange, SZip, SEnum, SMap, length_of, item_of, tag_of,
                    symbolic_iterable)

TRUSTED = {
    'np.where/clip/minimum/maximum/isnan/isinf/isfinite/all/any/abs':
        "elementwise definition",
    'np.argsort': "a permutation of the indices in non-decreasing order of "
        "the keys, NaN last",
    'sorted(key)': "for a sequence of symbolic length, some permutation of "
        "it in non-decreasing order of the keys",
    'array.sort()': "a permutation in non-decreasing order",
    'np.searchsorted': "in an array shown to be sorted, the number of "
        "elements less than (side='right': not greater than) the value",
    'np.flatnonzero': "the indices of all true elements, ascending",
    'np.sum/var': "of a table: not computed; a variance is not negative",
    'np.random.choice': "any element, each time",
    'np.save/load, io.BytesIO': "what was saved is loaded",
    're.match': "the language of the pattern as parsed by re itself, as a "
        "regular expression of the solver",
    'str methods': "lower, replace, strip, isdigit, int() and float() of a "
        "symbolic text are functions of the text and otherwise left open; "
        "float() takes decimal literals; text without white space is not "
        "changed by strip(); ASCII digits are digits and make an integer",
    'single precision': "rounding is monotonic, leaves single-precision "
        "numbers alone and overflows to infinity",
    'np.sqrt': "the non-negative real whose square is the argument",
    'np.round': "round half to even",
    'np.sin': "real function with sin(-pi/2)=-1, sin(0)=0, sin(pi/2)=1, "
        "range [-1,1], increasing between -pi/2 and pi/2",
    'np.exp/np.power/**': "uninterpreted function",
    'random.random/np.random.random_sample': "any real in [0,1)",
    'random.uniform(a,b)': "any real between a and b inclusive",
    'random.triangular(low,high,low)': "any real in [low,high)",
    'random.randint(a,b)': "any integer a..b",
    'random.sample(K,N)': "N elements at N different positions of K",
    'random.choice(K)': "an element of K",
    'builtins': "len/float/int/isinstance/range/zip/enumerate/min/max/sum/"
        "sorted/abs/round/hash with Python semantics",
}
USED = set()


def anysym(args, kw=None, depth=2):
    for a in args:
        a = plain(a)
        if isinstance(a, Sym):
            return True
        if depth and isinstance(a, (list, tuple)):
            if anysym(a, None, depth-1):
                return True
        elif depth and isinstance(a, _np.ndarray) and a.dtype == object:
            if anysym(list(a.flat), None, 0):
                return True
    if kw:
        return anysym(list(kw.values()), None, depth)
    return False


# --- builtins --------------------------------------------------------------
class TypeShim(object):
    """Callable stand-in for a builtin type; isinstance sees through it."""
    def __init__(self, real, fn):
        self.real = real
        self.fn = fn
    def __call__(self, *a, **k):
        return self.fn(*a, **k)
    def __getattr__(self, name):
        if name == 'dtype' and self.real in (int, float, bool):
            return _np.dtype(self.real)     # numpy looks for this
        return getattr(self.real, name)
    def __instancecheck__(self, x):
        return b_isinstance(x, self)
    def __eq__(self, other):
        return other is self or other is self.real
    def __hash__(self):
        return hash(self.real)
    def __repr__(self):
        return repr(self.real)
    def __or__(self, other):
        return (self, other)


def unshim(t):
    if isinstance(t, tuple):
        return tuple(unshim(x) for x in t)
    return t.real if isinstance(t, TypeShim) else t


def b_isinstance(x, t):
    t = unshim(t)
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        def fl(q):
            for y in q:
                if isinstance(y, tuple):
                    fl(y)
                else:
                    flat.append(y)
        fl(ts)
        for y in flat:
            if y is object or y in getattr(x, 'dv_types', ()):
                return True
            if isinstance(x, SBool) and y in (bool, int):
                return True
            if isinstance(x, SInt):
                if x.npint:
                    if y in (_np.int64, _np.integer, _np.generic):
                        return True
                elif y is int:
                    return True
            if isinstance(x, SFloat) and (
                    y is float or (x.npf and y in (
                        _np.float64, _np.floating, _np.generic))):
                return True
            if isinstance(x, SVec) and y is _np.ndarray:
                return True
            if isinstance(x, (SSeq, SMap)) and y is list:
                return True
            try:
                if builtins.isinstance(x, y):
                    return True
            except TypeError:
                pass
        return False
    return builtins.isinstance(x, t)


def b_type(*a):
    if len(a) == 1:
        if isinstance(a[0], GList):
            return list
        if isinstance(a[0], Sym) and type(a[0]).__module__.startswith('pydv'):
            E().unsupported_("type of a symbolic value")
    return builtins.type(*a)


def b_len(x):
    if hasattr(type(x), '__dv_len__'):
        return x.__dv_len__()
    if isinstance(x, Sym):
        return length_of(x)
    m = getattr(type(x), '__len__', None)
    if isinstance(m, types.FunctionType):
        # A Python-level __len__ may return a symbolic int
        return m(x)
    return builtins.len(x)


def b_float(x=0.0):
    if isinstance(x, SFloat):
        return SFloat(x.r, x.t, False)
    if isinstance(x, (SInt, SBool)):
        r = to_float(x)
        return SFloat(r.r, r.t, False)
    if isinstance(x, SVec):
        if x.n == 1:
            return b_float(x.at(0))
        raise TypeError("only length-1 arrays can be converted")
    m = getattr(type(x), '__float__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return builtins.float(x)


def b_int(x=0, *a):
    if isinstance(x, SInt):
        return SInt(x.z)
    if isinstance(x, SBool):
        return to_int(x)
    if isinstance(x, SFloat):
        return x.trunc()
    if isinstance(x, Sym) and hasattr(x, '__dv_int__') and not a:
        return x.__dv_int__()
    return builtins.int(x, *a)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, Sym):
        return bool(x)
    m = getattr(type(x), '__bool__', None)
    return builtins.bool(x)


def b_range(*a):
    if not anysym(a):
        return builtins.range(*a)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2:
        return SRange(*a)
    if len(a) == 3 and a[2] == 1:
        return SRange(a[0], a[1])
    E().unsupported_("symbolic range with step")


def b_zip(*parts):
    if any(symbolic_iterable(p) for p in parts):
        return SZip(parts)
    return builtins.zip(*parts)


def b_enumerate(seq, start=0):
    if symbolic_iterable(seq):
        return SEnum(seq, start)
    return builtins.enumerate(seq, start)


def _minmax(args, kw, pick_less):
    key = kw.get('key')
    if len(args) == 1:
        items = args[0]
        if isinstance(items, Sym):
            n = length_of(items)
            if not isinstance(n, int):
                E().unsupported_("min/max of symbolic-length sequence")
            items = [item_of(items, i) for i in range(n)]
        else:
            items = list(items)
    else:
        items = list(args)
    if not items:
        if 'default' in kw:
            return kw['default']
        raise ValueError("empty sequence")
    best = items[0]
    for x in items[1:]:
        a, b = (x, best) if key is None else (key(x), key(best))
        c = (a < b) if pick_less else (a > b)
        if isinstance(c, SBool) and isinstance(
                x, (Sym, int, float, _np.generic)) and isinstance(
                    best, (Sym, int, float, _np.generic)):
            best = ite(c, x, best)
        elif c:
            best = x
    return best


def b_min(*args, **kw):
    if not anysym(args):
        return builtins.min(*args, **kw)
    return _minmax(args, kw, True)


def b_max(*args, **kw):
    if not anysym(args):
        return builtins.max(*args, **kw)
    return _minmax(args, kw, False)


def b_sum(seq, start=0):
    if symbolic_iterable(seq):
        E().unsupported_("sum over symbolic-length sequence")
    t = start
    for x in seq:
        t = t + x
    return t


def b_list(*a):
    if a:
        x = plain(a[0])
        if isinstance(x, SVec):
            if isinstance(x.n, int):
                return [x.at(i) for i in range(x.n)]
            return SMap(x.n, x.f, tag='list:%s' % tag_of(x), src=x)
        if isinstance(x, arrays.SRowArray):
            return x._list()
        if isinstance(x, arrays.SRowSet):
            return x._enumerate().snapshot()
        if isinstance(x, SSeq) and symbolic_iterable(x):
            return x[:]
        if isinstance(x, SMap) and symbolic_iterable(x):
            return x
        if symbolic_iterable(x):
            return SMap(length_of(x), x.at, tag='list:%s' % tag_of(x), src=x)
    return builtins.list(*a)


def b_tuple(*a):
    if a and symbolic_iterable(a[0]):
        return b_list(*a)
    return builtins.tuple(*a)


def b_dict(*a, **k):
    if a and symbolic_iterable(a[0]):
        x = a[0]
        if isinstance(x, SZip) and len(x.parts) == 2:
            d = SDict()
            d.fill(x.parts[0], x.parts[1], x.n)
            return d
        E().unsupported_("dict of symbolic sequence")
    return builtins.dict(*a, **k)


def b_set(*a):
    if a and isinstance(a[0], arrays.SRowSet):
        return a[0].copy()
    if a and isinstance(a[0], arrays.SRows):
        return arrays.SRowSet(a[0].has, a[0].tag)
    if a and symbolic_iterable(a[0]):
        E().unsupported_("set of symbolic sequence")
    return builtins.set(*a)


def b_sorted(seq, key=None, reverse=False):
    if symbolic_iterable(seq):
        # Some permutation, ascending by the key; like the real one it puts
        # nothing else first, whatever the order of equal keys
        if reverse:
            E().unsupported_("sorted() of symbolic-length sequence, reverse")
        used('sorted(key)')
        seq = plain(seq)
        keyof = key or (lambda x: x)
        def k(z):
            x = keyof(item_of(seq, z))
            x = getattr(x, '__dv_rank__', x)
            if not isinstance(x, (SFloat, SInt, int, float)):
                E().unsupported_("sorted() by something not a number")
            x = to_float(x)
            if not x.known_fin():
                E().unsupported_("sorted() by possibly undefined numbers")
            return x
        # (the same sequence gets sorted the same way each time)
        before = E().ghost.setdefault('sorted', [])
        fixed = isinstance(seq, SPure) and not isinstance(
            seq, arrays.SRows) and not seq.overlay and key is None
        for seq_, make, n, p in before if fixed else ():
            if seq_ is seq and make is seq.make and n is seq.n:
                break
        else:
            p = SPerm(length_of(seq), k)
            if fixed:
                before.append((seq, seq.make, seq.n, p))
        out = SPure(length_of(seq), lambda z: item_of(seq, zi(p.at(z))),
                    tag='sorted:%s' % (tag_of(seq),))
        out.perm = p
        return out
    return builtins.sorted(seq, key=key, reverse=reverse)


def b_all(seq):
    if isinstance(seq, SVec):
        return all_of(seq)
    if symbolic_iterable(seq):
        return _quant(seq, True)
    return builtins.all(seq)


def b_any(seq):
    if isinstance(seq, SVec):
        return any_of(seq)
    if symbolic_iterable(seq):
        return _quant(seq, False)
    return builtins.any(seq)


def _quant(seq, is_all):
    """
    all()/any() over a comprehension on a symbolic sequence: cut like a loop,
    using the loop specification for the underlying sequence.
    """
    src = getattr(seq, 'src', None)
    def run():
        L = loops.ForLoop(src if False else seq, 'builtin all/any', (), ())
        for x in L:
            if L.sym:
                L.enter()
            if is_all:
                if not x:
                    return False
            elif x:
                return True
        else:
            if L.sym:
                L.leave()
        return is_all
    return run()


def b_round(x, nd=None):
    if isinstance(x, Sym):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def b_abs(x):
    return builtins.abs(x)


def b_hash(x):
    m = getattr(type(x), '__hash__', None)
    if isinstance(m, types.FunctionType):
        return m(x)
    if isinstance(x, Sym):
        if isinstance(x, Opaque):
            return Opaque('hash', x)
    if isinstance(x, tuple) and anysym(x):
        return Opaque('hash', *x)
    return builtins.hash(x)


def b_hasattr(x, name):
    if isinstance(x, (SFloat, SInt, SBool)):
        if name in ('__iter__', '__len__', '__getitem__'):
            return False
        if name == 'shape' and not getattr(x, 'npf', False):
            return False
    return builtins.hasattr(x, name)


def b_str(*a, **k):
    return builtins.str(*a, **k)


def b_print(*a, **k):
    pass


def b_getattr(obj, name, *default):
    f = getattr(name, '__dv_getattr__', None)
    if f is not None:
        # (the name of one of any number of attributes)
        try:
            return f(obj)
        except AttributeError:
            if not default:
                raise
            return default[0]
    return builtins.getattr(obj, name, *default)


def b_setattr(obj, name, value):
    f = getattr(name, '__dv_setattr__', None)
    if f is not None:
        loops.wrote(obj, '.<any>')
        return f(obj, value)
    return builtins.setattr(obj, name, value)


class SDict(Sym):
    """dict filled from parallel symbolic sequences."""
    tag = 'dict'
    def __init__(self):
        self.parts = []         # (keys, values, n)
        self.native = {}
    def fill(self, keys, values, n):
        self.parts.append((keys, values, n))


BUILTINS = dict(vars(builtins))
BUILTINS.update({
    'len': b_len, 'isinstance': b_isinstance,
    'float': TypeShim(float, b_float), 'int': TypeShim(int, b_int),
    'bool': TypeShim(bool, b_bool),
    'range': TypeShim(range, b_range), 'zip': TypeShim(zip, b_zip),
    'enumerate': TypeShim(enumerate, b_enumerate),
    'min': b_min, 'max': b_max, 'sum': b_sum,
    'list': TypeShim(list, b_list), 'tuple': TypeShim(tuple, b_tuple),
    'dict': TypeShim(dict, b_dict), 'set': TypeShim(set, b_set),
    'sorted': b_sorted, 'all': b_all, 'any': b_any, 'round': b_round,
    'hash': b_hash, 'type': TypeShim(type, b_type), 'hasattr': b_hasattr, 'print': b_print,
    '_dv_loop_': loops.ForLoop, '_dv_wloop_': loops.WhileLoop,
    '_dv_comp_': loops.comp, '_dv_newlist_': newlist,
    '_dv_star_': loops.star, '_dv_varargs_': loops.varargs,
    '_dv_wrote_': loops.wrote, 'getattr': b_getattr, 'setattr': b_setattr,
    '_dv_mut_': loops.mut, '_dv_enter_': loops.enter,
    '_dv_bool_': loops.truth_result,
})


# --- numpy -----------------------------------------------------------------
def used(name):
    USED.add(name)


def as_vec(x):
    """Symbolic vector, or None for a scalar."""
    x = plain(x)
    if isinstance(x, SVec):
        return x
    if isinstance(x, (list, tuple)):
        return vec_of(list(x))
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return None
        if x.ndim != 1:
            E().unsupported_("2-D array with symbolic operand")
        return vec_of([y for y in x])
    if isinstance(x, (SMap, SSeq)):
        return SVec(x.n, x.at)
    return None


def elementwise(fn, *args):
    vecs = [as_vec(a) for a in args]
    base = next((v for v in vecs if v is not None), None)
    if base is None:
        return npf(fn(*args))
    for v in vecs:
        if v is not None and v is not base:
            base._same_n(v)
    fs = [v.f if v is not None else (lambda i, a=a: a)
          for v, a in zip(vecs, args)]
    return SVec(base.n, lambda i: npf(fn(*[f(i) for f in fs])))


def _where(c, a, b):
    return ite(truth(c), a, b)


def np_where(c, *ab):
    used('np.where')
    if not ab:
        E().unsupported_("one-argument where")
    return elementwise(_where, c, *ab)


def _lt(a, b):
    a, b = to_float(a), to_float(b)
    return a.lt(b)


def _min2(a, b):
    fa, fb = to_float(a), to_float(b)
    return ite(z3.Or(fa.nan, fa.lt(fb), fa.eq(fb)), a, b)


def _max2(a, b):
    fa, fb = to_float(a), to_float(b)
    return ite(z3.Or(fa.nan, fb.lt(fa), fa.eq(fb)), a, b)


def np_minimum(a, b):
    used('np.minimum')
    return elementwise(_min2, a, b)


def np_maximum(a, b):
    used('np.maximum')
    return elementwise(_max2, a, b)


def np_clip(x, lo=None, hi=None, a_min=None, a_max=None, out=None, **kw):
    used('np.clip')
    if lo is None: lo = a_min
    if hi is None: hi = a_max
    r = x
    if lo is not None:
        r = elementwise(_max2, r, lo)
    if hi is not None:
        r = elementwise(_min2, r, hi)
    if out is not None:
        out[:] = r
        return out
    return r


def np_array(x, dtype=None, copy=True, **kw):
    used('np.array')
    x = plain(x)
    if isinstance(x, SVec):
        return x.copy() if copy else x
    if isinstance(x, arrays.SRows):
        y = arrays.row_array(x, dtype)
        if y is not None:
            return y
    if isinstance(x, arrays.SMat):
        x = x.copy() if copy else x
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, (SMap, SSeq)):
        v = SVec(x.n, x.at)
        return v if dtype is None else v.astype(dtype)
    if isinstance(x, (SFloat, SInt, SBool)):
        return npf(x)
    if isinstance(x, (list, tuple)):
        if any(isinstance(y, (list, tuple, SVec, _np.ndarray)) for y in x):
            E().unsupported_("2-D array of symbolic values")
        return vec_of([npf(y) for y in x])
    E().unsupported_("np.array of %r" % type(x))


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SVec):
        return x
    return np_array(x)


def np_all(x, **kw):
    used('np.all')
    v = as_vec(x)
    if v is None:
        return truth(x)
    return all_of(v)


def np_any(x, **kw):
    used('np.any')
    v = as_vec(x)
    if v is None:
        return truth(x)
    return any_of(v)


def np_isnan(x):
    used('np.isnan')
    return elementwise(lambda a: SBool(to_float(a).nan), x)


def np_isinf(x):
    used('np.isinf')
    return elementwise(lambda a: SBool(to_float(a).inf), x)


def np_isfinite(x):
    used('np.isfinite')
    return elementwise(lambda a: SBool(to_float(a).fin), x)


def np_abs(x):
    return elementwise(lambda a: abs(to_float(a)), x)


def np_sqrt(x):
    used('np.sqrt')
    return elementwise(sqrt, x)


def np_round(x, decimals=0):
    used('np.round')
    if decimals:
        E().unsupported_("np.round to decimals")
    def f(a):
        a = to_float(a)
        return SFloat(z3.ToReal(rint_z(a.r)), a.t, True)
    return elementwise(f, x)


def np_floor(x):
    def f(a):
        a = to_float(a)
        return SFloat(z3.ToReal(z3.ToInt(a.r)), a.t, True)
    return elementwise(f, x)


def np_ceil(x):
    def f(a):
        a = to_float(a)
        return SFloat(-z3.ToReal(z3.ToInt(-a.r)), a.t, True)
    return elementwise(f, x)


def np_square(x):
    return elementwise(lambda a: a*a, x)


def np_logical_and(a, b):
    return elementwise(lambda x, y: SBool(z3.And(
        zb(truth(x)), zb(truth(y)))), a, b)


def np_logical_or(a, b):
    return elementwise(lambda x, y: SBool(z3.Or(
        zb(truth(x)), zb(truth(y)))), a, b)


def np_logical_not(a):
    return elementwise(lambda x: SBool(z3.Not(zb(truth(x)))), a)


def _op(op):
    return lambda a, b: elementwise(op, a, b)


SIN = z3.Function('sin', z3.RealSort(), z3.RealSort())
def np_sin(x):
    used('np.sin')
    e = E()
    def f(a):
        a = to_float(a)
        if not a.known_fin():
            e.unsupported_("sin of possibly infinite value")
        half = rv(_np.pi) / 2
        s = SIN(a.r)
        args = e.ghost.setdefault('sin', [])
        inr = z3.And(a.r >= -half, a.r <= half)
        e.add(z3.And(s >= -1, s <= 1,
                     z3.Implies(a.r == half, s == 1),
                     z3.Implies(a.r == -half, s == -1),
                     z3.Implies(a.r == 0, s == 0),
                     z3.Implies(z3.And(inr, a.r > 0), s > 0),
                     z3.Implies(z3.And(inr, a.r < 0), s < 0),
                     z3.Implies(z3.And(inr, a.r < half), s < 1),
                     z3.Implies(z3.And(inr, a.r > -half), s > -1)))
        for b in args:
            inb = z3.And(b >= -half, b <= half)
            e.add(z3.Implies(z3.And(inr, inb, a.r < b), s < SIN(b)))
            e.add(z3.Implies(z3.And(inr, inb, b < a.r), SIN(b) < s))
        args.append(a.r)
        return SFloat(s, FIN, True)
    return elementwise(f, x)


def np_exp(x):
    def f(a):
        r = opaque_fn('exp', a)
        E().add(r.r > 0)
        return r
    return elementwise(f, x)


def np_power(a, b):
    def f(x, y):
        if isinstance(x, (int, float)) and x == 10:
            r = opaque_fn('pow10', y)
            E().add(r.r > 0)
            return r
        if isinstance(y, int):
            return to_float(x) ** y
        return opaque_fn('power', x, y)
    return elementwise(f, a, b)


def np_isclose(a, b, **kw):
    E().unsupported_("isclose")


class SPerm(SSeq):
    """Result of argsort: a permutation ordering the keys."""
    __slots__ = ('P', 'key', 'inv_', 'read')

    def __init__(self, n, key, tag='argsort'):
        e = E()
        name = e.fresh('perm')
        P = self.P = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.inv_ = z3.Function(name + '_inv', z3.IntSort(), z3.IntSort())
        self.key = key              # z3 index -> SFloat
        self.read = []
        SSeq.__init__(self, n, self._make, tag=tag)
        if isinstance(self.n, int):
            for k in range(self.n):
                self.at(k)

    @staticmethod
    def key_le(a, b):
        return z3.Or(a.lt(b), a.eq(b), b.nan)

    def _make(self, z):
        e = E()
        n = zi(self.n)
        v = self.P(z)
        inr = z3.And(z >= 0, z < n)
        e.add(z3.Implies(inr, z3.And(v >= 0, v < n, self.inv_(v) == z)))
        kv = to_float(self.key(v))
        for z2 in self.read:
            v2 = self.P(z2)
            in2 = z3.And(z2 >= 0, z2 < n)
            k2 = to_float(self.key(v2))
            e.add(z3.Implies(z3.And(inr, in2, z != z2), v != v2))
            e.add(z3.Implies(z3.And(inr, in2, z <= z2), self.key_le(kv, k2)))
            e.add(z3.Implies(z3.And(inr, in2, z2 <= z), self.key_le(k2, kv)))
        self.read.append(z)
        def inst(s):
            s = zi(s)
            ins = z3.And(s >= 0, s < n)
            ks = to_float(self.key(s))
            r = self.inv_(s)
            return z3.Implies(z3.And(inr, ins), z3.And(
                r >= 0, r < n, self.P(r) == s,
                z3.Implies(r <= z, self.key_le(ks, kv)),
                z3.Implies(r >= z, self.key_le(kv, ks))))
        register_forall(inst)
        return SInt(v, True)

    def _at(self, z):
        # (numbers given by a function of the index: no need to tell apart
        # the cases of an index read before)
        if self.overlay:
            return SSeq._at(self, z)
        for zk, obj in self.memo:
            if z.eq(zk):
                return obj
        obj = self.make(z)
        self.memo.append((z, obj))
        return obj

    def position(self, slot):
        """The rank of a slot (exists because this is a permutation)."""
        e = E()
        s = zi(slot)
        p = self.inv_(s)
        e.add(z3.Implies(z3.And(s >= 0, s < zi(self.n)), z3.And(
            p >= 0, p < zi(self.n), self.P(p) == s)))
        self.at(p)
        return SInt(p)

    @property
    def shape(self):
        return (self.__dv_len__(),)

    def tolist(self):
        return self

    def __array__(self, *a, **k):
        E().unsupported_("native array from permutation")


def np_argsort(x, **kw):
    used('np.argsort')
    v = as_vec(x)
    n = v.n
    f = v.f
    return SPerm(n, lambda i: f(i), tag='ranking')


def np_sort(x, **kw):
    v = as_vec(x)
    p = SPerm(v.n, v.f)
    f = v.f
    return SVec(v.n, lambda i: f(zi(p.at(i))))


def _extreme(x, least):
    """Index and value of an extreme element."""
    e = E()
    v = as_vec(x)
    n = v.n
    if e.fork(zi(n) <= 0):
        raise ValueError("zero-size array")
    m = z3.Int(e.fresh('argmin'))
    e.add(z3.And(m >= 0, m < zi(n)))
    best = to_float(v.at(m))
    f = v.f
    def inst(i):
        i = zi(i)
        x = to_float(f(i))
        # (NaN counts as the extreme)
        le = z3.Or(best.nan, z3.And(z3.Not(x.nan), SPerm.key_le(
            best, x) if least else SPerm.key_le(x, best)))
        first = z3.Implies(i < m, z3.Not(z3.Or(x.eq(best), z3.And(
            x.nan, best.nan))))
        return z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(le, first))
    if isinstance(n, int):
        for i in range(n):
            e.add(inst(i))
    else:
        register_forall(inst)
    e.ghost.setdefault('extremes', []).append((SInt(m, True), f, best))
    return SInt(m, True), best


def np_argmin(x, **kw):
    used('np.argmin')
    return _extreme(x, True)[0]


def np_argmax(x, **kw):
    used('np.argmax')
    return _extreme(x, False)[0]


def np_min(x, **kw):
    return _extreme(x, True)[1]


def np_max(x, **kw):
    return _extreme(x, False)[1]


def np_empty(shape, dtype=None, **kw):
    e = E()
    if isinstance(shape, tuple):
        if len(shape) == 2:
            g = z3.Function(e.fresh('empty'), z3.IntSort(), z3.IntSort(),
                            z3.RealSort())
            kind = _np.dtype('f8' if dtype is None else unshim(dtype))
            if kind.kind != 'f':
                e.unsupported_("symbolic 2-D array of %s" % kind)
            return arrays.SMat(shape[0], shape[1], lambda r, c: SFloat(
                g(zi(r), zi(c)), FIN, True), kind.str[1:])
        if len(shape) != 1:
            e.unsupported_("symbolic N-D array")
        shape = shape[0]
    g = z3.Function(e.fresh('empty'), z3.IntSort(), z3.RealSort())
    return SVec(shape, lambda i: SFloat(g(zi(i)), FIN, True), 'empty')


def np_zeros(shape, dtype=None, **kw):
    v = np_empty(shape, dtype)
    v.f = lambda *i: SFloat(z3.RealVal(0), FIN, True)
    return v


def np_full(shape, x, **kw):
    v = np_empty(shape)
    v.f = lambda *i: x
    return v


def np_empty_like(x, **kw):
    return np_empty(x.n)


def np_ones(shape, **kw):
    return np_full(shape, to_float(1.0))


def np_array_equal(a, b):
    va, vb = as_vec(a), as_vec(b)
    if not E().fork(zi(va.n) == zi(vb.n)):
        return False
    return all_of(va == vb)


def np_copy(x):
    return x.copy()


def np_arange(*a, **k):
    r = b_range(*a)
    return SVec(r.n, r.at, 'range')


NP = {
    'where': np_where, 'clip': np_clip, 'minimum': np_minimum,
    'maximum': np_maximum, 'array': np_array, 'asarray': np_asarray,
    'fmin': np_minimum, 'fmax': np_maximum,
    'all': np_all, 'any': np_any, 'isnan': np_isnan, 'isinf': np_isinf,
    'isfinite': np_isfinite, 'abs': np_abs, 'absolute': np_abs,
    'sqrt': np_sqrt, 'round': np_round, 'rint': np_round, 'around': np_round,
    'floor': np_floor, 'ceil': np_ceil, 'square': np_square,
    'logical_and': np_logical_and, 'logical_or': np_logical_or,
    'logical_not': np_logical_not, 'sin': np_sin, 'exp': np_exp,
    'power': np_power, 'argsort': np_argsort, 'sort': np_sort,
    'argmin': np_argmin, 'argmax': np_argmax, 'min': np_min, 'max': np_max,
    'amin': np_min, 'amax': np_max,
    'empty': np_empty, 'zeros': np_zeros, 'ones': np_ones, 'full': np_full,
    'empty_like': np_empty_like, 'array_equal': np_array_equal,
    'copy': np_copy, 'arange': np_arange, 'isclose': np_isclose,
    'less': _op(lambda a, b: a < b), 'greater': _op(lambda a, b: a > b),
    'less_equal': _op(lambda a, b: a <= b),
    'greater_equal': _op(lambda a, b: a >= b),
    'add': _op(lambda a, b: a + b), 'subtract': _op(lambda a, b: a - b),
    'multiply': _op(lambda a, b: a * b), 'divide': _op(lambda a, b: a / b),
    'equal': _op(lambda a, b: a == b),
    'searchsorted': arrays.np_searchsorted,
    'flatnonzero': arrays.np_flatnonzero, 'var': arrays.np_var,
    'sum': arrays.np_sum, 'mean': arrays.np_mean,
    'column_stack': arrays.np_column_stack,
    'row_stack': arrays.np_row_stack, 'meshgrid': arrays.np_meshgrid,
    'choose': arrays.np_choose, 'save': arrays.np_save,
    'load': arrays.np_load,
    'float64': b_float, 'int64': b_int,
}


class NpFacade(object):
    """numpy as seen by the code under proof."""
    def __init__(self):
        self.random = NpRandomFacade()
        self._cache = {}
    def __getattr__(self, name):
        real = getattr(_np, name)
        model = NP.get(name)
        if model is None:
            if callable(real) and not isinstance(real, type):
                def guard(*a, **k):
                    if anysym(a, k):
                        E().unsupported_("numpy.%s on symbolic values" % name)
                    return real(*a, **k)
                return guard
            return real
        if isinstance(real, type):
            return TypeShim(real, lambda *a, **k: (
                model(*a, **k) if anysym(a, k) else real(*a, **k)))
        def wrapper(*a, **k):
            if anysym(a, k):
                return model(*a, **k)
            return real(*a, **k)
        return wrapper


# --- random ----------------------------------------------------------------
def engine_active():
    return Engine.current is not None


def fresh_real(name, lo=None, hi=None, lo_strict=False, hi_strict=False):
    e = E()
    r = z3.Real(e.fresh(name))
    if lo is not None:
        lo = to_float(lo).r
        e.add(r > lo if lo_strict else r >= lo)
    if hi is not None:
        hi = to_float(hi).r
        e.add(r < hi if hi_strict else r <= hi)
    return SFloat(r)


def drawn(kind, x, *args):
    """For contracts about likelihoods."""
    e = E()
    e.ghost.setdefault('draws', []).append((kind, x, args, len(e.branch)))


class RandomFacade(object):
    """random as seen by the code under proof: any permitted outcome."""
    def __getattr__(self, name):
        return getattr(_random, name)

    def random(self):
        if not engine_active(): return _random.random()
        used('random.random')
        x = fresh_real('rnd_random', 0, 1, hi_strict=True,
                       lo_strict=bool(E().ghost.get('uniform_open')))
        E().tape.append(('random', x))
        drawn('random', x, 0, 1)
        return x

    def uniform(self, a, b):
        if not engine_active(): return _random.uniform(a, b)
        used('random.uniform')
        e = E()
        fa, fb = to_float(a), to_float(b)
        r = z3.Real(e.fresh('rnd_uniform'))
        e.assume(z3.Or(z3.And(fa.r <= r, r <= fb.r),
                       z3.And(fb.r <= r, r <= fa.r)))
        if e.ghost.get('uniform_open') and not is_sym(a) and not is_sym(b) \
           and a != b:
            e.add(z3.And(r != fa.r, r != fb.r))
        x = SFloat(r)
        e.tape.append(('uniform', x))
        drawn('uniform', x, a, b)
        return x

    def triangular(self, low=0.0, high=1.0, mode=None):
        if not engine_active(): return _random.triangular(low, high, mode)
        used('random.triangular')
        e = E()
        fl, fh = to_float(low), to_float(high)
        r = z3.Real(e.fresh('rnd_triangular'))
        if e.fork(fl.r == fh.r):
            e.add(r == fl.r)
        else:
            e.assume(z3.And(fl.r <= r, r < fh.r))
        x = SFloat(r)
        e.tape.append(('triangular', x))
        drawn('triangular', x, low, high, mode)
        return x

    def randint(self, a, b):
        if not engine_active(): return _random.randint(a, b)
        used('random.randint')
        e = E()
        r = z3.Int(e.fresh('rnd_randint'))
        if e.fork(zi(a) > zi(b)):
            raise ValueError("empty range for randrange()")
        e.add(z3.And(zi(a) <= r, r <= zi(b)))
        x = SInt(r)
        interesting(r)
        e.tape.append(('randint', x))
        return x

    def randrange(self, a, b=None, step=1):
        if not engine_active(): return _random.randrange(a, b, step)
        if b is None:
            a, b = 0, a
        if step != 1:
            E().unsupported_("randrange with step")
        return self.randint(a, b - 1)

    def sample(self, K, N):
        if not engine_active(): return _random.sample(K, N)
        used('random.sample')
        e = E()
        n = length_of(K)
        if not isinstance(N, int):
            N = N.__index__()
        if e.fork(zi(n) < N) if not isinstance(n, int) else n < N:
            raise ValueError("Sample larger than population or is negative")
        idx = []
        for j in range(N):
            i = z3.Int(e.fresh('rnd_sample'))
            e.add(z3.And(i >= 0, i < zi(n)))
            for i2 in idx:
                e.add(i != i2)
            idx.append(i)
        e.tape.append(('sample', [SInt(i) for i in idx]))
        e.ghost.setdefault('sampled', []).append((K, N))
        return [item_of(K, i) for i in idx]

    def choice(self, K):
        if not engine_active(): return _random.choice(K)
        return self.sample(K, 1)[0]

    def shuffle(self, x):
        if not engine_active(): return _random.shuffle(x)
        E().unsupported_("random.shuffle")


class NpRandomFacade(object):
    def __getattr__(self, name):
        return getattr(_np.random, name)

    def random_sample(self, size=None):
        if not engine_active() or size is not None:
            return _np.random.random_sample(size)
        used('np.random.random_sample')
        x = fresh_real('rnd_np', 0, 1, hi_strict=True)
        E().tape.append(('np_random', x))
        return x

    random = rand = random_sample

    def choice(self, seq, size=None, **kw):
        if not anysym((seq, size)) and not engine_active():
            return _np.random.choice(seq, size, **kw)
        if kw or size is None:
            E().unsupported_("np.random.choice")
        return arrays.random_choice(seq, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if not engine_active():
            return _np.random.uniform(low, high, size)
        if size is None:
            x = fresh_real('rnd_np', low, high)
            E().tape.append(('np_random', x))
            return x
        h = E().ghost.get('lhs')
        if h:
            return h(size)
        E().unsupported_("np.random.uniform with size")
