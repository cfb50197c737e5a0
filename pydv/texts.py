"""
pydv.texts: texts as strings of the solver, and regular expressions matched
against them.
"""
import re

import z3

from .engine import E
from .values import *
from .values import zi, zb

STR = z3.StringSort()
TEXT_OF = {}


def fn(name, *sorts):
    """An uninterpreted function on texts."""
    if name not in TEXT_OF:
        TEXT_OF[name] = z3.Function('text.' + name, *sorts)
    return TEXT_OF[name]


def lower(z):
    return fn('lower', STR, STR)(z)


def is_digits(z):
    """str.isdigit(): true at least of the ASCII ones."""
    e = E()
    p = fn('isdigit', STR, z3.BoolSort())(z)
    e.add(z3.Implies(z3.InRe(z, z3.Plus(z3.Range('0', '9'))), p))
    e.add(z3.Implies(p, z3.Length(z) > 0))
    return p


def is_integer(z):
    """Can int() take it?"""
    p = fn('isint', STR, z3.BoolSort())(z)
    E().add(z3.Implies(z3.InRe(z, z3.Plus(z3.Range('0', '9'))), p))
    return p


def integer(z):
    return fn('int', STR, z3.IntSort())(z)


def literals():
    """Decimal literals, all of which float() takes."""
    d = z3.Range('0', '9')
    sign = z3.Option(z3.Union(z3.Re('+'), z3.Re('-')))
    return z3.Concat(sign, z3.Union(
        z3.Concat(z3.Plus(d), z3.Option(z3.Concat(z3.Re('.'), z3.Star(d)))),
        z3.Concat(z3.Re('.'), z3.Plus(d))), z3.Option(z3.Concat(
            z3.Union(z3.Re('e'), z3.Re('E')), sign, z3.Plus(d))))


def is_number(z):
    """Does float() take it?"""
    p = fn('isfloat', STR, z3.BoolSort())(z)
    E().add(z3.Implies(z3.InRe(z, literals()), p))
    return p


def number(z):
    """What float() gives: any number, infinite ones and NaN included."""
    t = fn('float_t', STR, z3.IntSort())(z)
    E().add(z3.And(t >= 0, t <= 3))
    return SFloat(fn('float', STR, z3.RealSort())(z), t)


class SStr(Sym):
    """
    A text.  solid: there is no white space in it.
    """
    __slots__ = ('z', 'solid')
    dv_types = (str,)

    def __init__(self, z, solid=False):
        self.z, self.solid = z, solid

    def _other(self, x):
        if isinstance(x, SStr):
            return x.z
        if isinstance(x, str):
            return z3.StringVal(x)

    def __eq__(self, x):
        z = self._other(x)
        return False if z is None else SBool(self.z == z)

    def __ne__(self, x):
        z = self._other(x)
        return True if z is None else SBool(self.z != z)

    def __bool__(self):
        return E().fork(z3.Length(self.z) > 0)

    def __dv_len__(self):
        return SInt(z3.Length(self.z))

    def __contains__(self, x):
        return E().fork(z3.Contains(self.z, self._other(x)))

    def startswith(self, x):
        return E().fork(z3.PrefixOf(self._other(x), self.z))

    def endswith(self, x):
        return E().fork(z3.SuffixOf(self._other(x), self.z))

    def lower(self):
        return SStr(lower(self.z), self.solid)

    def isdigit(self):
        return E().fork(is_digits(self.z))

    def _strip(self, how, chars):
        if chars is None and self.solid:
            return self
        return SStr(fn('%s(%r)' % (how, chars), STR, STR)(self.z), self.solid)

    def strip(self, chars=None): return self._strip('strip', chars)
    def rstrip(self, chars=None): return self._strip('rstrip', chars)
    def lstrip(self, chars=None): return self._strip('lstrip', chars)

    def replace(self, a, b):
        return SStr(fn('replace(%r,%r)' % (a, b), STR, STR)(self.z),
                    self.solid and not any(x.isspace() for x in b))

    def __float__(self):
        if not E().fork(is_number(self.z)):
            raise ValueError("could not convert string to float")
        return number(self.z)

    def __dv_int__(self):
        if not E().fork(is_integer(self.z)):
            raise ValueError("invalid literal for int() with base 10")
        return SInt(integer(self.z))

    def __iter__(self):
        E().unsupported_("native iteration over a text")

    def __format__(self, spec):
        return "<text>"

    __hash__ = None


# --- regular expressions -----------------------------------------------------
class SRegex(object):
    """A compiled pattern that can be applied to symbolic texts as well."""
    def __init__(self, real):
        self.real = real
    def __getattr__(self, name):
        return getattr(self.real, name)
    def match(self, x, *a):
        return self._apply('match', x, a)
    def fullmatch(self, x, *a):
        return self._apply('fullmatch', x, a)
    def _apply(self, how, x, a):
        if not isinstance(x, SStr):
            return getattr(self.real, how)(x, *a)
        if a:
            E().unsupported_("part of a text matched")
        from .models import used
        used('re.match')
        if E().fork(z3.InRe(x.z, language(self.real, how))):
            return SMatch()


class SMatch(Sym):
    def __bool__(self):
        return True
    def __getattr__(self, name):
        E().unsupported_("groups of a match")


def language(p, how):
    """All texts that match, as a regular language."""
    import re._parser as sre
    if p.flags & ~(re.UNICODE | re.ASCII):
        E().unsupported_("flags of a regular expression")
    items = list(sre.parse(p.pattern, p.flags & ~re.UNICODE))
    anything = z3.Full(z3.ReSort(STR))
    tail = anything if how == 'match' else None
    if items and str(items[-1][0]) == 'AT' and str(items[-1][1]) in (
            'AT_END', 'AT_END_STRING'):
        tail = z3.Option(z3.Re('\n')) if str(
            items[-1][1]) == 'AT_END' and how == 'match' else None
        items.pop()
    elif items and str(items[-1][0]) == 'BRANCH' and how == 'match' and any(
            str(x[0]) == 'AT' for b in items[-1][1][1] for x in b):
        E().unsupported_("end inside a regular expression")
    r = translate(items)
    return r if tail is None else z3.Concat(r, tail)


def translate(items):
    parts = [translate_one(str(op), av) for op, av in items]
    if not parts:
        return z3.Re('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def translate_one(op, av):
    if op == 'LITERAL':
        return z3.Re(chr(av))
    if op == 'IN':
        alts = []
        for kind, x in av:
            kind = str(kind)
            if kind == 'LITERAL':
                alts.append(z3.Re(chr(x)))
            elif kind == 'RANGE':
                alts.append(z3.Range(chr(x[0]), chr(x[1])))
            else:
                E().unsupported_("regular expression with %s" % kind)
        return alts[0] if len(alts) == 1 else z3.Union(*alts)
    if op in ('MAX_REPEAT', 'MIN_REPEAT'):
        lo, hi, sub = av
        r = translate(list(sub))
        if str(hi) == 'MAXREPEAT':
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if op == 'SUBPATTERN':
        if av[1] or av[2]:
            E().unsupported_("flags inside a regular expression")
        return translate(list(av[3]))
    if op == 'BRANCH':
        alts = [translate(list(x)) for x in av[1]]
        return z3.Union(*alts) if len(alts) > 1 else alts[0]
    E().unsupported_("regular expression with %s" % op)


def wrap_patterns(dv, *owners):
    """Makes compiled patterns found there take symbolic texts."""
    for owner in owners:
        for name, x in list(vars(owner).items()):
            if isinstance(x, re.Pattern):
                dv.patch(owner, name, SRegex(x))
