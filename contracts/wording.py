"""
Reading of specifications for texts of any length: values, names, lines,
nested dicts and queries.
"""
import z3

from pydv import engine, loops, texts, values as V
from .common import *

INT, STR, BOOL = z3.IntSort(), z3.StringSort(), z3.BoolSort()
zi = V.zi


def digits():
    return z3.Plus(z3.Range('0', '9'))


def numbers():
    """What a number looks like."""
    sign = z3.Option(z3.Union(z3.Re('+'), z3.Re('-')))
    plain = z3.Union(
        digits(), z3.Concat(digits(), z3.Re('.')),
        z3.Concat(z3.Star(z3.Range('0', '9')), z3.Re('.'), digits()))
    return z3.Concat(sign, plain, z3.Option(z3.Concat(
        z3.Re('e'), sign, digits())))


def parseValue(dv):
    """none/true/false, numbers, other words: any text without white space."""
    S = dv.mod('specs')
    texts.wrap_patterns(dv, S, S.SpecsLoader)
    ld = dv.bare(S.SpecsLoader)
    t = texts.SStr(z3.String('value'), True)
    low = texts.lower(t.z)
    dv.e.assume(z3.InRe(low, z3.Star(z3.Union(
        z3.Range('\x00', '\x08'), z3.Range('\x0e', '\x1f'),
        z3.Range('!', chr(0x2ffff))))))
    out = dv.call('value', ld.parseValue, t)
    ck = lambda name, cond: dv.check(name, V.SBool(cond))
    words = {None: 'none', True: 'true', False: 'false'}
    is_number = z3.InRe(low, numbers())
    if out is None or isinstance(out, bool):
        ck('that-constant', low == z3.StringVal(words[out]))
        dv.reach('constant')
    elif isinstance(out, V.SFloat):
        ck('a-number', is_number)
        def like(x):
            return z3.And(out.r == x.r, out.t == x.t)
        ck('its-value', z3.Or(like(texts.number(low)),
                              like(texts.number(t.z))))
        dv.reach('number')
    elif isinstance(out, texts.SStr):
        ck('not-a-constant', z3.And([
            low != z3.StringVal(x) for x in words.values()]))
        ck('not-a-number', z3.Not(is_number))
        ck('lower-case', out.z == low)
        dv.reach('word')
    else:
        dv.skip("value given as %s" % type(out).__name__)
    dv.reach('end')


class Part(V.Sym):
    """One part of a key: an integer or a text, according to its z."""
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    @property
    def text(self):
        return fn('text', STR, BOOL)(self.z)
    @property
    def dv_types(self):
        return (str,) if V.E().fork(self.text) else (int,)
    def __bool__(self):
        return not V.E().fork(fn('empty', STR, BOOL)(self.z))
    def __eq__(self, other):
        return isinstance(other, Part) and V.SBool(self.z == other.z)
    def __format__(self, spec):
        return '<part>'
    def __dv_getattr__(self, obj):
        f = getattr(type(obj), 'dv_attribute', None) or getattr(
            obj, 'dv_attribute', None)
        if f is None:
            V.E().unsupported_("attribute by symbolic name")
        return f(self)
    def __dv_setattr__(self, obj, value):
        obj.dv_stored(self, value)
    __hash__ = None


def fn(name, *sorts):
    return texts.fn('spec.' + name, *sorts)


class Key(V.Sym):
    """
    The first word of a line: any number of parts with colons in between,
    maybe with quotes.
    """
    def __init__(self, n, part, quotes=True):
        self.n, self.part, self.quotes = n, part, quotes
    dv_types = (str,)
    def replace(self, a, b):
        if (a, b) != ("'", ""):
            V.E().unsupported_("replacement in a key")
        return Key(self.n, self.part, False)
    def strip(self, *a):
        if a:
            V.E().unsupported_("key stripped")
        return self
    def split(self, sep=None):
        if sep != ':':
            V.E().unsupported_("key split at %r" % (sep,))
        return V.SPure(self.n, lambda z: texts.SStr(
            fn('unquoted', STR, STR)(self.part(z)) if not self.quotes
            else self.part(z), True), 'parts')


def parseName(dv):
    """Any number of parts, those of digits made integers."""
    S = dv.mod('specs')
    ld = dv.bare(S.SpecsLoader)
    n = zi(dv.size('n', 1))
    T = zi(dv.size('T', 0))
    part = z3.Function('part', INT, STR)
    want = lambda z: fn('unquoted', STR, STR)(part(z))
    word = z3.Function('word', INT, STR)
    key = Key(n, part)
    left = V.SPure(z3.simplify(T + 1), lambda z: key if z.eq(
        z3.IntVal(0)) else texts.SStr(word(z), True), 'tokens')
    state = {}
    def right(x, z):
        t = want(z)
        if isinstance(x, texts.SStr):
            return z3.And(x.z == t, z3.Not(texts.is_digits(t)))
        if isinstance(x, V.SInt):
            return z3.And(x.z == texts.integer(t), texts.is_digits(t))
        return z3.BoolVal(False)
    def filled(locs):
        found = [x for x in locs.values() if isinstance(x, V.GList)]
        return found[0] if len(found) == 1 else dv.skip(
            "parts collected in another way")
    def inv(L, idx, locs):
        out = filled(locs)
        c = [('one-for-each', V.SBool(
            zi(loops.length_of(out)) == zi(idx)))]
        if L.stage == 'preserve':
            c.append(('integer-if-digits', V.SBool(right(out[-1], L.idx))))
        return c
    def havoc(L, idx, locs):
        state['at'] = L.idx if L.phase == 1 else None
        def made(z):
            t = want(z)
            if V.E().fork(texts.is_digits(t)):
                return V.SInt(texts.integer(t))
            return texts.SStr(t, True)
        filled(locs).become(V.SPure(zi(idx), made, 'made'))
    dv.loopspec(loops.Spec(tag='parts', name='parts', inv=inv, havoc=havoc,
                           allow=lambda o, what: isinstance(o, V.GList)))
    try:
        out = ld.parseName(left)
    except ValueError:
        t = want(state['at'])
        dv.check('refused-only-if-no-integer', V.SBool(z3.And(
            texts.is_digits(t), z3.Not(texts.is_integer(t)))))
        return
    dv.check('each-part', V.SBool(zi(loops.length_of(out)) == n))
    j = zi(dv.int('j', 0))
    dv.e.assume(j < n)
    dv.check('parts-in-order', V.SBool(right(loops.item_of(out, j), j)))
    i = zi(dv.int('i', 0))
    dv.check('word-taken', V.SBool(zi(left.n) == T))
    dv.check('other-words-left', V.SBool(z3.Implies(
        i < T, loops.item_of(left, i).z == word(i + 1))) if
        arrays_proves(T > 0) else True)
    dv.reach('end')


def arrays_proves(cond):
    from pydv import arrays
    return arrays.proves(cond)


# --- lines -------------------------------------------------------------------
class Line(V.Sym):
    """A line as read: something, then maybe a comment."""
    dv_types = (str,)
    def __init__(self, file, z):
        self.file, self.z = file, z
    def split(self, sep=None, *a):
        if sep != '#':
            V.E().unsupported_("line split at %r" % (sep,))
        return Pieces(self)
    def partition(self, sep):
        return self.split(sep)


class Pieces(V.Sym):
    def __init__(self, line):
        self.line = line
    def __getitem__(self, k):
        if k != 0:
            V.E().unsupported_("what a comment says")
        return Content(self.line.file, self.line.z)


class Content(V.Sym):
    """What comes before the comment, with white space around."""
    dv_types = (str,)
    def __init__(self, file, z):
        self.file, self.z = file, z
    def strip(self, *a):
        return Stripped(self.file, self.z)
    def split(self, sep=None):
        return Stripped(self.file, self.z).split(sep)


class Stripped(V.Sym):
    dv_types = (str,)
    def __init__(self, file, z):
        self.file, self.z = file, z
    def __bool__(self):
        return not V.E().fork(self.file.blank(self.z))
    def startswith(self, x):
        if x != '--':
            V.E().unsupported_("line starting with %r" % (x,))
        return V.E().fork(self.file.rule(self.z))
    def strip(self):
        return self
    def split(self, sep=None):
        if sep is not None:
            V.E().unsupported_("line split at %r" % (sep,))
        return self.file.tokens(self.z)
    def __format__(self, spec):
        return '<line>'


class File(V.Sym):
    """Any number of lines, each with any number of words."""
    tag = 'lines'
    def __init__(self, dv, n):
        self.n = n
        self.blank_ = z3.Function('blank', INT, BOOL)
        self.rule_ = z3.Function('rule', INT, BOOL)
        self.unnamed = z3.Function('unnamed', INT, BOOL)
        self.count = z3.Function('words', INT, INT)
        self.word = z3.Function('word', INT, INT, STR)
        self.nparts = z3.Function('nparts', INT, INT)
        self.part = z3.Function('part', INT, INT, STR)
    def __dv_len__(self):
        return V.SInt(self.n)
    def at(self, z):
        z = z3.simplify(zi(z))
        V.E().add(z3.And(
            z3.Not(z3.And(self.blank_(z), self.rule_(z))),
            (self.count(z) == 0) == self.blank_(z), self.count(z) >= 0,
            self.nparts(z) >= 1))
        return Line(self, z)
    def blank(self, z):
        return self.blank_(z)
    def rule(self, z):
        return self.rule_(z)
    def tokens(self, z):
        x = V.SPure(self.count(z), lambda j: texts.SStr(
            self.word(z, j), True), 'words')
        V.E().ghost.setdefault('token lists', []).append((x, z))
        return x


class Recorder(Standin):
    """Takes down what is asked of the specs being built."""
    def __init__(self, dv):
        self.dv, self.events = dv, []
    def dict_start(self, name):
        self.events.append(('start', name))
    def dict_add(self, value, *keys):
        self.events.append(('entry', value, loops.varargs(keys)))
    def dict_done(self):
        self.events.append(('done',))
    def add(self, name, value):
        self.events.append(('add', name, value))


class Value(V.Sym):
    """What a word means."""
    def __init__(self, z):
        self.z = z
    def __eq__(self, other):
        return isinstance(other, Value) and V.SBool(self.z == other.z)
    __hash__ = None


def read(dv):
    """
    Line by line: what a line does depends on whether a dict was named or
    begun before.
    """
    S = dv.mod('specs')
    ld = dv.bare(S.SpecsLoader)
    s = Recorder(dv)
    n = zi(dv.size('n', 0))
    fh = File(dv, n)
    meaning = lambda z: fn('meaning', STR, STR)(z)
    bare = lambda t: texts.SStr(t, True).rstrip(',').z
    def parseName(self, left):
        """According to its contract."""
        for x, z in dv.e.ghost.get('token lists', []):
            if x is left:
                break
        else:
            dv.skip("name taken from something else")
        if not arrays_proves(zi(left.n) == fh.count(z)):
            dv.skip("name not taken from the first word")
        left.pop(0)
        if V.E().fork(fh.unnamed(z)):
            raise ValueError("invalid name")
        return V.SPure(fh.nparts(z), lambda j: Part(fh.part(z, j)), 'key')
    dv.patch(S.SpecsLoader, 'parseName', parseName)
    dv.patch(S.SpecsLoader, 'parseValue', lambda self, x: Value(
        meaning(x.z)))

    # What a line does, by the documentation
    def step(state, name, z):
        """Returns the state next, its name and what is to be done."""
        fork = V.E().fork
        if fork(fh.blank_(z)):
            return state, name, []
        if fork(fh.rule_(z)):
            return {'top': ('refused', None, []),
                    'named': ('inside', name, ['start']),
                    'inside': ('top', None, ['done'])}[state]
        if state == 'named' or fork(fh.unnamed(z)):
            return 'refused', None, []
        first = Part(fh.part(z, 0))
        count = fh.count(z)
        if state == 'top':
            if fork(fh.nparts(z) > 1) or not fork(first.text) or \
               not first:
                return 'refused', None, []
            if fork(count == 1):
                return 'named', first, []
        skipped = 1
        if fork(count > 1) and fork(fh.word(z, 1) == z3.StringVal('=')):
            skipped = 2
        if fork(count <= skipped):
            return 'refused', None, []
        return state, name, ['entry' if state == 'inside' else 'add', skipped]
    now = {}
    NAME = Part(z3.String('dict name'))
    dv.e.assume(z3.And(NAME.text, z3.Not(fn('empty', STR, BOOL)(NAME.z))))

    def slots(L):
        """Where the loop remembers its state."""
        flag = [x for x in L.bnames if L.pre.get(x, 0) is False]
        name = [x for x in L.bnames if L.pre.get(x, 0) is None]
        if len(flag) != 1 or len(name) != 1:
            dv.skip("state kept in another way")
        return flag[0], name[0]
    def in_state(state, name, flag, held):
        if state == 'top':
            return flag is False and held is None
        if not isinstance(held, Part) or flag is not (state == 'inside'):
            return False
        return V.SBool(held.z == name.z)
    j = zi(dv.int('any value', 0))
    def right_value(x, z, skipped):
        count = fh.count(z) - skipped
        at = lambda k: meaning(bare(fh.word(z, k + skipped)))
        if isinstance(x, Value):
            return z3.And(count == 1, x.z == at(0))
        if not isinstance(V.plain(x), V.SSeq):
            return z3.BoolVal(False)
        y = loops.item_of(x, j)
        return z3.And(
            count > 1, zi(loops.length_of(x)) == count, z3.Implies(
                j < count, y.z == at(j)))
    i = zi(dv.int('any part', 0))
    def right_events(z, name, events):
        kind = events[0] if events else None
        got = s.events
        if not events:
            return not got
        if len(got) != 1 or got[0][0] != kind:
            return False
        got = got[0]
        if kind == 'start':
            return V.SBool(got[1].z == name.z) if isinstance(
                got[1], Part) else False
        if kind == 'done':
            return True
        if kind == 'add':
            return V.SBool(z3.And(
                got[1].z == fh.part(z, 0), right_value(
                    got[2], z, events[1]))) if isinstance(
                        got[1], Part) else False
        keys = got[2]
        return V.SBool(z3.And(
            zi(loops.length_of(keys)) == fh.nparts(z), z3.Implies(
                i < fh.nparts(z), loops.item_of(keys, i).z ==
                fh.part(z, i)), right_value(got[1], z, events[1])))
    def inv(L, idx, locs):
        flag, name = slots(L)
        if L.stage == 'entry':
            return [('nothing-yet', not s.events),
                    ('at-top', in_state('top', None, locs[flag],
                                        locs[name]))]
        if L.stage == 'assume':
            return []
        state, nm, events = step(now['state'], NAME, L.idx)
        return [('accepted-if-well-formed', state != 'refused'),
                ('state-follows', state != 'refused' and in_state(
                    state, nm, locs[flag], locs[name])),
                ('does-what-it-says', right_events(L.idx, NAME, events))]
    def havoc(L, idx, locs):
        flag, name = slots(L)
        now['state'] = dv.choose('state', ['top', 'named', 'inside'])
        now['line'] = L.idx if L.phase == 1 else None
        out = {flag: now['state'] == 'inside',
               name: None if now['state'] == 'top' else NAME}
        if L.phase == 2:
            for x in L.tnames:
                if isinstance(L.pre.get(x), int):
                    # (the number of the last line)
                    out[x] = V.SInt(z3.simplify(n - 1))
        return out
    dv.loopspec(loops.Spec(
        tag=lambda it, loc: loops.tag_of(it) in ('lines', 'enumerate:lines'),
        name='lines', inv=inv, havoc=havoc,
        allow=lambda o, what: isinstance(o, V.GList) or o is s.events))

    # The words of a line
    def filled(locs):
        found = [x for x in locs.values() if isinstance(x, V.GList) and (
            x.sym is None or x.tag == 'meant')]
        return found[0] if len(found) == 1 else dv.skip(
            "values collected in another way")
    def word_at(L, k):
        x = L.it.at(k)
        return meaning(bare(x.z))
    def winv(L, idx, locs):
        out = filled(locs)
        c = [('one-for-each', V.SBool(
            zi(loops.length_of(out)) == zi(idx)))]
        if L.stage == 'preserve':
            x = out[-1]
            c.append(('what-the-word-means', V.SBool(
                x.z == word_at(L, L.idx)) if isinstance(x, Value) else
                False))
        return c
    def whavoc(L, idx, locs):
        filled(locs).become(V.SPure(zi(idx), lambda k: Value(
            word_at(L, k)), 'meant'))
    dv.loopspec(loops.Spec(
        tag='words', name='words', inv=winv, havoc=whavoc,
        allow=lambda o, what: isinstance(o, V.GList)))
    try:
        out = ld.read(fh, s)
    except ValueError:
        dv.e.alive()
        if now['line'] is None:
            dv.check('refused-at-end-only-if-unfinished',
                     now['state'] != 'top')
        else:
            state, _, _ = step(now['state'], NAME, now['line'])
            dv.check('refused-only-if-malformed', state == 'refused')
            dv.check('nothing-done-with-it', not s.events)
        dv.reach('refused')
        dv.reach('end')
        return
    dv.check('finished-only-if-complete', now['state'] == 'top')
    dv.check('number-of-lines', V.SBool(zi(out) == n))
    dv.reach('end')


# --- nested dicts ------------------------------------------------------------
class Node(V.Sym):
    """A dict with any contents, as far as one key is concerned."""
    def __init__(self, dv):
        self.dv, self.key, self.item, self.writes = dv, None, None, []
        self.child = None
    dv_types = (dict,)
    def _look(self, key):
        """Is there anything, and what?"""
        if self.key is None:
            self.key = key
            kind = self.dv.choose('there', ['nothing', 'value', 'dict'])
            self.item = {'nothing': None, 'value': Leaf(),
                         'dict': self.child}[kind]
            if kind == 'dict':
                self.item = Node(self.dv)
        elif not (key is self.key or V.E().fork(V.zb(key == self.key))):
            self.dv.skip("another key looked at")
        return self.item
    def get(self, key, default=None):
        x = self._look(key)
        return default if x is None else x
    def __contains__(self, key):
        return self._look(key) is not None
    def __getitem__(self, key):
        x = self._look(key)
        if x is None:
            raise KeyError(key)
        return x
    def setdefault(self, key, value):
        x = self._look(key)
        if x is None:
            self[key] = x = value
        return x
    def __setitem__(self, key, value):
        self._look(key)
        self.writes.append((key, value))
        self.item = value
    def __len__(self):
        self.dv.skip("number of entries")
    __hash__ = None


class Leaf(V.Sym):
    dv_types = (float,)


def stacking(dv):
    """
    Adding under any number of keys: each but the last leads to a dict, there
    or made then, the last to where the value is stored.
    """
    S = dv.mod('specs')
    ds = dv.bare(S.DictStacker)
    ds.name = 'any'
    root = ds.dct = Node(dv)
    m = zi(dv.size('m', 1))
    part = z3.Function('part', INT, STR)
    keys = V.SPure(m, lambda z: Part(part(z)), 'keys')
    value = object()
    now = {}
    def hook(loop, frame):
        locs = frame.f_locals
        node = [k for k in loop.names if isinstance(
            locs.get(k), (Node, dict))]
        left = [v for k, v in locs.items() if isinstance(v, V.SPure)]
        if len(node) != 1 or len(left) != 1:
            dv.skip("way down kept track of differently")
        left = left[0]
        if loop.count == 1:
            dv.check('starts-at-the-top', locs[node[0]] is root)
            dv.check('with-all-keys', V.SBool(zi(left.n) == m))
            # After going down by any number of keys
            d = z3.Int(dv.e.fresh('depth'))
            dv.e.assume(z3.And(d >= 0, d < m))
            now['d'], now['node'] = d, Node(dv)
            left.make = lambda z: Part(part(z3.simplify(zi(z) + d)))
            left.memo, left.n = [], z3.simplify(m - d)
            dv.e.abstract.append('way down')
            out = {k: locs.get(k, loops.UNBOUND) for k in loop.names}
            out[node[0]] = now['node']
            return out
        d, at = now['d'], now['node']
        key = Part(part(d))
        dv.check('goes-on-with-keys-left-only', V.SBool(m - d > 1))
        dv.check('one-key-used', V.SBool(zi(left.n) == m - d - 1))
        j = z3.Int(dv.e.fresh('j'))
        dv.e.assume(z3.And(j >= 0, j < m - d - 1))
        dv.check('next-keys-left', V.SBool(
            left.at(j).z == part(j + d + 1)))
        dv.check('down-by-that-key', V.SBool(at.key.z == key.z) if
                 at.key is not None else False)
        there = locs[node[0]]
        dv.check('to-what-is-there', at.item is there)
        if at.writes:
            dv.check('made-if-missing', len(at.writes) == 1 and
                     there == {} and type(there) is dict)
        else:
            dv.check('there-before', isinstance(there, Node))
        dv.reach('down')
        dv.e.kill(engine.Dead("one step further down"))
    dv.e.ghost['whilehook'] = hook
    try:
        ds.add(value, keys)
    except ValueError:
        dv.e.alive()
        at, more = now['node'], V.E().fork(m - now['d'] > 1)
        dv.check('refused-only-if-both', at.item is not None and
                 isinstance(at.item, Node) != more)
        dv.check('nothing-changed', not at.writes)
        dv.reach('refused')
        dv.reach('end')
        return
    at = now['node']
    dv.check('ends-with-the-last-key', V.SBool(m - now['d'] == 1))
    dv.check('stored-there', len(at.writes) == 1 and
             at.writes[0][1] is value)
    dv.check('by-that-key', V.SBool(at.writes[0][0].z == part(now['d'])) if
             at.writes else False)
    name, dct = ds.done()
    dv.check('done', name == 'any' and dct is root)
    dv.reach('end')


def new_stack(dv):
    """A new one is empty, and the specs hand on what they are told."""
    S = dv.mod('specs')
    ds = S.DictStacker('any')
    dv.check('empty', ds.done() == ('any', {}))
    s = S.Specs()
    name = Part(z3.String('name'))
    stored, added = [], []
    dv.patch(S.Specs, 'dv_stored', lambda self, name, value: stored.append(
        (name, value)))
    class Stack(Standin):
        def __init__(self, name):
            self.name, self.dct = name, {}
        def add(self, value, keys):
            added.append((self, value, keys))
        def done(self):
            return self.name, self.dct
    dv.patch(S, 'DictStacker', Stack)
    m = zi(dv.size('m', 1))
    part = z3.Function('part', INT, STR)
    keys = V.SPure(m, lambda z: Part(part(z)), 'keys')
    value, other = object(), object()
    # An entry outside dicts
    s.add(name, other)
    dv.check('entry', len(stored) == 1 and stored[0][0] is name and
             stored[0][1] is other)
    # A dict
    s.dict_start(name)
    s.dict_add(value, loops.Star(keys))
    dv.check('entry-of-dict', len(added) == 1 and added[0][1] is value and
             isinstance(added[0][0], Stack))
    got = added[0][2]
    j = zi(dv.int('j', 0))
    dv.e.assume(j < m)
    dv.check('with-all-keys', V.SBool(z3.And(
        zi(loops.length_of(got)) == m, loops.item_of(got, j).z == part(j))))
    dv.check('nothing-else-yet', len(stored) == 1)
    s.dict_done()
    dv.check('dict-stored', len(stored) == 2 and stored[1][0] is name and
             stored[1][1] is added[0][0].dct)
    # Another
    other = Part(z3.String('other'))
    s.dict_start(other)
    s.dict_done()
    dv.check('next-dict-apart', len(stored) == 3 and stored[2][0] is other and
             stored[2][1] == {} and stored[2][1] is not stored[1][1])
    dv.reach('end')


def get(dv):
    """Down through dicts as far as there are names."""
    S = dv.mod('specs')
    real = S.Specs.get
    m = zi(dv.size('m', 1))
    part = z3.Function('part', INT, STR)
    names = V.SPure(m, lambda z: Part(part(z)), 'names')
    asked, answer = [], object()
    def again(self, *names, **kw):
        # (according to this contract)
        if kw.get('dct') == {}:
            return {}
        asked.append((self, loops.varargs(names), kw))
        return answer
    dv.patch(S.Specs, 'get', again)
    s = S.Specs()
    inner = dv.choose('inside', [False, True])
    node = Node(dv)
    def attribute(self_or_name, *a):
        name = a[0] if a else self_or_name
        x = node._look(name)
        if x is None:
            raise AttributeError(name)
        return x
    dv.patch(S.Specs, 'dv_attribute', lambda name: attribute(name))
    kw = {'dct': node} if inner else {}
    out = real(s, loops.Star(names), **kw)
    dv.check('first-name-looked-up', V.SBool(node.key.z == part(0)) if
             node.key is not None else False)
    if node.item is None:
        dv.check('nothing-there', isinstance(out, dict) and out == {})
        dv.check('not-followed', not asked)
    elif isinstance(node.item, Node) and V.E().fork(m > 1):
        dv.check('followed', out is answer and len(asked) == 1)
        j = zi(dv.int('j', 0))
        dv.e.assume(j < m - 1)
        who, rest, kw = asked[0]
        dv.check('by-the-other-names', V.SBool(z3.And(
            zi(loops.length_of(rest)) == m - 1,
            loops.item_of(rest, j).z == part(j + 1))))
        dv.check('from-there', who is s and list(kw) == ['dct'] and
                 kw['dct'] is node.item)
    else:
        dv.check('what-is-there', out is node.item and not asked)
    dv.check('nothing-changed', not node.writes)
    dv.reach('end')


def load(dv):
    """The file's lines are read into new specs, which are returned."""
    S = dv.mod('specs')
    ld = S.SpecsLoader('somewhere')
    there = dv.choose('there', [True, False])
    opened, reads = [], []
    class Handle(Standin):
        closed = False
        def __enter__(self): return self
        def __exit__(self, *exc): self.closed = True
    def open_(path, *a, **k):
        dv.check('that-file', path == 'somewhere' and (
            not a or a[0] in ('r', 'rt')))
        if not there:
            raise FileNotFoundError(path)
        opened.append(Handle())
        return opened[-1]
    dv.patch(S, 'open', open_)
    class Path(object):
        exists = staticmethod(lambda path: there and path == 'somewhere')
        isfile = exists
        def __getattr__(self, name):
            dv.skip("os.path.%s" % name)
    class Os(object):
        path = Path()
        def __getattr__(self, name):
            dv.skip("os.%s" % name)
    dv.patch(S, 'os', Os())
    lines = dv.int('lines', 0)
    def read(self, fh, s):
        reads.append((fh, s, fh.closed, dict(vars(s))))
        if dv.choose('malformed', [False, True]):
            raise ValueError("malformed")
        return lines
    dv.patch(S.SpecsLoader, 'read', read)
    try:
        out = ld()
    except OSError:
        dv.check('not-found', not there and not reads)
        dv.reach('not found')
        dv.reach('end')
        return
    except ValueError:
        dv.check('refusal-passed-on', len(reads) == 1)
        dv.check('closed', all(x.closed for x in opened))
        dv.reach('end')
        return
    dv.check('found', there)
    dv.check('read-once', len(reads) == 1 and len(opened) == 1 and
             reads[0][0] is opened[0] and not reads[0][2])
    dv.check('into-new-ones', len(reads) == 1 and isinstance(
        reads[0][1], S.Specs) and reads[0][3] == {})
    dv.check('those-returned', len(reads) == 1 and out is reads[0][1])
    dv.check('closed', all(x.closed for x in opened))
    dv.reach('end')
