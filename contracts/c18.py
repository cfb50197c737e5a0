"""C18: specification files parse to exactly what they say."""
import os, shutil, tempfile

from pydv.harness import contract
from . import pieces, wording


FUNCTIONS = ('specs.SpecsLoader.__call__ specs.SpecsLoader.read '
             'specs.SpecsLoader.parseName specs.SpecsLoader.parseValue '
             'specs.Specs.dict_start specs.Specs.dict_add '
             'specs.Specs.dict_done specs.Specs.add specs.Specs.get '
             'specs.DictStacker.add specs.DictStacker.done ')


def parse(dv, text):
    """Reads a file with that text."""
    S = dv.mod('specs')
    top = tempfile.mkdtemp()
    try:
        path = os.path.join(top, 'x.specs')
        with open(path, 'w') as fh:
            fh.write(text)
        return S.SpecsLoader(path)()
    finally:
        shutil.rmtree(top)


def same(a, b):
    """Equal, and of the same kind."""
    if type(a) is not type(b) and not any(
            isinstance(a, t) and isinstance(b, t) for t in (str, list)):
        return False
    if isinstance(b, dict):
        return list(a) == list(b) and all(
            type(x) is type(y) for x, y in zip(a, b)) and all(
                same(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, float) and repr(a) != repr(b):
        return False
    return a == b


def judge(dv, text, want):
    """Exactly what was meant."""
    try:
        s = parse(dv, text)
    except ValueError as exc:
        dv.check('accepted', False, "%r refused: %s" % (text, exc))
        return
    got = {k: v for k, v in vars(s).items()}
    dv.check('names', set(got) == set(want),
             "%r gives names %r" % (text, sorted(got)))
    for name in want:
        dv.check('value', same(got.get(name), want[name]),
                 "%r gives %s %r, expected %r" % (
                     text, name, got.get(name), want[name]))
        dv.check('queried', same(s.get(name), want[name]))
        ask(dv, s, [name], want[name])
    dv.check('nothing-for-unknown-name', s.get('no_such_name') == {})


def ask(dv, s, names, value):
    if isinstance(value, dict):
        for k, v in value.items():
            dv.check('entry-queried', same(s.get(*(names + [k])), v))
            ask(dv, s, names + [k], v)
        dv.check('nothing-for-unknown-entry',
                 s.get(*(names + ['no_such_name'])) == {})


def refused(dv, text):
    try:
        s = parse(dv, text)
    except ValueError:
        dv.check('refused', True)
        return
    except (AttributeError, KeyError, IndexError, TypeError) as e:
        dv.check('refused-with-a-value-error', False, "%r: %r" % (text, e))
        return
    dv.check('refused', False, "%r read as %r" % (text, vars(s)))


# --- all short texts ------------------------------------------------------
LINES = [
    ('blank', ''), ('blank', '  \t '), ('comment', '# alpha 1'),
    ('comment', '   #--'), ('entry', 'alpha 1'), ('entry', ' bravo = 2.5 # x'),
    ('list', 'list -1, +2e1\tTrue'), ('name', 'params'),
    ('name', 'params   # 5'), ('rule', '---'),
    ('rule', '--- # that is all'), ('sub', '1:x NONE'), ('sub', "b:c:2 Word"),
]


def denotation(lines):
    """What the text means; None if it is malformed."""
    out, dct, name = {}, None, None
    for kind, line in lines:
        if kind in ('blank', 'comment'):
            continue
        if kind == 'rule':
            if dct is not None:
                out[name] = dct
                dct = name = None
            elif name is not None:
                dct = {}
            else:
                return
            continue
        if dct is None and name is not None:
            return
        if kind == 'name':
            if dct is not None:
                return
            name = 'params'
            continue
        if kind == 'sub':
            if dct is None:
                return
            if line.startswith('1'):
                dct.setdefault(1, {})['x'] = None
            else:
                dct.setdefault('b', {}).setdefault('c', {})[2] = 'word'
            continue
        k, v = {'a': ('alpha', 1.0), 'b': ('bravo', 2.5),
                'l': ('list', [-1.0, 20.0, True])}[line.strip()[0]]
        (out if dct is None else dct)[k] = v
    if name is not None:
        return
    return out


def short(dv, n):
    lines = []
    names = set()
    for k in range(n):
        j = dv.choose('line%d' % k, list(range(len(LINES))))
        lines.append(LINES[j])
    text = '\n'.join(line for _, line in lines)
    text += dv.choose('end', ['', '\n'])
    want = denotation(lines)
    used = [line.strip() for kind, line in lines
            if kind in ('entry', 'list', 'sub', 'name')]
    used = [x.split()[0] for x in used]
    if len(set(used)) < len(used):
        # (what twice the same name means is not documented)
        dv.assume(False)
    if want is None:
        refused(dv, text)
    elif any(v == {} for v in want.values()):
        # (nor are dicts without entries)
        dv.assume(False)
    else:
        judge(dv, text, want)


@contract('C18', FUNCTIONS, modes=('bounded', 'concrete'), runs=200,
          max_paths=10**5, budget=200)
def up_to_three_lines(dv):
    """Every text of up to three lines out of a list of forms."""
    short(dv, dv.choose('n', [0, 1, 2, 3]))


@contract('C18', FUNCTIONS, modes=('bounded', 'concrete'), runs=200,
          max_paths=10**5, budget=200)
def dict_texts(dv):
    """Every dict of up to three of the forms."""
    lines = [('name', 'params')]
    if dv.choose('between', [False, True]):
        lines.append(('comment', '# --'))
    lines.append(('rule', '-----'))
    n = dv.choose('n', [1, 2, 3])
    forms = [('blank', ''), ('comment', '# x'), ('entry', 'alpha 1'),
             ('entry', 'bravo  2.5#y'), ('list', 'list -1, 2E+1 TRUE'),
             ('sub', '1:x none'), ('sub', 'b:c:2 WORD # z'), ('name', 'params')]
    for k in range(n):
        lines.append(forms[dv.choose('line%d' % k, list(range(len(forms))))])
    used = [line.split()[0] for kind, line in lines[1:]
            if kind in ('entry', 'list', 'sub')]
    if not used or len(set(used)) < len(used):
        dv.assume(False)
    if dv.choose('ended', [True, False]):
        lines.append(('rule', '--'))
    want = denotation(lines)
    text = '\n'.join(line for _, line in lines)
    if want is None:
        refused(dv, text)
    else:
        judge(dv, text, want)


VALUES = [
    ('0', 0.0), ('1', 1.0), ('-1.5', -1.5), ('+1.5', 1.5), ('5e6', 5e6),
    ('2E-4', 2e-4), ('3.3e+8', 3.3e8), ('.5', 0.5), ('-.25', -0.25),
    ('7.', 7.0), ('-0', -0.0), ('1.e3', 1000.0), ('00012', 12.0),
    ('None', None), ('none', None), ('NONE', None), ('true', True),
    ('True', True), ('FALSE', False), ('false', False), ('Word', 'word'),
    ('t0', 't0'), ('5x', '5x'), ('e5', 'e5'), ('1.2.3', '1.2.3'),
    ('nonesuch', 'nonesuch'), ('Truest', 'truest'), ('1e', '1e'),
    ('Path/To', 'path/to'), ('2020-06-27', '2020-06-27'), ('x=1', 'x=1'),
    ('1e-100', 1e-100), ('-2.5E+0200', -2.5e200), ('1e0005', 1e5),
    ('9'*40, float('9'*40)), ('.' + '0'*30 + '7', 7e-31),
    ('Long'*15 + '.', 'long'*15 + '.'),
    ('a_B', 'a_b'), ('.', '.'), ('+', '+'), ('1-2', '1-2'),
]


@contract('C18', FUNCTIONS, modes=('bounded', 'concrete'), runs=200,
          max_paths=10**5)
def values(dv):
    """Each kind of value, alone and in lists, in and outside dicts."""
    a = dv.choose('a', list(range(len(VALUES))))
    b = dv.choose('b', [None] + list(range(len(VALUES))))
    eq = dv.choose('equals', [' ', ' = '])
    sep = dv.choose('separator', [' ', ', '])
    inside = dv.choose('inside', [False, True])
    text, want = VALUES[a]
    if b is not None:
        text, want = text + sep + VALUES[b][0], [want, VALUES[b][1]]
    line = 'name' + eq + text
    if inside:
        judge(dv, 'dct\n--\n%s\n--' % line, {'dct': {'name': want}})
    else:
        judge(dv, line, {'name': want})


# --- any text -------------------------------------------------------------
def spaces(r, least=1):
    return ''.join(r.choice(' \t ') for _ in range(r.choice(
        [least, least, 1 + least, 8])))


def word(r):
    return ''.join(r.choice('abcXYZ_') for _ in range(r.randint(1, 3))) + \
        r.choice(['', '1', '_2', 'N6'])


def number(r):
    x = r.choice([str(r.randint(0, 10**6)), '%f' % r.random(),
                  '%.3f' % r.uniform(0, 1000), repr(r.random()*10**r.randint(
                      -300, 300)), '%E' % r.random(), '.%d' % r.randint(0, 99)])
    return r.choice(['', '', '-', '+']) + x


def value(r):
    if r.random() < 0.5:
        x = number(r)
        return x, float(x)
    return r.choice(VALUES)


def entry(r, name):
    n = r.choice([1, 1, 2, 3, 6])
    got = [value(r) for _ in range(n)]
    text = name + (spaces(r) + '=' if r.random() < 0.4 else '')
    for j, (t, _) in enumerate(got):
        text += spaces(r) + t
        if j < n-1 and r.random() < 0.4:
            text += ','
    want = got[0][1] if n == 1 else [v for _, v in got]
    return text, want


def fluff(r, out):
    while r.random() < 0.3:
        out.append(r.choice(['', '   ', '\t', '# comment', '#; -*- mode -*-',
                             '  # alpha 1 # 2', '#---', '#']))


def dress(r, line):
    """Spacing and a comment, neither of any consequence."""
    if r.random() < 0.3:
        line = spaces(r, 0) + line
    if r.random() < 0.3:
        line += spaces(r, 0) + '#' + r.choice(['', ' x', ' = 5', '--', ' a:b'])
    elif r.random() < 0.3:
        line += spaces(r)
    return line


def keys(r):
    n = r.choice([1, 1, 2, 3, 4])
    out = []
    for _ in range(n):
        k = r.choice([word(r), word(r), str(r.randint(0, 400))])
        out.append(k)
    return out


def insert(dct, path, v):
    """False if that would make something both a value and a dict."""
    for k in path[:-1]:
        dct = dct.setdefault(k, {})
        if not isinstance(dct, dict):
            return False
    if path[-1] in dct:
        return False
    dct[path[-1]] = v
    return True


def text_and_meaning(r):
    lines, want = [], {}
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        fluff(r, lines)
        name = word(r)
        if name in want:
            continue
        if r.random() < 0.55:
            line, v = entry(r, name)
            lines.append(dress(r, line))
            want[name] = v
            continue
        dct = {}
        inner = []
        for _ in range(r.randint(1, 6)):
            fluff(r, inner)
            ks = keys(r)
            path = [int(k) if k.isdigit() else k for k in ks]
            line, v = entry(r, ':'.join(ks))
            import copy
            trial = copy.deepcopy(dct)
            if insert(trial, path, v):
                dct = trial
                inner.append(dress(r, line))
        fluff(r, inner)
        lines.append(dress(r, name))
        fluff(r, lines)
        lines.append(dress(r, '-'*r.choice([2, 3, 60])))
        lines.extend(inner)
        lines.append(dress(r, '-'*r.choice([2, 3, 60])))
        want[name] = dct
    fluff(r, lines)
    return lines, want


@contract('C18', FUNCTIONS, modes=('concrete',), runs=700)
def texts(dv):
    """Random texts of the documented forms."""
    r = dv.rng()
    lines, want = text_and_meaning(r)
    text = '\n'.join(lines) + r.choice(['', '\n', '\n\n'])
    judge(dv, text, want)


@contract('C18', FUNCTIONS, modes=('concrete',), runs=300)
def malformed(dv):
    """Something wrong somewhere."""
    r = dv.rng()
    before, _ = text_and_meaning(r)
    after, _ = text_and_meaning(r)
    wrong = dv.choose('wrong', [
        ['-----'], ['params'], ['params', 'alpha 1', '---', 'x 1', '---'],
        ['params', '---', 'x 1'], ['a:b 1'], ['alpha ='], ['alpha = # 1'],
        ['params', '---', 'x', '---'], ['params', '---', 'x =', '---'],
        ['params', '---', 'x 1', 'x:y 1', '---'],
        ['params', '---', 'x:y 1', 'x 1', '---'],
        ['params', '---', 'x:y 1', 'x:y:z 1', '---'],
        ['params', 'other', '---', 'x 1', '---']])
    if wrong == ['params'] or wrong[-1] == 'x 1':
        # (what follows might put it right)
        after = []
    if len(wrong) == 3 and wrong[1] == '---':
        after = []
    if wrong == ['-----'] and after and after[0].strip():
        after = []
    lines = list(before)
    for line in wrong:
        fluff(r, lines)
        lines.append(dress(r, line) if '#' not in line else line)
    lines += after
    refused(dv, '\n'.join(lines))


# --- proofs ---------------------------------------------------------------
@contract('C18', 'specs.SpecsLoader.parseValue', modes=('proof',))
def any_value(dv):
    wording.parseValue(pieces.Softly(dv))


@contract('C18', 'specs.SpecsLoader.parseName', modes=('proof',))
def any_name(dv):
    wording.parseName(pieces.Softly(dv))


@contract('C18', 'specs.SpecsLoader.read', modes=('proof',), budget=200,
          weight=2)
def any_lines(dv):
    wording.read(pieces.Softly(dv))


@contract('C18', 'specs.DictStacker.add specs.DictStacker.done',
          modes=('proof',))
def any_nesting(dv):
    wording.stacking(pieces.Softly(dv))


@contract('C18', 'specs.DictStacker.__init__ specs.Specs.add '
          'specs.Specs.dict_start specs.Specs.dict_add specs.Specs.dict_done',
          modes=('proof',))
def any_entries(dv):
    wording.new_stack(pieces.Softly(dv))


@contract('C18', 'specs.Specs.get', modes=('proof',))
def any_question(dv):
    wording.get(pieces.Softly(dv))


@contract('C18', 'specs.SpecsLoader.__call__', modes=('proof',))
def any_file(dv):
    wording.load(pieces.Softly(dv))
