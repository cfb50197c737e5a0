"""
Self-test of the verifier, run as setup.

 - The right versions of the functions in toys/ must be proved, the wrong
   ones refuted by name, and the counterexamples must fail when replayed on
   the uninstrumented code.
 - Instrumented code must compute what the interpreter computes, on plain
   values and on symbolic ones pinned to the same values.
 - Models that leave something open must admit what the library really does,
   and those of lists, sets and dicts must end up with the same contents;
   patterns must match the same texts as those of re.
 - Contracts must not pass vacuously: one with contradictory assumptions and
   one without obligations have to be told apart from proved ones.
"""
import importlib, math, multiprocessing, os, random, sys

ROOT = os.path.dirname(os.path.abspath(__file__))
TOYS = os.path.join(ROOT, 'toys')


def contracts():
    from pydv import harness
    importlib.import_module('contracts.toys')
    return harness.CONTRACTS['TOYS']


def symbolic(q):
    """In a process of its own: proofs of the toys."""
    from pydv import run
    run.prepare_symbolic(TOYS)
    out = {}
    for c in contracts():
        r = run.run_symbolic(c, 'proof', 'quick')
        out[c.name] = {k: r[k] for k in (
            'stats', 'failures', 'unsupported', 'reached', 'complete')}
    q.put(out)


def replay(q, found):
    """Counterexamples on the real code."""
    from pydv import run
    run.prepare_concrete(TOYS)
    out = {}
    for c in contracts():
        fails = found.get(c.name)
        hit = None
        for f in fails or []:
            r = run.run_concrete(c, [1], 'quick', inputs=f['inputs'],
                                 tape=f['tape'])
            if r['failures']:
                hit = 'replayed'
                break
        if hit is None:
            r = run.run_concrete(c, range(c.runs), 'quick')
            if r['failures']:
                hit = 'searched'
            if r['errors']:
                hit = 'error ' + r['errors'][0]
        out[c.name] = hit
    q.put(out)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 1e6, -3.25]


def samples():
    r = random.Random(1)
    for _ in range(60):
        x = lambda: r.choice(SPECIAL + [r.randint(-8, 8)/4.0]*4)
        n = r.randint(1, 4)
        yield 'mixed', [x(), x(), x()]
        yield 'numbers', [x(), x()]
        yield 'integers', [r.randint(-9, 9), r.randint(-9, 9)]
        yield 'sums', [[x() for _ in range(n)]]
        yield 'arrays', [[x() for _ in range(n)], [x() for _ in range(n)]]
        yield 'nonfinite', [r.choice([x(), math.inf, -math.inf, math.nan])]


def native(q):
    from pydv import run
    run.prepare_concrete(TOYS)
    toy = importlib.import_module('ade.toy')
    q.put([plain(getattr(toy, name)(*args)) for name, args in samples()])


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if x is None or isinstance(x, bool) or type(x).__name__ in (
            'bool_', 'bool'):
        return x if x is None else bool(x)
    return float(x)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or math.isclose(
            a, b, rel_tol=1e-12)
    return a is b


def instrumented(q):
    """The same on plain values and on pinned symbolic ones."""
    from pydv import run
    run.prepare_symbolic(TOYS)
    import z3
    from pydv import engine, harness, values as V
    toy = importlib.import_module('ade.toy')
    out = []

    def pin(e, x, name):
        if isinstance(x, list):
            return [pin(e, y, name) for y in x]
        n = e.fresh(name)
        if isinstance(x, int):
            z = z3.Int(n)
            e.add(z == x)
            return V.SInt(z)
        z, t = z3.Real(n), z3.Int(n + '_t')
        if x != x:
            e.add(t == 3)
        elif x in (math.inf, -math.inf):
            e.add(t == (1 if x > 0 else 2))
        else:
            e.add(z3.And(t == 0, z == z3.RealVal(repr(x))))
        return V.SFloat(z, t)

    def value(e, x):
        if isinstance(x, (list, tuple)):
            return [value(e, y) for y in x]
        if isinstance(x, V.SBool):
            return bool(x)
        if isinstance(x, V.SInt):
            return float(e_eval(e, x.z))
        if isinstance(x, V.SFloat):
            t = int(e_eval(e, x.t)) if not isinstance(x.t, int) else x.t
            if t == 0:
                return float(e_eval(e, x.r))
            return {1: math.inf, 2: -math.inf, 3: math.nan}[t]
        return plain(x)

    def e_eval(e, z):
        s = z3.Solver()
        for f in e.pc:
            s.add(f)
        if s.check() != z3.sat:
            raise RuntimeError("infeasible")
        v = s.model().eval(z, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        return v.as_fraction()
    for name, args in samples():
        a = plain(getattr(toy, name)(*args))
        got = []
        e = engine.Engine(timeout_ms=5000, max_paths=50, budget_s=20)
        dv = harness.SymDV('proof', e, 'quick')
        def fn():
            dv.start()
            try:
                r = getattr(toy, name)(*[pin(e, x, 'a') for x in args])
                got.append(value(e, r))
            finally:
                dv.finish()
        e.run(fn)
        out.append((a, got, sorted(set(e.unsupported))))
    q.put(out)


# --- models of the library ---------------------------------------------------
PATTERNS = [
    r'[\+\-]?([0-9]+|[0-9]*\.[0-9]+|[0-9]+\.)(e[\+\-]?[0-9]+)?$', r'[0-9]+',
    r'[ab]{2,3}c?$', r'(ab|a)*b', r'a{2,}$', r'x|yz?', r'(a?b)+?c', r'1\.']
ALPHABETS = ['0123.e+-', '1e.\n', 'abc', 'aabc\n', 'xyz\n', '1.x']


def patterns(q):
    """What the solver says and re says, where they disagree."""
    from pydv import run
    run.prepare_symbolic(TOYS)
    import re
    import z3
    from pydv import engine, texts
    r = random.Random(2)
    out, n = [], 0
    e = engine.Engine(timeout_ms=5000, max_paths=5, budget_s=60)
    def fn():
        nonlocal n
        for p in PATTERNS:
            c = re.compile(p)
            for how in ('match', 'fullmatch'):
                lang = texts.language(c, how)
                for _ in range(40):
                    a = r.choice(ALPHABETS)
                    t = ''.join(r.choice(a) for _ in range(r.randint(0, 6)))
                    got = z3.is_true(z3.simplify(z3.InRe(
                        z3.StringVal(t), lang)))
                    n += 1
                    if got != bool(getattr(c, how)(t)):
                        out.append((p, how, t, got))
    e.run(fn)
    q.put((n, out + [(x,) for x in sorted(set(e.unsupported))]))


def library(q):
    """Results the models exclude although the library gives them."""
    from pydv import run
    run.prepare_symbolic(TOYS)
    import numpy as np
    import z3
    from pydv import arrays, engine, loops, models, values as V
    r = random.Random(3)
    out, n = [], 0
    INT, REAL = z3.IntSort(), z3.RealSort()
    admitted = {}

    def pinned(kind, items):
        """A function of the index with these values, of symbolic length."""
        e = V.E()
        f = z3.Function(e.fresh('pin'), INT, kind)
        m = z3.Int(e.fresh('pin_n'))
        e.add(m == len(items))
        for k, x in enumerate(items):
            e.add(f(k) == (z3.RealVal(repr(x)) if kind is REAL else x))
        return m, f

    def agrees(what, *facts):
        """Can it be like that, on this path?"""
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(*V.E().pc)
        s.add(*facts)
        key = repr(what)
        admitted[key] = admitted.get(key, False) or s.check() == z3.sat

    def same_list(what, seq, items):
        """Read in any order; the number and each of the items agree."""
        facts = [V.zi(loops.length_of(seq)) == len(items)]
        for k in r.sample(range(len(items)), len(items)):
            facts.append(V.zi(loops.item_of(seq, z3.IntVal(k))) == items[k])
        agrees(what, *facts)

    def rows():
        K = r.sample(range(9), r.randint(0, 5))
        m, f = pinned(INT, K)
        K0 = tuple(K)
        has = lambda x: z3.Or([V.zi(x) == y for y in K0])
        pos = lambda x: z3.Sum([z3.If(V.zi(x) == y, k, 0)
                                for k, y in enumerate(K0)] + [z3.IntVal(0)])
        return K, arrays.SRows(m, f, has, pos)

    def lists():
        K, S = rows()
        done = []
        for _ in range(4):
            op = r.choice(['insert', 'append', 'remove', 'pop', 'cut'])
            x = r.randint(0, 9)
            k = r.randint(-3, 6)
            if op in ('insert', 'append') and x not in K:
                a = (k, x) if op == 'insert' else (x,)
                getattr(K, op)(*a), getattr(S, op)(*a)
            elif op == 'remove' and K:
                x = r.choice(K)
                K.remove(x), S.remove(x)
            elif op == 'pop' and K:
                k = r.randrange(-len(K), len(K))
                if K.pop(k) != value(S.pop(k)):
                    out.append(('popped', done))
            elif op == 'cut':
                a, b = [r.choice([None, r.randint(-6, 6)]) for _ in '12']
                same_list(('slice', a, b, K), S[a:b], K[a:b])
            done.append((op, k, x))
        same_list(('list', done, K), S, K)
        agrees(('places', done, K), *[V.zi(S.pos(z3.IntVal(x))) == j
                                      for j, x in enumerate(K)])
        agrees(('held', done, K), *[
            (S.has(z3.IntVal(x)) == z3.BoolVal(x in K)) for x in range(10)])

    def value(x):
        s = z3.Solver()
        s.add(*V.E().pc)
        if s.check() != z3.sat:
            return None
        return s.model().eval(V.zi(x), model_completion=True).as_long()

    def sets():
        K = set(r.sample(range(9), r.randint(0, 5)))
        has = lambda x, K=frozenset(K): z3.Or([V.zi(x) == y for y in K])
        S = arrays.SRowSet(has)
        for _ in range(3):
            x = r.randint(0, 9)
            op = r.choice(['add', 'discard'])
            getattr(K, op)(x), getattr(S, op)(x)
        every()
        items = list(K)
        same_list(('set', sorted(K)), S, items)

    def every():
        for k in range(-1, 11):
            V.interesting(z3.IntVal(k))

    def dicts():
        D = {r.randint(0, 5): r.randint(0, 9) for _ in range(3)}
        D0 = dict(D)
        M = arrays.SRowMap(
            lambda k: z3.Or([V.zi(k) == y for y in D0]),
            lambda k: z3.Sum([z3.If(V.zi(k) == y, D0[y], 0) for y in D0]))
        for _ in range(4):
            k, x = r.randint(0, 6), r.randint(0, 9)
            if r.random() < 0.5:
                D[k] = M[k] = x
            else:
                if D.pop(k, -1) != value(M.pop(k, -1)):
                    out.append(('dict', D0, k))
        agrees(('dict', D0, D), *[M.has(z3.IntVal(k)) == z3.BoolVal(k in D)
                                  for k in range(7)],
               *[V.zi(M.get_(z3.IntVal(k))) == D[k] for k in D])

    def nonzeros():
        B = [r.random() < 0.5 for _ in range(r.randint(0, 6))]
        m, f = pinned(INT, [int(x) for x in B])
        every()
        got = arrays.np_flatnonzero(V.SVec(m, lambda i: V.SBool(
            f(V.zi(i)) == 1)))
        same_list(('flatnonzero', B), got, np.flatnonzero(B).tolist())

    def search():
        X = sorted(r.randint(-4, 4)/2.0 for _ in range(r.randint(0, 5)))
        m, f = pinned(REAL, X)
        e = V.E()
        i, j = z3.Ints('i j')
        e.add(z3.ForAll([i, j], z3.Implies(z3.And(
            i >= 0, i < j, j < m), f(i) <= f(j))))
        v = r.choice([r.randint(-5, 5)/2.0, math.inf, -math.inf, math.nan])
        side = r.choice(['left', 'right'])
        every()
        got = arrays.np_searchsorted(
            V.SVec(m, lambda i: V.SFloat(f(V.zi(i)), 0, True)), v, side=side)
        agrees(('searchsorted', X, v, side), V.zi(got) == int(
            np.searchsorted(np.array(X, float), v, side=side)))

    def orders():
        X = [r.randint(-3, 3)/2.0 for _ in range(r.randint(1, 5))]
        m, f = pinned(REAL, X)
        every()
        seq = V.SPure(m, lambda z: V.SFloat(f(V.zi(z)), 0, True), 'X')
        P = models.b_sorted(seq).perm
        same_list(('sorted', X), P, sorted(range(len(X)), key=X.__getitem__))

    def filters():
        X = [r.randint(-3, 3) for _ in range(r.randint(0, 6))]
        m, f = pinned(INT, X)
        every()
        seq = V.SSeq(m, lambda z: V.SInt(f(V.zi(z))), tag='X')
        got = loops.comp('list', seq, lambda x: x, lambda x: x > 0, False)
        same_list(('filter', X), got, [x for x in X if x > 0])

    def rounding():
        xs = [r.choice([r.gauss(0, 1), 10**r.uniform(-40, 40), 0.1, 3e38, 3.5e38,
                        3.4028235677973366e38, -1e39]) for _ in range(4)]
        facts = []
        for x in xs:
            with np.errstate(over='ignore'):
                y = float(np.float32(x))
            got = arrays.f4(V.SFloat(z3.Q(*x.as_integer_ratio()), 0, True))
            t = got.t if not isinstance(got.t, int) else z3.IntVal(got.t)
            facts.append(t == (0 if math.isfinite(y) else 1 if y > 0 else 2))
            if math.isfinite(y):
                facts.append(got.r == z3.Q(*y.as_integer_ratio()))
        agrees(('f4', xs), *facts)

    def tables():
        nr, nc = r.randint(1, 4), r.randint(1, 3)
        A = [[r.randint(-9, 9)/4.0 for _ in range(nc)] for _ in range(nr)]
        e = V.E()
        f = z3.Function(e.fresh('A'), INT, INT, REAL)
        for i in range(nr):
            for j in range(nc):
                e.add(f(i, j) == z3.RealVal(repr(A[i][j])))
        M = arrays.SMat(nr, nc, lambda i, j: V.SFloat(
            f(V.zi(i), V.zi(j)), 0, True))
        B = np.array(A)
        k = r.randrange(-nr, nr)
        v = [r.randint(-9, 9)/4.0 for _ in range(nc)]
        B[k] = v
        M[k] = V.SVec(nc, lambda j, v=v: V.SFloat(z3.Sum([
            z3.If(V.zi(j) == q, z3.RealVal(repr(x)), z3.RealVal(0))
            for q, x in enumerate(v)]), 0, True))
        B, M = B*2 - B[0], M*2 - M[0]
        c = r.randint(0, nc - 1)
        K = [r.randrange(nr) for _ in range(2)]
        pairs = [(M.f(z3.IntVal(i), z3.IntVal(j)), B[i, j])
                 for i in range(nr) for j in range(nc)]
        col = M[:, c]
        pairs += [(col.f(z3.IntVal(i)), B[i, c]) for i in range(nr)]
        sub = M[K]
        pairs += [(sub.f(z3.IntVal(i), z3.IntVal(c)), B[K][i, c])
                  for i in range(2)]
        agrees(('table', A, k, v), *[
            V.to_float(x).r == z3.RealVal(repr(float(y))) for x, y in pairs])

    for case in (lists, sets, dicts, nonzeros, search, orders, filters,
                 rounding, tables):
        for _ in range(24):
            e = engine.Engine(timeout_ms=5000, max_paths=60, budget_s=60)
            state = r.getstate()
            def fn(case=case):
                # (paths are executed again: with the same choices)
                r.setstate(state)
                case()
            admitted.clear()
            e.run(fn)
            # (what is left open may have been decided differently on some
            # of the paths)
            n += len(admitted)
            out.extend(key for key, ok in admitted.items() if not ok)
            out.extend((case.__name__, x) for x in sorted(set(e.unsupported)))
            if not admitted:
                out.append((case.__name__, 'nothing compared'))
    q.put((n, out))


def vacuous(q):
    from pydv import run
    run.prepare_symbolic(TOYS)
    import check
    from pydv import harness
    def contradictory(dv):
        x = dv.int('x')
        dv.assume(x > 1)
        dv.assume(x < 1)
        dv.check('anything', x == 5)
    def nothing(dv):
        dv.int('x')
    out = []
    for fn in (contradictory, nothing):
        c = harness.contract('VACUOUS', 'toy.clip')(fn)
        c = harness.CONTRACTS['VACUOUS'][-1]
        r = run.run_symbolic(c, 'proof', 'quick')
        out.append(check.proved(r))
    q.put(out)


def apart(fn, *args):
    """Runs that in a process of its own."""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    p = ctx.Process(target=fn, args=(q,) + args)
    p.start()
    out = None
    try:
        out = q.get(timeout=600)
    finally:
        p.join(10)
        if p.is_alive():
            p.kill()
    return out


def main(tier):
    sys.path.insert(0, ROOT)
    wrong = []
    proofs = apart(symbolic)
    found = {}
    for name, r in proofs.items():
        ok = r['complete'] and not r['unsupported'] and \
            r['stats']['obligations'] > 0 and 'end' in r['reached']
        if not name.endswith('_bad'):
            if not ok or r['failures'] or \
               r['stats']['obligations'] != r['stats']['discharged']:
                wrong.append("%s not proved: %r" % (name, r))
        else:
            sat = [f for f in r['failures'] if f['kind'] == 'sat']
            if not sat:
                wrong.append("%s not refuted: %r" % (name, r))
            found[name] = sat
    hits = apart(replay, found)
    for name, hit in hits.items():
        if name.endswith('_bad') != (hit in ('replayed', 'searched')):
            wrong.append("%s on the real code: %s" % (name, hit))
    if not any(hit == 'replayed' for hit in hits.values()):
        wrong.append("no counterexample could be replayed")
    plain_ = apart(native)
    sym = apart(instrumented)
    n = 0
    for (name, args), want, (a, got, uns) in zip(samples(), plain_, sym):
        if not same(want, a):
            wrong.append("%s%r instrumented %r, natively %r" % (
                name, args, a, want))
        if uns or not got or not all(same(want, g) for g in got):
            wrong.append("%s%r symbolically %r (%s), natively %r" % (
                name, args, got, uns, want))
        n += 1
    m = 0
    for part in (patterns, library):
        found = apart(part)
        if found is None or not found[0]:
            wrong.append("%s gave nothing" % part.__name__)
            continue
        m += found[0]
        wrong.extend("%s: %r" % (part.__name__, x) for x in found[1])
    if any(apart(vacuous)):
        wrong.append("vacuous contracts count as proved")
    for w in wrong[:20]:
        print(w[:2000])
    print("%d toy contracts, %d comparisons with the interpreter, %d with the "
          "library, %d problems" % (len(proofs), n, m, len(wrong)))
    return 2 if wrong else 0
