"""
Decides one property on the current source of /repo.

    check <property> [--tier quick|thorough]
    check --replay <file>

Exit 0: every obligation was discharged (or, where the verifier could not
express the current source, the stated bounded stand-ins passed; the evidence
says so).  Exit 1: violation.  Exit 2: the check itself did not work.
"""
import argparse, json, os, select, sys, time, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from pydv import run
from contracts import assumptions

REPO = os.environ.get('PYDV_REPO', '/repo')
WORKERS = int(os.environ.get('PYDV_WORKERS', '8'))
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known-findings.txt')

TRUSTED_BASE = [
    "pydv (this repository's verification condition generator: engine, "
    "instrumenter, symbolic values)",
    "z3 5.3.2", "CPython 3.12 executing straight-line code on the proxies",
    "Twisted (Deferred, inlineCallbacks, DeferredLock) executed as is, "
    "with a deterministic reactor",
]
ASSUMPTIONS = [
    "finite floating-point arithmetic is treated as exact real arithmetic; "
    "infinities and NaN are modelled explicitly",
    "instrumentation changes only loop heads, single-generator "
    "comprehensions, write notifications and bare 'except:' "
    "(see pydv/instrument.py); logging output is not modelled",
]


def known_findings():
    out = {}
    try:
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known:'):
                    d = dict(x.split('=', 1) for x in line.split()[1:3])
                    text = line.split(None, 3)[3]
                    out[(d['property'], d['key'])] = text
    except OSError:
        pass
    return out


class Pool(object):
    """Feeds tasks to the two servers, at most WORKERS at a time."""
    def __init__(self, prop, tier):
        self.servers = {}
        for kind in ('concrete', 'symbolic'):
            self.servers[kind] = run.Server(kind, REPO, prop, tier)
        self.info = {}
        for kind, s in self.servers.items():
            m = s.conn.recv()
            if m[0] != 'ready':
                raise RuntimeError("%s server: %s" % (kind, m[1]))
            self.info[kind] = m
        self.queue = []
        self.running = {}
        self.results = {}
        self.next_id = 0

    def submit(self, kind, **task):
        self.next_id += 1
        task['id'] = self.next_id
        self.queue.append((kind, task))
        return self.next_id

    def wait(self):
        """Runs everything submitted."""
        while self.queue or self.running:
            while self.queue and len(self.running) < WORKERS:
                kind, task = self.queue.pop(0)
                self.servers[kind].conn.send(task)
                self.running[task['id']] = task
            conns = [s.conn for s in self.servers.values()]
            r, _, _ = select.select(conns, [], [], 1.0)
            for c in r:
                m = c.recv()
                self.results[m[1]] = m[2]
                self.running.pop(m[1], None)
        return self.results

    def close(self):
        for s in self.servers.values():
            try:
                s.conn.send(None)
            except OSError:
                pass
        for s in self.servers.values():
            s.proc.join(5)
            if s.proc.is_alive():
                s.proc.terminate()


def proved(r):
    return (r and not r.get('crash') and not r['failures']
            and not r['unsupported'] and r['complete']
            and r['stats']['obligations'] > 0 and 'end' in r['reached']
            and r['stats']['obligations'] == r['stats']['discharged'])


class Decider(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.known = known_findings()
        self.known_hit = {}
        self.violations = []
        self.notes = []

    # --- work -------------------------------------------------------------
    def main(self):
        pool = Pool(self.prop, self.tier)
        try:
            return self._main(pool)
        finally:
            pool.close()

    def seeds(self, k, n):
        base = self.seed * 1000003 + k * 7919
        return range(base, base + n)

    def _main(self, pool):
        quick = self.tier == 'quick'
        self.contracts = pool.info['concrete'][1]
        self.sources = pool.info['symbolic'][2]
        if not self.contracts:
            raise RuntimeError("no contracts for " + self.prop)
        C = {}
        order = sorted(self.contracts, key=lambda c: -c[4])
        lim = 240 if quick else 3000
        for (name, functions, modes, runs, weight, note) in order:
            c = C[name] = {'functions': functions, 'modes': modes,
                           'note': note, 'con': []}
            if 'proof' in modes:
                c['proof_id'] = pool.submit(
                    'symbolic', contract=name, mode='proof', tier=self.tier,
                    limit=lim)
            elif 'bounded' in modes:
                c['bounded_id'] = pool.submit(
                    'symbolic', contract=name, mode='bounded', tier=self.tier,
                    limit=lim)
            if not quick and 'proof' in modes and 'bounded' in modes:
                c['bounded_id'] = pool.submit(
                    'symbolic', contract=name, mode='bounded', tier=self.tier,
                    limit=lim)
        for (name, functions, modes, runs, weight, note) in order:
            if 'concrete' not in modes:
                continue
            c = C[name]
            n = runs if quick else runs * 25
            chunk = max(1, (n + 3) // 4)
            if n < 40:
                chunk = max(1, (n + 7) // 8)
            k = 0
            while k < n:
                m = min(chunk, n - k)
                c['con'].append(pool.submit(
                    'concrete', contract=name, mode='concrete',
                    tier=self.tier, seeds=list(self.seeds(len(c['con']), m)),
                    max_s=40 if quick else 1200,
                    limit=120 if quick else 2400))
                k += m
        res = pool.wait()
        # Second round: where the proof did not go through
        for name, c in C.items():
            c['proof'] = res.get(c.get('proof_id'))
            c['bounded'] = res.get(c.get('bounded_id'))
            if c['proof'] is not None and not proved(c['proof']) and \
               'bounded' in c['modes'] and c['bounded'] is None:
                c['bounded_id'] = pool.submit(
                    'symbolic', contract=name, mode='bounded', tier=self.tier,
                    budget=60 if quick else None, limit=lim)
            c['replays'] = []
            self.submit_replays(pool, name, c, c['proof'])
            self.submit_replays(pool, name, c, c['bounded'])
        res = pool.wait()
        for name, c in C.items():
            if c['bounded'] is None and c.get('bounded_id'):
                c['bounded'] = res.get(c['bounded_id'])
                self.submit_replays(pool, name, c, c['bounded'])
        res = pool.wait()
        for name, c in C.items():
            c['concrete'] = [res[i] for i in c['con']]
            c['replayed'] = [(f, res[i]) for f, i in c['replays']]
        # Third round: a failed obligation without a failing input gets a
        # directed search
        for name, c in C.items():
            c['search'] = []
            if self.has_concrete_failure(c):
                continue
            if self.symbolic_failures(c) and 'concrete' in c['modes']:
                for k in range(8):
                    c['search'].append(pool.submit(
                        'concrete', contract=name, mode='concrete',
                        tier=self.tier, seeds=list(self.seeds(50+k, 100000)),
                        max_s=12, limit=60))
        res = pool.wait()
        for name, c in C.items():
            c['concrete'] += [res[i] for i in c['search']]
        self.C = C
        self.used_models = sorted(set(
            m for c in C.values() for r in (c['proof'], c['bounded'])
            if r and 'models' in r for m in r['models']))
        return self.decide()

    def submit_replays(self, pool, name, c, r):
        if not r or 'failures' not in r or 'concrete' not in c['modes']:
            return
        for f in r['failures'][:12]:
            if f['inputs'] is None:
                continue
            c['replays'].append((f, pool.submit(
                'concrete', contract=name, mode='concrete', tier=self.tier,
                seeds=list(self.seeds(99, 25)), inputs=f['inputs'],
                tape=f['tape'], max_s=10, limit=60)))

    def symbolic_failures(self, c):
        out = []
        for mode in ('proof', 'bounded'):
            r = c.get(mode)
            if r and 'failures' in r:
                out += [(mode, f) for f in r['failures']]
        return out

    def concrete_results(self, c):
        return [r for _, r in c.get('replayed', [])] + c['concrete']

    def has_concrete_failure(self, c):
        return any(r.get('failures') for r in self.concrete_results(c))

    # --- verdict ----------------------------------------------------------
    def decide(self):
        ok = True
        operative = 0
        crashes = []
        for name, c in self.C.items():
            sf = self.symbolic_failures(c)
            conc = self.concrete_results(c)
            for r in [c.get('proof'), c.get('bounded')] + conc:
                if r and r.get('crash'):
                    crashes.append((name, r['crash']))
            # Concrete failures decide
            hit = False
            for origin, r in [('model', r) for _, r in c['replayed']] + [
                    ('run', r) for r in c['concrete']]:
                for f in r.get('failures', ()):
                    if self.is_known(f):
                        continue
                    if not hit:
                        self.violation(name, c, f, origin)
                    hit = True
            runs = sum(r.get('runs', 0) for r in conc)
            errs = sum(len(r.get('errors', ())) for r in conc)
            c['runs'], c['errs'] = runs, errs
            con_ok = 'concrete' in c['modes'] and runs > 0 and errs <= runs/2
            c['proved'] = proved(c.get('proof'))
            b = c.get('bounded')
            c['bounded_ok'] = proved(b)
            if c['proved'] or c['bounded_ok'] or con_ok:
                operative += 1
            if errs:
                ex = next(r['errors'][0] for r in conc if r.get('errors'))
                self.notes.append("%s: %d of %d concrete runs did not work: "
                                  "%s" % (name, errs, runs, ex[-600:]))
            if hit:
                continue
            # Exact symbolic failure without a failing input found
            if c['proved']:
                continue
            exact = [(m, f) for m, f in sf
                     if f['kind'] == 'sat' and not f['abstract']
                     and not f['name'].startswith('KF:')
                     and not self.refuted(c, m, f)]
            if exact:
                self.violation(name, c, None, exact[0])
                continue
            if c.get('proof') is None and b is not None and not \
               c['bounded_ok']:
                self.notes.append(
                    "%s: bounded check not completed on this source (%s); "
                    "decided by %d concrete runs" % (
                        name, self.why(b), runs))
            if c.get('proof') is not None:
                self.notes.append(
                    "%s: unbounded proof not completed on this source (%s); "
                    "decided by the bounded stand-in (%s) and %d concrete "
                    "runs" % (name, self.why(c['proof']),
                              'passed' if c['bounded_ok'] else
                              self.why(b) if b else 'none', runs))
        self.crashes = crashes
        self.write_evidence()
        for k, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        for n in self.notes:
            print("note:", n.split('\n')[0][:300])
        if self.violations:
            # With a failing input at hand, the others add nothing
            some = [v for v in self.violations if not v.endswith('found')]
            for v in some or self.violations:
                print(v)
            return 1
        if not operative or (crashes and not operative):
            print("check did not work: no contract of %s could be decided" %
                  self.prop)
            for name, t in crashes:
                print(name, t[-2000:])
            return 2
        return 0

    def refuted(self, c, mode, f):
        """
        Was the verifier's counterexample, complete as it is in the bounded
        mode, played on the real code without anything failing?  Then it
        came from the model of the code and not from the code.
        """
        if mode != 'bounded':
            return False
        for ff, r in c['replayed']:
            if ff is f and not r.get('crash') and not r.get('errors') and \
               not r.get('failures') and r.get('runs', 0) > 0:
                return True
        return False

    def why(self, r):
        if r is None:
            return 'not run'
        if r.get('crash'):
            return 'verifier crashed: ' + r['crash'].strip().split('\n')[-1]
        w = []
        if r['failures']:
            w.append('not discharged: ' + ', '.join(sorted(set(
                '%s [%s]' % (f['name'], f['kind']) for f in r['failures']))))
        if r['unsupported']:
            w.append('not expressible: ' + '; '.join(r['unsupported'][:3]))
        if not r['complete']:
            w.append('budget exhausted')
        if not r['stats']['obligations']:
            w.append('no obligations')
        if 'end' not in r['reached']:
            w.append('vacuous: the end is not reachable')
        return ' / '.join(w) or 'passed'

    def is_known(self, f):
        names = [n for n, _ in f['failed']]
        keys = [n[3:].split(':')[0] for n in names if n.startswith('KF:')]
        hit = False
        for k in keys:
            t = self.known.get((self.prop, k))
            if t:
                self.known_hit[k] = t
                hit = True
        rest = [n for n in names if not n.startswith('KF:') or
                (self.prop, n[3:].split(':')[0]) not in self.known]
        return hit and not rest

    def violation(self, name, c, f, origin):
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        path = os.path.join(EVID, 'replay', '%s-%s.json' % (self.prop, name))
        d = {'property': self.prop, 'contract': name,
             'functions': c['functions'], 'tier': self.tier}
        sf = self.symbolic_failures(c)
        d['failed_obligations'] = [
            {'mode': m, 'name': x['name'], 'kind': x['kind'],
             'verifier_output': x['detail'], 'model': x['inputs'],
             'tape': x['tape'], 'through_abstraction': x['abstract'],
             'trace': x['trace']} for m, x in sf]
        if f is not None:
            d.update({'seed': f['seed'], 'inputs': f['inputs'],
                      'tape': f['tape'], 'failed': f['failed'],
                      'found_by': 'verifier counterexample replayed'
                      if origin == 'model' else 'run-time check of contract',
                      'trace': f['trace']})
            if origin == 'model':
                for ff, r in c['replayed']:
                    if r.get('failures') and f in r['failures']:
                        d['inputs'] = ff['inputs']
                        d['tape'] = ff['tape']
            else:
                d['inputs'] = None      # regenerated from the seed
                d['tape'] = None
                d['generated'] = f['inputs']
        with open(path, 'w') as fh:
            json.dump(d, fh, indent=1, default=str)
        line = "VIOLATION property=%s replay=%s" % (self.prop, path)
        if f is None:
            line += " no-failing-input-found"
        self.violations.append(line)
        what = f['failed'][0] if f is not None else (
            origin[1]['name'], origin[1]['detail'])
        print("failed: %s.%s: %s %s" % (
            self.prop, name, what[0], str(what[1])[:500]))

    def write_evidence(self):
        C = self.C
        pr = [c for c in C.values() if c.get('proof')]
        ob = sum(c['proof']['stats']['obligations'] for c in pr
                 if 'stats' in c['proof'])
        di = sum(c['proof']['stats']['discharged'] for c in pr
                 if 'stats' in c['proof'])
        solver = sum(r['stats']['solver_s'] for c in C.values()
                     for r in (c.get('proof'), c.get('bounded'))
                     if r and 'stats' in r)
        # What a proof has not been through does not count as proved
        entered = {name: set(
            f.split('.', 1)[1] for f in (c.get('proof') or {}).get(
                'entered', ())) for name, c in C.items()}
        through = set(f for name, c in C.items() if c['proved']
                      for f in entered[name])
        funcs = sorted(set(
            f for c in C.values() if c['proved'] for f in c['functions']
            if f in through))
        bfuncs = sorted(set(
            f for c in C.values() if not c['proved'] and c['bounded_ok']
            for f in c['functions']) - set(funcs))
        rfuncs = sorted(set(
            f for c in C.values() for f in c['functions'])
            - set(funcs) - set(bfuncs))
        all_proved = bool(pr) and all(c['proved'] for c in pr) and \
            ob == di and not bfuncs and not rfuncs
        detail = {}
        for name, c in C.items():
            d = {'functions': c['functions'], 'what': c['note']}
            for mode in ('proof', 'bounded'):
                r = c.get(mode)
                if r and 'stats' in r:
                    d[mode] = {
                        'result': self.why(r), 'paths': r['stats']['paths'],
                        'obligations': r['stats']['obligations'],
                        'discharged': r['stats']['discharged'],
                        'by_name': {k: v['n'] for k, v in
                                    r['by_name'].items()},
                        'reached': r['reached'], 'loops_cut': r['loops'],
                        'queries': r['stats']['queries'],
                        'solver_s': round(r['stats']['solver_s'], 3),
                        'cvc5': {k: v for k, v in r['stats'].items()
                                 if k.startswith('cvc5')},
                        'wall_s': round(r['wall_s'], 2)}
                elif r:
                    d[mode] = {'result': self.why(r)}
            if 'concrete' in c['modes']:
                d['runtime'] = {
                    'runs': c['runs'], 'errors': c['errs'],
                    'discarded': sum(r.get('discarded', 0)
                                     for r in self.concrete_results(c)),
                    'checks': sum(r.get('checks', 0)
                                  for r in self.concrete_results(c)),
                    'distinct_inputs': sum(
                        r.get('distinct', 0)
                        for r in self.concrete_results(c))}
            detail[name] = d
        base = list(TRUSTED_BASE)
        if self.tier != 'quick':
            base.append("cvc5 1.4.2 (second opinion)")
        cov = {
            'obligations': ob, 'discharged': di,
            'checker_cmd': "/verif/check %s --tier %s" % (
                self.prop, self.tier),
            'trusted_base': base + self.trusted_models(),
            'functions_under_contract': funcs,
            'functions_bounded_only': bfuncs,
            'functions_observed_at_run_time_only': rfuncs,
            'functions_executed_symbolically': sorted(set().union(
                *entered.values())),
            'back_end': 'z3 5.3.2' + (
                '' if self.tier == 'quick' else ' + cvc5 1.4.2'),
            'solver_s': round(solver, 3),
            'bounded_obligations': sum(
                c['bounded']['stats']['obligations'] for c in C.values()
                if c.get('bounded') and 'stats' in c['bounded']),
            'runtime_runs': sum(c['runs'] for c in C.values()),
            'contracts': detail,
            'source_sha256': self.sources,
        }
        if not all_proved:
            cov['explanation'] = (
                "%d of %d unbounded obligations discharged (%d of %d "
                "contracts with an unbounded proof went through). Not "
                "everything this property rests on is covered by such a "
                "proof: %d functions are covered by bounded symbolic "
                "checking only and %d only by executing them under the "
                "run-time side of the contracts (listed). These parts are "
                "not counted as proved." % (
                    di, ob, sum(c['proved'] for c in pr), len(pr),
                    len(bfuncs), len(rfuncs)))
            cov['proof_complete_for_contracts_attempted'] = bool(pr) and all(
                c['proved'] for c in pr)
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'proof' if all_proved else 'other',
            'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
            'assumptions': ASSUMPTIONS + assumptions.BY.get(
                self.prop, []) + self.notes,
            'violations': len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)

    def trusted_models(self):
        return ["model of " + m for m in self.used_models]


def replay(path):
    with open(path) as fh:
        d = json.load(fh)
    if 'seed' not in d:
        print("No failing input; obligations that failed:")
        print(json.dumps(d['failed_obligations'], indent=1))
        return 1
    s = run.Server('concrete', REPO, d['property'], d['tier'])
    m = s.conn.recv()
    if m[0] != 'ready':
        print(m[1])
        return 2
    s.conn.send({'id': 1, 'contract': d['contract'], 'mode': 'concrete',
                 'tier': d['tier'], 'seeds': [d['seed']],
                 'inputs': d['inputs'], 'tape': d['tape']})
    r = s.conn.recv()[2]
    s.conn.send(None)
    print(json.dumps(r, indent=1, default=str))
    return 1 if r.get('failures') else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--selftest')
    a = ap.parse_args()
    try:
        if a.selftest:
            import selftest
            return selftest.main(a.selftest)
        if a.replay:
            return replay(a.replay)
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return Decider(a.property, a.tier, seed).main()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
