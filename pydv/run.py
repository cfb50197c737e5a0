"""
pydv.run: runs the contracts of a property in worker processes.
"""
import importlib, json, os, pickle, signal, sys, time, traceback
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def prepare():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10000)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    from . import reactor
    reactor.install()
    # Errors that nobody handles are not for the console
    from twisted.logger import globalLogBeginner
    globalLogBeginner.beginLoggingTo(
        [lambda event: None], redirectStandardIO=False, discardBuffer=True)


def prepare_symbolic(repo):
    prepare()
    from . import loader
    loader.install(repo)


def prepare_concrete(repo):
    prepare()
    sys.path.insert(0, repo)


ADE = ('util', 'abort', 'individual', 'report', 'history', 'population', 'de',
       'constraints', 'specs')


def load_contracts(prop):
    from . import harness
    importlib.import_module('contracts.%s' % prop.lower())
    return harness.CONTRACTS.get(prop, [])


def run_symbolic(c, mode, tier, budget=None):
    """Runs one contract symbolically; returns a plain result dict."""
    from . import engine, harness, loops, models
    e = engine.Engine(
        timeout_ms=c.timeout_ms if tier == 'quick' else 4*c.timeout_ms,
        max_paths=c.max_paths if tier == 'quick' else 10*c.max_paths,
        budget_s=budget or (c.budget if tier == 'quick' else 8*c.budget),
        use_cvc5=(tier != 'quick'))
    t0 = time.time()
    models.USED.clear()
    loops.ENTERED.clear()
    dv = harness.SymDV(mode, e, tier)
    looplog = set()

    def harness_fn():
        dv.start()
        try:
            c.fn(dv)
            e.alive()
            e.reach('end')
        finally:
            looplog.update(e.ghost.get('looplog', ()))
            dv.finish()
    e.run(harness_fn)
    return {
        'contract': c.id, 'mode': mode, 'stats': e.stats,
        'by_name': e.by_name,
        'failures': [f.as_dict() for f in e.failures],
        'unsupported': sorted(set(e.unsupported)),
        'reached': sorted(e.reached), 'complete': e.complete,
        'timed_out': e.timed_out, 'wall_s': time.time() - t0,
        'models': sorted(models.USED), 'loops': sorted(looplog),
        'entered': sorted(loops.ENTERED),
    }


def run_concrete(c, seeds, tier, inputs=None, tape=None, max_s=None,
                 stop_on_fail=True):
    from . import harness
    t0 = time.time()
    r = {'contract': c.id, 'mode': 'concrete', 'runs': 0, 'discarded': 0,
         'checks': 0, 'names': {}, 'failures': [], 'errors': [],
         'reached': set(), 'distinct': set()}
    for seed in seeds:
        if max_s and time.time() - t0 > max_s:
            break
        dv = harness.ConDV(seed, inputs, tape, tier)
        dv.start()
        try:
            c.fn(dv)
            r['reached'].add('end')
        except harness.Discard:
            r['discarded'] += 1
            continue
        except harness.Stop:
            pass
        except Exception as exc:
            if not dv.failures and not dv.discarded:
                r['errors'].append(repr(exc) + '\n' + traceback.format_exc())
            if len(r['errors']) > 20:
                break
        finally:
            dv.finish()
        if dv.discarded:
            r['discarded'] += 1
            continue
        r['runs'] += 1
        r['checks'] += dv.checks
        for n, k in dv.passed_names.items():
            r['names'][n] = r['names'].get(n, 0) + k
        r['reached'] |= dv.reached
        try:
            r['distinct'].add(hash(repr(sorted(dv.inputs.items())) + repr(
                dv.log[:40])))
        except Exception:
            pass
        if dv.failures:
            r['failures'].append({
                'seed': seed, 'inputs': jsonable(dv.inputs),
                'tape': jsonable(dv.log[:500]),
                'failed': [[n, str(d)[:4000] if d else d]
                           for n, d in dv.failures[:5]],
                'trace': jsonable(dv.trace[-200:])})
            if stop_on_fail:
                break
    r['distinct'] = len(r['distinct'])
    r['reached'] = sorted(r['reached'])
    r['wall_s'] = time.time() - t0
    return r


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if hasattr(x, 'tolist'):
        return jsonable(x.tolist())
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


# --- process pool: fork per task after one-time import ----------------------
class Server(object):
    """
    A process that has imported ade (instrumented or plain) and forks a child
    for each task.
    """
    def __init__(self, kind, repo, prop, tier):
        self.kind = kind
        ctx = mp.get_context('fork')
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(
            target=self._main, args=(child, kind, repo, prop, tier))
        self.proc.start()
        child.close()

    @staticmethod
    def _main(conn, kind, repo, prop, tier):
        devnull = os.open(os.devnull, os.O_RDONLY)
        os.dup2(devnull, 0)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        try:
            if kind == 'symbolic':
                prepare_symbolic(repo)
            else:
                prepare_concrete(repo)
            contracts = load_contracts(prop)
            for name in ADE:
                importlib.import_module('ade.' + name)
            files = {m: sys.modules['ade.' + m].__file__ for m in ADE}
            for m, f in files.items():
                if not os.path.abspath(f).startswith(os.path.abspath(repo)):
                    raise RuntimeError("ade imported from %s" % f)
        except BaseException:
            conn.send(('error', traceback.format_exc()))
            return
        sources = {}
        if kind == 'symbolic':
            from . import loader
            sources = dict(loader.SOURCES)
        conn.send(('ready', [
            (c.name, c.functions, c.modes, c.runs, c.weight, c.note)
            for c in contracts], sources))
        byname = {c.name: c for c in contracts}
        running = {}
        while True:
            if running:
                import select
                rl, _, _ = select.select(
                    [conn.fileno()] + list(running), [], [], 1.0)
            else:
                rl = [conn.fileno()]
            for fd in list(rl):
                if fd == conn.fileno():
                    try:
                        task = conn.recv()
                    except EOFError:
                        return
                    if task is None:
                        return
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        try:
                            out = Server._do(byname, task)
                        except BaseException:
                            out = {'crash': traceback.format_exc()}
                        data = pickle.dumps(out)
                        with os.fdopen(w, 'wb') as fh:
                            fh.write(data)
                        os._exit(0)
                    os.close(w)
                    running[r] = (pid, task['id'], [], time.time(),
                                  task.get('limit', 600))
                elif fd in running:
                    pid, tid, buf, t0, lim = running[fd]
                    data = os.read(fd, 1 << 20)
                    if data:
                        buf.append(data)
                    else:
                        os.close(fd)
                        os.waitpid(pid, 0)
                        del running[fd]
                        try:
                            out = pickle.loads(b''.join(buf))
                        except Exception:
                            out = {'crash': 'worker died'}
                        conn.send(('result', tid, out))
            for fd in list(running):
                pid, tid, buf, t0, lim = running[fd]
                if time.time() - t0 > lim:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass

    @staticmethod
    def _do(byname, task):
        c = byname[task['contract']]
        if task['mode'] == 'concrete':
            return run_concrete(
                c, task['seeds'], task['tier'], task.get('inputs'),
                task.get('tape'), task.get('max_s'))
        return run_symbolic(c, task['mode'], task['tier'], task.get('budget'))
