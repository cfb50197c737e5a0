"""
pydv.loader: imports the ade package from the repository's current source,
instrumented, with builtins and a few external modules redirected.
"""
import importlib, importlib.abc, importlib.util, os, sys, types, hashlib, time as _time
import math as _math

from . import instrument, models
from .engine import Engine

REPO = os.environ.get('PYDV_REPO', '/repo')
SOURCES = {}


class TimeFacade(object):
    """A clock under the harness's control."""
    def __init__(self):
        self.now = 1000.0
    def time(self):
        f = None
        if Engine.current is not None:
            f = Engine.current.ghost.get('clock')
        if f:
            return f()
        return self.now
    perf_counter = monotonic = process_time = time
    def __getattr__(self, name):
        return getattr(_time, name)


class StructFacade(object):
    def pack(self, fmt, *args):
        import struct
        if models.anysym(args):
            return models.Opaque('pack:' + fmt, *args)
        return struct.pack(fmt, *args)
    def __getattr__(self, name):
        import struct
        return getattr(struct, name)


class MathFacade(object):
    MAP = {'isnan': 'isnan', 'isinf': 'isinf', 'isfinite': 'isfinite',
           'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'fabs': 'abs',
           'sin': 'sin', 'exp': 'exp'}
    def __getattr__(self, name):
        real = getattr(_math, name)
        if name in self.MAP:
            m = models.NP[self.MAP[name]]
            def wrapper(*a):
                return m(*a) if models.anysym(a) else real(*a)
            return wrapper
        return real


FACADES = {}


def facades():
    if not FACADES:
        FACADES.update({
            'numpy': models.NpFacade(), 'random': models.RandomFacade(),
            'time': TimeFacade(), 'struct': StructFacade(),
            'math': MathFacade()})
    return FACADES


def dv_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        F = facades()
        if name in F and not (fromlist and name == 'numpy'):
            return F[name]
        if name in F and fromlist:
            return F[name]
    return __import__(name, globals, locals, fromlist, level)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'ade' and not fullname.startswith('ade.'):
            return None
        rel = fullname.replace('.', '/')
        base = os.path.join(self.repo, rel)
        if os.path.isdir(base):
            fn = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=self, submodule_search_locations=[base])
        fn = base + '.py'
        if os.path.exists(fn):
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        fn = module.__spec__.origin
        with open(fn, encoding='utf-8') as fh:
            src = fh.read()
        SOURCES[module.__name__] = hashlib.sha256(src.encode()).hexdigest()
        code = instrument.instrument(src, fn, module.__name__)
        b = dict(models.BUILTINS)
        b['__import__'] = dv_import
        module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)


def install(repo=None):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(repo or REPO))
