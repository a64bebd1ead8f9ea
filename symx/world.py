"""
Loads the real ade modules from /repo's current source, either for
symbolic execution (with symbolic-aware numpy, builtins, etc.) or
plainly, for a concrete replay. In both cases the environment is
stubbed: random draws, the clock, the reactor, STDIN, plotting.
"""
import builtins, io, math, os, struct, sys, time as _time, types
import importlib, traceback, warnings

import numpy as np

from . import engine as _eng
from .values import (
    SF, SI, SB, SymBytes, SymHash, lift, has_sym, mkb, ite, is_num, sym_eq)
from . import npshim
from . import strings as _str

REPO = os.environ.get('VERIF_REPO', '/repo')


# -- Reactor ------------------------------------------------------------------

os.environ.setdefault('MPLBACKEND', 'Agg')

from twisted.internet import task as _task, defer as _defer
from twisted.internet import error as _error


class FakeReactor(_task.Clock):
    """
    A deterministic reactor: delayed calls run when the harness says so.
    """
    running = True
    def __init__(self):
        _task.Clock.__init__(self)
        self.reset()
    def reset(self):
        self.rightNow = 0.0
        self.calls = []
        self.triggers = {}
        self.nTrigger = 0
        self.stopped = False
        self.fromThread = []
    def addSystemEventTrigger(self, phase, event, func, *args, **kw):
        self.nTrigger += 1
        key = (phase, event, self.nTrigger)
        self.triggers[key] = (func, args, kw)
        return key
    def removeSystemEventTrigger(self, key):
        # As the real reactor does, complain about unknown triggers
        if key not in self.triggers:
            raise KeyError(key)
        del self.triggers[key]
    def fireShutdown(self):
        for key in sorted(self.triggers, key=lambda k: k[2]):
            if key in self.triggers:
                func, args, kw = self.triggers[key]
                func(*args, **kw)
    def callWhenRunning(self, f, *a, **kw): return f(*a, **kw)
    def callFromThread(self, f, *a, **kw): self.callLater(0, f, *a, **kw)
    def getThreadPool(self): raise RuntimeError("no threads here")
    def callInThread(self, *a): raise RuntimeError("no threads here")
    def addReader(self, x): pass
    def removeReader(self, x): pass
    def addWriter(self, x): pass
    def removeWriter(self, x): pass
    def stop(self): self.stopped = True
    def run(self): raise RuntimeError("no running the fake reactor")
    def step(self):
        """
        Runs the delayed calls that are due next (all those with the
        earliest time). Returns False if there are none.
        """
        if not self.calls: return False
        self._sortCalls()
        t = self.calls[0].getTime()
        self.rightNow = max(self.rightNow, t)
        due = [c for c in self.calls if c.getTime() <= self.rightNow]
        for call in due:
            if call not in self.calls: continue
            self.calls.remove(call)
            call.called = 1
            call.func(*call.args, **call.kw)
        return True


REACTOR = FakeReactor()
sys.modules['twisted.internet.reactor'] = REACTOR
import twisted.internet as _ti
_ti.reactor = REACTOR

from twisted.logger import globalLogBeginner
globalLogBeginner.beginLoggingTo(
    [], redirectStandardIO=False, discardBuffer=True)

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import asynqueue, asynqueue.util, asynqueue.iteration


# -- Shadows of builtins --------------------------------------------------------

class _Shadow(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real_type) or isinstance(x, cls._sym_type)
    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real_type)
    def __getattr__(cls, name):
        return getattr(cls._real_type, name)
    def __eq__(cls, other):
        return other is cls or other is cls._real_type
    def __hash__(cls): return hash(cls._real_type)
    def __repr__(cls): return repr(cls._real_type)


class sym_float(metaclass=_Shadow):
    _real_type = float
    _sym_type = SF
    def __new__(cls, x=0.0):
        if isinstance(x, SF):
            return SF(x.v, x.nan, x.pinf, x.ninf) if x.np_ else x
        if isinstance(x, (SI, SB)): return lift(x)
        if hasattr(x, '_sym_to_float'): return x._sym_to_float()
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        m = getattr(type(x), '__float__', None)
        if m is not None and not isinstance(
                x, (int, float, np.generic, np.ndarray)):
            r = m(x)
            if isinstance(r, (SF, SI)): return lift(r)
            return float(r)
        return float(x)


class sym_int(metaclass=_Shadow):
    _real_type = int
    _sym_type = SI
    def __new__(cls, x=0, *args):
        if isinstance(x, SF): return x.__trunc__()
        if isinstance(x, SI): return x
        if isinstance(x, SB): return x._i()
        if hasattr(x, '_sym_to_int'): return x._sym_to_int()
        return int(x, *args)


class sym_str(metaclass=_Shadow):
    _real_type = str
    _sym_type = _str.SymStr
    def __new__(cls, x='', *args):
        return x if isinstance(x, _str.SymStr) else str(x, *args)


class np_float64(metaclass=_Shadow):
    _real_type = np.float64
    _sym_type = SF
    def __new__(cls, x=0.0):
        return npshim.npscalar(lift(x)) if has_sym(x) else np.float64(x)

class np_float32(metaclass=_Shadow):
    _real_type = np.float32
    _sym_type = SF
    def __new__(cls, x=0.0):
        return npshim.npscalar(lift(x)) if has_sym(x) else np.float32(x)

npshim.Special.float64 = np_float64
npshim.Special.double = np_float64
npshim.Special.float32 = np_float32


def sym_hash(x):
    if has_sym(x): return SymHash(x)
    m = getattr(type(x), '__hash__', None)
    if m is None: return hash(x)
    if isinstance(x, (str, bytes, int, float, tuple, frozenset)):
        return hash(x)
    r = m(x)
    return r if isinstance(r, SymHash) else hash(x)


def sym_sum(seq, start=0):
    t = start
    for x in seq: t = t + x
    return t


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
    def __getattr__(self, name):
        real = getattr(math, name)
        if not callable(real): return real
        special = getattr(_Math, name, None)
        def f(*args, **kw):
            if any(has_sym(a) for a in args):
                if special is None:
                    _eng.CUR.unsupported("math." + name)
                return special(*args, **kw)
            return real(*args, **kw)
        return f

class _Math(object):
    isnan = staticmethod(lambda x: npshim.e_isnan(x))
    isinf = staticmethod(lambda x: npshim.e_isinf(x))
    isfinite = staticmethod(lambda x: npshim.e_isfinite(x))
    sqrt = staticmethod(lambda x: lift(x).sqrt())
    exp = staticmethod(lambda x: lift(x).exp())
    sin = staticmethod(lambda x: lift(x).sin())
    cos = staticmethod(lambda x: lift(x).cos())
    log10 = staticmethod(lambda x: lift(x).log10())
    log = staticmethod(lambda x: lift(x).log())
    floor = staticmethod(lambda x: lift(x).__floor__())
    ceil = staticmethod(lambda x: lift(x).__ceil__())
    trunc = staticmethod(lambda x: lift(x).__trunc__())
    fabs = staticmethod(lambda x: abs(lift(x)))
    pow = staticmethod(lambda x, y: lift(x) ** y)
    fsum = staticmethod(lambda seq: sym_sum(seq, 0.0))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        abs(lift(a)-b) <= npshim.e_max(
            rel_tol*npshim.e_max(abs(lift(a)), abs(lift(b))), abs_tol)))
    hypot = staticmethod(lambda a, b: (lift(a)*a + lift(b)*b).sqrt())


class StructShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'struct')
    def pack(self, fmt, *args):
        if any(has_sym(a) for a in args):
            if 'f' in fmt:
                for x in args:
                    if isinstance(x, SF) and bool(
                            x.isfinite() & (abs(x) >= 3.4028235677973366e38)):
                        raise OverflowError(
                            "float too large to pack with f format")
            # Equality of the packed image is that of the numbers
            return SymBytes(list(args))
        return struct.pack(fmt, *args)
    def __getattr__(self, name): return getattr(struct, name)


# -- Random -----------------------------------------------------------------------

class RandomStub(types.ModuleType):
    """
    The random module: every draw is an unconstrained choice within the
    range that the real function documents.
    """
    def __init__(self, e, arrays):
        types.ModuleType.__init__(self, 'random')
        self.__dict__['_e'] = e
        self.__dict__['_arr'] = arrays
    def _c(self, n, name):
        w = self._e.world
        if w.dull and n > 0: return w.dullChoice(n)
        return self._e.choose(n, name)
    def _r(self, name, lo=None, hi=None, **kw):
        if self._e.world.dull:
            if lo is None or hi is None: return 0.25
            return lo + self._e.world.dullPart()*(hi - lo)
        return self._e.real(name, lo, hi, **kw)
    def _log(self, kind, value):
        self._e.events.append(('draw', kind, value))
        return value
    def random(self):
        return self._log('random', self._r(
            'rnd', 0, 1, lo_open=self._e.world.openDraws, hi_open=True))
    def uniform(self, a, b):
        if not has_sym(a) and not has_sym(b) and a == b: return float(a)
        if bool(a > b): a, b = b, a
        o = self._e.world.openDraws
        return self._log('uniform', self._r(
            'rnd_u', a, b, lo_open=o, hi_open=o))
    def triangular(self, low=0.0, high=1.0, mode=None):
        if bool(low == high): return low
        if bool(low > high): low, high = high, low
        return self._log('triangular', self._r(
            'rnd_t', low, high, hi_open=True))
    def randint(self, a, b):
        a, b = int(a), int(b)
        if b < a: raise ValueError("empty range for randint()")
        return self._log('randint', a + self._c(b-a+1, 'rnd_i'))
    def randrange(self, a, b=None, step=1):
        R = range(int(a)) if b is None else range(int(a), int(b), step)
        if not len(R): raise ValueError("empty range for randrange()")
        return self._log('randrange', R[self._c(len(R), 'rnd_i')])
    def choice(self, seq):
        if not len(seq): raise IndexError("Cannot choose from an empty sequence")
        return seq[self._c(len(seq), 'rnd_c')]
    def choices(self, seq, weights=None, k=1, **kw):
        return [self.choice(seq) for _ in range(k)]
    def sample(self, seq, k, **kw):
        pool = list(seq)
        if k > len(pool) or k < 0:
            raise ValueError("Sample larger than population or is negative")
        out = []
        for _ in range(k):
            out.append(pool.pop(self._c(len(pool), 'rnd_s')))
        return self._log('sample', out)
    def shuffle(self, x):
        y = self.sample(list(x), len(x))
        x[:] = y
    def gauss(self, mu=0.0, sigma=1.0): return self._r('rnd_g')
    normalvariate = gauss
    def seed(self, *a): pass
    def getrandbits(self, n): return self._c(2**min(n, 6), 'rnd_b')
    def Random(self, *a): return self
    SystemRandom = Random
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        import random
        getattr(random, name)
        def f(*a, **kw): _eng.CUR.unsupported("random." + name)
        return f


class NpRandomStub(types.ModuleType):
    def __init__(self, e, rnd):
        types.ModuleType.__init__(self, 'numpy.random')
        self.__dict__['_e'] = e
        self.__dict__['_rs'] = rnd
    def _array(self, size, one):
        if size is None: return npshim.npscalar(one())
        if isinstance(size, (int, np.integer)): size = (int(size),)
        size = tuple(int(x) for x in size)
        a = np.empty(size, dtype=object)
        for ix in np.ndindex(*size): a[ix] = npshim.npscalar(one())
        if self._e.symbolic and has_sym(a): return a.view(npshim.SymArray)
        flat = a.ravel().tolist()
        if all(isinstance(x, (int, np.integer)) for x in flat):
            return a.astype(int)
        return a.astype(float)
    def _c(self, n, name):
        w = self._e.world
        if w.dull and n > 0: return w.dullChoice(n)
        return self._e.choose(n, name)
    def _r(self, name, lo=None, hi=None, **kw):
        if self._e.world.dull:
            if lo is None or hi is None: return 0.25
            return lo + self._e.world.dullPart()*(hi - lo)
        return self._e.real(name, lo, hi, **kw)
    def _log(self, x):
        self._e.events.append(('draw', 'np', x))
        return x
    def _unit(self):
        return self._log(self._r(
            'nrnd', 0, 1, lo_open=self._e.world.openDraws, hi_open=True))
    def random(self, size=None): return self._array(size, self._unit)
    random_sample = random
    sample = random
    ranf = random
    def rand(self, *size): return self._array(size or None, self._unit)
    def uniform(self, low=0.0, high=1.0, size=None):
        return self._array(size, lambda: self._log(
            self._r('nrnd_u', low, high)))
    def triangular(self, left, mode, right, size=None):
        return self._array(size, lambda: self._r('nrnd_t', left, right))
    def randint(self, low, high=None, size=None, dtype=None):
        if high is None: low, high = 0, low
        return self._array(size, lambda: int(low) + self._c(
            int(high)-int(low), 'nrnd_i'))
    def choice(self, a, size=None, replace=True, p=None):
        seq = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if not seq: raise ValueError("'a' cannot be empty")
        if size is None: return seq[self._c(len(seq), 'nrnd_c')]
        if not replace:
            n = int(size) if not isinstance(size, tuple) else int(np.prod(size))
            return np.array(self._rs.sample(seq, n)).reshape(size)
        return self._array(size, lambda: seq[self._c(
            len(seq), 'nrnd_c')])
    def permutation(self, x):
        seq = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array(self._rs.sample(seq, len(seq)))
    def shuffle(self, x): x[:] = self.permutation(list(x))
    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._array(size, lambda: self._r('nrnd_n'))
    def randn(self, *size):
        return self._array(size or None, lambda: self._r('nrnd_n'))
    def seed(self, *a): pass
    def default_rng(self, *a): return self
    RandomState = default_rng
    def integers(self, low, high=None, size=None, **kw):
        return self.randint(low, high, size)
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        getattr(np.random, name)
        def f(*a, **kw): _eng.CUR.unsupported("np.random." + name)
        return f


class TimeStub(types.ModuleType):
    """A clock that the harness can make symbolic."""
    def __init__(self, w):
        types.ModuleType.__init__(self, 'time')
        self.__dict__['_w'] = w
    def time(self): return self._w.now()
    perf_counter = time
    monotonic = time
    def sleep(self, s): pass
    def __getattr__(self, name): return getattr(_time, name)


class NumpyConc(types.ModuleType):
    """The real numpy, except for its random draws."""
    def __init__(self, random):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['random'] = random
        self.__dict__['__path__'] = np.__path__
    def __getattr__(self, name): return getattr(np, name)


class Permissive(object):
    """Absorbs anything done to it."""
    def __init__(self, *a, **kw): pass
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return Permissive()
    def __call__(self, *a, **kw): return Permissive()
    def __iter__(self): return iter(())
    def __bool__(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): return False


class StdioStub(object):
    """twisted.internet.stdio without STDIN."""
    class StandardIO(object):
        def __init__(self, protocol, *a, **kw):
            self.protocol = protocol
            self.disconnecting = False
            protocol.makeConnection(self)
        def loseConnection(self): self.disconnecting = True
        def write(self, data): pass
        def getPeer(self): return None
        def getHost(self): return None


class PickleShim(types.ModuleType):
    """
    The real pickle, with the modules of one world being the ones that
    it finds by name.
    """
    def __init__(self, w):
        types.ModuleType.__init__(self, 'pickle')
        self.__dict__['_w'] = w
    def _within(self, f, *args, **kw):
        import pickle
        saved = {n: sys.modules.get(n) for n in list(sys.modules)
                 if n == 'ade' or n.startswith('ade.')}
        for n in saved: del sys.modules[n]
        sys.modules.update(self._w.modules)
        try: return f(pickle)(*args, **kw)
        finally:
            for n in self._w.modules: sys.modules.pop(n, None)
            sys.modules.update(saved)
    def dump(self, *a, **kw): return self._within(lambda p: p.dump, *a, **kw)
    def dumps(self, *a, **kw): return self._within(lambda p: p.dumps, *a, **kw)
    def load(self, *a, **kw): return self._within(lambda p: p.load, *a, **kw)
    def loads(self, *a, **kw): return self._within(lambda p: p.loads, *a, **kw)
    def __getattr__(self, name):
        import pickle
        return getattr(pickle, name)


class SignalStub(types.ModuleType):
    """Doesn't touch this process's signal handlers."""
    def __init__(self, w):
        types.ModuleType.__init__(self, 'signal')
        self.__dict__['_w'] = w
    def signal(self, *a): return None
    def __getattr__(self, name):
        import signal
        return getattr(signal, name)


def _wrapped(f, conv):
    import functools
    @functools.wraps(f)
    def g(*a, **kw):
        r = f(*a, **kw)
        return conv(r) if isinstance(r, (SB, SI, SF)) else r
    return g

CONV = {
    '__bool__': bool, '__len__': lambda x: int(x),
    '__index__': lambda x: int(x), '__contains__': bool,
}


# -- World --------------------------------------------------------------------------

_CODE = {}
FUNCTIONS = set()

def source_path(modname):
    rel = modname.replace('.', '/')
    for p in (rel + '.py', rel + '/__init__.py'):
        path = os.path.join(REPO, p)
        if os.path.exists(path): return path
    return None

def code_of(modname):
    if modname not in _CODE:
        path = source_path(modname)
        if path is None: raise ImportError("No module named " + modname)
        with open(path, encoding='utf-8') as fh: text = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _CODE[modname] = compile(text, path, 'exec')
    return _CODE[modname]


class World(object):
    """
    One fresh load of the ade package for one path.
    """
    def __init__(self, e):
        self.e = e
        self.modules = {}
        self.reactor = REACTOR
        self.t = 1000.0
        self.clock = None
        self.printed = []
        self.overrides = {}
        # While set, initial samples are all midpoints
        self.fixed = False
        # While set, draws never are exactly an end of their range
        self.openDraws = False
        # While set, draws are fixed, for where they don't matter
        self.dull = False
        # While set too, fixed draws of real numbers differ from each other
        self.stirred = False
        # While set, numbers in arrays that aren't symbolic are doubles
        self.floats = False
        # Strings hash differently in another process
        self.salt = 0
        REACTOR.reset()
        _task._theCooperator = _task.Cooperator(
            terminationPredicateFactory=lambda: (lambda: True))
        asynqueue.iteration.time = TimeStub(self)
        self.random = RandomStub(e, e.symbolic)
        self.nprandom = NpRandomStub(e, self.random)
        if e.symbolic:
            self.np = npshim.NumpyShim(self.nprandom)
        else: self.np = NumpyConc(self.nprandom)
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['print'] = self._print
        self.builtins['hash'] = self._hash
        # Contents of files with symbolic text, keyed by path
        self.texts = {}
        self.builtins['open'] = self._open
        if e.symbolic:
            self.builtins['float'] = sym_float
            self.builtins['int'] = sym_int
            self.builtins['str'] = sym_str
        self.stubs = {
            'numpy': self.np,
            'random': self.random,
            'time': TimeStub(self),
            'signal': SignalStub(self),
            'pickle': PickleShim(self),
        }
        if e.symbolic:
            self.stubs['math'] = MathShim()
            self.stubs['struct'] = StructShim()
            self.stubs['re'] = _str.ReShim()
        self.stubs['numpy.random'] = self.nprandom

    def _open(self, path, *args, **kw):
        if path in self.texts: return _str.VirtualFile(self.texts[path])
        return open(path, *args, **kw)

    def text(self, path, lines):
        """
        Has a file contain the lines of text supplied.
        """
        if self.e.symbolic:
            self.texts[path] = [
                line + '\n' for line in lines]
            lines = []
        with open(path, 'w') as fh:
            for line in lines: fh.write(line + '\n')

    def _hash(self, x):
        if self.salt and isinstance(x, (str, bytes, SymBytes)):
            x = (self.salt, x)
        return sym_hash(x) if self.e.symbolic else hash(x)

    def dullChoice(self, n):
        """
        A fixed choice, different each time if dull is an integer > 1.
        """
        if self.dull is True or self.dull == 1: return (n-1)//2
        self.dull = 1 + (self.dull*1103515245 + 12345) % 2147483646
        return (self.dull >> 8) % n

    def dullPart(self):
        """
        A fixed part of an interval.
        """
        if not self.stirred: return 0.375
        return (self.dullChoice(1024) + 0.5) / 1024

    def now(self):
        if self.clock is not None: return self.clock()
        self.t += 0.001
        return self.t

    def _print(self, *args, **kw):
        f = kw.get('file')
        if f is not None and f not in (sys.stdout, sys.stderr):
            return print(*args, **kw)
        self.printed.append(" ".join(str(a) for a in args))

    def attr_stub(self, modname, name):
        """Stub for one name imported from a third-party module."""
        key = (modname, name)
        if key in self.overrides: return self.overrides[key]
        if key == ('twisted.internet', 'stdio'): return StdioStub
        if key == ('twisted.internet', 'reactor'): return REACTOR
        if key == ('pyDOE', 'lhs'): return self._lhs
        if name == 'Plotter' and modname.startswith('yampex'):
            return Permissive
        if name == 'ProcessQueue' and modname.startswith('asynqueue'):
            return Permissive
        return None

    def _lhs(self, n, samples=None, criterion=None, iterations=None, **kw):
        """
        A Latin hypercube with arbitrary positions within [0,1].
        """
        if samples is None: samples = n
        if self.fixed:
            return np.full((samples, n), 0.5)
        if self.dull and self.stirred:
            return np.array([[self.dullPart() for _ in range(n)]
                             for _ in range(samples)])
        a = np.empty((samples, n), dtype=object)
        self.lhsCalls = getattr(self, 'lhsCalls', 0) + 1
        for ix in np.ndindex(samples, n):
            a[ix] = npshim.npscalar(self.e.real('lhs', 0, 1))
        if self.e.symbolic: return a.view(npshim.SymArray)
        return a.astype(float)

    def _import(self, name, globs=None, locs=None, fromlist=(), level=0):
        if level:
            pkg = (globs or {}).get('__package__') or 'ade'
            parts = pkg.split('.')
            if level > 1: parts = parts[:-(level-1)]
            absname = '.'.join(parts + ([name] if name else []))
        else: absname = name
        if absname == 'ade' or absname.startswith('ade.'):
            if fromlist:
                m = self.load(absname)
                for attr in fromlist:
                    if attr != '*' and not hasattr(m, attr):
                        sub = absname + '.' + attr
                        if source_path(sub): setattr(m, attr, self.load(sub))
                return m
            self.load(absname)
            return self.load(absname.split('.')[0])
        if absname in self.stubs:
            return self.stubs[absname]
        if absname.split('.')[0] == 'numpy' and not fromlist:
            return self.np
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            real = builtins.__import__(name, globs, locs, fromlist, level)
        if fromlist:
            stubbed = {}
            for attr in fromlist:
                s = self.attr_stub(absname, attr)
                if s is not None: stubbed[attr] = s
            if stubbed: return Facade(real, stubbed)
            return real
        top = absname.split('.')[0]
        if top in self.stubs: return self.stubs[top]
        return DeepFacade(self, real, top) if top in (
            'twisted', 'asynqueue', 'yampex', 'pyDOE') else real

    def load(self, modname):
        if modname in self.modules: return self.modules[modname]
        path = source_path(modname)
        if path is None: raise ImportError("No module named " + modname)
        m = types.ModuleType(modname)
        m.__file__ = path
        if path.endswith('__init__.py'):
            m.__package__ = modname
            m.__path__ = [os.path.dirname(path)]
        else: m.__package__ = modname.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.modules[modname] = m
        if modname == 'ade':
            # __init__ may import everything; harmless, but not needed
            # unless it defines something of its own
            pass
        exec(code_of(modname), m.__dict__)
        if self.e.symbolic: self._wrapClasses(m)
        if '.' in modname:
            parent, _, leaf = modname.rpartition('.')
            setattr(self.load(parent), leaf, m)
        return m

    def _wrapClasses(self, m):
        """
        CPython insists on real bools, ints, etc. from some special
        methods, so have those fork as needed.
        """
        for C in list(m.__dict__.values()):
            if not isinstance(C, type) or C.__module__ != m.__name__: continue
            for name, conv in CONV.items():
                f = C.__dict__.get(name)
                if isinstance(f, types.FunctionType):
                    setattr(C, name, _wrapped(f, conv))

    def quiet(self):
        """Suppresses ade's messages."""
        u = self.load('ade.util')
        u.msg(None)
        return u


class Facade(object):
    """A module with a few of its names replaced."""
    def __init__(self, real, stubbed):
        self.__dict__['_real'] = real
        self.__dict__.update(stubbed)
    def __getattr__(self, name): return getattr(self._real, name)


class DeepFacade(object):
    """Dotted access to a third-party package, with stubs applied."""
    def __init__(self, w, real, name):
        self._w, self._real, self._name = w, real, name
    def __getattr__(self, attr):
        s = self._w.attr_stub(self._name, attr)
        if s is not None: return s
        x = getattr(self._real, attr)
        if isinstance(x, types.ModuleType):
            return DeepFacade(self._w, x, self._name + '.' + attr)
        return x


# -- Running a harness ----------------------------------------------------------------

COVERAGE = None     # set of (filename, qualname) if being collected

def _profile(frame, event, arg):
    if event == 'call':
        co = frame.f_code
        if co.co_filename.startswith(REPO):
            FUNCTIONS.add((co.co_filename[len(REPO)+1:], co.co_qualname))


def run_harness(h, e, cfg, profile=False):
    """
    Runs harness h once (one path, or one replay) in a fresh world.
    """
    w = World(e)
    e.world = w
    if profile: sys.setprofile(_profile)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h(e, cfg)
    except _eng.Control as exc:
        if e.dead is None: e.dead = exc
    except (Exception, SystemExit) as exc:
        if isinstance(exc, RecursionError) and isinstance(e, _eng.SymEngine):
            # May be due to the size of a symbolic term, a replay will tell
            if e.dead is None: e.dead = _eng.Unsupported("recursion")
        elif e.dead is None:
            e.notes['traceback'] = traceback.format_exc()
            try:
                e.fail("unexpected %s: %s" % (type(exc).__name__, clean(exc)))
            except _eng.Control as exc2:
                if e.dead is None: e.dead = exc2
    finally:
        if profile: sys.setprofile(None)
        # Deferreds that were abandoned with failures in them shouldn't
        # clutter the output
        REACTOR.reset()
    return e

def clean(exc):
    return str(exc).replace('\n', ' ')[:160]
