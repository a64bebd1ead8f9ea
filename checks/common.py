"""
Building blocks of the harnesses.
"""
import math

import numpy as np
from twisted.internet import defer
from twisted.python.failure import Failure

from symx import values as V, world as W
from symx.runner import Harness
from symx.values import SF, SI, SB, ite, lift, mkb, tb, has_sym

TOL = 1e-9


# -- Logic that works in both modes --------------------------------------------

def And(*xs):
    r = True
    for x in xs:
        if x is False: return False
        r = x if r is True else (r & x)
    return r

def Or(*xs):
    r = False
    for x in xs:
        if x is True: return True
        r = x if r is False else (r | x)
    return r

def Not(x):
    if isinstance(x, SB): return ~x
    return not x

def Implies(a, b): return Or(Not(a), b)

def Iff(a, b):
    if isinstance(a, SB) or isinstance(b, SB):
        return mkb(tb(a) == tb(b))
    return bool(a) == bool(b)

def If(c, a, b):
    if isinstance(c, SB):
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return Or(And(c, a), And(Not(c), b))
        return ite(c, a, b)
    return a if c else b

def isnan(x):
    if isinstance(x, SF): return x.isnan()
    if isinstance(x, (SI, SB)): return False
    return math.isnan(x)

def isinf(x):
    if isinstance(x, SF): return x.isinf()
    if isinstance(x, (SI, SB)): return False
    return math.isinf(x)

def isfinite(x): return And(Not(isnan(x)), Not(isinf(x)))

def same(a, b):
    """Same number, NaN being the same as NaN."""
    if a is b: return True
    if isinstance(a, V.SymbolicNumber) or isinstance(b, V.SymbolicNumber):
        a, b = lift(a), lift(b)
        return Or(And(isnan(a), isnan(b)), a == b)
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or a == b

def near(a, b, tol=TOL, scale=None):
    """
    Equal in exact arithmetic; in a concrete replay, within rounding.
    """
    if isinstance(a, V.SymbolicNumber) or isinstance(b, V.SymbolicNumber):
        return same(a, b)
    a, b = float(a), float(b)
    if a == b or (math.isnan(a) and math.isnan(b)): return True
    m = max(abs(a), abs(b), scale or 0.0)
    return abs(a-b) <= tol * max(1.0, m)

def same_vec(a, b, f=same):
    a, b = list(a), list(b)
    if len(a) != len(b): return False
    return And(*[f(x, y) for x, y in zip(a, b)])

def le(a, b):
    """a <= b up to rounding in a concrete replay."""
    if isinstance(a, V.SymbolicNumber) or isinstance(b, V.SymbolicNumber):
        return lift(a) <= lift(b)
    a, b = float(a), float(b)
    return a <= b + TOL * max(1.0, abs(a), abs(b))

def worst(x):
    """
    The fitness that counts: missing or negative is infinite.
    """
    if x is None: return math.inf
    if isinstance(x, SF):
        return ite(x < 0, math.inf, x)
    x = float(x)
    return math.inf if x < 0 else x


# -- Stand-ins -------------------------------------------------------------------

class NullHistory(W.Permissive):
    """A history that takes everything and keeps a log of it."""
    N_total = 0
    def __init__(self): self.calls = []
    def add(self, i, neverInPop=False):
        self.calls.append(('add', i, neverInPop))
        return defer.succeed(None)
    def notInPop(self, i):
        self.calls.append(('out', i))
        return defer.succeed(None)
    def shutdown(self): return defer.succeed(None)
    def clear(self): return defer.succeed(None)
    def purgePop(self): return defer.succeed(None)


class NullReporter(W.Permissive):
    """A reporter that says nothing."""
    def __init__(self): self.calls = []
    def __call__(self, *args, **kw):
        self.calls.append(args)
        return None
    def msgRatio(self, *args, **kw): return None
    def progressChar(self, *args): pass
    def waitForCallbacks(self): return defer.succeed(None)
    def abort(self): pass
    def addCallback(self, *args, **kw): pass


class Fail(Exception):
    """Raised by an evaluation function."""


class Evaluator(object):
    """
    The user's evaluation function. Each call gets its result, and the
    time at which it is available, from the engine.

    @ivar calls: One record per call.
    """
    def __init__(self, e, kinds=('num', 'none', 'raise'), delayed=False,
                 lo=None, nan=True, pinf=True, result=None, good=None):
        self.e = e
        # All calls from this number on give finite nonnegative results
        self.good = good
        self.kinds = kinds
        self.delayed = delayed
        self.lo, self.nan, self.pinf = lo, nan, pinf
        self.result = result
        self.calls = []
        self.pending = []
        self.maxPending = 0

    def make(self, call):
        e = self.e
        if self.result is not None: return self.result(call)
        if self.good is not None and call['n'] >= self.good:
            return e.real('SSE', lo=0)
        kind = self.kinds[0]
        if len(self.kinds) > 1:
            kind = self.kinds[e.choose(len(self.kinds), 'evalkind')]
        if kind == 'num':
            return e.xreal('SSE', lo=self.lo, nan=self.nan, pinf=self.pinf)
        if kind == 'none': return None
        if kind == 'inf': return math.inf
        if kind == 'neg': return -1.0
        return Fail("evaluator")

    def __call__(self, values, xSSE=None):
        call = {
            'n': len(self.calls), 'values': None if values is None
            else list(values), 'xSSE': xSSE, 'done': False, 'd': None}
        self.calls.append(call)
        if not self.delayed:
            call['result'] = r = self.make(call)
            call['done'] = True
            if isinstance(r, Exception): raise r
            return r
        call['d'] = d = defer.Deferred()
        self.pending.append(call)
        self.maxPending = max(self.maxPending, len(self.pending))
        return d

    def finish(self, call):
        self.pending.remove(call)
        call['result'] = r = self.make(call)
        call['done'] = True
        if isinstance(r, Exception): call['d'].errback(r)
        else: call['d'].callback(r)

    @property
    def real(self):
        """The calls that asked for an evaluation of actual values."""
        return [c for c in self.calls if c['values'] is not None]


def failed(d):
    """The Failure that a Deferred has fired with, or None."""
    r = getattr(d, 'result', None) if d.called else None
    return r if isinstance(r, Failure) else None

def isDone(d):
    """Has the Deferred fired with an actual result?"""
    return bool(d.called) and not d.paused and not isinstance(
        getattr(d, 'result', None), defer.Deferred)

def finished(e, d, what):
    """Checks that d has fired, and not with a failure."""
    f = failed(d)
    if f is not None:
        e.notes['traceback'] = f.getTraceback()
        d.addErrback(lambda _: None)
        e.fail(what + " doesn't fail (%s: %s)" % (
            f.type.__name__, W.clean(f.value)))
    e.check(isDone(d), what + " finishes")

def ident(x):
    """
    An integer that identifies a value x whatever its precision. (Not if
    x is an odd multiple of 2.5E-7, which no harness uses.)
    """
    return int(math.floor(float(x)*1e6 + 0.75))

def settle(e, n=50):
    """Lets the reactor run whatever is due, for up to n turns."""
    r = e.world.reactor
    for _ in range(n):
        if not r.step(): break

def drive(e, ev, d=None, turns=60, name='sched', tick=3):
    """
    Completes pending evaluations in an arbitrary order, until there are
    none (or d, if given, has fired).
    """
    for _ in range(turns):
        for _ in range(tick): e.world.reactor.step()
        if d is not None and isDone(d) and not ev.pending: break
        if not ev.pending:
            for _ in range(20):
                if not e.world.reactor.step(): break
                if ev.pending or (d is not None and isDone(d)): break
            if not ev.pending: break
        k = 0
        if len(ev.pending) > 1: k = e.choose(len(ev.pending), name)
        ev.finish(ev.pending[k])
    for _ in range(tick): e.world.reactor.step()


# -- Populations -------------------------------------------------------------------

NAMES = ['b', 'a', 'c', 'd']        # deliberately not sorted

def symbounds(e, Nd, fixed=False):
    if fixed: return [(-1.0*(k+1), 2.0+k) for k in range(Nd)]
    B = []
    for k in range(Nd):
        lo = e.real('lo')
        hi = e.real('hi')
        e.assume(lo < hi)
        B.append((lo, hi))
    return B


class Pop(object):
    """
    A population of Np members in a symbolic state.

    It is built with blank setup plus item assignment, so that it gets
    constructed as it would be by a user.
    """
    def __init__(self, e, Np, Nd, func=None, bounds=None, history=False,
                 reporter=False, SSE=None, values=None, kw=None, fill=True,
                 plain=True, names=None):
        w = self.w = e.world
        self.e = e
        w.quiet()
        self.pop = w.load('ade.population')
        self.Nd, self.Np = Nd, Np
        self.names = names or NAMES[:Nd]
        if bounds is None: bounds = symbounds(e, Nd, True)
        self.bounds = bounds
        P = self.pop.Population
        P.Np_min = Np
        P.Np_max = Np
        if plain:
            # Formatting numbers for display would fork a lot
            P.__repr__ = lambda self: "<Population>"
            self.pop.Individual.__repr__ = lambda self: "<Individual>"
        self.func = func or Evaluator(e)
        p = self.p = P(self.func, list(self.names), bounds, **(kw or {}))
        if not history: p.history = NullHistory()
        if not reporter: p.reporter = NullReporter()
        if fill: self.fill(SSE, values)

    def fill(self, SSE=None, values=None):
        e, p, w = self.e, self.p, self.w
        w.fixed = True
        d = p.setup(blank=True)
        settle(e)
        w.fixed = False
        assert d.called, "blank setup didn't finish"
        self.values, self.SSE, self.members = [], [], []
        for k in range(self.Np):
            v = self.newValues('m%d' % k) if values is None else values(k)
            s = e.xreal('S%d' % k, lo=0, nan=False) \
                if SSE is None else SSE(k)
            i = self.individual(v, s)
            p[k] = i
            self.values.append(list(i.values))
            self.SSE.append(s)
            self.members.append(i)

    def newValues(self, name, inside=True):
        e = self.e
        out = []
        for lo, hi in self.bounds:
            if inside: out.append(e.real(name, lo, hi))
            else: out.append(e.real(name))
        return out

    def individual(self, values, SSE=None):
        i = self.p.spawn(self.w.np.array(list(values)))
        if SSE is not None: i.SSE = SSE
        return i

    def snapshot(self):
        """Identity and content of all members."""
        return [(i, list(i.values), i.SSE) for i in self.p]

    def unlocked(self):
        return not any(lock.locked for lock in self.p.dLocks)

    def DE(self, F=(0.5, 1.0), CR=0.8, **kw):
        """
        A DE object that is ready for challenges.
        """
        m = self.de_mod = self.w.load('ade.de')
        adaptive = kw.get('adaptive', True)
        de = m.DifferentialEvolution(
            self.p, logHandle=None, F=F, CR=CR, **kw)
        de.fm = m.FManager(F, CR, self.Np, adaptive)
        return de


# -- Bounds --------------------------------------------------------------------------

def isLimited(v, x, lo, hi):
    """
    The condition that v is what value x gets limited to: itself if
    within bounds, its reflection about the bound it violates if that is
    within bounds, or else a further reflection or a bound.
    """
    if has_sym([v, x, lo, hi]): x = lift(x)
    y = If(x < lo, 2*lo - x, If(x > hi, 2*hi - x, x))
    z = If(y < lo, 2*lo - y, If(y > hi, 2*hi - y, y))
    z = If(z < lo, lo, If(z > hi, hi, z))
    # Cancellation is to be expected in a concrete replay
    if isinstance(x, V.SymbolicNumber): eq = near
    else: eq = lambda a, b: near(a, b, scale=max(
            abs(float(t)) for t in (x, lo, hi) if not math.isinf(t)))
    return If(And(y >= lo, y <= hi), eq(v, y),
              Or(eq(v, z), eq(v, lo), eq(v, hi)))

def inside(values, bounds, exact=False):
    """The condition that all values are within their bounds."""
    conds = []
    for v, (lo, hi) in zip(values, bounds):
        conds += [v >= lo, v <= hi]
    return And(*conds)


# -- Files -----------------------------------------------------------------------------

import atexit, os, shutil, tempfile

_DIR = {}

def scratch(name):
    """Path of a file in this process's own scratch directory."""
    pid = os.getpid()
    if pid not in _DIR:
        # Within that of the main process, which outlives this one
        _DIR[pid] = tempfile.mkdtemp(
            prefix='vade', dir=os.environ.get('VERIF_SCRATCH'))
        atexit.register(_cleanup, pid)
    return os.path.join(_DIR[pid], name)

def _cleanup(pid):
    if pid == os.getpid() and pid in _DIR:
        shutil.rmtree(_DIR.pop(pid), ignore_errors=True)
