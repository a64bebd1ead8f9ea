"""
Path exploration and solver queries.

A harness is a function h(e, cfg) that gets its inputs from the engine
e (e.real, e.xreal, e.choose, ...), runs the code under test, and
states the property with e.check(condition, message).

SymEngine runs it with symbolic inputs. Whenever the code under test
takes the truth value of a symbolic condition, the solver is asked
which outcomes are feasible given the path so far. One is followed and
the other is queued; the harness is re-executed from the start for
each queued decision prefix until none is left. Each e.check is one
solver query: is (path condition and not condition) satisfiable?

ConcEngine runs the same harness with the concrete values of a solver
model, against the unmodified modules and the real numpy: the replay.
"""
import gc, math, os, signal, time, random as _random
from fractions import Fraction

from . import Z3_SITE       # noqa: ensures that z3 is importable
import z3

CUR = None

_STASH = []

def stash(x):
    _STASH.append(x)
    return len(_STASH) - 1

def rebuild(k):
    return _STASH[k]


class Control(BaseException):
    """Path control, never a result of the code under test."""

class Unsupported(Control):
    pass

class PathLimit(Control):
    pass

class Infeasible(Control):
    pass

class Hang(Control):
    """Runs much longer than it ever should."""


class Watchdog(object):
    """
    Interrupts whatever runs for more than I{s} seconds of CPU time.
    """
    def __init__(self, e, s):
        self.e, self.s = e, s
    def _fired(self, *args):
        if self.e.dead is None: self.e.dead = Hang("runs too long")
        raise self.e.dead
    def __enter__(self):
        try: self.old = signal.signal(signal.SIGVTALRM, self._fired)
        except ValueError:
            self.old = None
            return self
        # Repeated, as the first might get swallowed
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s, 1.0)
        return self
    def __exit__(self, *args):
        if self.old is None: return
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, signal.SIG_IGN)


class Stats(object):
    names = (
        'paths', 'forks', 'queries', 'sat', 'unsat', 'unknown',
        'asserts', 'discharged', 'trivial', 'concretized', 'truncated',
        'not_reproduced', 'completed', 'validated', 'infeasible')
    def __init__(self):
        for n in self.names: setattr(self, n, 0)
        self.solver_s = 0.0
        self.unsupported = {}
        self.cover = {}
        self.unknown_asserts = []
        self.nonrep = []
        self.messages = {}
    def merge(self, d):
        for n in self.names: setattr(self, n, getattr(self, n) + d[n])
        self.solver_s += d['solver_s']
        for k, v in d['unsupported'].items():
            self.unsupported[k] = self.unsupported.get(k, 0) + v
        for k, v in d['cover'].items():
            self.cover[k] = self.cover.get(k, 0) + v
        for k, v in d['messages'].items():
            self.messages[k] = self.messages.get(k, 0) + v
        self.unknown_asserts += d['unknown_asserts']
        self.nonrep += d['nonrep']
    def asdict(self):
        d = {n: getattr(self, n) for n in self.names}
        d['solver_s'] = self.solver_s
        d['unsupported'] = self.unsupported
        d['cover'] = self.cover
        d['unknown_asserts'] = self.unknown_asserts
        d['nonrep'] = self.nonrep
        d['messages'] = self.messages
        return d


class Violation(object):
    def __init__(self, message, model, decisions):
        self.message = message
        self.model = model
        self.decisions = decisions


class BaseEngine(object):
    symbolic = False
    def __init__(self):
        self.counts = {}
        self.events = []
        self.world = None
        self.notes = {}

    def uname(self, name):
        """Unique variable name, deterministic by order of creation."""
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def flag(self, name):
        """Symbolic boolean configuration: a two-way choice."""
        return bool(self.choose(2, name))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(len(seq), name)]


class SymEngine(BaseEngine):
    """
    One path of the symbolic execution.
    """
    symbolic = True
    # Whether numbers stored in single precision may become infinite
    f4 = False
    def __init__(self, prefix, stats, deadline=None, max_decisions=4000):
        super(SymEngine, self).__init__()
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.alternatives = []
        self.stats = stats
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.solver = z3.Solver()
        self.solver.set('timeout', 15000)
        self.pc = []
        self.vars = {}
        self.model = None
        self.dead = None
        self.violations = []
        self.ufs = []
        self.tokens = {}
        self.checked_sat = True

    # -- solver -------------------------------------------------------------
    def _check(self, *extra):
        """
        Satisfiability of the path condition plus extra terms. Returns
        ('sat', model), ('unsat', None), or ('unknown', None).
        """
        t0 = time.time()
        st = self.stats
        st.queries += 1
        s = self.solver
        s.push()
        try:
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
        finally:
            s.pop()
        if r == z3.unknown:
            # Second opinions, from fresh (non-incremental) solvers
            for make, ms in (
                    (lambda: z3.SolverFor('QF_NRA'), 20000),
                    (lambda: z3.Then('simplify', 'propagate-values',
                                     'solve-eqs', 'smt').solver(), 40000)):
                try:
                    s2 = make()
                    s2.set('timeout', ms)
                    s2.add(*self.pc)
                    s2.add(*extra)
                    r = s2.check()
                    m = s2.model() if r == z3.sat else None
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown: break
        st.solver_s += time.time() - t0
        if r == z3.sat:
            st.sat += 1
            return 'sat', m
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        st.unknown += 1
        return 'unknown', None

    def _add(self, term):
        self.pc.append(term)
        self.solver.add(term)

    def _true_in_model(self, term):
        if self.model is None: return None
        try:
            v = self.model.eval(term, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None

    def _alive(self):
        if self.dead is not None:
            raise self.dead
        if self.deadline and time.time() > self.deadline:
            self._die(PathLimit("time budget"))
        if len(self.decisions) > self.max_decisions:
            self._die(PathLimit("decision limit"))

    def _die(self, exc):
        self.dead = exc
        raise exc

    def branch(self, term):
        """
        Decides the truth of a symbolic condition, forking the path if
        both outcomes are feasible.
        """
        self._alive()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos][:2]
            if kind != 'b':
                self._die(Unsupported("nondeterministic re-execution"))
            self.pos += 1
            self.decisions.append(('b', val))
            self._add(term if val else z3.Not(term))
            self.model = None
            return val
        nterm = z3.Not(term)
        guess = self._true_in_model(term)
        if guess is None:
            r, m = self._check(term)
            if r == 'sat':
                self.model = m
                guess = True
            elif r == 'unsat':
                # The path is feasible, so the negation must be
                self.decisions.append(('b', False)); self.pos += 1
                self._add(nterm)
                return False
            else:
                guess = True
                self.model = None
        other = nterm if guess else term
        r, m = self._check(other)
        if r == 'unsat':
            self.decisions.append(('b', guess)); self.pos += 1
            self._add(term if guess else nterm)
            return guess
        # Both are feasible (or can't be excluded)
        self.stats.forks += 1
        self.alternatives.append(self.decisions + [('b', not guess)])
        self.decisions.append(('b', guess)); self.pos += 1
        self._add(term if guess else nterm)
        return guess

    def choose(self, n, name='choice'):
        """
        A symbolic integer in 0..n-1 (schedule, fault kind, config),
        forked on at once. Every value is feasible, as it is fresh.
        """
        self._alive()
        nm = self.uname(name)
        t = z3.Int(nm)
        self.vars[nm] = ('int', t)
        if n <= 0: raise ValueError("nothing to choose from")
        if self.pos < len(self.prefix):
            entry = self.prefix[self.pos]
            if entry[0] != 'c':
                self._die(Unsupported("nondeterministic re-execution"))
            val = entry[1]
        else:
            val = 0
            for k in range(n-1, 0, -1):
                self.alternatives.append(self.decisions + [('c', k)])
            if n > 1: self.stats.forks += 1
        self.pos += 1
        self.decisions.append(('c', val))
        self._add(t == val)
        self.model = None
        return val

    def concretize_int(self, t):
        """
        Forks on the value of an integer term until it is fixed.
        """
        for _ in range(200):
            self._alive()
            if self.pos < len(self.prefix):
                entry = self.prefix[self.pos]
                if entry[0] != 'i':
                    self._die(Unsupported("nondeterministic re-execution"))
                val, yes = entry[1], entry[2]
                self.pos += 1
                self.decisions.append(entry)
                self._add(t == val if yes else t != val)
                self.model = None
                if yes: return val
                continue
            r, m = self._check()
            if r == 'unsat': self._die(Infeasible("infeasible"))
            if r != 'sat': self._die(Unsupported("unknown in concretize"))
            v = m.eval(t, model_completion=True)
            if not z3.is_int_value(v):
                self._die(Unsupported("no integer value"))
            val = v.as_long()
            r2, m2 = self._check(t != val)
            if r2 != 'unsat':
                self.stats.forks += 1
                self.alternatives.append(self.decisions + [('i', val, False)])
            self.pos += 1
            self.decisions.append(('i', val, True))
            self._add(t == val)
            self.model = m
            return val
        self._die(Unsupported("too many values of an integer"))

    # -- inputs -------------------------------------------------------------
    def _real_var(self, name):
        v = z3.Real(name)
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             np_=False):
        """A finite symbolic float."""
        from .values import SF, lift
        self._alive()
        nm = self.uname(name)
        v = self._real_var(nm)
        self.vars[nm] = ('real', v)
        x = SF(v, np_=np_)
        if lo is not None:
            l = lift(lo)
            self._add(v > l.v if lo_open else v >= l.v)
            self.model = None
        if hi is not None:
            h = lift(hi)
            self._add(v < h.v if hi_open else v <= h.v)
            self.model = None
        return x

    def xreal(self, name, lo=None, hi=None, nan=True, pinf=True, ninf=False,
              np_=False):
        """A symbolic float that may also be NaN or infinite."""
        from .values import SF, lift
        self._alive()
        nm = self.uname(name)
        v = self._real_var(nm)
        bn = z3.Bool(nm + '.nan') if nan else None
        bp = z3.Bool(nm + '.pinf') if pinf else None
        bm = z3.Bool(nm + '.ninf') if ninf else None
        self.vars[nm] = ('xreal', v, bn, bp, bm)
        flags = [b for b in (bn, bp, bm) if b is not None]
        for i in range(len(flags)):
            for j in range(i):
                self._add(z3.Or(z3.Not(flags[i]), z3.Not(flags[j])))
        if lo is not None: self._add(v >= lift(lo).v)
        if hi is not None: self._add(v <= lift(hi).v)
        self.model = None
        return SF(v, nan=bn, pinf=bp, ninf=bm, np_=np_)

    def int(self, name, lo=None, hi=None):
        from .values import SI
        self._alive()
        nm = self.uname(name)
        t = z3.Int(nm)
        self.vars[nm] = ('int', t)
        if lo is not None: self._add(t >= lo)
        if hi is not None: self._add(t <= hi)
        self.model = None
        return SI(t)

    def bool(self, name):
        from .values import SB
        self._alive()
        nm = self.uname(name)
        t = z3.Bool(nm)
        self.vars[nm] = ('bool', t)
        return SB(t)

    # -- uninterpreted / implicitly defined functions ------------------------
    def sqrt(self, x):
        from .values import SF
        if bool(x < 0):
            if x.np_:
                return SF(z3.RealVal(0), nan=z3.BoolVal(True), np_=True)
            raise ValueError("math domain error")
        nm = self.uname('sqrt')
        y = z3.Real(nm)
        self._add(y >= 0)
        self._add(y*y == x.v)
        self.model = None
        return SF(y, nan=x.nan, pinf=x.pinf, np_=x.np_)

    def uf(self, fname, *args):
        """
        Transcendental function: an uninterpreted value, the same for
        equal arguments, with a few sound facts about it.
        """
        from .values import SF, lift
        args = [lift(a) for a in args]
        nm = self.uname('uf_' + fname)
        y = z3.Real(nm)
        xs = [a.v for a in args]
        for a in args:
            if not a.simple and not bool(a.isfinite()):
                self._die(Unsupported(fname + " of non-finite"))
        if fname == 'exp':
            self._add(y > 0)
            self._add(z3.And((xs[0] > 0) == (y > 1), (xs[0] == 0) == (y == 1)))
        elif fname in ('sin', 'cos'):
            self._add(z3.And(y >= -1, y <= 1))
            if fname == 'sin':
                # It increases in this range
                inc = z3.And(xs[0] >= -1.5708, xs[0] <= 1.5708)
                for t in [-1.5708] + [0.2*k for k in range(-7, 8)]:
                    lo, hi = math.sin(t) - 1e-9, math.sin(t) + 1e-9
                    self._add(z3.Implies(inc, z3.And(
                        z3.Implies(xs[0] <= t, y <= hi),
                        z3.Implies(xs[0] >= t, y >= lo))))
        elif fname == 'pow':
            b, p = xs
            self._add(z3.Implies(b > 0, y > 0))
            self._add(z3.Implies(z3.And(b > 0, p == 0), y == 1))
            self._add(z3.Implies(b > 0, z3.Implies(p == 1, y == b)))
            self._add(z3.Implies(b > 1, z3.And(
                z3.Implies(p > 0, y > 1), z3.Implies(p < 0, y < 1))))
            self._add(z3.Implies(z3.And(b > 0, b < 1), z3.And(
                z3.Implies(p > 0, y < 1), z3.Implies(p < 0, y > 1))))
        elif fname in ('log', 'log10'):
            self._add(z3.And((xs[0] > 1) == (y > 0), (xs[0] == 1) == (y == 0)))
        for (fn, xo, yo) in self.ufs:
            if fn != fname: continue
            same = z3.And(*[a == b for a, b in zip(xs, xo)])
            self._add(z3.Implies(same, y == yo))
            if fname in ('exp', 'log', 'log10'):
                self._add((xs[0] < xo[0]) == (y < yo))
            if fname == 'pow' and z3.is_rational_value(xs[0]) \
               and xs[0].eq(xo[0]) and xs[0].as_fraction() > 1:
                self._add((xs[1] < xo[1]) == (y < yo))
        self.ufs.append((fname, xs, y))
        self.notes['uf:' + fname] = self.notes.get('uf:' + fname, 0) + 1
        self.model = None
        return SF(y, np_=any(a.np_ for a in args))

    # -- assumptions, assertions ---------------------------------------------
    def assume(self, cond):
        from .values import tb
        t = tb(cond)
        if z3.is_true(t): return
        self._alive()
        if self.pos >= len(self.prefix) or True:
            self._add(t)
            self.model = None
        # Feasibility is established here once so that the path is real
        if self.pos >= len(self.prefix):
            r, m = self._check()
            if r == 'unsat': self._die(Infeasible("assumption"))
            self.model = m
        elif z3.is_false(t):
            self._die(Infeasible("assumption"))

    def check(self, cond, message):
        """
        The property: must hold for every value on this path.
        """
        from .values import tb
        self._alive()
        st = self.stats
        st.asserts += 1
        st.messages[message] = st.messages.get(message, 0) + 1
        t = tb(cond)
        if z3.is_true(t):
            st.discharged += 1
            st.trivial += 1
            return True
        if self.pos < len(self.prefix):
            # This very check was already made, with the very same path
            # condition, by the run that forked after this point
            st.asserts -= 1
            self._add(t)
            return True
        neg = z3.Not(t)
        r, m = self._check(neg)
        if r == 'unsat':
            st.discharged += 1
            self._add(t)
            return True
        if r == 'unknown':
            st.unknown_asserts.append(message)
            self._add(t)
            return True
        self.violations.append(Violation(
            message, self.extract_nice(neg, m), list(self.decisions)))
        # Go on, assuming that it holds, if it can
        r, m = self._check(t)
        if r == 'unsat':
            self._die(Infeasible("every value on this path violates"))
        self._add(t)
        self.model = m
        return False

    def fail(self, message):
        """The property is violated by every value on this path."""
        self.check(False, message)

    def cover(self, name):
        """Reachability witness: this point was reached on a feasible path."""
        c = self.stats.cover
        if self.pos >= len(self.prefix) or name not in c:
            c[name] = c.get(name, 0) + 1

    # -- models ---------------------------------------------------------------
    def extract(self, m):
        out = {}
        def num(v):
            x = m.eval(v, model_completion=True)
            if z3.is_algebraic_value(x):
                x = x.approx(30)
            if z3.is_int_value(x): return x.as_long()
            fr = x.as_fraction()
            return [fr.numerator, fr.denominator]
        def yes(b):
            return b is not None and z3.is_true(
                m.eval(b, model_completion=True))
        for nm, spec in self.vars.items():
            if spec[0] == 'real': out[nm] = num(spec[1])
            elif spec[0] == 'int': out[nm] = num(spec[1])
            elif spec[0] == 'bool': out[nm] = yes(spec[1])
            else:
                if yes(spec[2]): out[nm] = 'nan'
                elif yes(spec[3]): out[nm] = 'inf'
                elif yes(spec[4]): out[nm] = '-inf'
                else: out[nm] = num(spec[1])
        return out

    def extract_nice(self, neg, m):
        """
        Model of a counterexample, preferably one with small, coarse
        dyadic numbers that are exact as doubles.
        """
        reals = [s[1] for s in self.vars.values() if s[0] in ('real', 'xreal')]
        if not reals: return self.extract(m)
        for denom, big in ((16, 1000), (4096, 10**6)):
            extra = []
            for k, v in enumerate(reals):
                iv = z3.Int('nice!%d' % k)
                extra.append(v * denom == z3.ToReal(iv))
                extra.append(z3.And(v <= big, v >= -big))
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*self.pc)
            s.add(neg, *extra)
            if s.check() == z3.sat:
                return self.extract(s.model())
        # Margins would be nicer still, but any model will do
        return self.extract(m)

    def current_model(self):
        r, m = self._check()
        if r != 'sat': return None
        return self.extract_nice(z3.BoolVal(True), m)

    # -- misc -----------------------------------------------------------------
    def unsupported(self, why):
        self._die(Unsupported(why))

    def token(self, x, spec):
        """Text that stands for a formatted symbolic number."""
        s = "%g"
        t = "⟨%d:%s⟩" % (len(self.tokens), spec)
        self.tokens[t] = x
        return t


def to_float(x):
    """Model value -> Python number."""
    if isinstance(x, list):
        return float(Fraction(x[0], x[1]))
    if isinstance(x, str):
        return float(x)
    return x


class ConcEngine(BaseEngine):
    """
    Concrete replay of one model.
    """
    symbolic = False
    def __init__(self, model):
        super(ConcEngine, self).__init__()
        self.modelvals = model
        self.violations = []
        self.used = {}
        self.missing = []
        self.seen = {}
        self.dead = None

    def _get(self, name, default):
        nm = self.uname(name)
        if nm in self.modelvals:
            v = to_float(self.modelvals[nm])
        else:
            v = default
            self.missing.append(nm)
        self.used[nm] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             np_=False):
        dflt = 0.0
        if lo is not None and hi is not None:
            dflt = 0.5*(float(lo) + float(hi))
        elif lo is not None: dflt = float(lo) + 0.5
        elif hi is not None: dflt = float(hi) - 0.5
        v = float(self._get(name, dflt))
        # A rational model value may land just outside when rounded
        if lo is not None and v < lo: v = float(lo)
        if hi is not None and v > hi: v = float(hi)
        if lo_open and lo is not None and v <= lo:
            v = math.nextafter(float(lo), math.inf)
        if hi_open and hi is not None and v >= hi:
            v = math.nextafter(float(hi), -math.inf)
        if np_:
            import numpy
            return numpy.float64(v)
        return v

    def xreal(self, name, lo=None, hi=None, nan=True, pinf=True, ninf=False,
              np_=False):
        v = float(self._get(name, 1.0 if lo is None else float(lo) + 1.0))
        if lo is not None and v < lo: v = float(lo)
        if hi is not None and v > hi: v = float(hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = int(self._get(name, lo if lo is not None else 0))
        if lo is not None: v = max(lo, v)
        if hi is not None: v = min(hi, v)
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def choose(self, n, name='choice'):
        if n <= 0: raise ValueError("nothing to choose from")
        v = int(self._get(name, 0))
        return max(0, min(n-1, v))

    def assume(self, cond):
        if not cond:
            self.dead = Infeasible("assumption")
            raise self.dead

    def check(self, cond, message):
        if not bool(cond):
            self.violations.append(Violation(message, self.modelvals, []))
            return False
        return True

    def fail(self, message):
        self.check(False, message)

    def cover(self, name):
        self.seen[name] = self.seen.get(name, 0) + 1

    def unsupported(self, why):
        self.dead = Unsupported(why)
        raise self.dead


class RandEngine(ConcEngine):
    """
    Concrete run with random inputs, to corroborate a finding that
    something is impossible.
    """
    def __init__(self, seed):
        super(RandEngine, self).__init__({})
        self.rng = _random.Random(seed)
    def real(self, name, lo=None, hi=None, **kw):
        a = -10.0 if lo is None else float(lo)
        b = a + 20.0 if hi is None else float(hi)
        if lo is None and hi is not None: a = b - 20.0
        self.modelvals[name] = None
        v = self.rng.uniform(a, b)
        if kw.get('np_'):
            import numpy
            return numpy.float64(v)
        return v
    def xreal(self, name, lo=None, hi=None, **kw):
        return self.real(name, lo, hi)
    def int(self, name, lo=None, hi=None):
        return self.rng.randint(lo or 0, 10 if hi is None else hi)
    def bool(self, name): return self.rng.random() < 0.5
    def choose(self, n, name='choice'): return self.rng.randrange(n)


# The fraction of paths to validate by a concrete run
VALIDATE = float(os.environ.get('VERIF_VALIDATE', 0.002))


class Explorer(object):
    """
    Explores paths of one harness configuration, depth first, starting
    from the decision prefixes of I{stack}. What is left when the time
    slice is over remains in I{stack}.
    """
    def __init__(self, harness, cfg, stats, deadline, stack=None,
                 slice_s=None, stop_after=1, validate=2, seed=1, log=None):
        self.harness = harness
        self.cfg = cfg
        self.stats = stats
        self.deadline = deadline
        self.stack = [[]] if stack is None else stack
        self.slice_s = slice_s
        self.stop_after = stop_after
        self.validate = validate
        self.rng = _random.Random(seed)
        self.confirmed = []
        self.samples = []
        self.log = log or (lambda *a: None)

    def conc(self, model, profile=False, e=None):
        """
        Replays a model against the real code. Returns the engine of
        the replay, or None if the replay wasn't meaningful.
        """
        global CUR
        from . import world
        if e is None: e = ConcEngine(model)
        prev = CUR
        CUR = e
        try:
            with Watchdog(e, 20):
                world.run_harness(self.harness, e, self.cfg, profile)
        except Hang: pass
        finally:
            CUR = prev
        if isinstance(e.dead, Hang) and len(e.missing) < 100:
            e.dead = None
            e.violations.append(Violation("it terminates", model, []))
        if isinstance(e.dead, Control): return None
        return e

    def reachable(self, N=3000, limit=60):
        """
        What N concrete runs with random inputs reach.
        """
        seen = {}
        t0 = time.time()
        for k in range(N):
            if time.time() - t0 > limit: break
            c = self.conc({}, e=RandEngine(k))
            if c is not None: seen.update(c.seen)
        return seen

    def confirm(self, model, message=None):
        """
        Replays a supposed counterexample; if it is one, records it.
        """
        c = self.conc(model)
        if c is None or not c.violations: return False
        msgs = [x.message for x in c.violations]
        self.confirmed.append({
            'message': message if message in msgs else msgs[0],
            'model': model, 'cfg': self.cfg,
            'traceback': c.notes.get('traceback')})
        return True

    def run(self):
        global CUR
        from . import world
        st = self.stats
        stack = self.stack
        t0 = time.time()
        validated = 0
        collected = t0
        while stack:
            if len(self.confirmed) >= self.stop_after: break
            now = time.time()
            if now > self.deadline: break
            if self.slice_s and now - t0 > self.slice_s: break
            if now - collected > 1.0:
                # Abandoned Deferreds are cyclic, and hold solver terms
                gc.collect()
                collected = time.time()
            prefix = stack.pop()
            e = SymEngine(prefix, st, self.deadline)
            CUR = e
            st.paths += 1
            try:
                try:
                    with Watchdog(e, 120):
                        world.run_harness(self.harness, e, self.cfg)
                except Hang: pass
                if e.dead is None:
                    # Vacuity guard: the path must be feasible
                    m = e.model
                    if m is None:
                        r, m = e._check()
                        if r == 'unsat': e.dead = Infeasible("end of path")
            finally:
                CUR = None
                del _STASH[:]
            stack.extend(e.alternatives)
            if e.dead is None:
                st.completed += 1
                if m is not None and time.time() < self.deadline and (
                        validated < self.validate or
                        self.rng.random() < VALIDATE):
                    e.deadline = None
                    model = e.extract_nice(z3.BoolVal(True), m)
                    validated += 1
                    c = self.conc(model, profile=True)
                    if c is not None:
                        st.validated += 1
                        if len(self.samples) < 1:
                            self.samples.append({
                                'cfg': self.cfg, 'inputs': {
                                    k: v for k, v in c.used.items()}})
                        if c.violations and not e.violations:
                            self.confirmed.append({
                                'message': c.violations[0].message,
                                'model': model, 'cfg': self.cfg,
                                'traceback': c.notes.get('traceback')})
            elif isinstance(e.dead, (Unsupported, Hang)):
                why = str(e.dead)
                st.unsupported[why] = st.unsupported.get(why, 0) + 1
                st.concretized += 1
                e.dead = None
                e.deadline = None
                m = e.current_model()
                if m is not None: self.confirm(m)
            elif isinstance(e.dead, PathLimit):
                if self.deadline and time.time() > self.deadline:
                    # Not finished with this one
                    stack.append(prefix)
                else: st.truncated += 1
            elif isinstance(e.dead, Infeasible):
                st.infeasible += 1
            # Confirm counterexamples
            for v in e.violations:
                if self.confirm(v.model, v.message): break
                st.not_reproduced += 1
                if len(st.nonrep) < 20: st.nonrep.append(v.message)
        return self.confirmed
