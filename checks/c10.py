"""
C10: Adapted F stays within its original and critical limits.
"""
from .common import *


def critical(e, CR, Np):
    """The critical value, by its definition."""
    c = e.real('critical', 0)
    if e.symbolic: e.assume(c*c*Np == 1 - 0.5*CR)
    else: c = math.sqrt((1 - 0.5*CR)/Np)
    return c

def gt(a, b):
    """a > b, other than by rounding in a concrete replay."""
    if isinstance(a, V.SymbolicNumber) or isinstance(b, V.SymbolicNumber):
        return lift(a) > lift(b)
    return a > b - TOL*max(1.0, abs(a), abs(b))

def exceeds(a, b):
    if isinstance(a, V.SymbolicNumber) or isinstance(b, V.SymbolicNumber):
        return lift(a) > lift(b)
    return a > b + TOL*max(1.0, abs(a), abs(b))


class State(object):
    def __init__(self, e, cfg):
        self.e, w = e, e.world
        w.quiet()
        m = w.load('ade.de')
        self.isRange = cfg.get('range', False)
        self.Np = cfg.get('Np', 10)
        CR = e.real('CR', 0, 1)
        adaptive = cfg.get('adaptive', True)
        self.crit = critical(e, CR, self.Np)
        lo = e.real('F0', 0, lo_open=True)
        if self.isRange:
            hi = e.real('F1', 0, lo_open=True)
            e.assume(lo <= hi)
            if cfg.get('zero'):
                F = (0, hi) if cfg['zero'] == 1 else [0.0, hi]
                lo = self.crit
            else: F = (lo, hi) if cfg.get('tuple', True) else [lo, hi]
            if cfg.get('array'): F = w.np.array(list(F))
        else:
            hi = lo
            F = lo
        self.lo0, self.hi0 = lo, hi
        self.given = F if self.isRange else None
        if self.isRange: self.copy = [F[0], F[1]]
        self.fm = m.FManager(F, CR, self.Np, adaptive)

    def limits(self):
        return self.fm.lowest, self.fm.highest

    def check(self, fixed=False):
        e, fm = self.e, self.fm
        lo, hi = self.limits()
        if self.given is not None:
            e.check(And(len(self.given) == 2, *[
                same(a, b) for a, b in zip(self.given, self.copy)]),
                    "the configured range isn't modified")
        if fixed:
            e.check(And(near(lo, self.lo0), near(hi, self.hi0)),
                    "F doesn't change")
        e.check(And(le(lo, self.lo0), le(hi, self.hi0)),
                "F never exceeds its configured value")
        x = fm.get()
        if not isinstance(x, SF) and hasattr(x, 'item'): x = x.item()
        if self.isRange:
            a, b = If(lo <= hi, lo, hi), If(lo <= hi, hi, lo)
            e.check(And(le(a, x), le(x, b)), "a drawn weight is in range")
        else: e.check(near(x, lo), "a drawn weight is F")

    def step(self, up):
        """
        One adaptation and its effect.
        """
        e, fm = self.e, self.fm
        lo, hi = self.limits()
        if up: fm.up()
        else: fm.down()
        lo2, hi2 = self.limits()
        if up:
            e.check(And(le(lo, lo2), le(hi, hi2)),
                    "an upward adaptation never lowers F")
            e.check(not fm.limited, "an upward adaptation clears the limit")
            e.check(Or(lo2 > lo, hi2 > hi, And(
                near(lo, self.lo0), near(hi, self.hi0))),
                    "an upward adaptation raises F if possible")
        else:
            e.check(And(le(lo2, lo), le(hi2, hi)),
                    "a downward adaptation never raises F")
            e.check(Implies(exceeds(lo, lo2), gt(lo2, self.crit)),
                    "F isn't lowered to the critical value")
            if self.isRange:
                e.check(Implies(exceeds(hi, hi2), gt(hi2, 3*lo2)),
                        "the upper end isn't lowered too far")
            if not fm.limited:
                e.check(Or(lo2 < lo, hi2 < hi),
                        "a downward adaptation lowers F or is limited")
            else:
                e.check(And(same(lo2, lo), same(hi2, hi)),
                        "F isn't lowered when limited")
                e.cover('limited')


def steps(e, cfg):
    """
    All sequences of adaptations from the start.
    """
    s = State(e, cfg)
    fixed = not cfg.get('adaptive', True) or cfg.get('zero')
    s.check(True)
    e.check(not s.fm.limited, "it isn't limited initially")
    for _ in range(cfg['N']):
        up = bool(e.choose(2, 'up'))
        if fixed:
            if up: s.fm.up()
            else: s.fm.down()
        else: s.step(up)
        s.check(fixed)
    e.cover('end')


def induct(e, cfg):
    """
    One adaptation from an arbitrary state.
    """
    s = State(e, cfg)
    fm = s.fm
    l = e.real('lowest', 0, lo_open=True)
    e.assume(l <= s.lo0)
    e.assume(Or(same(l, s.lo0), l > s.crit))
    fm.lowest = l
    h = l
    if s.isRange:
        h = e.real('highest', 0, lo_open=True)
        e.assume(h <= s.hi0)
        # The upper end gets lowered only if well above the lower end,
        # which isn't raised until the upper one is at its original value
        e.assume(Or(same(h, s.hi0), h > 3*l))
        fm.highest = h
    lo, hi = s.limits()
    e.check(And(near(lo, l), near(hi, h)), "F is what it was set to")
    s.step(bool(e.choose(2, 'up')))
    s.check()
    e.cover('end')


HARNESSES = [
    Harness(steps, quick=[
        dict(N=4), dict(N=4, range=True), dict(N=4, range=True, Np=40),
        dict(N=2, adaptive=False), dict(N=2, range=True, adaptive=False),
        dict(N=3, range=True, zero=1), dict(N=2, range=True, zero=2),
        dict(N=2, range=True, zero=2, Np=40), dict(N=2, range=True, zero=1,
                                                   Np=150),
        dict(N=3, range=True, tuple=False), dict(N=2, Np=4),
    ], thorough=[
        dict(N=6), dict(N=6, range=True), dict(N=5, range=True, Np=200),
    ], covers=['end', 'limited'],
       bounds="all F and crossover rates; populations of 4, 10, 40, 200; "
       "sequences of up to 6 adaptations"),
    Harness(induct, quick=[
        dict(), dict(range=True), dict(range=True, Np=100), dict(Np=4),
        dict(range=True, Np=5)],
       covers=['end', 'limited'],
       bounds="one adaptation from any state with F at most as configured "
       "and, if lowered, above the critical value (upper end above three "
       "times the lower)"),
]
