"""
C25: The initial population is a Latin hypercube.
"""
import itertools

from .common import *


class Hypercubes(object):
    """
    Latin hypercubes with an arbitrary position of each point within its
    interval, and an arbitrary permutation per column if there is to be
    more than one.
    """
    def __init__(self, e, permute, apart=False):
        # If apart, no point of a hypercube is in the next one
        self.e, self.permute, self.apart = e, permute, apart
        self.N = 0
        e.world.overrides[('pyDOE', 'lhs')] = self
        e.world.overrides[('pyDOE.doe_lhs', 'lhs')] = self

    def __call__(self, n, samples=None, criterion=None, iterations=None, **kw):
        e = self.e
        if samples is None: samples = n
        self.N += 1
        a = np.empty((samples, n), dtype=object)
        perms = list(itertools.permutations(range(samples)))
        for kc in range(n):
            perm = [(k+kc*(self.N+1)) % samples for k in range(samples)]
            if self.permute and self.N == 1:
                perm = perms[e.choose(len(perms), 'permutation')]
            for kr, x in enumerate(perm):
                # Away from the edges, where rounding decides
                lo, hi = 0.001, 0.999
                if self.apart: lo, hi = [(lo, 0.4), (0.6, hi)][self.N % 2]
                u = e.real('lhs', lo, hi)
                a[kr, kc] = W.npshim.npscalar((x + u)/samples)
        if e.symbolic: return a.view(W.npshim.SymArray)
        return a.astype(float)


def isHypercube(X, bounds):
    """
    The condition that each parameter has exactly one of the vectors X in
    each of as many equal intervals as there are vectors.
    """
    N = len(X)
    conds = []
    for kc, (lo, hi) in enumerate(bounds):
        width = (hi - lo)/N
        for k in range(N):
            conds.append(Or(*[
                And(x[kc] >= lo + k*width, x[kc] <= lo + (k+1)*width)
                for x in X]))
    return And(*conds)


def initial(e, cfg):
    """
    Members after setup where nothing gets rejected.
    """
    Np, Nd = cfg['Np'], cfg['Nd']
    bounds = symbounds(e, Nd)
    for lo, hi in bounds:
        e.assume(And(lo > -1e6, hi < 1e6, hi - lo > 1e-3))
    ev = Evaluator(e, delayed=cfg.get('delayed', False),
                   result=lambda call: 1.0+call['n'])
    H = Hypercubes(e, cfg.get('permute', False))
    P = Pop(e, Np, Nd, ev, bounds=bounds, fill=False)
    P.p.N_maxParallel = cfg.get('parallel', 3)
    for n in range(cfg.get('times', 1)):
        d = P.p.setup(blank=cfg.get('blank', False))
        drive(e, ev, d, name='order')
        settle(e, 200)
        finished(e, d, "setup")
        e.check(len(P.p) == Np, "the number of members is as configured")
        if ev.delayed:
            # Members may come from beyond the first hypercube if they are
            # evaluated sooner, the candidates still are a hypercube
            e.check(isHypercube(
                [call['values'] for call in ev.real[:Np]], bounds),
                    "the candidates are a Latin hypercube")
            continue
        e.check(isHypercube([list(i.values) for i in P.p], bounds),
                "the members are a Latin hypercube")
    e.cover('done')


def candidates(e, cfg):
    """
    All candidates in order, if some get rejected by a constraint or
    because of their fitness.
    """
    Np, Nd = cfg['Np'], cfg['Nd']
    bounds = symbounds(e, Nd)
    for lo, hi in bounds:
        e.assume(And(lo > -1e6, hi < 1e6, hi - lo > 1e-3))
    seen = []
    refused = [0]
    def constraint(params):
        if not cfg['constraint']: return True
        seen.append([params[name] for name in NAMES[:Nd]])
        if refused[0] < cfg['max'] and e.choose(2, 'refused'):
            refused[0] += 1
            return False
        return True
    def result(call):
        if not cfg['constraint']:
            seen.append(call['values'])
            if refused[0] < cfg['max'] and e.choose(2, 'refused'):
                refused[0] += 1
                return math.inf
        return 1.0+call['n']
    ev = Evaluator(e, result=result)
    H = Hypercubes(e, False, apart=True)
    P = Pop(e, Np, Nd, ev, bounds=bounds, fill=False,
            kw=dict(constraints=[constraint]))
    d = P.p.setup()
    settle(e, 200)
    finished(e, d, "setup")
    e.check(d.result is True, "setup succeeds")
    e.check(len(seen) == Np+refused[0], "as many candidates as needed")
    if H.N:
        for old, new in zip(seen, seen[Np:]):
            for k, (lo, hi) in enumerate(bounds):
                e.check(Not(same(old[k], new[k])), "no point is tried again")
    while len(seen) >= Np:
        e.check(isHypercube(seen[:Np], bounds),
                "the next candidates are a Latin hypercube")
        del seen[:Np]
        e.cover('some')
    if refused[0] >= Np: e.cover('another')


HARNESSES = [
    Harness(initial, quick=[
        dict(Np=3, Nd=1, permute=True), dict(Np=2, Nd=2, permute=True),
        dict(Np=5, Nd=2), dict(Np=3, Nd=2, delayed=True),
        dict(Np=3, Nd=2, blank=True),
        dict(Np=3, Nd=2, times=2), dict(Np=6, Nd=3, parallel=20)],
            thorough=[
        dict(Np=3, Nd=2, permute=True), dict(Np=4, Nd=1, permute=True),
        dict(Np=10, Nd=1), dict(Np=4, Nd=1, blank=True, permute=True),
        dict(Np=4, Nd=2, delayed=True),
        dict(Np=4, Nd=2, times=3)],
            covers=['done'],
            bounds="setup of 2-6 members (10 thorough) of 1-3 parameters with "
            "any bounds, any position of each point within its interval"),
    Harness(candidates, quick=[
        dict(Np=2, Nd=1, constraint=True, max=3),
        dict(Np=3, Nd=2, constraint=True, max=3),
        dict(Np=2, Nd=2, constraint=False, max=2),
        dict(Np=3, Nd=1, constraint=False, max=3)],
            thorough=[
        dict(Np=3, Nd=2, constraint=True, max=6),
        dict(Np=3, Nd=1, constraint=False, max=6)],
            covers=['some', 'another'],
            bounds="setup of 2-3 members, up to 3 candidates (6 thorough) "
            "rejected"),
]
