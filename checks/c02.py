"""
C02: Every trial vector is a DE/x/1/bin cross of target and mutant.
"""
from .common import *
from . import large


def weights(e, F, n0=0):
    """
    Every weight that the draws made since event n0 could have given.
    """
    if not isinstance(F, (list, tuple)): return [F]
    lo, hi = F
    out = []
    for ev in e.events[n0:]:
        if ev[0] != 'draw' or ev[1] not in ('uniform', 'random', 'np'):
            continue
        x = ev[2]
        out.append((x, And(x >= lo, x <= hi)))
        if ev[1] != 'uniform': out.append((lo + (hi-lo)*x, True))
    return out


def crosses(e, v, kt, kbs, M, bounds, F, CR, n0=0):
    """
    The condition that vector v is a valid cross, given the values M of
    all members.
    """
    Nd, Np = len(v), len(M)
    cases = []
    t = M[kt]
    for kb in kbs:
        if kb == kt: continue
        for k0 in range(Np):
            for k1 in range(Np):
                if len({kt, kb, k0, k1}) < 4: continue
                for f in weights(e, F, n0):
                    cond = True
                    if isinstance(f, tuple): f, cond = f
                    m = [M[kb][k] + f*(M[k0][k] - M[k1][k])
                         for k in range(Nd)]
                    fromT = [near(v[k], t[k]) for k in range(Nd)]
                    fromM = [isLimited(v[k], m[k], *bounds[k])
                             for k in range(Nd)]
                    if CR == 1: ok = And(*fromM)
                    elif CR == 0: ok = Or(*[
                            And(*[fromM[k] if k == j else fromT[k]
                                  for k in range(Nd)]) for j in range(Nd)])
                    else: ok = And(
                            Or(*fromM),
                            *[Or(fromT[k], fromM[k]) for k in range(Nd)])
                    cases.append(And(cond, ok))
    return Or(*cases)


def vector(e, cfg):
    """
    One challenge: what gets evaluated, and what becomes of the operands.
    """
    Np, Nd, CR = cfg['Np'], cfg['Nd'], cfg['CR']
    e.world.openDraws = True
    ev = Evaluator(e, kinds=('num',), nan=False)
    B = symbounds(e, Nd, cfg.get('fixed', False))
    if cfg['F'] == 'sym':
        F = e.real('F', 0, 2, lo_open=True)
    elif cfg['F'] == 'range':
        F = [e.real('F0', 0, 1, lo_open=True), e.real('F1', 0, 2)]
        e.assume(F[0] < F[1])
    else: F = cfg['F']
    P = Pop(e, Np, Nd, ev, bounds=B, SSE=lambda k: 10.0+k)
    de = P.DE(F=F, CR=CR, randomBase=cfg.get('randomBase', False),
              adaptive=cfg.get('adaptive', False))
    F0 = F
    kt, kb = cfg['kt'], cfg['kb']
    before = P.snapshot()
    n0 = len(e.events)
    d = de.challenge(kt, kb)
    settle(e)
    finished(e, d, "the challenge")
    e.check(len(ev.calls) == 1, "one evaluation per challenge")
    M = [x[1] for x in before]
    v = ev.calls[0]['values']
    e.check(len(v) == Nd, "all parameters are there")
    e.check(crosses(e, v, kt, [kb], M, B, F0, CR, n0),
            "the trial vector is a cross of target and mutant")
    for i, vals, s in before:
        e.check(And(same_vec(i.values, vals), same(i.SSE, s)),
                "the operands are unmodified")
    # The new member isn't just another view of an old one
    iNew = P.p[kt]
    e.check(And(*[i is iNew or i.values is not iNew.values
                  for i, _, _ in before]), "no values are shared")
    e.cover('done')


def generation(e, cfg):
    """
    One generation, with members that are generic points: which target,
    base and operands each evaluated vector was made from.
    """
    Np, Nd, rb = cfg['Np'], 2, cfg['randomBase']
    e.world.openDraws = True
    ev = Evaluator(e, result=lambda call: math.inf)
    B = [(-100.0, 100.0)]*2
    # Generic in the sense that no two crosses coincide
    G = [(1.0, 3.5), (2.25, -7.0), (-4.125, 11.0), (17.0, 0.75),
         (-23.5, -29.0), (31.0, 19.0)]
    S = {}
    def SSE(k):
        S[k] = e.real('S%d' % k, 1, 100) if not rb else [3, 1, 4, 2, 5][k]
        return S[k]
    P = Pop(e, Np, Nd, ev, bounds=B, SSE=SSE, values=lambda k: G[k])
    p = P.p
    F, CR = 0.75, cfg['CR']
    m = P.w.load('ade.de')
    de = m.DifferentialEvolution(
        p, logHandle=None, F=F, CR=CR, randomBase=rb, maxiter=1)
    M = [list(i.values) for i in p]
    d = de()
    settle(e)
    finished(e, d, "the run")
    e.check(len(ev.real) == Np, "one evaluation per member")
    for kt in range(Np):
        v = ev.real[kt]['values']
        others = [k for k in range(Np) if k != kt]
        byBase = {
            kb: crosses(e, v, kt, [kb], M, B, F, CR) for kb in others}
        e.check(Or(*byBase.values()),
                "the trial vector is a cross of target and mutant")
        if not rb:
            # Some best member was the base, unless it's the target
            def best(k): return And(*[S[k] <= S[j] for j in range(Np)])
            e.check(Or(best(kt), *[And(byBase[kb], best(kb))
                                   for kb in others]),
                    "the base is the best member")
    e.cover('done')


def improving(e, cfg):
    """
    Generations whose evaluations finish right away, any of them with a
    new best: what each evaluated vector was made from.
    """
    Np, Nd = cfg['Np'], 2
    e.world.openDraws = True
    seen = []
    def result(call):
        now = [(list(i.values), i.SSE) for i in P.p]
        seen.append(now)
        best = min(s for _, s in now)
        how = e.choose(2, 'how')
        if how: e.cover('improved')
        return [math.inf, 0.5*best][how]
    ev = Evaluator(e, result=result)
    B = [(-1e6, 1e6)]*2
    P = Pop(e, Np, Nd, ev, bounds=B, SSE=lambda k: cfg['S'][k],
            values=lambda k: GENERIC[k])
    m = P.w.load('ade.de')
    F, CR = 0.75, 1
    de = m.DifferentialEvolution(
        P.p, logHandle=None, F=F, CR=CR, adaptive=False,
        maxiter=cfg.get('N', 1))
    d = de()
    settle(e)
    finished(e, d, "the run")
    e.check(len(ev.real) == Np*cfg.get('N', 1), "one evaluation per member")
    for n, call in enumerate(ev.real):
        kt = n % Np
        M = [x[0] for x in seen[n]]
        S = [x[1] for x in seen[n]]
        if S[kt] == min(S):
            kbs = [k for k in range(Np) if k != kt]
        else: kbs = [k for k in range(Np) if S[k] == min(S)]
        e.check(crosses(e, call['values'], kt, kbs, M, B, F, CR),
                "the base is the best member by then")
    e.cover('done')

# No two crosses coincide
GENERIC = [(1.0, 3.5), (2.25, -7.0), (-4.125, 11.0), (17.0, 0.75),
           (-23.5, -29.0), (31.0, 19.0)]


def waiting(e, cfg):
    """
    Challenges that wait for the members that others are replacing: each
    vector is made from what the members are when it gets evaluated.
    """
    Np, Nd = cfg['Np'], 2
    e.world.openDraws = True
    seen = []
    class Seeing(Evaluator):
        def __call__(self, values, xSSE=None):
            seen.append([list(i.values) for i in P.p])
            return Evaluator.__call__(self, values, xSSE)
    def result(call):
        how = e.choose(2, 'how')
        return [math.inf, 1.0/(1+call['n'])][how]
    ev = Seeing(e, result=result, delayed=True)
    B = [(-1e6, 1e6)]*2
    P = Pop(e, Np, Nd, ev, bounds=B, SSE=lambda k: 10.0+k,
            values=lambda k: GENERIC[k])
    F = 0.75
    de = P.DE(F=F, CR=1, adaptive=False)
    ds = [de.challenge(kt, kb) for kt, kb in cfg['which']]
    settle(e)
    if len(ev.calls) < len(ds): e.cover('waits')
    while ev.pending:
        ev.finish(ev.pending[e.choose(len(ev.pending), 'next')])
        settle(e)
    for d in ds: finished(e, d, "the challenge")
    e.check(len(ev.calls) == len(ds), "one evaluation per challenge")
    for M, call in zip(seen, ev.calls):
        e.check(Or(*[crosses(e, call['values'], kt, [kb], M, B, F, 1)
                     for kt, kb in cfg['which']]),
                "the trial vector is a cross of members as they are then")
    e.cover('done')


def parts(e, cfg):
    """
    Which parameters are taken from the mutant.
    """
    Nd = cfg['Nd']
    e.world.openDraws = True
    ev = Evaluator(e, result=lambda call: math.inf)
    values = lambda k: [GENERIC[k][0], GENERIC[k][1], -GENERIC[k][0],
                        GENERIC[k][1] + 2.0][:Nd]
    P = Pop(e, 4, Nd, ev, bounds=[(-1e6, 1e6)]*Nd, SSE=lambda k: 10.0+k,
            values=values)
    de = P.DE(F=0.75, CR=cfg['CR'], adaptive=False)
    d = de.challenge(cfg['kt'], 0)
    settle(e)
    finished(e, d, "the challenge")
    v, t = ev.calls[0]['values'], values(cfg['kt'])
    e.cover('set' + "".join(
        '1' if bool(v[k] != t[k]) else '0' for k in range(Nd)))
    e.cover('done')

def anyParts(cfg, seen):
    Nd = cfg['Nd']
    out = []
    for n in range(1, 2**Nd):
        x = format(n, '0%db' % Nd)
        if cfg['CR'] == 0 and x.count('1') > 1: continue
        if 'set' + x not in seen: out.append(
            "mutated parameters %s are possible" % x)
    return out


HARNESSES = [
    Harness(improving, quick=[
        dict(Np=4, S=[5.0, 3.0, 4.0, 6.0]), dict(Np=4, S=[2.0, 3.0, 4.0, 6.0])],
            thorough=[dict(Np=4, S=[6.0, 5.0, 4.0, 3.0]),
                      dict(Np=4, S=[4.0, 4.0, 3.0, 3.0])],
            covers=['done', 'improved'],
            bounds="one generation of 4 members at fixed "
            "generic positions, any of the evaluations improving, all draws"),
    Harness(waiting, quick=[
        dict(Np=5, which=[(0, 3), (1, 0)]), dict(Np=5, which=[(0, 3), (0, 2)]),
        dict(Np=5, which=[(0, 3), (2, 1)])],
            thorough=[dict(Np=4, which=[(0, 3), (1, 0), (2, 1)]),
                      dict(Np=5, which=[(0, 3), (1, 3), (2, 1)])],
            covers=['done', 'waits'],
            bounds="2-3 concurrent challenges among 4-5 members at fixed "
            "generic positions, all results, orders of evaluation and draws"),
    Harness(parts, quick=[
        dict(Nd=1, CR=0, kt=1), dict(Nd=2, CR=0, kt=2), dict(Nd=3, CR=0, kt=3),
        dict(Nd=3, CR=0.5, kt=1), dict(Nd=3, CR=0.9, kt=2)],
            thorough=[dict(Nd=4, CR=0, kt=1), dict(Nd=4, CR=0.2, kt=1)],
            covers=['done'], final=anyParts,
            bounds="one challenge with 1-4 parameters, all draws"),
    Harness(vector, quick=[
        dict(Np=4, Nd=2, kt=0, kb=1, CR=0.8, F='sym'),
        dict(Np=4, Nd=2, kt=1, kb=3, CR=0.5, F='range', fixed=True),
        dict(Np=5, Nd=2, kt=4, kb=0, CR=0, F='sym', fixed=True),
        dict(Np=5, Nd=2, kt=2, kb=1, CR=1, F=0.9, adaptive=True),
        dict(Np=4, Nd=3, kt=3, kb=2, CR=0, F=0.9, fixed=True),
        dict(Np=4, Nd=3, kt=0, kb=2, CR=0.8, F=0.9, fixed=True),
        dict(Np=4, Nd=1, kt=1, kb=0, CR=0, F='range'),
        dict(Np=4, Nd=4, kt=1, kb=0, CR=1, F=0.5, fixed=True),
    ], thorough=[
        dict(Np=6, Nd=2, kt=5, kb=0, CR=0.8, F='sym'),
        dict(Np=4, Nd=3, kt=2, kb=0, CR=0.3, F='sym'),
        dict(Np=4, Nd=3, kt=2, kb=0, CR=0, F='range', fixed=True),
        dict(Np=5, Nd=2, kt=3, kb=4, CR=1, F='range'),
        dict(Np=4, Nd=4, kt=1, kb=0, CR=0, F=0.5, fixed=True),
        dict(Np=4, Nd=4, kt=1, kb=0, CR=0.5, F=0.5, fixed=True),
    ], covers=['done'],
       bounds="one challenge; Np 4-6, Nd 1-4; all values, bounds, weights, "
       "draws"),
    Harness(generation, quick=[
        dict(Np=4, randomBase=False, CR=1),
        dict(Np=4, randomBase=True, CR=1),
    ], thorough=[
        dict(Np=4, randomBase=False, CR=0.5),
        dict(Np=4, randomBase=0.7, CR=1),
    ], covers=['done'],
       bounds="one generation of 4-5 members at fixed generic positions, all "
       "fitness orders (ties included) and draws"),
    Harness(large.evolved, quick=[
        dict(N=3, N_max=200), dict(N=2, N_max=200, randomBase=0.5, sym=9)], thorough=[
        dict(N=3, N_max=200, sym=29, seed=17)], covers=['done'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]

ASSUMPTIONS = [
    "a uniform draw is never exactly 0 or 1 (only matters for a crossover "
    "rate of 0 or 1)",
]
