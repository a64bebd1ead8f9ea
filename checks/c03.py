"""
C03: Only vectors within the bounds are ever evaluated or kept.
"""
from .common import *


def limit(e, cfg):
    """
    The limiter on arbitrary values.
    """
    Nd = cfg['Nd']
    e.world.quiet()
    pop = e.world.load('ade.population')
    B = symbounds(e, Nd)
    p = pop.Population(Evaluator(e), NAMES[:Nd], B)
    x = [e.xreal('x', nan=False, pinf=cfg['inf'], ninf=cfg['inf'])
         for _ in range(Nd)]
    i = p.spawn(e.world.np.array(x))
    p.limit(i)
    v = list(i.values)
    e.check(len(v) == Nd, "all parameters are there")
    for k in range(Nd):
        e.check(inside(v[k:k+1], B[k:k+1]), "limited values are within bounds")
        if isfinite(x[k]):
            e.check(isLimited(v[k], x[k], *B[k]),
                    "values are reflected about the bound they violate")
        else: e.cover('infinite')
    e.cover('done')


def challenge(e, cfg):
    """
    Challenges with a large weight.
    """
    Nd = cfg['Nd']
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False)
    B = symbounds(e, Nd)
    P = Pop(e, 4, Nd, ev, bounds=B, SSE=lambda k: 10.0+k)
    de = P.DE(F=cfg['F'], CR=cfg['CR'])
    for kt, kb in cfg['pairs']:
        d = de.challenge(kt, kb)
        settle(e)
        finished(e, d, "the challenge")
    e.check(len(ev.calls) == len(cfg['pairs']), "one evaluation each")
    for c in ev.calls:
        e.check(inside(c['values'], B), "evaluated values are within bounds")
    for i in P.p:
        e.check(inside(i.values, B), "members are within bounds")
    e.cover('done')


def setup(e, cfg):
    """
    The initial population.
    """
    Nd, Np = cfg['Nd'], cfg['Np']
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False, pinf=cfg['inf'],
                   good=Np+1)
    B = symbounds(e, Nd)
    P = Pop(e, Np, Nd, ev, bounds=B, fill=False)
    P.p.N_maxParallel = 2
    d = P.p.setup(uniform=cfg['uniform'])
    settle(e, 200)
    for c in ev.real:
        e.check(inside(c['values'], B), "evaluated values are within bounds")
    for i in P.p:
        e.check(inside(i.values, B), "members are within bounds")
    finished(e, d, "setup")
    e.cover('done')


def load(e, cfg):
    """
    Loading with new bounds, and evolving from there.
    """
    Nd, Np = cfg['Nd'], 4
    P = Pop(e, Np, Nd, Evaluator(e), bounds=symbounds(e, Nd),
            SSE=lambda k: 10.0+k)
    before = [list(i.values) for i in P.p]
    path = scratch('c03')
    P.p.save(path)
    B = [(e.real('nlo'), e.real('nhi')) for _ in range(Nd)]
    for lo, hi in B: e.assume(lo < hi)
    ev = Evaluator(e, kinds=('num',), lo=0, nan=False)
    p = P.pop.Population.load(path, func=ev, bounds=B)
    e.check(len(p) == Np, "all members are loaded")
    for k in range(Np):
        v = list(p[k].values)
        e.check(inside(v, B), "members are within the new bounds")
        e.check(And(*[isLimited(v[j], before[k][j], *B[j])
                      for j in range(Nd)]),
                "values are reflected about the bound they violate")
    p.history = NullHistory()
    p.reporter = NullReporter()
    P.p = p
    de = P.DE(F=0.9, CR=1.0)
    d = de.challenge(0, 1)
    settle(e)
    finished(e, d, "a challenge after loading")
    e.check(len(ev.calls) == 1, "one evaluation")
    e.check(inside(ev.calls[0]['values'], B),
            "evaluated values are within the new bounds")
    e.cover('done')


HARNESSES = [
    Harness(limit, quick=[
        dict(Nd=1, inf=True), dict(Nd=2, inf=False), dict(Nd=2, inf=True),
    ], thorough=[dict(Nd=3, inf=True)], covers=['done', 'infinite'],
       bounds="all values including infinities, all bounds, Nd 1-3"),
    Harness(challenge, quick=[
        dict(Nd=2, F=7.0, CR=0.8, pairs=[[0, 1]]),
        dict(Nd=1, F=2.0, CR=1.0, pairs=[[0, 1], [1, 0]]),
    ], thorough=[
        dict(Nd=3, F=100.0, CR=0.5, pairs=[[2, 3]]),
        dict(Nd=1, F=3.0, CR=1.0, pairs=[[0, 1], [1, 0], [2, 0]]),
    ], covers=['done'],
       bounds="1-3 challenges, all values, bounds, draws; F up to 100"),
    Harness(setup, quick=[
        dict(Nd=1, Np=3, uniform=True, inf=True),
        dict(Nd=2, Np=3, uniform=False, inf=False),
    ], thorough=[
        dict(Nd=2, Np=4, uniform=True, inf=True),
        dict(Nd=2, Np=4, uniform=False, inf=True),
    ], covers=['done'],
       bounds="setup of 3-4 members, the first Np+1 evaluations being accepted "
       "or rejected arbitrarily; all bounds, draws"),
    Harness(load, quick=[dict(Nd=1), dict(Nd=2)], covers=['done'],
            bounds="4 members, all values, all old and new bounds"),
]
