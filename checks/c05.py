"""
C05: Setup yields exactly the configured number of finite members.
"""
from .common import *
from . import large


def setup(e, cfg):
    """
    Setup with arbitrary evaluation results and completion order.
    """
    Np, N = cfg['Np'], cfg['N']
    ev = Evaluator(
        e, kinds=cfg.get('kinds', ('num',)), delayed=cfg.get('delayed', False),
        good=cfg['good'])
    P = Pop(e, Np, 1, ev, fill=False, reporter=cfg.get('reporter', False),
            values=None)
    p = P.p
    p.N_maxParallel = N
    d = p.setup(uniform=cfg.get('uniform', True))
    over = [False]
    left = []
    d.addBoth(lambda x: (left.append(len(ev.pending)), x)[1])
    drive(e, ev, d, name='order', tick=4)
    settle(e, 100)
    finished(e, d, "setup")
    e.check(ev.maxPending <= N, "parallelism is limited")
    e.check(left == [0], "setup finishes after all of its evaluations")
    e.check(not ev.pending, "no evaluation goes on")
    fatal = False
    for c in ev.real:
        r = c['result']
        if isinstance(r, Exception): fatal = True
        elif r is not None: fatal = Or(fatal, r < 0)
    e.check(Iff(d.result is True, Not(fatal)),
            "success is reported exactly if there was no fatal evaluation")
    if d.result:
        e.cover('success')
        e.check(len(p) == Np, "the number of members is as configured")
        e.check(p.running, "the population is ready")
        for i in p:
            e.check(And(isfinite(i.SSE), i.SSE >= 0),
                    "members have finite nonnegative fitness")
            e.check(Or(*[And(same_vec(c['values'], i.values),
                             same(c['result'], i.SSE))
                         for c in ev.real if c['result'] is not None
                         and not isinstance(c['result'], Exception)]),
                    "members have the fitness of their own values")
        e.check(len(set(id(i) for i in p)) == Np, "members are distinct")
    else:
        e.cover('abort')
        e.check(p.running is False, "the population is aborted")


def blank(e, cfg):
    """
    Population size, with blank setup.
    """
    w = e.world
    w.quiet()
    pop = w.load('ade.population')
    Nd = cfg['Nd']
    popsize = e.int('popsize', 1, 3)
    lo, hi = e.int('Np_min', 1, 5), e.int('Np_max', 1, 6)
    class Pn(pop.Population):
        Np_min = lo
        Np_max = hi
        __repr__ = lambda self: "<Population>"
    ev = Evaluator(e)
    p = Pn(ev, NAMES[:Nd], symbounds(e, Nd, True), popsize=popsize)
    p.history = NullHistory()
    p.reporter = NullReporter()
    w.fixed = True
    d = p.setup(blank=True, uniform=cfg['uniform'])
    settle(e)
    finished(e, d, "blank setup")
    want = If(popsize*Nd < hi, popsize*Nd, hi)
    want = If(want > lo, want, lo)
    e.check(d.result is True, "blank setup succeeds")
    e.check(len(p) == want, "the number of members is as configured")
    e.check(not ev.calls, "nothing is evaluated")
    for i in p:
        e.check(isinf(i.SSE), "members have a placeholder fitness")
    e.cover('done')


def again(e, cfg):
    """
    Setting up a second time replaces the population.
    """
    Np = 3
    ev = Evaluator(e, kinds=('num',), lo=0, nan=True, good=cfg['good'])
    P = Pop(e, Np, 1, ev, fill=cfg['filled'])
    p = P.p
    old = list(p)
    for n in range(1 if cfg['filled'] else 2):
        n0 = len(ev.calls)
        d = p.setup(uniform=True)
        settle(e, 100)
        finished(e, d, "setup")
        e.check(d.result is True, "setup succeeds")
        e.check(len(p) == Np, "the number of members is as configured")
        for i in p:
            e.check(isfinite(i.SSE), "members have finite fitness")
            e.check(not any(i is x for x in old), "all members are new")
            e.check(Or(*[And(same_vec(c['values'], i.values),
                             same(c['result'], i.SSE))
                         for c in ev.real[n0:]]),
                    "members have the fitness of their own values")
        e.check(len(p.KS) == Np and set(int(k) for k in p.KS) == {0, 1, 2},
                "the sort order covers the new members")
        e.check(P.unlocked() and len(p.dLocks) == Np, "one lock per member")
        old = list(p)
        # Only the first one may have rejects
        ev.good = len(ev.calls)
    e.cover('done')


HARNESSES = [
    Harness(setup, quick=[
        dict(Np=2, N=2, good=3, kinds=['num', 'none', 'raise']),
        dict(Np=3, N=2, good=3, delayed=True),
        dict(Np=3, N=1, good=2, delayed=True, kinds=['num', 'none', 'raise']),
        dict(Np=4, N=3, good=2, delayed=True, uniform=False),
        dict(Np=5, N=2, good=0, delayed=True, uniform=False),
        dict(Np=2, N=2, good=1, reporter=True),
    ], thorough=[
        dict(Np=3, N=3, good=4, delayed=True, kinds=['num', 'none', 'raise']),
        dict(Np=5, N=3, good=2, delayed=True),
        dict(Np=5, N=4, good=0, delayed=True),
        dict(Np=4, N=2, good=6),
        dict(Np=4, N=12, good=3, delayed=True),
    ], covers=['success', 'abort'],
       bounds="2-5 members, parallelism 1-12; arbitrary results of the first "
       "0-4 evaluations, finite ones thereafter; all completion orders"),
    Harness(blank, quick=[
        dict(Nd=1, uniform=False), dict(Nd=2, uniform=True),
    ], thorough=[dict(Nd=3, uniform=False)], covers=['done'],
       bounds="size per parameter 1-3, minimum 1-5, maximum 1-6"),
    Harness(again, quick=[dict(filled=True, good=3), dict(filled=False, good=2)],
            covers=['done'], bounds="two setups of 3 members"),
    Harness(large.filled, quick=[
        dict(Np=100, N=12), dict(Np=40, N=10, sym=20)], thorough=[
        dict(Np=200, N=7, sym=100)], covers=['success', 'aborted'],
            bounds="setups of 40-100 members, one symbolic result"),
]
