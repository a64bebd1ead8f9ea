"""
C09: An abort or fatal evaluation stops a run cleanly at any point.
"""
from .common import *
from . import large


class Results(object):
    """
    Results of a given kind for each evaluation.
    """
    def __init__(self, e, kinds, fatal):
        self.e, self.kinds, self.fatal = e, kinds, fatal
        self.n = 0
    def __call__(self, call):
        if call['values'] is None: return None
        self.n += 1
        kinds = self.kinds + (['neg', 'raise', 'negint'] if self.fatal else [])
        kind = kinds[self.e.choose(len(kinds), 'result')] \
            if len(kinds) > 1 else kinds[0]
        if kind in ('neg', 'raise', 'negint'):
            self.fatal -= 1
            call['fatal'] = True
        if kind == 'win': return 0.9 - 0.01*self.n
        if kind == 'lose': return 1000.0
        if kind == 'none':
            # Not forever
            if self.n > 2: self.kinds = [x for x in self.kinds if x != 'none']
            return None
        if kind == 'neg': return self.e.real(
                'fatal', None, 0, hi_open=True)
        if kind == 'negint': return -1
        return Fail("fatal")


class AbortEvaluator(Evaluator):
    def __call__(self, values, xSSE=None):
        if values is None:
            self.calls.append({'n': len(self.calls), 'values': None})
            return None
        return Evaluator.__call__(self, values, xSSE)


def abort(e, how, P, de=None):
    a = P.w.load('ade.abort')
    if how == 'enter':
        a.abortNow()
        e.world.reactor.step()
    elif how == 'key': a.KeyboardHolder.KB.dataReceived(b'\n')
    elif how == 'de': de.shutdown()
    elif how == 'reactor': e.world.reactor.fireShutdown()
    elif how == 'pop': P.p.abort()


def run(e, cfg):
    w = e.world
    w.dull = cfg.get('seed', 1)
    Np, N = cfg['Np'], cfg['N']
    how = cfg.get('how')
    res = Results(e, cfg.get('kinds', ['win', 'lose']), cfg.get('fatal', 0))
    ev = AbortEvaluator(e, delayed=True, result=res)
    P = Pop(e, Np, 1, ev, SSE=lambda k: 10.0+k,
            values=lambda k: [0.1*k], reporter=False)
    p = P.p
    m = w.load('ade.de')
    de = m.DifferentialEvolution(
        p, logHandle=None, F=0.4, CR=1.0, maxiter=N,
        randomBase=cfg.get('randomBase', False))
    challenges = []
    real = de.challenge
    def challenge(kt, kb):
        d = real(kt, kb)
        challenges.append(d)
        return d
    de.challenge = challenge
    state = None        # when aborted
    def freeze():
        return [(i, list(i.values), i.SSE) for i in p], len(ev.real)
    def soon():
        settle(e, 30)
        e.check(isDone(d), "the result fires without waiting for evaluations "
                "that may never finish")
        if ev.pending: e.cover('outstanding')
    d = de()
    again = 1 if cfg.get('twice') else 0
    for _ in range(4*Np*N + 20):
        for _ in range(4): w.reactor.step()
        n = len(ev.pending)
        canAbort = how and (
            not isDone(d) if state is None else again and ev.pending)
        if not n and not canAbort: break
        if not n and isDone(d): break
        opts = n + (1 if canAbort else 0)
        k = e.choose(opts, 'step') if opts > 1 else 0
        if k == n:
            if state is not None: again -= 1
            s = freeze()
            if state is None: state = s
            e.cover('abort')
            abort(e, how, P, de)
            soon()
            continue
        call = ev.pending[k]
        s = freeze()
        ev.finish(call)
        if call.get('fatal') and state is None:
            state = s
            e.cover('fatal')
            soon()
    settle(e, 30)
    finished(e, d, "the run")
    e.check(d.result is p, "the result is the population")
    e.check(not ev.pending, "all evaluations have finished")
    for x in challenges: finished(e, x, "every challenge")
    e.check(P.unlocked(), "no lock is left")
    e.check(len(p) == Np, "the number of members is unchanged")
    if state is not None:
        members, nReal = state
        e.check(len(ev.real) == nReal, "no further evaluation is started")
        for (i, v, s), x in zip(members, p):
            e.check(x is i, "no member is replaced afterwards")
            e.check(And(same_vec(i.values, v), same(i.SSE, s)),
                    "no member is changed afterwards")
        e.check(not de.running or how == 'pop', "it isn't running")
    else:
        e.cover('normal')
        e.check(len(ev.real) == Np*N, "all challenges are evaluated")


def setup(e, cfg):
    """
    Abort, or fatal evaluation, before or during setup.
    """
    w = e.world
    Np = cfg['Np']
    how = cfg.get('how')
    res = Results(e, cfg.get('kinds', ['win']), cfg.get('fatal', 0))
    ev = AbortEvaluator(e, delayed=True, result=res)
    P = Pop(e, Np, 1, ev, fill=False)
    p = P.p
    p.N_maxParallel = cfg['N']
    w.dull = 1
    state = None
    if how and cfg.get('before'):
        abort(e, how, P)
        state = 0
    d = p.setup()
    for _ in range(6*Np + 20):
        for _ in range(4): w.reactor.step()
        n = len(ev.pending)
        if not n and isDone(d): break
        canAbort = how and state is None
        if not n and not canAbort: break
        opts = n + (1 if canAbort else 0)
        k = e.choose(opts, 'step') if opts > 1 else 0
        if k == n:
            state = len(ev.real)
            e.cover('abort')
            abort(e, how, P)
            continue
        call = ev.pending[k]
        nReal = len(ev.real)
        ev.finish(call)
        if call.get('fatal') and state is None:
            state = nReal
            e.cover('fatal')
    settle(e, 60)
    finished(e, d, "setup")
    e.check(not ev.pending, "all evaluations have finished")
    if state is None:
        e.check(d.result is True, "success without an abort")
        e.cover('normal')
        return
    e.check(not d.result, "no success is reported")
    e.check(len(ev.real) == state, "no further evaluation is started")
    d = p.setup()
    drive(e, ev, d)
    settle(e, 60)
    finished(e, d, "another setup")
    e.check(not d.result, "no success is reported by another setup")
    e.check(len(ev.real) == state, "no evaluation is started by another setup")
    m = w.load('ade.de')
    de = m.DifferentialEvolution(p, logHandle=None, maxiter=2)
    d = de()
    drive(e, ev, d)
    settle(e, 30)
    finished(e, d, "a run of it")
    e.check(d.result is p, "the result is the population")
    e.check(len(ev.real) == state, "nothing is evolved after the abort")


HARNESSES = [
    Harness(run, quick=[
        dict(Np=4, N=2, how='enter'),
        dict(Np=5, N=1, how='key', seed=11),
        dict(Np=5, N=1, how='de', seed=23, kinds=['win']),
        dict(Np=6, N=1, how='enter', seed=5, kinds=['win']),
        dict(Np=4, N=2, fatal=1, kinds=['win']),
        dict(Np=5, N=1, fatal=1, kinds=['lose'], seed=7),
        dict(Np=5, N=1, how='reactor', seed=3, twice=True, kinds=['win']),
        dict(Np=5, N=1, how='de', seed=3, fatal=1, kinds=['win'],
             randomBase=True),
        dict(Np=8, N=1, how='de', kinds=['win'], seed=88),
        dict(Np=8, N=1, how='enter', kinds=['win'], seed=31),
        dict(Np=8, N=1, fatal=1, kinds=['win'], seed=32),
    ], thorough=[
        dict(Np=6, N=1, how='enter', seed=s, kinds=['win'])
        for s in (101, 202, 303)
    ] + [
        dict(Np=6, N=1, fatal=1, seed=s, kinds=['win'])
        for s in (404, 505)
    ] + [
        dict(Np=5, N=2, how='enter', kinds=['win'], seed=77),
        dict(Np=8, N=1, how='de', kinds=['win', 'lose'], seed=89),
        dict(Np=10, N=1, how='de', kinds=['win'], seed=90),
        dict(Np=10, N=1, fatal=1, kinds=['win'], seed=91),
    ], covers=['abort', 'fatal', 'normal', 'outstanding'],
       bounds="1-2 generations of 4-10 members; every point of abort (once or "
       "twice), every fatal evaluation, all completion orders and tournament "
       "outcomes; several fixed sequences of draws"),
    Harness(setup, quick=[
        dict(Np=3, N=2, how='enter', kinds=['win', 'none']),
        dict(Np=3, N=2, how='pop', kinds=['win']),
        dict(Np=3, N=2, fatal=1),
        dict(Np=3, N=3, fatal=2),
        dict(Np=3, N=2, how='enter', before=True),
        dict(Np=4, N=3, how='key'),
    ], thorough=[
        dict(Np=5, N=3, how='enter'),
        dict(Np=5, N=4, fatal=1),
    ], covers=['abort', 'fatal', 'normal'],
       bounds="setup of 3-5 members; every point of abort or fatal "
       "evaluation, all completion orders"),
    Harness(large.stopped, quick=[
        dict(N=3, N_max=60, sym=40), dict(N=2, N_max=60, sym=5)], thorough=[
        dict(N=3, N_max=60, sym=71)], covers=['done', 'outstanding'],
            bounds="a run of 24 members with 9 parameters stopped by any "
            "kind of fatal result"),
]
