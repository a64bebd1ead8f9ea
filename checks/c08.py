"""
C08: A run ends exactly at maxiter, goal, stagnation or abort.
"""
from .common import *


class Weight(object):
    """
    Independent model of the adaptation of a single weight, just to know
    when it can't be adapted any further.
    """
    def __init__(self, F, CR, Np, adaptive):
        self.F = self.F0 = F
        self.crit = math.sqrt((1 - 0.5*CR)/Np)
        self.adaptive = adaptive
        self.limited = False
    def down(self):
        if not self.adaptive: return
        if 0.89*self.F > self.crit: self.F *= 0.89
        else: self.limited = True
    def up(self):
        if not self.adaptive: return
        self.limited = False
        if self.F < self.F0: self.F = min(self.F * 0.89**-0.88, self.F0)


def run(e, cfg):
    """
    A run with arbitrary outcomes of each generation.
    """
    w = e.world
    w.dull = True
    Np, N, CR, F = 4, cfg['maxiter'], 0.8, cfg.get('F', 0.4)
    dwell = cfg.get('dwell', 1)
    best = []           # result of the one relevant evaluation of each gen.
    def result(call):
        kg, k = divmod(call['n'], Np)
        if k != 2 or not cfg.get('goal'): return math.inf
        r = e.xreal('r', lo=0, nan=False)
        best.append(r)
        return r
    ev = Evaluator(e, result=result, delayed=cfg.get('delayed', False))
    P = Pop(e, Np, 1, ev, SSE=lambda k: [40., 10., 30., 20.][k],
            values=lambda k: [0.1*k])
    p = P.p
    enough = []
    def replacement(rir=None, sqs=None):
        if rir is None and sqs is None:
            enough.append(bool(e.choose(2, 'enough')))
            return enough[-1]
    p.replacement = replacement
    goal = e.real('goal', 0, lo_open=True) if cfg.get('goal') else None
    m = w.load('ade.de')
    kw = {}
    if cfg.get('bitterEnd'): kw['bitterEnd'] = True
    de = m.DifferentialEvolution(
        p, logHandle=None, F=F, CR=CR, maxiter=N, dwellByGrave=dwell,
        adaptive=cfg.get('adaptive', True), goalSSE=goal, **kw)
    gens = []
    def func(kg):
        gens.append((kg, len(ev.calls)))
        if cfg.get('abortAt') == kg: de.shutdown()
    d = de(func)
    after = []
    def fired(x):
        after.append((len(p.reporter.calls), len(ev.calls)))
        return x
    d.addCallback(fired)
    drive(e, ev, d, turns=200, name='order')
    settle(e, 100)
    finished(e, d, "the run")
    e.check(d.result is p, "the result is the population")
    e.check(after == [(len(p.reporter.calls), len(ev.calls))],
            "the result fires last")
    e.check(len(ev.calls) == len(ev.real) and len(ev.calls) % Np == 0,
            "one challenge per member and generation")
    n = len(ev.calls) // Np
    e.check(n <= N, "no more than the maximum number of generations")
    # Simulate what should have happened, given the outcomes
    wt = Weight(F, CR, Np, cfg.get('adaptive', True))
    count, why = 0, 'maxiter'
    expect = []
    sse = 10.0
    ne = 0
    for kg in range(N):
        if kg >= n:
            why = None
            break
        if goal is not None:
            r = best[kg]
            sse = If(And(r < sse), r, sse)
            if bool(sse < goal):
                why = 'goal'
                break
        if ne >= len(enough):
            e.fail("improvement is considered after each generation")
            return
        ok = enough[ne]
        ne += 1
        if ok:
            wt.up()
            count = 0
        else:
            wt.down()
            if wt.limited and not cfg.get('bitterEnd'):
                count += 1
                if count > dwell:
                    why = 'stagnation'
                    break
        expect.append(kg)
        if cfg.get('abortAt') == kg:
            why = 'abort'
            break
    else: kg = N-1
    e.check(why is not None, "the run doesn't end for no reason")
    e.check(n == kg+1, "the run ends when it should")
    e.check([x[0] for x in gens] == expect,
            "the callback is called once per generation, in order")
    e.check(all(x[1] == (x[0]+1)*Np for x in gens),
            "the callback is called at the end of its generation")
    if why: e.cover(why)
    if why != 'abort':
        R = p.reporter.calls
        e.check(len(R) > 0 and R[-1][0] is p.best(),
                "the best one is reported at last")
    e.check(not de.running, "it's no longer running")
    e.check(P.unlocked(), "no lock is left")


def defaults(e, cfg):
    """
    A run of a population with real inquiries, so that the conditions
    are connected as they should.
    """
    w = e.world
    w.dull = True
    Np = 4
    def result(call):
        # A new best in each of the first generations only
        kg, k = divmod(call['n'], Np)
        return 0.1**(kg+1) if kg < cfg['better'] and k == 1 else math.inf
    ev = Evaluator(e, result=result)
    P = Pop(e, Np, 1, ev, SSE=lambda k: [40., 10., 30., 20.][k],
            values=lambda k: [0.1*k], reporter=True)
    p = P.p
    m = w.load('ade.de')
    gens = []
    # The score has to be exceeded for certain
    p.replacement(sqs=1e-3)
    de = m.DifferentialEvolution(
        p, logHandle=None, F=0.4, maxiter=cfg['maxiter'],
        dwellByGrave=cfg['dwell'])
    d = de(gens.append)
    settle(e, 400)
    finished(e, d, "the run")
    n = len(ev.real) // Np
    e.check(n <= cfg['maxiter'], "no more than the maximum")
    # At least those that were improvements, plus the dwelling
    least = min(cfg['maxiter'], cfg['better'] + cfg['dwell'] + 1)
    e.check(n >= least, "it doesn't stop while there is improvement")
    e.check(gens[:least-1] == list(range(least-1)), "the callbacks are made")
    e.cover('done')


def slow(e, cfg):
    """
    Reports that take their time.
    """
    w = e.world
    w.dull = True
    Np, N = 4, cfg['maxiter']
    ev = Evaluator(e, result=lambda call: 100.0/(call['n']+20)
                   if cfg['better'] else math.inf)
    P = Pop(e, Np, 1, ev, SSE=lambda k: [40., 10., 30., 20.][k],
            values=lambda k: [0.1*k], reporter=True)
    pending, reported = [], []
    def callback(values, counter, SSE):
        d = defer.Deferred()
        pending.append(d)
        reported.append(SSE)
        return d
    P.p.addCallback(callback)
    m = w.load('ade.de')
    de = m.DifferentialEvolution(
        P.p, logHandle=None, F=0.4, maxiter=N, goalSSE=cfg.get('goal'))
    busy = []
    d = de(lambda kg: None)
    d.addCallback(lambda x: (busy.append(len(pending)), x)[1])
    for _ in range(60):
        for _ in range(e.choose(2, 'wait')*4): w.reactor.step()
        if not pending:
            settle(e)
            if not pending: break
        pending.pop(0).callback(None)
    settle(e)
    finished(e, d, "the run")
    e.check(busy == [0], "the result fires after the final report")
    e.check(bool(reported) and same(reported[-1], P.p.best().SSE),
            "the best one is reported at last")
    e.cover('done')


HARNESSES = [
    Harness(slow, quick=[
        dict(maxiter=1, better=True), dict(maxiter=2, better=False),
        dict(maxiter=2, better=True), dict(maxiter=3, better=True, goal=4.0)],
            covers=['done'],
            bounds="up to 3 generations of 4 members, reports that finish at "
            "various times"),
    Harness(run, quick=[
        dict(maxiter=6, dwell=1),
        dict(maxiter=7, dwell=2, F=0.5),
        dict(maxiter=4, dwell=1, goal=True),
        dict(maxiter=5, dwell=0, bitterEnd=True),
        dict(maxiter=5, dwell=0, adaptive=False),
        dict(maxiter=4, dwell=5, abortAt=1),
        dict(maxiter=3, dwell=0, delayed=True),
        dict(maxiter=0), dict(maxiter=1, dwell=0),
    ], thorough=[
        dict(maxiter=10, dwell=3, F=0.45),
        dict(maxiter=9, dwell=5),
        dict(maxiter=6, dwell=1, goal=True),
        dict(maxiter=6, dwell=2, goal=True, bitterEnd=True),
    ], covers=['maxiter', 'goal', 'stagnation', 'abort'],
       bounds="up to 10 generations of 4 members with arbitrary verdicts on "
       "improvement, arbitrary best fitness per generation, arbitrary goal; "
       "the draws are fixed"),
    Harness(defaults, quick=[
        dict(maxiter=12, dwell=2, better=3),
        dict(maxiter=4, dwell=2, better=10),
    ], covers=['done'], bounds="runs with actual status quo inquiries"),
]
