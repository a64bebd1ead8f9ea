"""
C15: Report callbacks see each significant new best, one run at a time.
"""
from .common import *
from . import large

ARGS, KW = (11,), {'extra': 12}
FAIL, COMPLAIN, OK = 'fail', 'complain', 'ok'


class Callbacks(object):
    """
    The user's report callbacks, each of whose invocations finishes at
    an arbitrary time with an arbitrary result.

    @ivar calls: A record of each invocation, in order.
    """
    def __init__(self, e, P, K, results, delayed):
        self.e, self.P, self.K = e, P, K
        self.results, self.delayed = results, delayed
        self.calls = []
        self.pending = None
        self.complaints = []
        self.failed = False
        r = P.p.reporter
        for k in range(K):
            P.p.addCallback(self.callback(k), *ARGS, **KW)
        r.complaintCallback = self.complained

    def complained(self, i, result):
        self.e.check(self.known(i) is not None,
                     "complaints are about a reported individual")
        self.e.check(result == "complaint", "the complaint is passed on")
        self.complaints.append(i)

    def known(self, i):
        for k, j in enumerate(self.inds):
            if j is i: return k

    def which(self, values):
        # The first value identifies the individual
        return int(round(float(values[0])*10))

    def callback(self, k):
        def f(values, counter, SSE, *args, **kw):
            e = self.e
            e.check(self.pending is None, "callback runs don't overlap")
            e.check(not self.failed, "no callback after one has failed")
            e.check(tuple(args) == ARGS and kw == KW,
                    "a callback gets the arguments registered with it")
            call = {'k': k, 'n': self.which(values), 'SSE': SSE,
                    'values': list(values)}
            self.calls.append(call)
            self.started(call)
            if not self.delayed: return self.finish(call)
            call['d'] = self.pending = defer.Deferred()
            self.pendingCall = call
            return self.pending
        return f

    def finish(self, call):
        e = self.e
        kind = self.results[e.choose(len(self.results), 'cb')] \
            if len(self.results) > 1 else self.results[0]
        if call['n'] in self.bad: kind = OK
        call['kind'] = kind
        if kind == OK: result = None
        elif kind == COMPLAIN:
            result = "complaint"
            self.bad.add(call['n'])
        else:
            self.failed = True
            result = Fail("callback")
        if not self.delayed:
            if kind == FAIL: raise result
            return result
        d, self.pending = self.pending, None
        if kind == FAIL: d.errback(result)
        else: d.callback(result)


def reports(e, cfg):
    """
    A sequence of reports, with callbacks finishing in between.
    """
    N = cfg['N']
    K = cfg.get('K', 1)
    results = cfg.get('results', [OK])
    Np = max(3, N+1)
    P = Pop(e, Np, 1, reporter=True, SSE=lambda k: 1e9+k,
            values=lambda k: [-0.5-0.01*k])
    p, r = P.p, P.p.reporter
    if not cfg.get('real'):
        # That's for C16; forks for each digit
        r.msgRatio = lambda *args, **kw: None
    cb = Callbacks(e, P, K, results, cfg.get('delayed', True))
    cb.inds = inds = []
    cb.bad = bad = set()
    SSEs = []
    forced, new = {}, {}
    runs, bests = [], []

    def better(a, b):
        """Is fitness a better than b? NaN is worse than anything."""
        return Or(a < b, And(isnan(b), Not(isnan(a))))

    def started(call):
        k, n = call['k'], call['n']
        e.check(0 <= n < len(inds), "callbacks are about those reported")
        e.check(same(call['values'][0], 0.1*n), "a callback gets the values")
        if n not in bad:
            e.check(same(call['SSE'], SSEs[n]), "a callback gets the fitness")
        if k == 0:
            if runs: e.check(runs[-1]['next'] == K,
                             "all callbacks of a run are called")
            e.check(Or(forced[n], new[n]),
                    "a run is about a new best or forced")
            if runs: e.check(runs[-1]['n'] != n,
                             "no run repeats the one before it")
            runs.append({'n': n, 'next': 1})
        else:
            e.check(bool(runs) and runs[-1]['n'] == n,
                    "all callbacks of a run are about the same individual")
            e.check(runs[-1]['next'] == k,
                    "callbacks are called in order of registration")
            runs[-1]['next'] = k+1
    cb.started = started

    def best():
        """The latest new best without complaint, if any."""
        for k in reversed(bests):
            if k not in bad: return k

    def checkBest():
        """The best so far is that of all without complaint."""
        for n in bad:
            e.check(isinf(inds[n].SSE) and inds[n].SSE > 0,
                    "a complaint makes the individual worst-possible")
        k = best()
        if k is None: return
        # One not finite is no better than one complained about
        if bad and not bool(isfinite(SSEs[k])): return
        for n, i in enumerate(inds):
            if i is r.iBest and n not in bad: break
        else:
            e.fail("the best is one without complaint")
            return
        e.check(Not(better(SSEs[k], SSEs[n])),
                "the best is the best of those without complaint")
        if bad: e.cover('complaint')
        return n

    def report(n):
        raw = e.xreal('R%d' % n, lo=0, hi=1e6) if cfg.get('bogus') \
            else e.real('R%d' % n, 0, 1e6)
        i = P.individual([0.1*n], raw)
        k = best()
        new[n] = k is None or bool(better(raw, SSEs[k]))
        if new[n]: bests.append(n)
        forced[n] = bool(cfg.get('force')) and bool(e.choose(2, 'force'))
        # As documented, that's for one no worse than the best only
        if forced[n] and k is not None: e.assume(Not(SSEs[k] < raw))
        inds.append(i)
        SSEs.append(raw)
        # It's in the population, having replaced another
        p[n] = i
        if cfg.get('pair'):
            iOther = P.individual([0.95], e.real('other', 0, 1e6))
            r(i, iOther)
        elif cfg.get('api'): p.report(i, force=forced[n])
        else: r(i, force=forced[n])

    n = 0
    for step in range(20):
        settle(e, 5)
        if cb.failed: break
        if n and not cfg.get('pair') and not cb.pending: checkBest()
        options = []
        if n < N: options.append('report')
        if cb.pending is not None: options.append('finish')
        if not options: break
        o = options[0]
        if len(options) > 1: o = options[e.choose(len(options), 'step')]
        if o == 'report':
            report(n)
            n += 1
            if len(runs) < len(inds) and cb.pending: e.cover('busy')
        else: cb.finish(cb.pendingCall)
    d = p.waitForReports()
    settle(e)
    e.check(cb.pending is None, "no callback is left")
    e.check(isDone(d), "waiting for reports ends")
    if cb.failed:
        e.check(p.running is False, "a failing callback aborts everything")
        e.cover('failed')
        return
    if runs: e.check(runs[-1]['next'] == K, "the last run is complete")
    e.check(len(cb.complaints) == len(bad), "each complaint is handled")
    if bad:
        checkBest()
        b = p.best()
        e.check(b not in [inds[k] for k in bad],
                "the population's best isn't one complained about")
        return
    b = checkBest()
    e.check(bool(runs), "there is a report")
    last = runs[-1]['n']
    for run in runs:
        if run['n'] == b:
            e.cover('reported')
            return
    x, y = SSEs[b], SSEs[last]
    # Not closer to the threshold than rounding matters
    if has_sym([x, y]): x = lift(x)
    e.check(x >= y*0.979999, "the best has been reported "
            "unless equivalent to the last one reported")
    e.cover('equivalent')


def waiting(e, cfg):
    """
    Waiting for reports lasts until no callback is running or due.
    """
    P = Pop(e, 3, 1, reporter=True, SSE=lambda k: 1e9+k,
            values=lambda k: [-0.5-0.01*k])
    p, r = P.p, P.p.reporter
    pending, seen = [], []
    def cb(values, counter, SSE):
        d = defer.Deferred()
        pending.append(d)
        seen.append(SSE)
        return d
    p.addCallback(cb)
    a, b = e.real('a', 0, 1e6), e.real('b', 0, 1e6)
    p.report(P.individual([0.1], a))
    d = p.waitForReports()
    settle(e, 10)
    e.check(len(pending) == 1 and not isDone(d),
            "waiting lasts while a callback is running")
    p.report(P.individual([0.2], b))
    pending.pop(0).callback(None)
    settle(e, 10)
    if pending:
        e.check(b < a, "only a better one is reported")
        e.check(not isDone(d), "waiting lasts while another run is due")
        e.cover('another')
        pending.pop(0).callback(None)
        settle(e, 10)
    else: e.check(b >= a*0.979999, "a significantly better one is reported")
    e.check(isDone(d), "waiting ends with the callbacks")
    e.check(same(seen[0], a), "the first is reported")


def default(e, cfg):
    """
    A report with no individual is about the population's best.
    """
    K = 3
    P = Pop(e, K, 1, reporter=True, SSE=lambda k: e.real('S', 0, 1e6),
            values=lambda k: [0.1*k])
    p = P.p
    seen = []
    def cb(values, counter, SSE): seen.append((list(values), SSE))
    p.addCallback(cb)
    p.report()
    settle(e)
    e.check(len(seen) == 1, "there is one report")
    v, s = seen[0]
    k = int(round(float(v[0])*10))
    e.check(same(s, P.SSE[k]), "with values and fitness of one member")
    e.check(And(*[s <= x for x in P.SSE]), "which is the best")
    e.cover('default')
    p.report()
    settle(e)
    e.check(len(seen) == 1, "an identical report isn't repeated")
    i = P.individual([0.7], e.real('new', 0, 1e6))
    p[1] = i
    p.report()
    settle(e)
    now = [x.SSE for x in p]
    v, s = seen[-1]
    e.check(And(*[s <= x for x in now]), "a forced report is of the best")
    if len(seen) > 1: e.cover('again')


def again(e, cfg):
    """
    Reports of the same individuals, copies of them, and others with the
    same values.
    """
    P = Pop(e, 3, 1, reporter=True, SSE=lambda k: 1e9+k,
            values=lambda k: [-0.5-0.01*k])
    p, r = P.p, P.p.reporter
    r.msgRatio = lambda *args, **kw: None
    S = [e.real('S', 0, 1e6) for _ in range(3)]
    pool = [P.individual([0.1], S[0]), P.individual([0.2], S[1]),
            P.individual([0.1], S[0]), P.individual([0.1], S[2])]
    runs, pending, done = [], [], []
    def cb(values, counter, SSE):
        e.check(not pending, "callback runs don't overlap")
        if runs: e.check(
                Not(And(same(runs[-1][0], values[0]), same(runs[-1][1], SSE))),
                "no run repeats the one before it")
        runs.append((values[0], SSE))
        d = defer.Deferred()
        pending.append(d)
        return d
    p.addCallback(cb)
    for n in range(cfg['N']):
        k = e.choose(len(pool), 'which')
        i = pool[k]
        force = bool(e.choose(2, 'force'))
        if force: e.assume(And(*[i.SSE <= x for x in done]))
        if done and not bool(And(*[i.SSE < x for x in done])): e.cover('tie')
        done.append(i.SSE)
        r(i, force=force)
        settle(e, 3)
        if pending and e.choose(2, 'finish'):
            pending.pop().callback(None)
            settle(e, 5)
    for _ in range(cfg['N']):
        if pending: pending.pop().callback(None)
        settle(e, 5)
    e.check(not pending and isDone(p.waitForReports()), "all is quiet")
    x = runs[-1][1]
    e.check(Or(*[same(x, s) for s in done]), "the fitness is one reported")
    for s in done:
        e.check(s >= x*0.979999, "the best has been reported unless "
                "equivalent to the last one reported")
    if force: e.check(And(*[x <= s for s in done]),
                      "the best has been reported if forced")
    e.cover('done')


A = [OK, COMPLAIN]
HARNESSES = [
    Harness(
        reports,
        quick=[
            dict(N=2, real=True), dict(N=3), dict(N=3, K=2), dict(N=3, bogus=True),
            dict(N=3, force=True, api=True), dict(N=3, pair=True), dict(N=4),
            dict(N=3, results=A), dict(N=2, K=2, results=[OK, COMPLAIN, FAIL]),
            dict(N=3, results=A, delayed=False),
            dict(N=3, K=2, results=[OK, FAIL]),
        ],
        thorough=[
            dict(N=4), dict(N=4, K=2), dict(N=3, bogus=True),
            dict(N=4, force=True), dict(N=3, force=True, api=True),
            dict(N=3, real=True),
            dict(N=2, pair=True, real=True), dict(N=4, pair=True), dict(N=4, results=A),
            dict(N=3, results=A, force=True),
            dict(N=3, K=2, results=[OK, COMPLAIN, FAIL]),
            dict(N=4, results=A, delayed=False),
            dict(N=4, K=2, results=[OK, FAIL]),
            dict(N=3, bogus=True, results=A),
        ],
        covers=['busy', 'complaint', 'failed', 'reported', 'equivalent'],
        bounds="2-4 reports of individuals with any fitness up to 1e6 "
        "(NaN and infinite ones too), 1-2 callbacks each finishing at any "
        "time between reports with silence, complaint, or failure"),
    Harness(
        again, quick=[dict(N=2), dict(N=3)],
        covers=['tie', 'done'],
        bounds="2-3 reports, perhaps forced, of two individuals "
        "with any fitness, a copy, and another with the same values"),
    Harness(
        waiting, quick=[{}], covers=['another'],
        bounds="two reports, any fitness"),
    Harness(
        default, quick=[{}], covers=['default', 'again'],
        bounds="three members, any fitness"),
    Harness(large.leading, quick=[
        dict(N=3, N_max=200, sym=35, seed=4)], thorough=[
        dict(N=4, N_max=200)], covers=['done'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]
