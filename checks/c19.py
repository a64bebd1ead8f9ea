"""
C19: Piecewise evaluation parts run fastest-average first.
"""
from .common import *


class Clock(object):
    """A clock with arbitrary nondecreasing readings."""
    def __init__(self, e):
        self.e = e
        self.t = 0.0
        self.frozen = None
    def __call__(self):
        # Readings are at distinct times only between events
        if self.frozen is None: self.frozen = self.next()
        return self.frozen
    def next(self):
        t = self.e.real('t', self.t)
        self.t = t
        return t
    def tick(self): self.frozen = None


def timer(e, cfg):
    """
    Overlapping calls of parts, in an arbitrary order of events.
    """
    w = e.world
    w.quiet()
    u = w.load('ade.util')
    clock = Clock(e)
    w.clock = clock
    k = cfg.get('k', 0)
    IDs = cfg.get('IDs', ['x', 'y', 'z'])
    et = u.EvalTimer(k)
    e.check(list(et) == [], "nothing at first")
    open_, elapsed, started = [], {}, 0
    seen = []
    def func(*args, **kw):
        d = defer.Deferred()
        seen.append((args, kw))
        open_.append([args, d, clock.frozen])
        return d
    N = cfg['N']
    results = []
    while started < N or open_:
        opts = len(open_) + (1 if started < N else 0)
        n = e.choose(opts, 'event') if opts > 1 else 0
        clock.tick()
        if n == len(open_):
            ID = IDs[e.choose(len(IDs), 'ID')]
            args = ['other']*k + [ID, 7.5]
            clock()
            d = et(func, *args, kw=3)
            e.check(seen[-1] == (tuple(args), {'kw': 3}),
                    "the part gets its arguments")
            results.append(d)
            started += 1
            open_[-1].append(d)
            open_[-1].append(ID)
            continue
        args, d, t0, dout, ID = open_.pop(n)
        t1 = clock()
        elapsed.setdefault(ID, []).append(t1 - t0)
        if e.choose(2, 'fails') if cfg.get('fail') else False:
            exc = Fail("part")
            d.errback(exc)
            f = failed(dout)
            e.check(f is not None and f.value is exc,
                    "its failure is passed through")
            dout.addErrback(lambda _: None)
            e.cover('failed')
        else:
            obj = object()
            d.callback(obj)
            e.check(dout.called and dout.result is obj,
                    "its result is passed through")
        # At any time
        order = list(et)
        e.check(len(order) == len(set(order)) and
                set(order) == set(elapsed), "each completed part once")
        if not open_ or cfg.get('each'):
            avg = []
            for ID in order:
                total = 0
                for x in elapsed[ID]: total = total + x
                avg.append(total/len(elapsed[ID]))
            for a, b in zip(avg, avg[1:]):
                e.check(le(a, b), "in order of increasing average time")
            if len(avg) > 1: e.cover('order')


def snapshot(e, cfg):
    """
    Calls that complete during an iteration don't disturb it.
    """
    w = e.world
    w.quiet()
    u = w.load('ade.util')
    clock = Clock(e)
    w.clock = clock
    et = u.EvalTimer(0)
    def call(ID):
        clock.tick()
        clock()
        d = defer.Deferred()
        et(lambda x: d, ID)
        clock.tick()
        d.callback(None)
    for ID in (1, 2, 3): call(ID)
    order = list(et)
    got = []
    for ID in et:
        got.append(ID)
        call(4 if len(got) == 1 else ID)
    e.check(got == order, "an iteration keeps its order")
    e.check(sorted(et) == [1, 2, 3, 4], "a new part is there the next time")
    e.cover('done')


HARNESSES = [
    Harness(timer, quick=[
        dict(N=3, each=True), dict(N=2, fail=True, each=True, k=1),
        dict(N=4, IDs=['x', 'y']),
    ], thorough=[
        dict(N=4, each=True), dict(N=5, IDs=['x', 'y']),
        dict(N=3, fail=True, each=True, k=2)],
            covers=['failed', 'order'],
            bounds="up to 5 overlapping calls of up to 3 parts, with "
            "arbitrary times and order of events"),
    Harness(snapshot, quick=[dict()], covers=['done'],
            bounds="3 parts with arbitrary times"),
]
