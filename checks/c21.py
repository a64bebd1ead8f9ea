"""
C21: Each abort callback runs exactly once, in order, even if late.
"""
import signal

from symx.world import StdioStub

from .common import *


def ops(e, cfg):
    w = e.world
    w.quiet()
    a = w.load('ade.abort')
    called = []
    expected = []
    registered = []
    aborted = ignored = False
    n = 0
    OPS = cfg['ops']
    def flush():
        for _ in range(5): w.reactor.step()
    for _ in range(cfg['N']):
        op = OPS[e.choose(len(OPS), 'op')]
        if op == 'register':
            n += 1
            a.callOnAbort(lambda n=n: called.append(n))
            if aborted:
                e.check(called == expected, "not before the reactor iterates")
                expected.append(n)
                e.cover('late')
            else: registered.append(n)
            flush()
        elif op == 'nested':
            # The callback registers another one
            n += 2
            def func(n=n):
                called.append(n-1)
                a.callOnAbort(lambda: called.append(n))
            a.callOnAbort(func)
            if aborted: expected += [n-1, n]
            else: registered.append((n-1, n))
            flush()
        elif op in ('abort', 'key'):
            if op == 'abort':
                a.abortNow()
                flush()
            else:
                if a.KeyboardHolder.KB is None: continue
                a.KeyboardHolder.KB.dataReceived(b'\n')
                flush()
            if not ignored and not aborted:
                late = []
                for x in registered:
                    if isinstance(x, tuple):
                        expected.append(x[0])
                        late.append(x[1])
                    else: expected.append(x)
                expected += late
                registered = []
                aborted = True
                e.cover('abort')
        elif op == 'ignore':
            if not aborted:
                a.ignoreKeyboard()
                ignored = True
                e.cover('ignored')
        elif op == 'restart':
            a.restart()
            registered = []
            aborted = ignored = False
            e.cover('restart')
        elif op == 'shutdown':
            a.shutdown()
            flush()
            # Like an abort that doesn't call anything
            if a.KeyboardHolder.KB is not None:
                e.check(called == expected, "a shutdown calls nothing")
                return
        flush()
        e.check(called == expected, "called once each, in order")


def listens(e, cfg):
    """
    The keyboard and the interrupt signal.
    """
    w = e.world
    w.quiet()
    listening, signals = [], {}
    class Stdio(object):
        class StandardIO(StdioStub.StandardIO):
            def __init__(self, protocol, *a, **kw):
                listening.append(self)
                StdioStub.StandardIO.__init__(self, protocol, *a, **kw)
            def loseConnection(self):
                e.check(self in listening, "it's closed just once")
                listening.remove(self)
    w.overrides[('twisted.internet', 'stdio')] = Stdio
    w.stubs['signal'].signal = lambda n, what: signals.__setitem__(n, what)
    a = w.load('ade.abort')
    called = []
    e.check(not listening, "not before anything is registered")
    on = None
    for k in range(cfg['N']):
        op = ['register', 'abort', 'shutdown', 'end', 'restart'][
            e.choose(5, 'op')]
        n = len(called)
        if op == 'register':
            if on is None: on = True
            a.callOnAbort(lambda k=k: called.append(k))
        elif op == 'abort':
            on = False
            a.abortNow()
        elif op == 'shutdown':
            a.shutdown()
            if on: on = False
        elif op == 'end':
            w.reactor.fireShutdown()
            if on: on = False
        elif not on:
            on = True
            a.restart()
        for _ in range(5): w.reactor.step()
        if k == 0 and op in ('register', 'abort'):
            e.check(signals.get(signal.SIGINT) == signal.SIG_IGN,
                    "an interrupt signal is ignored")
        if op in ('shutdown', 'end'):
            e.check(len(called) == n, "a shutdown calls nothing")
        if op == 'register' and on is False:
            e.check(called[n:] == [k], "called soon if no longer listening")
        e.check(len(listening) == bool(on),
                "listens to the keyboard until an abort or shutdown")
        e.cover(op)


def quitting(e, cfg):
    """
    Population and DE objects get to know of an abort.
    """
    w = e.world
    P = Pop(e, 4, 1, SSE=lambda k: 1.0+k, values=lambda k: [0.1*k])
    de = P.DE()
    a = w.load('ade.abort')
    how = e.choose(3, 'how')
    if how == 0:
        a.abortNow()
        settle(e, 5)
    elif how == 1: a.KeyboardHolder.KB.dataReceived(b'\n')
    else: w.reactor.fireShutdown()
    if how < 2:
        e.check(P.p.running is False, "the population is aborted")
    e.check(not de.running, "the run is aborted")
    a.KeyboardHolder.KB.dataReceived(b'\n')
    w.reactor.fireShutdown()
    a.shutdown()
    de.shutdown()
    e.check(not w.reactor.triggers, "no trigger is left")
    # One that comes after the abort
    if how < 2:
        de2 = P.DE()
        settle(e, 5)
        e.check(not de2.running, "a late one is aborted soon")
    e.cover('done')


HARNESSES = [
    Harness(ops, quick=[
        dict(N=5, ops=['register', 'abort', 'key', 'restart']),
        dict(N=5, ops=['register', 'key', 'ignore', 'restart']),
        dict(N=4, ops=['register', 'nested', 'abort', 'restart', 'ignore',
                       'shutdown']),
    ], thorough=[
        dict(N=7, ops=['register', 'abort', 'key', 'restart']),
        dict(N=6, ops=['register', 'nested', 'abort', 'restart', 'ignore',
                       'key', 'shutdown']),
    ], covers=['late', 'abort', 'ignored', 'restart'],
       bounds="all sequences of up to 7 operations"),
    Harness(listens, quick=[dict(N=4)], thorough=[dict(N=5)],
            covers=['register', 'abort', 'shutdown', 'end', 'restart'],
            bounds="all sequences of 4 operations (5 thorough)"),
    Harness(quitting, quick=[dict()], covers=['done'],
            bounds="three ways of quitting"),
]
