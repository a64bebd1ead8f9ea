"""
C26: Position locks are exclusive, first come first served, not leaked.
"""
from .common import *


class Model(object):
    """
    Reference: for each position, the requests for it in order. The first
    one holds it.
    """
    def __init__(self, N):
        self.q = [[] for k in range(N)]

    def request(self, r, K):
        for k in K: self.q[k].append(r)

    def granted(self, r, K):
        return all(self.q[k] and self.q[k][0] == r for k in K)

    def release(self, r, K):
        for k in K: self.q[k].remove(r)

    def abort(self):
        # Whoever holds a lock loses it to the next
        for q in self.q:
            if q: q.pop(0)


def ops(e, cfg):
    """
    Any sequence of requests, releases, and refused requests.
    """
    Np, N = cfg['Np'], cfg['N']
    P = Pop(e, Np, 1, Evaluator(e), SSE=lambda k: 1.0+k,
            values=lambda k: [0.1*k])
    p = P.p
    M = Model(Np)
    requests = {}
    def look():
        for r, (K, d, done) in requests.items():
            if done: continue
            got = M.granted(r, K)
            e.check(isDone(d) == got,
                    "a request is granted exactly when it's the first one "
                    "for each of its positions")
            if got: e.cover('granted')
            else: e.cover('waiting')
        for k in range(Np):
            e.check(p.dLocks[k].locked == bool(M.q[k]),
                    "a position is locked exactly if somebody holds it")
    for n in range(N):
        kinds = ['lock']
        held = [r for r in requests
                if not requests[r][2] and M.granted(r, requests[r][0])]
        if held: kinds.append('release')
        if cfg.get('twice'): kinds.append('twice')
        if cfg.get('part') and any(len(requests[r][0]) > 1 for r in held):
            kinds.append('part')
        kind = kinds[e.choose(len(kinds), 'op')]
        if kind == 'lock':
            K = cfg['sets'][e.choose(len(cfg['sets']), 'set')]
            d = p.lock(*K)
            M.request(n, K)
            requests[n] = [list(K), d, False]
        elif kind == 'release':
            r = held[e.choose(len(held), 'who')]
            p.release(*requests[r][0])
            M.release(r, requests[r][0])
            requests[r][2] = True
        elif kind == 'part':
            held = [r for r in held if len(requests[r][0]) > 1]
            r = held[e.choose(len(held), 'who')]
            k = requests[r][0].pop()
            p.release(k)
            M.release(r, [k])
            e.cover('part')
        else:
            K = cfg['twice'][e.choose(len(cfg['twice']), 'twiceset')]
            try: p.lock(*K)
            except ValueError: e.cover('refused')
            else: e.fail("a request for the same position twice is refused")
        settle(e)
        look()
    # Everything gets released in the end
    for _ in range(N+1):
        for r, (K, d, done) in list(requests.items()):
            if not done and M.granted(r, K):
                p.release(*K)
                M.release(r, K)
                requests[r][2] = True
                settle(e)
                look()
    e.check(all(x[2] for x in requests.values()), "every request gets granted")
    e.check(P.unlocked(), "nothing is locked in the end")
    e.cover('done')


def aborted(e, cfg):
    """
    Requests pending upon an abort, and those after it.
    """
    Np, N = cfg['Np'], cfg['N']
    P = Pop(e, Np, 1, Evaluator(e), SSE=lambda k: 1.0+k,
            values=lambda k: [0.1*k])
    p = P.p
    dList = []
    for n in range(N):
        K = cfg['sets'][e.choose(len(cfg['sets']), 'set')]
        dList.append(p.lock(*K))
    settle(e)
    M = [isDone(d) for d in dList]
    # Each call releases the current holders
    for n in range(N):
        p.abort()
        settle(e)
    for d in dList: e.check(isDone(d), "no request stays pending")
    e.check(P.unlocked(), "nothing is locked after the abort")
    d = p.lock(*cfg['sets'][0])
    e.check(isDone(d), "a request after the abort is granted at once")
    e.check(P.unlocked(), "it locks nothing")
    p.release(*cfg['sets'][0])
    e.check(P.unlocked(), "releasing what isn't locked is harmless")
    if not all(M): e.cover('pending')
    e.cover('done')


def beyond(e, cfg):
    """
    A position that doesn't exist (any more).
    """
    Np = 3
    P = Pop(e, Np, 1, Evaluator(e), SSE=lambda k: 1.0+k,
            values=lambda k: [0.1*k])
    p = P.p
    K = cfg['K']
    d = p.lock(*K)
    settle(e)
    e.check(isDone(d), "a request for a nonexistent position doesn't wait")
    e.check(P.unlocked(), "it leaves nothing locked")
    e.check(p.individuals(*K) is None, "it has no individuals")
    e.cover('done')


SETS = [[0], [1], [0, 1], [1, 0], [1, 2]]

HARNESSES = [
    Harness(ops, quick=[
        dict(Np=3, N=4, sets=SETS),
        dict(Np=3, N=3, sets=[[0, 1], [1, 2], [0, 1, 2]], part=True,
             twice=[[0, 0], [0, 1, 1], [2, 1, 2]]),
        dict(Np=4, N=4, sets=[[0, 1, 2, 3], [3, 2], [1]], part=True),
        dict(Np=2, N=4, sets=[[0, 1], [1]], twice=[[0, 1, 1], [1, 0, 1]])],
            thorough=[
        dict(Np=3, N=5, sets=SETS),
        dict(Np=4, N=5, sets=[[0, 1, 2, 3], [3, 2], [1], [2, 0]], part=True,
             twice=[[0, 1, 2, 2]])],
            covers=['granted', 'waiting', 'refused', 'part', 'done'],
            bounds="all sequences of up to 4 requests and releases (5 "
            "thorough) of 2-4 positions"),
    Harness(aborted, quick=[
        dict(Np=3, N=3, sets=SETS), dict(Np=3, N=2, sets=[[0, 1, 2], [2]])],
            thorough=[dict(Np=3, N=4, sets=SETS)],
            covers=['pending', 'done'], bounds="2-3 requests before the abort"),
    Harness(beyond, quick=[dict(K=[3]), dict(K=[0, 3]), dict(K=[4, 1])],
            covers=['done'], bounds="3 members"),
]
