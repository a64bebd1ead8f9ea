"""
C11: The history roster stays sorted, bounded, distinct and faithful.
"""
from .hist import *
from . import large

def operate(e, H, ops, after=None):
    """
    Does one of the operations.
    """
    op = ops[e.choose(len(ops), 'op')]
    if op == 'pop': H.add()
    elif op == 'never': H.add(never=True)
    elif op == 'bad':
        before = H.rows()
        bad = [math.inf, math.nan, None, -1.0][e.choose(4, 'bad')]
        ID, i = H.individual(SSE=1.0)
        i.SSE = bad
        kr = H.wait(H.h.add(i), "an addition")
        e.check(kr is None, "it's ignored if fitness isn't finite")
        e.check(And(len(before) == len(H.rows()), *[
            same_vec(a, b) for a, b in zip(before, H.rows())]),
                "it's ignored if fitness isn't finite")
        e.cover('bad')
    elif op == 'remove':
        members = [ID for ID in H.model if H.model[ID] == 'in']
        if not members: return op
        H.remove(members[e.choose(len(members), 'which')])
        e.cover('removed')
    elif op == 'purge':
        H.purge()
        e.cover('purged')
    elif op == 'clear':
        H.wait(H.h.clear(), "clearing")
        H.model.clear()
        H.added = 0
        e.check(len(H.h) == 0, "nothing is left after clearing")
        e.cover('cleared')
    return op


def growing(e, cfg):
    """
    Any operations, with the roster never full.
    """
    H = Hist(e, cfg.get('N_max', 20), Nd=1)
    for k in range(cfg['N']):
        operate(e, H, cfg['ops'])
    H.checkModel()
    H.checkGroups()
    e.cover('%d' % len(H.h))


def sparse(e, cfg):
    """
    A roster with any pattern of unused rows.
    """
    H = Hist(e, cfg['N_max'], Nd=1, SSE=lambda k: [
        5.0, 2.0, 8.0, 3.0, 13.0, 1.0, 21.0, 1.5][k % 8] + 0.01*k)
    for k in range(cfg['N']):
        H.add(never=bool(e.choose(2, 'never')))
    H.purge()
    n = 0
    for k in range(cfg['again']):
        H.add(never=bool(cfg.get('never')))
        n += 1
    H.checkModel()
    if cfg.get('twice'):
        H.purge()
        while len(H.h) < H.N_max and n < cfg['again'] + cfg['twice']:
            H.add(never=True)
            n += 1
        H.checkModel()
    e.cover('done')


def full(e, cfg):
    """
    Any operations, with the roster getting full.
    """
    H = Hist(e, cfg['N_max'], Nd=cfg.get('Nd', 1),
             SSE=None if cfg.get('sym') else lambda k: [
                 5.0, 2.0, 8.0, 2.5, 13.0, 1.0, 21.0][k])
    for k in range(cfg['N_max']):
        H.add(never=bool(e.choose(2, 'never')), value=0.5)
    for k in range(cfg['N']):
        operate(e, H, cfg['ops'])
    H.checkModel()
    H.checkGroups()


def queued(e, cfg):
    """
    Operations requested all at once.
    """
    H = Hist(e, 3, Nd=1, SSE=lambda k: [5.0, 2.0, 8.0, 2.5, 13.0, 1.0, 4.0][k])
    ds = []
    members = []
    N = 0               # How many records there should be in the end
    ops = ['pop', 'never', 'remove', 'purge'][:4 if cfg.get('purge') else 3]
    for k in range(cfg['N']):
        op = cfg['first'][k] if k < len(cfg.get('first', [])) \
            else ops[e.choose(len(ops), 'op')]
        if op == 'purge':
            ds.append(H.h.purgePop())
            for ID in members: del H.model[ID]
            N -= len(members)
            del members[:]
            continue
        if op == 'remove':
            if not members: continue
            ID = members.pop(0)
            ds.append(H.h.notInPop(H.records[ID][0]))
            H.model[ID] = 'former'
            continue
        # No more than 2 current members, so that one is expendable
        if op == 'pop' and len(members) == 2: continue
        ID, i = H.individual()
        ds.append(H.h.add(i, neverInPop=op == 'never'))
        H.model[ID] = 'never' if op == 'never' else 'in'
        if op == 'pop': members.append(ID)
        H.added += 1
        N = min(3, N+1)
    for d in ds: H.wait(d, "each operation")
    finished(e, H.h.shutdown(), "shutdown")
    IDs = H.checkContent()
    e.check(len(IDs) == N, "as many records as there can be")
    for ID in members:
        e.check(ID in IDs, "no member's record makes room")
    for ID in list(H.model):
        if ID not in IDs: del H.model[ID]
    H.checkGroups()
    e.cover('full' if H.added > 3 else 'room')


def huge(e, cfg):
    """
    Numbers that are beyond single precision.
    """
    e.f4 = True
    H = Hist(e, 20, Nd=2)
    H.add()
    v = [e.real('big')]
    if cfg['what'] == 'SSE':
        SSE, v = e.real('bigSSE', 0), 0.5
    else: SSE, v = 3.0, e.real('big')
    ID, i = H.individual(SSE, v)
    never = bool(e.choose(2, 'never'))
    kr = H.wait(H.h.add(i, neverInPop=never), "an addition")
    x = SSE if cfg['what'] == 'SSE' else v
    fits = And(x < 3.40282346e38, x > -3.40282346e38)
    e.check(Implies(fits, kr is not None), "the addition is recorded")
    if kr is not None:
        H.added += 1
        H.model[ID] = 'never' if never else 'in'
        if not never: H.remove(ID)
        e.cover('recorded')
    else: e.cover('ignored')
    if bool(fits): H.checkModel()
    # And everything keeps working
    H.add()
    e.check(len(H.h) >= 2, "additions go on")


def ties(e, cfg):
    """
    Equal fitness, and equal individuals.
    """
    S = e.real('SSE', 1, 100)
    H = Hist(e, 20, Nd=1)
    for k in range(cfg['N']):
        same_ = e.choose(2, 'same')
        H.add(SSE=S if same_ else None)
    H.checkModel()
    e.cover('done')


OPS = ['pop', 'never', 'bad', 'remove', 'purge']
SEQ = ['pop', 'never', 'remove', 'purge']
HARNESSES = [
    Harness(growing, quick=[
        dict(N=3, ops=OPS), dict(N=3, ops=['pop', 'never', 'clear']),
        dict(N=4, ops=['pop', 'never']),
        dict(N=5, ops=['pop'])],
            thorough=[
        dict(N=4, ops=OPS + ['clear']), dict(N=6, ops=['never'])],
            covers=['bad', 'removed', 'purged', 'cleared', '3', '4', '5'],
            bounds="3-5 operations (4-6 thorough), any fitness of each "
            "individual added"),
    Harness(sparse, quick=[
        dict(N_max=8, N=5, again=3), dict(N_max=5, N=5, again=0, twice=5),
        dict(N_max=6, N=4, again=2, twice=2), dict(N_max=5, N=4, again=1, never=1)],
            thorough=[
        dict(N_max=8, N=6, again=2, twice=0), dict(N_max=8, N=7, again=1),
        dict(N_max=7, N=6, again=1, twice=1)],
            covers=['done'],
            bounds="rosters of 4-5 records (6-7 thorough) with any subset of "
            "them purged, then refilled"),
    Harness(full, quick=[
        dict(N_max=2, N=3, ops=SEQ), dict(N_max=3, N=2, ops=SEQ),
        dict(N_max=1, N=3, ops=SEQ), dict(N_max=1, N=2, ops=SEQ, sym=True),
        dict(N_max=2, N=4, ops=['pop', 'never', 'clear']),
        dict(N_max=2, N=1, ops=SEQ, sym=True)],
            thorough=[
        dict(N_max=3, N=4, ops=SEQ), dict(N_max=4, N=3, ops=SEQ),
        dict(N_max=2, N=2, ops=SEQ, sym=True)],
            covers=['bumped', 'protected', 'purged', 'removed'],
            bounds="1-3 records at most (4 thorough), then 1-4 operations"),
    Harness(queued, quick=[
        dict(N=5), dict(N=5, purge=True),
        dict(N=6, purge=True, first=['pop', 'never', 'pop', 'never']),
        dict(N=6, purge=True, first=['never', 'never', 'pop', 'pop'])],
            thorough=[dict(N=6), dict(N=6, purge=True)],
            covers=['full', 'room'],
            bounds="5 operations (6 thorough) requested without waiting"),
    Harness(huge, quick=[dict(what='SSE'), dict(what='value')],
            covers=['recorded'],
            bounds="any fitness or any value, single-precision overflow "
            "included"),
    Harness(ties, quick=[dict(N=3)], thorough=[dict(N=4)], covers=['done'],
            bounds="up to 3 additions (4 thorough), any of them tied"),
    Harness(large.recorded, quick=[
        dict(N=3, N_max=60), dict(N=3, N_max=200, sym=28)], thorough=[
        dict(N=4, N_max=50)], covers=['done', 'room', 'full'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]
