"""
C12: History never discards current population members' records.
"""
from .hist import *
from . import large

SSES = [5.0, 2.0, 8.0, 2.5, 13.0, 1.0, 21.0, 3.5, 34.0]

def protect(e, cfg):
    """
    A history by itself.
    """
    np_ = np
    H = Hist(e, cfg['N_max'], Nd=1,
             SSE=None if cfg.get('sym') else lambda k: SSES[k])
    rows = {}
    for k in range(cfg['N']):
        ops = ['pop', 'never', 'remove', 'row']
        op = ops[e.choose(len(ops), 'op')]
        members = [ID for ID in H.model if H.model[ID] == 'in']
        if op in ('pop', 'never'):
            kr = H.add(never=op == 'never')
            if kr is not None: rows[H.n] = kr
        elif not members: continue
        else:
            ID = members[e.choose(len(members), 'which')]
            row = None
            if op == 'row':
                row = int(rows[ID])
                row = [row, np.int64(row), np.uint16(row)][
                    e.choose(3, 'type')]
            H.remove(ID, row)
            e.cover(op)
        H.checkGroups()
    H.checkModel()


def others(e, cfg):
    """
    Removing what isn't a member has no effect.
    """
    H = Hist(e, 3, Nd=1, SSE=lambda k: SSES[k])
    H.add(); H.add(never=True)
    ID, i = H.individual()
    before = H.rows()
    what = e.choose(3, 'what')
    if what == 0: H.wait(H.h.notInPop(i), "a removal")
    elif what == 1:
        # Never was a member, so it can't cease to be one
        H.wait(H.h.notInPop(H.records[2.0][0]), "a removal")
    else:
        H.remove(1.0)
        H.wait(H.h.notInPop(H.records[1.0][0]), "a removal")
    e.check(And(*[same_vec(a, b) for a, b in zip(before, H.rows())]),
            "the records remain")
    H.checkModel()
    H.checkGroups()
    e.cover('done')


def purged(e, cfg):
    """
    Members that got purged have nothing to do with their rows anymore.
    """
    H = Hist(e, cfg['N_max'], Nd=1, SSE=lambda k: SSES[k])
    rows = {}
    for k in range(cfg['N0']):
        kr = H.add(never=bool(e.choose(2, 'never')))
        if kr is not None: rows[H.n] = int(kr)
    members = [ID for ID in H.model if H.model[ID] == 'in']
    if cfg.get('row'):
        # Just one of any group
        IDs = sorted(H.model)
        ID = IDs[e.choose(len(IDs), 'row')]
        H.purgeRow(ID, rows[int(ID)])
    else: H.purge()
    H.checkGroups()
    back = []
    for k in range(cfg['N']):
        ops = ['pop', 'never', 'old', 'back']
        op = ops[e.choose(len(ops), 'op')]
        if op in ('pop', 'never'): H.add(never=op == 'never')
        elif not H.purged: continue
        elif op == 'back':
            # Added back after re-evaluation
            ID = H.purged.pop(0)
            H.addThis(ID, H.individual(SSE=H.records[ID][1]+0.25, ID=ID)[1])
            e.cover('back')
        else:
            ID = H.purged.pop(0)
            H.wait(H.h.notInPop(H.records[ID][0]), "a removal")
            e.cover('old')
        H.checkGroups()
    H.checkModel()


def improved(e, cfg):
    """
    Replacement by one with the same values.
    """
    X = PopHist(e, 3, cfg['N_max'])
    p = X.P.p
    for n in range(cfg['N']):
        k = e.choose(3, 'k')
        p[k] = X.P.individual(list(p[k].values), float(p[k].SSE) - 0.1*(n+1))
        settle(e)
        r = X.wait(p.history.value_vs_SSE(
            [X.P.names[0]], maxRatio=1e9, inPop=True), "a query")
        want = sorted(float(i.SSE) for i in p)
        got = sorted(float(x) for x in list(r[0]))
        e.check(len(got) == 3 and all(
            near(a, b, 1e-6) for a, b in zip(got, want)),
                "the current group is the population's members")
    e.check(len(p.history) == min(3+cfg['N'], cfg['N_max']),
            "as many records as there can be")
    e.cover('done')


class PopHist(object):
    """
    A population with its own history, and a model of the latter.
    """
    def __init__(self, e, Np, N_max, Nd=1, **kw):
        self.e = e
        w = e.world
        w.quiet()
        w.load('ade.history').History.N_max = N_max
        self.N_max = N_max
        self.ID = 0
        self.group = {}
        self.SSE = {}
        P = self.P = Pop(e, Np, Nd, history=True, fill=False, **kw)
        self.h = P.p.history
        P.fill(SSE=self.nextSSE, values=lambda k: self.nextValues())
        settle(e)
        for i in P.p: self.group[ident(i[0])] = 'in'

    def nextValues(self):
        self.ID += 1
        return [0.001*self.ID] + [0.5]*(self.P.Nd-1)

    def nextSSE(self, k=None):
        return SSES[self.ID-1]

    def individual(self, SSE=None):
        v = self.nextValues()
        return self.P.individual(v, self.nextSSE() if SSE is None else SSE)

    def out(self, i):
        """No longer a member, if it was one with a record."""
        ID = ident(i[0])
        if ID in self.group: self.group[ID] = 'former'

    def wait(self, d, what):
        for _ in range(60):
            if isDone(d): break
            if not self.e.world.reactor.step(): break
        finished(self.e, d, what)
        return getattr(d, 'result', None)

    def query(self, **kw):
        if not len(self.h): return []
        r = self.wait(self.h.value_vs_SSE(
            [self.P.names[0]], maxRatio=1e9, **kw), "a query")
        if r is None: return []
        return [ident(x) for x in list(r[1])]

    def check(self):
        e = self.e
        settle(e)
        got = {
            'in': self.query(inPop=True), 'former': self.query(notInPop=True),
            'never': self.query(neverInPop=True)}
        everybody = self.query()
        e.check(len(everybody) <= self.N_max, "not more records than allowed")
        members = sorted(
            ident(i[0]) for i in self.P.p
            if bool(isfinite(i.SSE)))
        e.check(sorted(got['in']) == members,
                "the current group is the population's members")
        e.check(sorted(everybody) == sorted(sum(got.values(), [])),
                "the groups together are the roster")
        for name in ('former', 'never'):
            for ID in got[name]:
                e.check(self.group.get(ID) == name,
                        "the group of %s is right" % {
                            'former': 'former members',
                            'never': 'those never members'}[name])
        # If there has been room for everybody, nobody is missing
        if len(self.group) <= self.N_max:
            e.check(sorted(everybody) == sorted(self.group),
                    "none makes room if there is some")
        else:
            e.check(len(everybody) == self.N_max,
                    "as many records as there can be")
            e.cover('bumped')


def population(e, cfg):
    """
    Members getting replaced, and failed challengers.
    """
    X = PopHist(e, cfg['Np'], cfg['N_max'])
    p = X.P.p
    X.check()
    for _ in range(cfg['N']):
        op = cfg['ops'][e.choose(len(cfg['ops']), 'op')]
        if op == 'set':
            k = e.choose(len(p), 'k')
            old = p[k]
            i = X.individual()
            p[k] = i
            X.out(old)
            X.group[ident(i[0])] = 'in'
        elif op == 'push':
            S = [float(i.SSE) for i in p]
            old = p[S.index(max(S))]
            i = X.individual()
            p.push(i)
            X.out(old)
            X.group[ident(i[0])] = 'in'
        elif op == 'never':
            i = X.individual()
            d = p.history.add(i, neverInPop=True)
            if cfg.get('wait', True): X.wait(d, "an addition")
            X.group[ident(i[0])] = 'never'
        elif op == 'inf':
            # A member that is replaced with one that's infinitely bad
            k = e.choose(len(p), 'k')
            if not math.isfinite(p[k].SSE): continue
            old = p[k]
            p[k] = X.individual(math.inf)
            X.out(old)
        elif op == 'blacklist':
            k = e.choose(len(p), 'k')
            i = p[k]
            if not math.isfinite(i.SSE): continue
            i.blacklist()
            X.out(i)
        elif op == 'load':
            # Continuing with a saved version of the population
            settle(e)
            path = scratch('saved.dat')
            p.save(path)
            p = X.P.p = X.P.pop.Population.load(path)
            X.h = p.history
        if cfg.get('wait', True): X.check()
        e.cover(op)
    X.check()


def duplicates(e, cfg):
    """
    Members that are equal to each other.
    """
    H = Hist(e, 20, Nd=1, SSE=lambda k: SSES[k])
    h = H.h
    N = cfg['N']
    for k in range(N):
        ID, i = H.individual(SSE=3.0, ID=7.0)
        H.wait(h.add(i), "an addition")
        if e.choose(2, 'other'):
            H.add()
    def members():
        return len([x for x in H.group(inPop=True) if x == 7.0])
    e.check(members() == N, "each has a record")
    for k in range(N):
        H.wait(h.notInPop(H.individual(SSE=3.0, ID=7.0)[1]), "a removal")
        e.check(members() == N-k-1, "one record is removed at a time")
        e.check(len([x for x in H.group(notInPop=True) if x == 7.0]) == k+1,
                "it becomes that of a former member")
    for ID in H.model:
        e.check(ID in H.group(inPop=True), "others aren't affected")
    e.cover('done')


def challenge(e, cfg):
    """
    What becomes of target and challenger.
    """
    w = e.world
    w.dull = True
    kw = {}
    r = []
    def result(call):
        r.append(e.xreal('SSE', lo=0.01, hi=1e6))
        return r[-1]
    ev = Evaluator(e, result=result)
    X = PopHist(e, 4, cfg['N_max'], Nd=2, func=ev)
    P, p = X.P, X.P.p
    for k in range(cfg.get('never', 0)):
        i = X.individual()
        X.wait(p.history.add(i, neverInPop=True), "an addition")
        X.group[ident(i[0])] = 'never'
    de = P.DE(xSSE=cfg.get('xSSE', False))
    de.running = p.running = True
    kt = cfg['kt']
    target = p[kt]
    S = target.SSE
    n = X.h.N_total
    d = de.challenge(kt, (kt+1) % 4)
    for _ in range(60):
        if isDone(d) or not w.reactor.step(): break
    finished(e, d, "the challenge")
    settle(e)
    x = r[0]
    if bool(x < S):
        e.check(p[kt] is not target, "the challenger replaced its target")
        groups = 'in', 'former'
        e.cover('won')
    elif cfg.get('xSSE') or not bool(isfinite(x)):
        groups = None, 'in'
        e.cover('ignored')
    else:
        groups = 'never', 'in'
        e.cover('lost')
    e.check(X.h.N_total == n + (groups[0] is not None),
            "a record for the challenger if appropriate")
    got = {'in': 'inPop', 'former': 'notInPop', 'never': 'neverInPop'}
    ID = ident(target[0])
    where = [g for g in got if ID in X.query(**{got[g]: True})]
    if X.N_max > 4 + cfg.get('never', 0) or groups[1] == 'in':
        e.check(where == [groups[1]], "the target's record is in its group")
    else: e.check(where in ([groups[1]], []),
                  "the target's record is in its group")
    if groups[0]:
        others = set(X.group)
        new = {g: [y for y in X.query(**{got[g]: True}) if y not in others]
               for g in got}
        e.check([g for g in new if new[g]] == [groups[0]] and
                len(new[groups[0]]) == 1,
                "the challenger's record is in its group")
    members = sorted(ident(i[0]) for i in p)
    e.check(sorted(X.query(inPop=True)) == members,
            "the current group is the population's members")


def again(e, cfg):
    """
    Setting up the population once more.
    """
    w = e.world
    w.quiet()
    ev = Evaluator(e, result=lambda call: 1.0 + len(ev.calls))
    w.load('ade.history').History.N_max = 20
    P = Pop(e, 3, 1, func=ev, history=True, fill=False)
    p = P.p
    w.fixed = True
    for k in range(2):
        d = p.setup()
        for _ in range(60):
            if isDone(d) or not w.reactor.step(): break
        finished(e, d, "setup")
        settle(e)
        got = [h for h in p.history]
        e.check(len(got) == 3 and p.history.N_total == 3,
                "the history is of the new population")
        X = PopHist.__new__(PopHist)
        X.e, X.P, X.h, X.N_max = e, P, p.history, 20
        want = sorted(ident(i[0]) for i in p)
        e.check(sorted(X.query(inPop=True)) == want,
                "the current group is the population's members")
        for q in ('notInPop', 'neverInPop'):
            e.check(X.query(**{q: True}) == [], "no others")
    e.cover('done')


ALL = ['set', 'push', 'never', 'inf', 'blacklist']
HARNESSES = [
    Harness(protect, quick=[
        dict(N_max=2, N=4), dict(N_max=3, N=4),
        dict(N_max=4, N=3, sym=True)],
            thorough=[
        dict(N_max=3, N=5), dict(N_max=2, N=5), dict(N_max=5, N=4, sym=True)],
            covers=['remove', 'row', 'bumped', 'protected'],
            bounds="2-4 records, 3-4 operations (5 thorough)"),
    Harness(others, quick=[dict()], covers=['done'],
            bounds="one removal of a non-member"),
    Harness(population, quick=[
        dict(Np=3, N_max=4, N=3, ops=ALL), dict(Np=3, N_max=10, N=3, ops=ALL),
        dict(Np=3, N_max=5, N=4, ops=['set', 'never']),
        dict(Np=3, N_max=4, N=4, ops=['set', 'never'], wait=False),
        dict(Np=3, N_max=4, N=4, ops=['never', 'blacklist'], wait=False),
        dict(Np=3, N_max=5, N=4, ops=['never', 'inf'], wait=False),
        dict(Np=3, N_max=4, N=4, ops=['set', 'never', 'load']),
        dict(Np=3, N_max=5, N=4, ops=['blacklist', 'never', 'load'])],
            thorough=[
        dict(Np=3, N_max=4, N=4, ops=ALL, wait=False),
        dict(Np=3, N_max=5, N=4, ops=ALL), dict(Np=3, N_max=4, N=4, ops=ALL),
        dict(Np=3, N_max=6, N=5, ops=['set', 'never'], wait=False)],
            covers=ALL + ['load', 'bumped'],
            bounds="3 members, 4-10 records at most, 3-4 operations "
            "(5 thorough)"),
    Harness(purged, quick=[
        dict(N_max=3, N0=3, N=3), dict(N_max=4, N0=3, N=2),
        dict(N_max=3, N0=3, N=2, row=True), dict(N_max=5, N0=3, N=2, row=True)],
            thorough=[
        dict(N_max=4, N0=4, N=4), dict(N_max=4, N0=4, N=3, row=True)],
            covers=['old', 'back'],
            bounds="3 records of any group (4 thorough), purge of all members "
            "or of any one row, then 2-3 operations (4 thorough)"),
    Harness(improved, quick=[dict(N_max=10, N=2), dict(N_max=4, N=3)],
            covers=['done'], bounds="3 members, 2-3 replacements"),
    Harness(duplicates, quick=[dict(N=2), dict(N=3)], covers=['done'],
            bounds="2-3 equal members, others between"),
    Harness(challenge, quick=[
        dict(kt=0, N_max=8), dict(kt=1, N_max=5),
        dict(kt=2, N_max=8, xSSE=True), dict(kt=2, N_max=5, never=1)],
            covers=['won', 'lost', 'ignored'],
            bounds="one challenge with any result, 4 members"),
    Harness(again, quick=[dict()], covers=['done'], bounds="two setups"),
    Harness(large.recorded, quick=[
        dict(N=3, N_max=50, seed=3), dict(N=3, N_max=40, xSSE=True)], thorough=[
        dict(N=4, N_max=30)], covers=['done', 'full'],
            bounds="one symbolic result in a run of 24 members with 9 "
            "parameters, others and all draws fixed"),
]
