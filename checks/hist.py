"""
A history along with a model of what should be in it.
"""
from .common import *

def single(a, b):
    """Same number in single precision."""
    if has_sym([a, b]): return same(a, b)
    a, b = float(a), float(b)
    return a == b or abs(a-b) <= 2e-7*max(abs(a), abs(b)) + 1e-37


class Hist(object):
    """
    A real history plus a model of it.

    Each individual added has a first parameter value of its own that
    identifies its record.

    @ivar model: Dict of what should be in the history, keyed by ID:
        individual and group ('in', 'former', or 'never').
    """
    def __init__(self, e, N_max, Nd=2, lo=1.0, hi=100.0, SSE=None):
        self.e = e
        w = e.world
        w.quiet()
        self.pop = w.load('ade.population')
        self.mod = w.load('ade.history')
        self.P = Pop(e, 3, Nd, SSE=lambda k: 1.0, values=lambda k: [0.]*Nd)
        self.names = NAMES[:Nd]
        self.Nd, self.N_max = Nd, N_max
        self.h = self.mod.History(list(self.names), N_max=N_max)
        self.lo, self.hi = lo, hi
        self.SSE = SSE
        self.model = {}
        self.records = {}
        self.added = 0
        self.n = 0
        self.purged = []

    def individual(self, SSE=None, value=None, ID=None):
        e = self.e
        if ID is None:
            self.n += 1
            ID = float(self.n)
        if SSE is None:
            SSE = self.SSE(self.n-1) if self.SSE else \
                e.real('SSE', self.lo, self.hi)
        v = [ID]
        for _ in range(self.Nd - 1):
            v.append(e.real('x', -10, 10) if value is None else value)
        i = self.P.individual(v, SSE)
        self.records[ID] = (i, i.SSE, list(v))
        return ID, i

    def wait(self, d, what):
        for _ in range(40):
            if isDone(d): break
            if not self.e.world.reactor.step(): break
        finished(self.e, d, what)
        return getattr(d, 'result', None)

    def rows(self):
        """The records, each a list with SSE and values."""
        return [list(self.h[k]) for k in range(len(self.h))]

    def IDs(self):
        return [float(r[1]) for r in self.rows()]

    def group(self, **kw):
        """IDs of the records in a group."""
        if not len(self.h): return []
        r = self.wait(self.h.value_vs_SSE(
            [self.names[0]], maxRatio=1e9, **kw), "a query")
        return [float(x) for x in list(r[1])]

    def expendable(self):
        return [ID for ID in self.model if self.model[ID] != 'in']

    def checkContent(self):
        """
        Checks the roster.
        """
        e = self.e
        rows = self.rows()
        e.check(len(rows) <= self.N_max, "no more records than the maximum")
        IDs = [float(r[1]) for r in rows]
        e.check(len(set(IDs)) == len(IDs), "no record is there twice")
        for a, b in zip(rows[:-1], rows[1:]):
            e.check(le(a[0], b[0]), "records are ordered by fitness")
        for r, ID in zip(rows, IDs):
            e.check(ID in self.records, "each record is of one added")
            i, SSE, v = self.records[ID]
            e.check(And(single(r[0], SSE), same_vec(r[1:], v, single)),
                    "each record has the fitness and values added")
        e.check(len([1 for _ in self.h]) == len(rows),
                "iteration is over all records")
        for x, r in zip(self.h, rows):
            e.check(same_vec(x, r[1:]), "iteration is in order of fitness")
        e.check(self.h.N_total == self.added,
                "the lifetime count is that of additions recorded")
        return IDs

    def checkModel(self):
        """
        Checks that the history has exactly the model's records.
        """
        IDs = self.checkContent()
        self.e.check(sorted(IDs) == sorted(self.model),
                     "exactly the records that should be there")

    def checkGroups(self):
        e = self.e
        got = {
            'in': self.group(inPop=True), 'former': self.group(notInPop=True),
            'never': self.group(neverInPop=True)}
        for name in got:
            want = sorted(k for k in self.model if self.model[k] == name)
            e.check(sorted(got[name]) == want,
                    "the group of %s is right" % {
                        'in': 'current members', 'former': 'former members',
                        'never': 'those never members'}[name])
        everybody = self.group()
        e.check(sorted(everybody) == sorted(sum(got.values(), [])),
                "the groups together are the roster")

    # -- operations -----------------------------------------------------------

    def add(self, never=False, **kw):
        ID, i = self.individual(**kw)
        return self.addThis(ID, i, never)

    def addThis(self, ID, i, never=False):
        e = self.e
        before = self.IDs()
        full = len(before) >= self.N_max
        kr = self.wait(self.h.add(i, neverInPop=never), "an addition")
        after = self.IDs()
        if full and not self.expendable():
            e.check(kr is None and after == before,
                    "nothing is recorded if all are protected")
            e.cover('protected')
            return None
        self.added += 1
        e.check(kr is not None, "the addition is recorded")
        self.model[ID] = 'never' if never else 'in'
        e.check(ID in after, "the addition is recorded")
        gone = [x for x in before if x not in after]
        if full:
            e.check(len(gone) == 1, "just one record makes room")
            e.check(self.model[gone[0]] != 'in',
                    "no member's record makes room")
            del self.model[gone[0]]
            e.cover('bumped')
        else:
            e.check(not gone, "none makes room if there is some")
        self.kr = kr
        return kr

    def remove(self, ID, row=None):
        self.wait(self.h.notInPop(
            self.records[ID][0] if row is None else row), "a removal")
        self.model[ID] = 'former'

    def purge(self):
        self.wait(self.h.purgePop(), "a purge")
        for ID in list(self.model):
            if self.model[ID] == 'in': self.purged.append(ID)
        for ID in self.purged: self.model.pop(ID, None)

    def purgeRow(self, ID, row):
        self.h.purge(row)
        del self.model[ID]
