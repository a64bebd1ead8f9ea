"""
C22: Individuals compare by fitness and are equal only if identical.
"""
from .common import *

def raw(e, name, kinds):
    kind = kinds[e.choose(len(kinds), name + 'kind')] \
        if len(kinds) > 1 else kinds[0]
    if kind == 'none': return None
    if kind == 'neg': return e.real(name, None, 0, hi_open=True)
    if kind == 'zero': return 0
    if kind == 'huge': return e.real(name, 1e38, 1e300)
    return e.xreal(name, lo=0)

def hashOf(i): return type(i).__hash__(i)

def truth(x):
    """Boolean, without forking if symbolic."""
    return x if isinstance(x, SB) else bool(x)

def world(e, Nd=2):
    P = Pop(e, 3, Nd, SSE=lambda k: [5., 2., 9.][k],
            values=lambda k: [0.1*k]*Nd)
    return P


def compare(e, cfg):
    P = world(e)
    ra = raw(e, 'A', cfg['a'])
    rb = raw(e, 'B', cfg['b'])
    va = [e.real('va') for _ in range(2)]
    vb = [e.real('vb') for _ in range(2)]
    a, b = P.individual(va), P.individual(vb)
    a.SSE, b.SSE = ra, rb
    wa, wb = worst(ra), worst(rb)
    e.check(Iff(truth(a < b), wa < wb), "less exactly if fitness is lower")
    e.check(Iff(truth(a > b), wa > wb), "greater exactly if fitness is higher")
    e.check(And(same(a.SSE, wa), same(b.SSE, wb)),
            "missing or negative fitness counts as infinite")
    # A number may take the place of the other individual
    x = e.real('x', 0)
    e.check(Iff(truth(a < x), wa < x), "less than a number if lower")
    eq = truth(a == b)
    ident = And(wa == wb, same_vec(va, vb, lambda x, y: x == y))
    e.check(Iff(eq, ident), "equal exactly if fitness and values are")
    e.check(Iff(truth(a.equals(b)), same_vec(va, vb)),
            "same values exactly if they are")
    e.check(Iff(truth(a.equals(vb)), same_vec(va, vb)),
            "same values as a list exactly if they are")
    if bool(eq):
        e.cover('equal')
        e.check(hashOf(a) == hashOf(b), "equal ones have equal hashes")
    else: e.cover('unequal')
    if cfg.get('hash'):
        hashOf(a)
        e.check(hashOf(a) == hashOf(a), "the hash is stable")


def truthful(e, cfg):
    """
    Truth of an individual, and what a copy is.
    """
    P = world(e)
    r = raw(e, 'A', cfg['kinds'])
    v = [e.real('v') for _ in range(2)]
    a = P.individual(v)
    a.SSE = r
    fatal = r is not None and bool(r < 0)
    e.check(Iff(bool(a), not fatal), "false exactly if fatal")
    c = a.copy()
    if bool(isnan(worst(r))):
        e.check(isnan(c.SSE), "the copy has the same fitness")
    else:
        e.check(truth(c == a), "a copy is equal to its original")
        e.check(hashOf(c) == hashOf(a), "a copy has the same hash")
    e.check(c is not a and c.p is a.p, "a copy is of the same population")
    e.check(And(same_vec(c.values, v), same(c.SSE, worst(r))),
            "a copy has the same values and fitness")
    c[0] = e.real('new')
    c.SSE = 3.0
    e.check(And(same_vec(a.values, v), same(a.SSE, worst(r))),
            "changing the copy doesn't affect the original")
    c = a.copy()
    w = list(c.values)
    a[1] = e.real('new')
    e.check(same_vec(c.values, w),
            "changing the original doesn't affect the copy")
    e.cover('fatal' if fatal else 'fine')


def arith(e, cfg):
    """
    Arithmetic.
    """
    P = world(e)
    va = [e.real('va') for _ in range(2)]
    vb = [e.real('vb') for _ in range(2)]
    F = e.real('F')
    a, b = P.individual(va, 3.0), P.individual(vb, 4.0)
    for name, c, want in (
            ('sum', a + b, [x+y for x, y in zip(va, vb)]),
            ('difference', a - b, [x-y for x, y in zip(va, vb)]),
            ('product', a * F, [x*F for x in va])):
        e.check(c is not a and c is not b and isinstance(c, type(a)),
                "the %s is a new individual" % name)
        e.check(same_vec(c.values, want, near), "the %s is element-wise" % name)
        e.check(isinf(c.SSE), "the %s has no fitness yet" % name)
        c[0] = 99.0
        e.check(And(same_vec(a.values, va), same_vec(b.values, vb),
                    same(a.SSE, 3.0), same(b.SSE, 4.0)),
                "the %s leaves its operands alone" % name)
    d = b + (a - b) * F
    e.check(same_vec(d.values, [y + (x-y)*F for x, y in zip(va, vb)], near),
            "the operations compose")
    e.cover('done')


def evaluation(e, cfg):
    """
    Truth and fitness after actual evaluations.
    """
    ev = Evaluator(e, kinds=('num', 'none', 'raise'), delayed=cfg['delayed'])
    P = Pop(e, 3, 1, ev, SSE=lambda k: 5., values=lambda k: [0.1*k])
    i = P.individual([0.5])
    for _ in range(cfg.get('N', 1)):
        n = P.p.counter
        x = e.real('xSSE', 0) if cfg.get('xSSE') else None
        d = i.evaluate(x) if cfg.get('xSSE') else i.evaluate()
        if cfg['delayed']:
            e.check(not d.called, "it's done when the evaluation is")
            ev.finish(ev.pending[0])
        finished(e, d, "the evaluation")
        e.check(d.result is i, "it results in the individual")
        call = ev.calls[-1]
        e.check(same_vec(call['values'], [0.5]), "its values get evaluated")
        e.check(call['xSSE'] is None if x is None else same(call['xSSE'], x),
                "the early-termination threshold is passed along")
        r = call['result']
        if isinstance(r, Exception):
            e.check(not bool(i), "false after an exception")
            e.check(isinf(i.SSE), "worst fitness after an exception")
            e.cover('raise')
        else:
            fatal = r is not None and bool(r < 0)
            e.check(Iff(bool(i), not fatal),
                    "false exactly if the evaluation was fatal")
            e.check(same(i.SSE, worst(r)), "the fitness is the result")
            e.cover('fatal' if fatal else 'fine')


class Floaty(object):
    """Merely behaves like a float."""
    def __init__(self, x): self.x = x
    def __float__(self): return self.x
    def _sym_to_float(self): return lift(self.x)
    def __lt__(self, other): return self.x < other
    def __ge__(self, other): return self.x >= other
    def __eq__(self, other): return self.x == getattr(other, 'x', other)
    __hash__ = None


CONCRETE = [
    # Values and fitness that are equal though not alike
    ([0.0, 1.0], 2.0, [-0.0, 1.0], 2.0),
    ([1, 2], 2, [1.0, 2.0], 2.0),
    ([1.0, 2.0], 0.0, [1.0, 2.0], -0.0),
    ([1.0, 2.0], np.float64(0.1), [1.0, 2.0], 0.1),
    ([1.0, 2.0], 1e300, [1.0, 2.0], 1e300),
    ([1.0, 2.0], None, [1.0, 2.0], math.inf),
    ([1.0, 2.0], -1, [1.0, 2.0], None),
    ([1e-320, 2.0], 0.5, [1e-320, 2.0], 0.5),
]

def alike(e, cfg):
    """
    Different representations of equal numbers.
    """
    P = world(e)
    va, sa, vb, sb = CONCRETE[e.choose(len(CONCRETE), 'case')]
    a, b = P.individual(va), P.individual(vb)
    a.SSE, b.SSE = sa, sb
    e.check(bool(a == b), "equal if numbers are")
    e.check(hash(a) == hash(b), "equal ones have equal hashes")
    e.check(len({a, b}) == 1, "a set has just one of them")
    e.cover('done')

def floaty(e, cfg):
    """
    A fitness object that merely behaves like a float.
    """
    P = world(e)
    x, y = e.real('x'), e.real('y', 0)
    a, b = P.individual([1.0, 2.0]), P.individual([1.0, 2.0], y)
    a.SSE = Floaty(x)
    wx = worst(x)
    e.check(Iff(bool(a < b), wx < y), "less exactly if fitness is lower")
    e.check(Iff(bool(b < a), y < wx), "less exactly if fitness is lower")
    e.check(Iff(bool(a), x >= 0), "false exactly if fatal")
    e.cover('done')


NUM = ['num', 'none', 'neg', 'zero']
HARNESSES = [
    Harness(compare, quick=[
        dict(a=NUM, b=NUM), dict(a=['huge'], b=['huge', 'num'], hash=True)],
            covers=['equal', 'unequal'],
            bounds="two individuals with 2 values and any fitness"),
    Harness(truthful, quick=[dict(kinds=NUM)], covers=['fatal', 'fine'],
            bounds="one individual with 2 values and any fitness"),
    Harness(arith, quick=[dict()], covers=['done'],
            bounds="two individuals with 2 values, any factor"),
    Harness(evaluation, quick=[
        dict(delayed=False), dict(delayed=True), dict(delayed=True, xSSE=True),
        dict(delayed=False, N=3)],
            covers=['raise', 'fatal', 'fine'],
            bounds="up to 3 evaluations with any result"),
    Harness(alike, quick=[dict()], covers=['done'],
            bounds="pairs of different representations of equal numbers"),
    Harness(floaty, quick=[dict()], covers=['done'],
            bounds="a fitness object with any float value"),
]
