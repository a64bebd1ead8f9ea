"""
C34: Pickling an object keeps each of its attributes.
"""
import copy, pickle, sys

from .common import *


class Protocol(object):
    """
    What pickling does, without turning values into bytes.
    """
    def __new__(cls, x):
        f, args, state = x.__reduce_ex__(2)[:3]
        y = f(*args)
        if state is not None: y.__setstate__(state)
        return y


def value(e, name):
    """
    An attribute's value, such as may be mistaken for there being none.
    """
    k = e.choose(6, name)
    if k == 5: return e.real(name)
    return (0, "", None, [], False)[k]

def alike(a, b):
    if isinstance(a, (list, str, bool, type(None))):
        return type(a) is type(b) and a == b
    return same(a, b)


def make(e, util, slots):
    """
    A class and the names of the attributes its objects may have.
    """
    if slots:
        class Thing(util.Picklable):
            __slots__ = ['x', 'y', 'z', '_w']
        return Thing, ['x', 'y', 'z', '_w']
    class Base(util.Picklable):
        c = 3
        def method(self): return self.x
    class Thing(Base):
        @property
        def total(self): return [self.x, self.c]
    return Thing, ['x', 'y', 'z']


def pickled(e, cfg):
    """
    Objects with any of their attributes set, pickled and unpickled.
    """
    w = e.world
    util = w.load('ade.util')
    slots = cfg['slots']
    Thing, names = make(e, util, slots)
    thing = Thing()
    own = {}
    for name in names:
        if name != 'x' and not e.choose(2, 'set_' + name):
            e.cover('unset')
            continue
        own[name] = value(e, name)
        setattr(thing, name, own[name])
    dup = thing
    for n in range(cfg.get('times', 1)):
        dup = copy.copy(dup) if cfg.get('copy') else Protocol(dup)
        e.check(type(dup) is Thing and dup is not thing,
                "another one of the same class")
        for name in names:
            e.check(hasattr(dup, name) == (name in own),
                    "just the attributes that were set")
            if name not in own: continue
            e.check(alike(own[name], getattr(dup, name)),
                    "they have the values they had")
            e.check(alike(own[name], getattr(thing, name)),
                    "the original is as it was")
    if slots: e.cover('slots')
    else:
        e.check(alike(own['x'], dup.method()), "its methods work")
        e.check(alike(own['x'], dup.total[0]) and dup.total[1] == 3,
                "its properties work")
        dup.x = dup.y = 'new'
        e.check(alike(own['x'], thing.x), "they are independent")
        e.check(Thing.c == 3 and 'x' not in vars(Thing),
                "the class is as it was")
        e.cover('no slots')


def real(e, cfg):
    """
    The same with actual bytes.
    """
    util = e.world.load('ade.util')
    mod = sys.modules[__name__]
    for slots in (True, False):
        Thing, names = make(e, util, slots)
        Thing.__qualname__ = 'Thing'
        Thing.__module__ = __name__
        mod.Thing = Thing
        try:
            thing = Thing()
            for k, name in enumerate(names[:-1]):
                setattr(thing, name, [0, 1.5, 'text'][e.choose(3, name)])
            for protocol in (2, pickle.HIGHEST_PROTOCOL):
                dup = pickle.loads(pickle.dumps(thing, protocol))
                e.check(type(dup) is Thing, "one of the same class")
                for name in names:
                    e.check(getattr(dup, name, ()) ==
                            getattr(thing, name, ()), "the same attributes")
        finally: del mod.Thing
    e.cover('done')


HARNESSES = [
    Harness(pickled, quick=[
        dict(slots=True), dict(slots=False), dict(slots=True, times=2),
        dict(slots=False, times=2, copy=True)],
            covers=['slots', 'no slots', 'unset'],
            bounds="up to four attributes, each of any number or one of five "
            "other values, or not set"),
    Harness(real, quick=[{}], covers=['done'],
            bounds="up to three attributes of three values"),
]

ASSUMPTIONS = [
    "no attribute hides one of the class",
    "the class declares all of its slots itself",
]
