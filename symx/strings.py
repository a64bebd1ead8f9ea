"""
Strings of known length whose characters may be symbolic.

Each character is either an int (its code) or a symbolic integer. A
decision that depends on a symbolic character forks. Whatever has no
symbolic character left is an actual str.
"""
import re as _re, types
try: import re._parser as _sp, re._constants as _sc
except ImportError: import sre_parse as _sp, sre_constants as _sc

from . import engine as _eng
from .values import SI, SB, SF, ite, lift, mkb, tb

import z3

SPACES = [(9, 13), (28, 32), (133, 133), (160, 160)]
DIGITS = [(48, 57)]
UPPER = [(65, 90)]
LOWER = [(97, 122)]
WORD = DIGITS + UPPER + LOWER + [(95, 95)]


def codes(x):
    if isinstance(x, SymStr): return list(x.c)
    return [ord(c) for c in x]

def mk(chars):
    """A str if there's nothing symbolic about it."""
    chars = list(chars)
    out = []
    for c in chars:
        if isinstance(c, SI):
            t = z3.simplify(c.t)
            if z3.is_int_value(t): c = t.as_long()
        out.append(c)
    if any(isinstance(c, SI) for c in out): return SymStr(out)
    return ''.join(chr(c) for c in out)

def within(c, ranges):
    """Is the character within any of the ranges?"""
    if not isinstance(c, SI): return any(a <= c <= b for a, b in ranges)
    return mkb(z3.Or(*[
        c.t == a if a == b else z3.And(c.t >= a, c.t <= b)
        for a, b in ranges]))

def eqc(a, b):
    if isinstance(a, SI) or isinstance(b, SI):
        return (a == b) if isinstance(a, SI) else (b == a)
    return a == b

def conj(conds):
    r = True
    for x in conds:
        if x is False: return False
        if x is True: continue
        r = x if r is True else (r & x)
    return r

def same(a, b):
    a, b = codes(a), codes(b)
    if len(a) != len(b): return False
    return conj(eqc(x, y) for x, y in zip(a, b))


class SymStr(object):
    __slots__ = ('c',)
    def __init__(self, chars): self.c = tuple(chars)

    def concretize(self):
        return ''.join(
            chr(c.concretize() if isinstance(c, SI) else c) for c in self.c)
    def __hash__(self): return hash(self.concretize())
    def __eq__(self, other):
        if not isinstance(other, (str, SymStr)): return False
        return same(self, other)
    def __ne__(self, other):
        r = self == other
        return (not r) if isinstance(r, bool) else ~r
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __iter__(self):
        for c in self.c: yield mk([c])
    def __getitem__(self, k):
        if isinstance(k, slice): return mk(self.c[k])
        return mk([self.c[k]])
    def __add__(self, other):
        if not isinstance(other, (str, SymStr)): return NotImplemented
        return mk(list(self.c) + codes(other))
    def __radd__(self, other):
        if not isinstance(other, str): return NotImplemented
        return mk(codes(other) + list(self.c))
    def __mul__(self, n): return mk(list(self.c)*n)
    def __contains__(self, x): return self.find(x) >= 0
    def __repr__(self): return "<SymStr of %d>" % len(self.c)
    def __str__(self):
        return _eng.CUR.unsupported("C-level str() of a symbolic string")
    def __format__(self, spec): return self.__str__()
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __lt__(self, other): return self.concretize() < other
    def __gt__(self, other): return self.concretize() > other

    def lower(self):
        return mk(
            ite(within(c, UPPER), c+32, c) if isinstance(c, SI)
            else ord(chr(c).lower()) for c in self.c)
    casefold = lower
    def upper(self):
        return mk(
            ite(within(c, LOWER), c-32, c) if isinstance(c, SI)
            else ord(chr(c).upper()) for c in self.c)
    def _all(self, ranges):
        return bool(self.c) and bool(conj(within(c, ranges) for c in self.c))
    def isdigit(self): return self._all(DIGITS)
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all(UPPER + LOWER)
    def isalnum(self): return self._all(UPPER + LOWER + DIGITS)
    def isspace(self): return self._all(SPACES)
    def isidentifier(self):
        return bool(self._all(WORD)) and not bool(within(self.c[0], DIGITS))

    def _ranges(self, chars):
        return SPACES if chars is None else [(ord(c), ord(c)) for c in chars]
    def lstrip(self, chars=None):
        r, k = self._ranges(chars), 0
        while k < len(self.c) and bool(within(self.c[k], r)): k += 1
        return mk(self.c[k:])
    def rstrip(self, chars=None):
        r, k = self._ranges(chars), len(self.c)
        while k > 0 and bool(within(self.c[k-1], r)): k -= 1
        return mk(self.c[:k])
    def strip(self, chars=None):
        x = self.lstrip(chars)
        return x.rstrip(chars)
    def removeprefix(self, x):
        return self[len(x):] if bool(self.startswith(x)) else self
    def removesuffix(self, x):
        return self[:len(self)-len(x)] if x and bool(self.endswith(x)) \
            else self
    def startswith(self, x, *args):
        if args: return self[slice(*args)].startswith(x)
        if isinstance(x, tuple): return any(bool(self.startswith(y)) for y in x)
        return bool(same(mk(self.c[:len(x)]), x)) if len(x) <= len(self) \
            else False
    def endswith(self, x):
        if isinstance(x, tuple): return any(bool(self.endswith(y)) for y in x)
        return bool(same(mk(self.c[len(self)-len(x):]), x)) \
            if len(x) <= len(self) else False
    def find(self, x, start=0, end=None):
        end = len(self) if end is None else end
        for k in range(start, end-len(x)+1):
            if bool(same(mk(self.c[k:k+len(x)]), x)): return k
        return -1
    def rfind(self, x):
        for k in range(len(self)-len(x), -1, -1):
            if bool(same(mk(self.c[k:k+len(x)]), x)): return k
        return -1
    def index(self, x, *args):
        k = self.find(x, *args)
        if k < 0: raise ValueError("substring not found")
        return k
    def count(self, x):
        n, k = 0, self.find(x)
        while k >= 0:
            n, k = n+1, self.find(x, k+len(x))
        return n
    def replace(self, old, new, n=-1):
        out, k = [], 0
        while k < len(self.c):
            if n and k+len(old) <= len(self.c) and \
               bool(same(mk(self.c[k:k+len(old)]), old)):
                out += codes(new)
                k += len(old)
                n -= 1
            else:
                out.append(self.c[k])
                k += 1
        return mk(out)
    def split(self, sep=None, maxsplit=-1):
        out, cur = [], []
        if sep is None:
            k = 0
            while k < len(self.c):
                if bool(within(self.c[k], SPACES)):
                    if cur: out.append(mk(cur))
                    cur = []
                    k += 1
                    continue
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    x = mk(self.c[k:]).rstrip()
                    if x: out.append(x)
                    return out
                cur.append(self.c[k])
                k += 1
            if cur: out.append(mk(cur))
            return out
        k = 0
        while k < len(self.c):
            if (maxsplit < 0 or len(out) < maxsplit) and \
               k+len(sep) <= len(self.c) and \
               bool(same(mk(self.c[k:k+len(sep)]), sep)):
                out.append(mk(cur))
                cur = []
                k += len(sep)
            else:
                cur.append(self.c[k])
                k += 1
        out.append(mk(cur))
        return out
    def partition(self, sep):
        k = self.find(sep)
        if k < 0: return self, '', ''
        return mk(self.c[:k]), sep, mk(self.c[k+len(sep):])
    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0: return '', '', self
        return mk(self.c[:k]), sep, mk(self.c[k+len(sep):])
    def splitlines(self, keepends=False):
        out, cur = [], []
        for c in self.c:
            if bool(eqc(c, 10)):
                out.append(mk(cur + ([c] if keepends else [])))
                cur = []
            else: cur.append(c)
        if cur: out.append(mk(cur))
        return out
    def join(self, seq):
        out = []
        for k, x in enumerate(seq):
            if k: out += self.c
            out += codes(x)
        return mk(out)
    def encode(self, *a): return self.concretize().encode(*a)
    def expanduser(self): return self

    def _number(self):
        """
        Sign, digits before and after the point, and exponent.
        """
        m = NUMBER.match(self)
        if m is None: return None
        return m

    def _sym_to_float(self):
        m = NUMBER.match(self)
        if m is None:
            x = self.strip().lower()
            for s, v in (('inf', 'inf'), ('infinity', 'inf'), ('nan', 'nan')):
                for sign in ('', '+', '-'):
                    if bool(x == sign + s): return float(sign + v)
            if bool('_' in x):
                return _eng.CUR.unsupported("underscore in a number")
            raise ValueError("could not convert string to float")
        sign, a, b, ex = m.group(1), m.group(2), m.group(3), m.group(5)
        digits = codes(a or '') + codes(b or '')
        v = 0
        for c in digits: v = v*10 + (c-48)
        x = lift(v) if not isinstance(v, int) else v
        n = -len(b or '')
        if ex: n += int(ex.concretize() if isinstance(ex, SymStr) else ex)
        if n >= 0: x = x * 10**n
        else: x = x / 10**(-n)
        if sign and bool(sign == '-'): x = -x
        return x if isinstance(x, SF) else float(x)

    def _sym_to_int(self):
        m = INTEGER.match(self)
        if m is None:
            raise ValueError("invalid literal for int() with base 10")
        v = 0
        for c in codes(m.group(2)): v = v*10 + (c-48)
        if m.group(1) and bool(m.group(1) == '-'): v = -v
        return v


# -- Regular expressions -----------------------------------------------------------

CATEGORIES = {
    _sc.CATEGORY_DIGIT: (DIGITS, False),
    _sc.CATEGORY_NOT_DIGIT: (DIGITS, True),
    _sc.CATEGORY_SPACE: (SPACES, False),
    _sc.CATEGORY_NOT_SPACE: (SPACES, True),
    _sc.CATEGORY_WORD: (WORD, False),
    _sc.CATEGORY_NOT_WORD: (WORD, True),
}


class Match(object):
    def __init__(self, string, spans, n):
        self.string, self.spans, self.n = string, spans, n
    def _one(self, k):
        if k not in self.spans: return None
        a, b = self.spans[k]
        return mk(codes(self.string)[a:b])
    def group(self, *ks):
        if not ks: ks = (0,)
        if len(ks) == 1: return self._one(ks[0])
        return tuple(self._one(k) for k in ks)
    def __getitem__(self, k): return self._one(k)
    def groups(self, default=None):
        return tuple(self._one(k) if k in self.spans else default
                     for k in range(1, self.n+1))
    def start(self, k=0): return self.spans[k][0]
    def end(self, k=0): return self.spans[k][1]
    def span(self, k=0): return self.spans[k]
    def __bool__(self): return True


class Pattern(object):
    """
    A regular expression that can be matched with symbolic strings,
    based on what the real module parses it into.
    """
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.tree = _sp.parse(pattern, flags)
        self.ic = bool(self.real.flags & _re.I)

    def __getattr__(self, name): return getattr(self.real, name)

    def char(self, c, op, av):
        """Does character c match?"""
        def lit(x):
            if self.ic and chr(x).isalpha():
                return within(c, [(ord(chr(x).lower()),)*2,
                                  (ord(chr(x).upper()),)*2])
            return within(c, [(x, x)])
        if op is _sc.LITERAL: return bool(lit(av))
        if op is _sc.NOT_LITERAL: return not bool(lit(av))
        if op is _sc.ANY: return not bool(within(c, [(10, 10)]))
        if op is _sc.IN:
            negate, ranges, no = False, [], []
            for o, a in av:
                if o is _sc.NEGATE: negate = True
                elif o is _sc.LITERAL: ranges.append((a, a))
                elif o is _sc.RANGE: ranges.append(a)
                elif o is _sc.CATEGORY:
                    r, n = CATEGORIES[a]
                    if n: no.append(r)
                    else: ranges += r
                else: raise NotImplementedError(o)
            if self.ic:
                for a, b in list(ranges):
                    if 65 <= a and b <= 90: ranges.append((a+32, b+32))
                    if 97 <= a and b <= 122: ranges.append((a-32, b-32))
            r = bool(ranges) and bool(within(c, ranges))
            if not r:
                for x in no: r = r or not bool(within(c, x))
            return r != negate
        raise NotImplementedError(op)

    def m(self, items, s, k, spans):
        """
        Generates possible ends (with spans) of matching items at k.
        """
        if not items:
            yield k, spans
            return
        (op, av), rest = items[0], items[1:]
        if op in (_sc.LITERAL, _sc.NOT_LITERAL, _sc.ANY, _sc.IN):
            if k < len(s) and self.char(s[k], op, av):
                yield from self.m(rest, s, k+1, spans)
        elif op is _sc.AT:
            if av in (_sc.AT_BEGINNING, _sc.AT_BEGINNING_STRING): ok = k == 0
            elif av is _sc.AT_END:
                ok = k == len(s) or (
                    k == len(s)-1 and bool(eqc(s[k], 10)))
            elif av is _sc.AT_END_STRING: ok = k == len(s)
            else: raise NotImplementedError(av)
            if ok: yield from self.m(rest, s, k, spans)
        elif op is _sc.SUBPATTERN:
            g, add, dele, p = av
            for k2, sp in self.m(list(p), s, k, spans):
                if g is not None:
                    sp = dict(sp)
                    sp[g] = (k, k2)
                yield from self.m(rest, s, k2, sp)
        elif op is _sc.BRANCH:
            for p in av[1]:
                for k2, sp in self.m(list(p), s, k, spans):
                    yield from self.m(rest, s, k2, sp)
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            def rep(n, k, spans):
                def more():
                    if hi is _sc.MAXREPEAT or n < hi:
                        for k2, sp in self.m(p, s, k, spans):
                            if k2 == k and n >= lo: continue
                            yield from rep(n+1, k2, sp)
                def stop():
                    if n >= lo: yield from self.m(rest, s, k, spans)
                for f in ((more, stop) if op is _sc.MAX_REPEAT
                          else (stop, more)):
                    yield from f()
            yield from rep(0, k, spans)
        else: raise NotImplementedError(op)

    def _at(self, string, k, full=False):
        s = codes(string)
        for end, spans in self.m(list(self.tree), s, k, {}):
            if full and end != len(s): continue
            spans = dict(spans)
            spans[0] = (k, end)
            return Match(string, spans, self.real.groups)

    def match(self, string, *args):
        if not isinstance(string, SymStr): return self.real.match(string, *args)
        return self._at(string, 0)
    def fullmatch(self, string, *args):
        if not isinstance(string, SymStr):
            return self.real.fullmatch(string, *args)
        return self._at(string, 0, True)
    def search(self, string, *args):
        if not isinstance(string, SymStr):
            return self.real.search(string, *args)
        for k in range(len(string)+1):
            m = self._at(string, k)
            if m is not None: return m
    def _finditer(self, string):
        k = 0
        while k <= len(string):
            m = self._at(string, k)
            if m is None: k += 1
            else:
                yield m
                k = max(m.end(), k+1)
    def split(self, string, maxsplit=0):
        if not isinstance(string, SymStr):
            return self.real.split(string, maxsplit)
        out, k = [], 0
        for m in self._finditer(string):
            if m.end() == m.start(): continue
            if maxsplit and len(out) >= maxsplit: break
            out.append(string[k:m.start()])
            out.extend(m.groups())
            k = m.end()
        out.append(string[k:])
        return out
    def findall(self, string):
        if not isinstance(string, SymStr): return self.real.findall(string)
        out = []
        for m in self._finditer(string):
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out
    def finditer(self, string):
        if not isinstance(string, SymStr): return self.real.finditer(string)
        return self._finditer(string)
    def sub(self, repl, string, count=0):
        if not isinstance(string, SymStr):
            return self.real.sub(repl, string, count)
        out, k = '', 0
        for m in self._finditer(string):
            out = out + string[k:m.start()] + (
                repl(m) if callable(repl) else repl)
            k = m.end()
        return out + string[k:]


class ReShim(types.ModuleType):
    """The re module, for symbolic strings too."""
    def __init__(self): types.ModuleType.__init__(self, 're')
    @staticmethod
    def compile(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, flags)
    def match(self, p, s, flags=0): return self.compile(p, flags).match(s)
    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)
    def search(self, p, s, flags=0): return self.compile(p, flags).search(s)
    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)
    def findall(self, p, s, flags=0): return self.compile(p, flags).findall(s)
    def finditer(self, p, s, flags=0): return self.compile(p, flags).finditer(s)
    def sub(self, p, r, s, count=0, flags=0):
        return self.compile(p, flags).sub(r, s, count)
    def __getattr__(self, name): return getattr(_re, name)


NUMBER = Pattern(
    r'\s*([+-]?)(?:([0-9]+)(?:\.([0-9]*))?)([eE]([+-]?[0-9]+))?\s*$')
INTEGER = Pattern(r'\s*([+-]?)([0-9]+)\s*$')


class VirtualFile(object):
    """
    A text file whose lines may be symbolic.
    """
    def __init__(self, lines):
        self.lines = list(lines)
        self.k = 0
        self.closed = False
    def __enter__(self): return self
    def __exit__(self, *args): self.close()
    def close(self): self.closed = True
    def __iter__(self): return self
    def __next__(self):
        if self.k >= len(self.lines): raise StopIteration
        self.k += 1
        return self.lines[self.k-1]
    def readline(self):
        try: return next(self)
        except StopIteration: return ''
    def readlines(self): return list(self)
    def read(self, n=-1):
        out = []
        for line in self: out += codes(line)
        return mk(out)


class Text(object):
    """
    A line of text with e as the source of its symbolic characters.
    """
    def __init__(self, e):
        self.e = e
    def char(self, name, alphabet):
        """
        Any character of the alphabet, a string or list of ranges.
        """
        e = self.e
        if isinstance(alphabet, str):
            alphabet = [(ord(c), ord(c)) for c in alphabet]
        lo = min(a for a, b in alphabet)
        hi = max(b for a, b in alphabet)
        c = e.int(name, lo, hi)
        e.assume(within(c, alphabet))
        return mk([c])
    def chars(self, name, n, alphabet):
        out = ''
        for _ in range(n): out = out + self.char(name, alphabet)
        return out
