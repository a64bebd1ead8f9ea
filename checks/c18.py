"""
C18: Specification files parse to exactly what they say.
"""
import re as realre

from symx import strings as S

from .common import *

PRINTABLE = [(9, 9), (32, 126)]
WORDS = [(ord('a'), ord('z')), (ord('A'), ord('Z')), (ord('0'), ord('9'))] + [
    (ord(c), ord(c)) for c in '.+-/_']
DIGITS = '0123456789'

STRICT = S.Pattern(r'[+-]?[0-9]+(\.[0-9]+)?(e[+-]?[0-9]+)?$')
LOOSE = S.Pattern(
    r'[+-]?([0-9_]+\.?[0-9_]*|\.[0-9_]+)(e[+-]?[0-9_]+)?$')
SPECIAL = S.Pattern(r'[+-]?(inf|infinity|nan)$')
SEPS = [' ', '\t ', ' = ', '\t=\t', '  =   ']
MISSING = object()


class Specs(object):
    """
    Loads specifications from lines of text.
    """
    def __init__(self, e):
        self.e = e
        e.world.quiet()
        self.m = e.world.load('ade.specs')
        self.t = S.Text(e)

    def load(self, lines):
        path = scratch('x.specs')
        self.e.world.text(path, lines)
        return self.m.SpecsLoader(path)()

    def pick(self, seq, name):
        return seq[self.e.choose(len(seq), name)] if len(seq) > 1 else seq[0]

    def comment(self, n=2):
        """Any comment."""
        return '#' + self.t.chars('comment', n, PRINTABLE)

    def trailing(self, kinds=(0, 1, 2)):
        """What may be at the end of a line."""
        kind = self.pick(kinds, 'trailing')
        if kind == 0: return ''
        if kind == 1: return ' ' + self.comment()
        if kind == 2: return self.comment()
        if kind == 3: return ' \t'
        return ' #'

    def number(self, form):
        """
        Text of a number like '+99.9e-9', each digit of it being any
        one, along with its value.
        """
        text = ''
        digits, ex, esign = [], None, ''
        sign, point = '', None
        for c in form:
            if c == '9':
                d = self.t.char('digit', DIGITS)
                text = text + d
                code = S.codes(d)[0] - 48
                if ex is None: digits.append(code)
                else: ex.append(code)
                continue
            text = text + c
            if c in 'eE': ex = []
            elif c == '.': point = len(digits)
            elif ex is None: sign = c
            else: esign = c
        v = 0
        for d in digits: v = v*10 + d
        if has_sym(v): v = lift(v)
        n = 0 if point is None else point - len(digits)
        if ex:
            k = 0
            for d in ex: k = k*10 + d
            k = int(k)
            n += -k if esign == '-' else k
        if n >= 0: v = v * 10**n
        else: v = v / 10**(-n)
        return text, -v if sign == '-' else v


def isNumber(x, v):
    if isinstance(x, (bool, SB)) or not isinstance(x, (int, float, SF, SI)):
        return False
    return near(x, v, scale=0) if has_sym([x, v]) else \
        x == v or abs(x-v) <= 1e-12*max(abs(x), abs(v))

def isText(x, text):
    """The same text, perhaps in lower case."""
    if not isinstance(x, (str, S.SymStr)): return False
    return S.same(x.lower(), text.lower())

def isEqual(x, want):
    """
    Is x what is wanted? That's a tuple with kind and value.
    """
    kind, v = want
    if kind == 'num': return isNumber(x, v)
    if kind == 'text': return isText(x, v)
    if kind == 'list':
        return isinstance(x, (list, tuple)) and len(x) == len(v) and \
            And(*[isEqual(a, b) for a, b in zip(x, v)])
    if kind == 'dict':
        if not isinstance(x, dict) or set(x) != set(v): return False
        if not all(type(a) in (int, str) for a in x): return False
        return And(*[isEqual(x[k], v[k]) for k in v])
    return x is v

def denotes(token):
    """
    What a token denotes, or None if that's not for me to say.
    """
    low = token.lower()
    for text, v in (('none', None), ('true', True), ('false', False)):
        if len(low) == len(text) and bool(S.same(low, text)):
            return 'const', v
    if STRICT.match(low):
        v = S.mk(S.codes(low))
        return 'num', v._sym_to_float() if isinstance(v, S.SymStr) \
            else float(v)
    # Those with no digit before or after the point, or with underscores
    if LOOSE.match(low) or SPECIAL.match(low): return None
    return 'text', token


def number(e, cfg):
    """
    One line with one number.
    """
    X = Specs(e)
    text, v = X.number(X.pick(cfg['forms'], 'form'))
    k = e.choose(len(SEPS), 'sep')
    tail = X.trailing() if k in (1, 2) else ''
    s = X.load([' '*(k % 2) + 'foo' + SEPS[k] + text + tail])
    e.check(isNumber(getattr(s, 'foo', None), v), "the number it says")
    e.check(isNumber(s.get('foo'), v), "lookup is of the number")
    e.cover('done')


def word(e, cfg):
    """
    One line with one arbitrary word.
    """
    X = Specs(e)
    w = X.t.chars('w', cfg['n'], WORDS)
    if 'like' in cfg:
        # In any combination of upper and lower case
        e.assume(S.same(w.lower(), cfg['like']))
    if cfg['n'] > 1: e.assume(Not(S.same(w[:2], '--')))
    s = X.load(['foo' + X.pick(SEPS[1:3], 'sep') + w +
                X.trailing(cfg.get('trailing', [0, 1, 2]))])
    x = getattr(s, 'foo', MISSING)
    e.check(x is not MISSING, "there is an attribute of that name")
    want = denotes(w)
    if want is None: return
    e.check(isEqual(x, want), "%s as it says" % {
        'num': 'a number', 'text': 'a string', 'const': 'a constant'}[want[0]])
    e.cover(want[0])


def several(e, cfg):
    """
    One line with several values.
    """
    X = Specs(e)
    line, want = 'foo' + X.pick(SEPS, 'sep'), []
    for k, kind in enumerate(cfg['kinds']):
        if k: line = line + X.pick([' ', ', ', '\t'], 'gap')
        if kind == '9':
            text, v = X.number('-9.9' if k % 2 else '9')
            want.append(('num', v))
        elif kind == 'w':
            text = X.t.chars('w', 2, [(ord('a'), ord('z'))])
            want.append(('text', text))
        else:
            text = kind
            want.append(('const', {
                'none': None, 'True': True, 'FALSE': False}[kind]))
        line = line + text
    s = X.load([line + X.trailing()])
    e.check(isEqual(getattr(s, 'foo', None), ('list', want)),
            "the list it says")
    e.check(isEqual(s.get('foo'), ('list', want)), "lookup is of the list")
    e.cover('done')


PATHS = [
    ['k'], ['Rg'], ['351'], ['351', 'Rg'], ['351', 'ttrig'], ['361', 'Rg'],
    ['a', 'b', 'c'], ['a', 'b', '12'], ['07', 'x'], ['x1y']]

def key(x): return int(x) if x.isdigit() else x

def block(e, cfg):
    """
    A dict, with nested ones in it.
    """
    X = Specs(e)
    N = cfg['N']
    paths = []
    for _ in range(N):
        p = PATHS[cfg['paths'][len(paths)]] if 'paths' in cfg \
            else X.pick(PATHS, 'path')
        p = [key(x) for x in p]
        # Not a repeat or both an entry and a dict
        for q in paths:
            n = min(len(p), len(q))
            e.assume(p[:n] != q[:n])
        paths.append(p)
    noise = cfg.get('noise', 0)
    where = e.choose(noise, 'noise') if noise else -1
    lines, want = [], {}
    def add(line):
        if len(lines) == where:
            lines.append(X.pick(
                ['', ' \t', X.comment(1), ' ' + X.comment(1)], 'blank'))
        lines.append(line)
    # A comment at the end of one line
    tail = e.choose(cfg['tail'], 'tail') if 'tail' in cfg else -1
    ended = []
    def end():
        ended.append(0)
        return X.trailing([1, 2]) if len(ended) == tail+1 else ''
    vals = []
    text, v = X.number('9')
    add('before ' + text + end())
    vals.append(v)
    add('things' + end())
    add(X.pick(['--', '----------'], 'hyphens') + end())
    for p in paths:
        text, v = X.number('9')
        vals.append(v)
        two = cfg.get('two') and e.choose(2, 'two')
        line = ':'.join(str(x) for x in p) + X.pick([' ', ' = '], 'sep')
        line = line + text
        if two: line = line + ' none'
        add(line + end())
        d = want
        for x in p[:-1]: d = d.setdefault(x, ('dict', {}))[1]
        d[p[-1]] = ('list', [('num', v), ('const', None)]) if two \
            else ('num', v)
    add('------' + end())
    text, v = X.number('9')
    add('after = ' + text + end())
    s = X.load(lines)
    e.check(isEqual(getattr(s, 'before', None), ('num', vals[0])),
            "the attribute before the block")
    e.check(isEqual(getattr(s, 'after', None), ('num', v)),
            "the attribute after the block")
    e.check(isEqual(getattr(s, 'things', None), ('dict', want)),
            "the dictionary it says")
    def visit(path, d):
        for k in d:
            e.check(isEqual(s.get('things', *(path + [k])), d[k]),
                    "lookup is of the entry")
            if d[k][0] == 'dict': visit(path + [k], d[k][1])
            else:
                r = s.get('things', *(path + [k, 'more']))
                e.check(isinstance(r, dict) and not r,
                        "there is nothing below an entry")
        for k in ('nope', 99, 'Rg', 351):
            if k in d: continue
            r = s.get('things', *(path + [k]))
            e.check(isinstance(r, dict) and not r,
                    "an empty dictionary if there is no entry")
            r = s.get('things', *(path + [k, 'Rg']))
            e.check(isinstance(r, dict) and not r,
                    "an empty dictionary if there is no entry")
    visit([], want)
    e.cover('nested' if any(len(p) > 1 for p in paths) else 'flat')
    if where >= 0: e.cover('noise')


def digits(e, cfg):
    """
    Keys with any digits.
    """
    X = Specs(e)
    n = cfg['n']
    ks, vs, ints = [], [], []
    for _ in range(2):
        t, v = X.number('9'*n)
        ks.append(t)
        # As an integer
        k = 0
        for c in S.codes(t): k = k*10 + (c-48)
        ints.append(k)
        t, v = X.number('9')
        vs.append((t, v))
    s = X.load(['d', '---', ks[0] + ':a ' + vs[0][0],
                ks[1] + ':b ' + vs[1][0], '---'])
    d = getattr(s, 'd', None)
    if not isinstance(d, dict):
        e.fail("a dictionary")
        return
    e.check(all(isinstance(k, (int, SI)) for k in d),
            "all-digit keys are integers")
    if bool(ints[0] == ints[1]):
        e.check(len(d) == 1, "equal keys are of the same entry")
        e.cover('equal')
    else:
        e.check(len(d) == 2, "different keys are of different entries")
        e.cover('different')
    for k, name, v in zip(ints, 'ab', vs):
        got = [x for x in d if bool(x == k)]
        e.check(len(got) == 1 and isNumber(d[got[0]].get(name), v[1]),
                "the entry is there")
        e.check(isNumber(s.get('d', got[0] if got else k, name), v[1]),
                "lookup is of the entry")


def ignored(e, cfg):
    """
    Comments and blank lines anywhere make no difference.
    """
    X = Specs(e)
    lines = ['alpha 1', 'bravo = 2 3', 'charlie', '---', 'x 4', 'y:z 5',
             '---', 'delta none']
    for _ in range(cfg['N']):
        k = e.choose(len(lines)+1, 'where')
        kind = e.choose(3, 'kind')
        if kind == 0: x = X.t.chars('space', 1, ' \t')
        elif kind == 1: x = ''
        else:
            lead = X.t.chars('lead', cfg.get('lead', 0), ' \t')
            x = lead + X.comment(cfg['n'])
        lines.insert(k, x)
    s = X.load(lines)
    for name, want in (
            ('alpha', ('num', 1)),
            ('bravo', ('list', [('num', 2), ('num', 3)])),
            ('charlie', ('dict', {
                'x': ('num', 4), 'y': ('dict', {'z': ('num', 5)})})),
            ('delta', ('const', None))):
        e.check(isEqual(getattr(s, name, 'missing'), want),
                "comments and blank lines don't matter")
    e.check(set(vars(s)) == {'alpha', 'bravo', 'charlie', 'delta'},
            "there are no other attributes")
    e.cover('done')


def nothing(e, cfg):
    """
    Files with nothing but comments and blank lines.
    """
    X = Specs(e)
    lines = []
    for _ in range(cfg['N']):
        lines.append(X.pick(['', '\t', X.comment(1)], 'line'))
    s = X.load(lines)
    e.check(not vars(s), "no attributes")
    r = s.get('foo')
    e.check(isinstance(r, dict) and not r, "an empty dictionary")
    r = s.get('foo', 'bar')
    e.check(isinstance(r, dict) and not r, "an empty dictionary")
    e.cover('done')


FORMS = ['9', '99', '-9', '+9', '9.9', '-9.99', '99.9', '9e9', '9E9', '9e-9',
         '9.9E+9', '-9.9e-9']
HARNESSES = [
    Harness(number, quick=[dict(forms=FORMS)], thorough=[
        dict(forms=['999.999', '+9.9e-99', '99E99', '-999.9e+9'])],
            covers=['done'],
            bounds="numbers with up to 3 digits (6 thorough), any trailing "
            "comment of two characters"),
    Harness(word, quick=[
        dict(n=1), dict(n=2), dict(n=3, trailing=[0, 2]),
        dict(n=4, like='none'), dict(n=4, like='true'),
        dict(n=5, like='false')],
            thorough=[dict(n=4), dict(n=5, trailing=[0])],
            covers=['num', 'text', 'const'],
            bounds="any word of 1-3 letters, digits, and ./+-_ "
            "(4 and 5 thorough)"),
    Harness(several, quick=[
        dict(kinds='9w'), dict(kinds='w9'), dict(kinds='999'),
        dict(kinds=['9', 'none', 'True']), dict(kinds=['FALSE', 'w'])],
            covers=['done'], bounds="2-3 values"),
    Harness(block, quick=[
        dict(N=2), dict(N=1, two=True),
        dict(N=1, tail=6), dict(N=2, noise=7, paths=[3, 4]),
        dict(N=3, paths=[3, 5, 4]), dict(N=4, paths=[6, 0, 7, 8])],
            thorough=[
        dict(N=3), dict(N=2, two=True), dict(N=2, noise=7), dict(N=2, tail=7)],
            covers=['nested', 'flat', 'noise'],
            bounds="1-3 entries (4 with fixed keys), up to three levels of "
            "keys, any digit of their values; a comment or blank line in any "
            "position"),
    Harness(digits, quick=[dict(n=1), dict(n=2)], covers=['equal', 'different'],
            bounds="two keys of 1-2 arbitrary digits"),
    Harness(ignored, quick=[dict(N=1, n=2, lead=1), dict(N=2, n=1)],
            thorough=[dict(N=1, n=4, lead=2), dict(N=2, n=2)],
            covers=['done'],
            bounds="one or two added lines, blank or with any comment of 1-2 "
            "characters (4 thorough), in any position"),
    Harness(nothing, quick=[dict(N=0), dict(N=1), dict(N=2)],
            covers=['done'], bounds="0-2 lines"),
]
