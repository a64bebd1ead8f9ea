"""
C31: The parameter viewer shows what its command line asks for.
"""
import io, os, sys
from contextlib import contextmanager, redirect_stderr, redirect_stdout

from .common import *
from .c30 import Data, value, corr


@contextmanager
def commandLine(*words):
    argv, sys.argv = sys.argv, ['prog'] + list(words)
    # Refusals of the argument parser are written there
    with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
        try: yield
        finally: sys.argv = argv


# Options as (short, long, default, words that may be given, values)
OPTIONS = [
    ('-n', '--number', 7, ['12', '-3', '0'], [12, -3, 0]),
    ('-X', '--factor', 0.5, ['2', '-1.5e3', '0'], [2.0, -1500.0, 0.0]),
    ('-t', '--text', 'abc', ['x y', '12', ''], ['x y', '12', '']),
]
FLAGS = [('-f', '--flag'), ('-F', '--other-flag')]


def options(e, cfg):
    """
    Options, flags and positional arguments, in any order.
    """
    w = e.world
    w.quiet()
    args = w.load('ade.args').Args("Some text.\n\nAnother paragraph.")
    for short, long, default, words, values in OPTIONS:
        args(short, long, default, "Some help")
    for short, long in FLAGS: args(short, long, "Some help")
    if cfg.get('positional', True): args("Things")
    want, chunks = {}, []
    for short, long, default, words, values in OPTIONS:
        want[short[1:]] = default
        if short[1:] not in cfg['which'] or not e.choose(2, 'given'): continue
        k = e.choose(len(words), 'which')
        word = words[k]
        want[short[1:]] = values[k]
        how = e.choose(3, 'how')
        if how == 0 and not word.startswith('-1.5'):
            chunks.append([short, word])
        elif how == 1 and word: chunks.append([short + word])
        else: chunks.append([long + '=' + word])
    for short, long in FLAGS:
        want[short[1:]] = False
        if short[1:] not in cfg['which'] or not e.choose(2, 'given'): continue
        want[short[1:]] = True
        chunks.append([[short, long][e.choose(2, 'how')]])
    things = ['thing%d' % k for k in range(cfg.get('N', 0))]
    if chunks and e.choose(2, 'reverse'): chunks.reverse()
    # Positional arguments all before or all after the options
    if things and e.choose(2, 'first'): words = things + sum(chunks, [])
    else: words = sum(chunks, []) + things
    with commandLine(*words):
        for name in sorted(want):
            got = getattr(args, name)
            e.check(type(got) is type(want[name]) and got == want[name],
                    "each option has the value given, or its default")
        if cfg.get('positional', True):
            e.check(list(args) == things, "the positional arguments, in order")
            for k, x in enumerate(things):
                e.check(args[k] == x, "each of them")
            e.check(list(args[1:]) == things[1:], "some of them")
        e.check(len(args) == len(things), "how many there are")
        e.check(bool(args) == (len(things) > 0), "true if there are any")
        e.check(args.z is None, "no value for an option there isn't")
    e.cover('things' if things else 'nothing')


def bad(e, cfg):
    """
    Command lines that can't be used.
    """
    w = e.world
    w.quiet()
    args = w.load('ade.args').Args("Some text")
    for short, long, default, words, values in OPTIONS:
        args(short, long, default, "Some help")
    line = [['-n', 'x'], ['-n', '1.5'], ['-X', 'y'], ['-q'], ['-n'],
            ['--nonsense=1']][e.choose(6, 'which')]
    with commandLine(*line):
        try: args.n
        except SystemExit as ex: e.check(ex.code != 0, "it's an error")
        else: e.fail("a command line that can't be used is refused")
    e.cover('done')


def helps(e, cfg):
    """
    What the help says.
    """
    w = e.world
    w.quiet()
    PARAS = ["A program\n    that does it.", "More about it.\nAnd more.",
             "The end."]
    paras = PARAS[:1 + e.choose(3, 'paragraphs')]
    text = "\n\n    ".join(paras)
    if e.choose(2, 'spaced'): text = "\n    " + text + "\n    "
    args = w.load('ade.args').Args(text)
    args('-n', '--number', 7, "How many of them")
    args('-X', '--factor', 0.125, "Factor, default is an eighth")
    args('-t', '--text', 'abc', "What {} is")
    args('-f', '--flag', "Whether at all")
    if e.choose(2, 'positional'): args("Some things")
    out = io.StringIO()
    with commandLine('-h'), redirect_stdout(out):
        try: args.n
        except SystemExit as ex: e.check(not ex.code, "it's no error")
        else: e.fail("nothing is done but showing help")
    got = " ".join(out.getvalue().split())
    want = [" ".join(x.split()) for x in paras] + [
        '-n', '--number', "How many of them [7]", '-X', '--factor',
        '-t', '--text', "What t is [abc]", '-f', '--flag', "Whether at all"]
    for x in want:
        e.check(got.count(x) > 0, "everything is explained")
    for x in paras:
        e.check(got.count(" ".join(x.split())) == 1, "each paragraph, once")
    where = [got.index(" ".join(x.split())) for x in paras]
    e.check(where == sorted(where), "in order")
    e.check("an eighth" in got and "[0.125]" not in got,
            "a default that's explained isn't repeated")
    e.cover('done')


def scripts(e, cfg):
    """
    Something to run if called as a script.
    """
    w = e.world
    w.quiet()
    args = w.load('ade.args').Args("Some text")
    args('-n', '--number', 1, "Some help")
    called = []
    def f():
        called.append(args.n)
        return 5
    f.__module__ = ['__main__', 'ade.something'][e.choose(2, 'module')]
    with commandLine('-n', '3'): r = args(f)
    if f.__module__ == '__main__':
        e.check(called == [3] and r == 5, "it's called as a script")
        e.cover('called')
    else:
        e.check(called == [], "it isn't called when imported")
        e.cover('not')


class Loaded(object):
    def __init__(self, a):
        self.history = self
        self.a = a


def viewer(e, cfg):
    """
    The script with a choice of its options.
    """
    N, Nd = cfg['N'], cfg['Nd']
    pairs = cfg.get('pairs')
    # Correlations aren't symbolic
    D = Data(e, cfg, None if not pairs else value(e, cfg))
    w = e.world
    Population = w.load('ade.population').Population
    paths = []
    def load(path, *args, **kw):
        paths.append(path)
        return Loaded(D.a)
    Population.load = staticmethod(load)
    pv = w.load('ade.scripts.pv')
    words = ['~/some.dat']
    names = cfg.get('names', [])
    words += names
    ratio = cfg.get('ratio')
    if ratio: words += ['-r', str(ratio)]
    inPop = ratio and e.choose(2, 'inPop')
    if inPop: words.append('-i')
    if e.choose(2, 'verbose'): words.append('--verbose')
    if cfg.get('dims'): words += ['--dims', cfg['dims']]
    if pairs: words += ['-N', str(pairs)]
    path = cfg.get('path')
    if path: words += ['-f', path]
    if e.choose(2, 'last'): words = words[1+len(names):] + words[:1+len(names)]
    if ratio:
        for s, v in D.rows:
            x = s - ratio*D.rows[0][0]
            e.assume(Or(x > 1e-6, x < -1e-6))
    with commandLine(*words):
        try: pv.main()
        except RuntimeError:
            e.check(not D.Plotter.figures,
                    "only refused if there's nothing to plot")
            e.check(not ratio and (not pairs or Nd < 2),
                    "it's done if a plot is asked for")
            e.cover('refused')
            return
    e.check(paths == [os.path.expanduser('~/some.dat')],
            "the file specified is loaded")
    figs = list(D.Plotter.figures)
    e.check(sum(x.shown for x in figs) == 1, "all are shown, once")
    if path:
        files = [x.kw.get('filePath') for x in figs]
        e.check(files[0] == path and len(set(files)) == len(files) and
                None not in files, "each in a file of its own")
    else: e.check(not any('filePath' in x.kw for x in figs), "in windows")
    if cfg.get('dims'):
        size = [float(x)/100 for x in cfg['dims'].split('x')]
        for x in figs:
            e.check(x.kw.get('width') == size[0], "as wide as specified")
            if size[1:]: e.check(x.kw.get('height') == size[1], "as high, too")
    if ratio:
        subs = []
        want = names or sorted(D.names)
        while figs and len(subs) < len(want): subs += figs.pop(0).subs
        e.check([x['title'] for x in subs] == want,
                "the values of each parameter asked for")
        for x in subs:
            c = D.names.index(x['title'])
            e.check(len(x['curves']) == (1 if inPop else 3),
                    "members only, if asked for")
            for g in 'p' if inPop else 'pfn':
                rows = [(s, v[c]) for (s, v), gg in zip(D.rows, D.groups)
                        if g == gg and bool(s < ratio*D.rows[0][0])]
                found = [
                    And(same_vec(X, [r[0] for r in rows]),
                        same_vec(Y, [r[1] for r in rows]))
                    for X, Y in x['curves'] if len(X) == len(Y) == len(rows)]
                e.check(Or(*found) if found else False,
                        "the records within the ratio, by group")
        e.cover('values')
    if pairs and Nd > 1:
        R = {}
        for a, x in enumerate(D.names):
            for y in D.names[a+1:]:
                R[x, y] = corr(D.column(x)[1], D.column(y)[1])
        best = sorted(R, key=lambda xy: -abs(R[xy]))
        e.check(len(figs) == max(1, len(names)),
                "a figure of correlations, or one for each parameter")
        for fig, name in zip(figs, names or [None]):
            want = [xy for xy in best if name is None or name in xy][:pairs]
            e.check([(x['xlabel'], x['ylabel']) for x in fig.subs] == want,
                    "the most correlated pairs of parameters")
        e.cover('pairs')
    else: e.check(not figs, "nothing else")
    e.cover('done')


def nothing(e, cfg):
    """
    No file specified.
    """
    e.world.quiet()
    pv = e.world.load('ade.scripts.pv')
    def load(*args, **kw): e.fail("nothing is loaded")
    e.world.load('ade.population').Population.load = staticmethod(load)
    with commandLine(*[[], ['-r', '2'], ['-N', '4', '-i']][
            e.choose(3, 'which')]):
        try: pv.main()
        except RuntimeError: e.cover('refused')
        else: e.fail("refused without a file")


HARNESSES = [
    Harness(options, quick=[
        dict(which='nf', N=0), dict(which='Xt', N=1), dict(which='nX', N=2),
        dict(which='tfF', N=2), dict(which='ntf', N=0, positional=False)],
            thorough=[dict(which='nXtf', N=2)],
            covers=['things', 'nothing'],
            bounds="up to 3 of 3 options and 2 flags (4 thorough) given in any "
            "of 3 ways with any of 3 values, up to 2 positional arguments"),
    Harness(bad, quick=[dict()], covers=['done'], bounds="6 command lines"),
    Harness(helps, quick=[dict()], covers=['done'],
            bounds="1-3 paragraphs of text, 4 options"),
    Harness(scripts, quick=[dict()], covers=['called', 'not'], bounds="none"),
    Harness(viewer, quick=[
        dict(N=3, Nd=2, ratio=3), dict(N=4, Nd=3, ratio=2.5, names=['d', 'a']),
        dict(N=3, Nd=2, ratio=2, path='/tmp/x/p.png'),
        dict(N=3, Nd=8, ratio=3, path='q.png'),
        dict(N=3, Nd=1, ratio=3, dims='1200'),
        dict(N=6, Nd=3, pairs=2), dict(N=6, Nd=3, pairs=4),
        dict(N=5, Nd=3, pairs=1, names=['a', 'd'], path='p.png'),
        dict(N=5, Nd=2, pairs=4, dims='1200x800'),
        dict(N=5, Nd=3, pairs=2, ratio=3.5, names=['c']),
        dict(N=5, Nd=2, pairs=2, ratio=2.25, path='p.png'),
        dict(N=5, Nd=2, pairs=1, dims='800x600', path='p.png'),
        dict(N=5, Nd=1, pairs=2, ratio=2.25), dict(N=5, Nd=1, pairs=3),
        dict(N=3, Nd=2)],
            thorough=[
        dict(N=5, Nd=2, ratio=4), dict(N=7, Nd=4, pairs=4, names=['b']),
        dict(N=6, Nd=4, pairs=3, ratio=2.75, names=['b', 'c'])],
            covers=['values', 'pairs', 'refused', 'done'],
            bounds="3-6 records (7 thorough) of 1-8 parameters, any fitness "
            "and values (3 kinds of relation of each for correlations)"),
    Harness(nothing, quick=[dict()], covers=['refused'],
            bounds="3 command lines"),
]
