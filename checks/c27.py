"""
C27: Messages are logged completely, in order, and without raising.
"""
import sys

from .common import *


class Handle(object):
    """
    Something to log to that may fail.
    """
    def __init__(self, e, faulty=()):
        self.e, self.faulty = e, faulty
        self.text = self.flushed = ""
        self.closed = False
        self.broken = False

    def fault(self, what):
        if self.broken or (what in self.faulty and
                           self.e.choose(2, what + 'fails')):
            self.broken = True
            raise OSError("No space left on device")

    def write(self, x):
        if self.closed: raise ValueError("I/O operation on closed file")
        self.fault('write')
        self.text += x

    def flush(self):
        if self.closed: raise ValueError("I/O operation on closed file")
        self.fault('flush')
        self.flushed = self.text

    def close(self):
        self.closed = True
        self.fault('close')


DASHES = "-"*120
# What to call, and what is to be written for it
LINES = {
    'plain':    (("Some text",), "Some text\n"),
    'braces':   (("Some {}",), "Some {}\n"),
    'short':    (("Hi",), "Hi\n"),
    'empty':    (("Got {}.", ''), "Got .\n"),
    'one':      (("Got {:d} of it", 7), "Got 7 of it\n"),
    'two':      (("{}, {}", 'x', 'y'), "x, y\n"),
    'chararg':  (("Is {}", '-'), "Is -\n"),
    'zeroarg':  (("Is {}", 0), "Is 0\n"),
    'before':   ((0, "Some text"), "\nSome text\n"),
    'before1':  ((-1, "Some text"), "\nSome text\n"),
    'beforeA':  ((-1, "{} and {}", 1, 2), "\n1 and 2\n"),
    'beforeB':  ((0, "{} and {}", 1, 2), "\n1 and 2\n"),
    'after':    (("Some text", 0), "Some text\n\n"),
    'after1':   (("Some text", -1), "Some text\n\n"),
    'afterA':   (("{}/{}", 0, -1, -1), "0/-1\n\n"),
    'dash':     (('-',), "\n" + DASHES + "\n"),
    'dashes':   (('-', "Some {}", 'text'), "\n" + DASHES + "\nSome text\n"),
    'under':    (("Some {}", 'text', '-'), "Some text\n" + DASHES + "\n"),
    'underA':   ((0, "Some {}", '-', '-'), "\nSome -\n" + DASHES + "\n"),
    'both':     (('-', "Some text", '-'),
                 "\n" + DASHES + "\nSome text\n" + DASHES + "\n"),
    'numdash':  ((-1, '-', "Some text"), "\n\n" + DASHES + "\nSome text\n"),
}


class Session(object):
    """
    Keeps track of what ought to have been written.
    """
    def __init__(self, e):
        self.e = e
        self.u = e.world.load('ade.util')
        self.msg = self.u.Messenger()
        self.fh = None
        self.expected = {}
        self.needed = False
        self.lines = 0
        # The lines written via a failing handle may or may not be there
        self.off = set()
        self.doubtful = False

    def handle(self, faulty=()):
        h = Handle(self.e, faulty)
        self.expected[h] = ""
        return h

    def select(self, fh, arg=None):
        prev = self.fh
        r = self.msg(fh if arg is None else arg[0])
        self.fh = fh
        self.e.check(r is prev, "selecting a handle gives the previous one")
        self.present()

    def present(self):
        if self.fh is not None and self.fh.broken:
            self.off.add(self.fh)
            self.fh = None
        self.e.check(self.msg() is self.fh,
                     "logging goes to the selected handle, unless it failed")
        self.e.check(bool(self.msg) == (self.fh is not None),
                     "it's on exactly if there is one")

    def wrote(self, text, line):
        if self.fh is None: return
        if line:
            if self.needed: text = "\n" + text
            self.needed = False
            self.lines += 1
        else: self.needed = True
        self.expected[self.fh] += text
        if self.fh.broken: self.doubtful = True

    def line(self, name):
        args, text = LINES[name]
        fh = self.fh
        r = self.msg(*args)
        self.wrote(text, True)
        self.present()
        if self.fh is fh:
            self.e.check(r is fh, "the present handle is returned")
        self.look()

    def rawLine(self, text):
        self.msg.writeLine(text)
        self.wrote(text + "\n", True)
        self.present()
        self.look()

    def char(self, c, raw=False):
        if raw: self.msg.writeChar(c)
        else: self.msg(c)
        self.wrote(c, False)
        self.present()
        self.look()

    def asked(self):
        got = self.msg.lineWritten()
        if self.doubtful:
            self.doubtful = False
            self.lines = 0
            return
        self.e.check(bool(got) == (self.lines > 0),
                     "whether a line was written since last asked")
        self.e.cover('line' if self.lines else 'noline')
        self.lines = 0

    def look(self):
        for h, text in self.expected.items():
            if h in self.off:
                self.e.check(text.startswith(h.text),
                             "what got written before the failure is right")
                self.e.cover('failed')
            else:
                self.e.check(h.text == text, "what is written is right")
                self.e.check(h.flushed == text, "and it's there right away")


def calls(e, cfg):
    """
    Any sequence of messages and characters.
    """
    S = Session(e)
    if cfg.get('on', True): S.select(S.handle())
    for n in range(cfg['N']):
        what = cfg['what'][e.choose(len(cfg['what']), 'what')]
        if what == 'char': S.char('*')
        elif what.startswith('char '): S.char(what[-1])
        elif what == 'rawchar': S.char('+', True)
        elif what == 'rawline': S.rawLine("A raw {}")
        elif what == 'asked': S.asked()
        else: S.line(what)
    S.asked()
    S.asked()
    e.cover('done')


def handles(e, cfg):
    """
    Messages while the handle gets changed.
    """
    S = Session(e)
    stdout = sys.stdout
    try:
        sys.stdout = out = S.handle()
        hs = [S.handle(), S.handle()]
        S.select(None)
        for n in range(cfg['N']):
            k = e.choose(5, 'which')
            prev = S.fh
            if k < 2:
                # Never use a handle after it's been closed
                if hs[k].closed: hs[k] = S.handle()
                S.select(hs[k])
            elif k == 2: S.select(out, (True,))
            elif k == 3: S.select(None, (False,))
            else: S.select(None, (None,))
            e.check(not out.closed, "standard output isn't closed")
            if prev not in (None, out, S.fh):
                e.check(prev.closed, "a handle no longer used is closed")
            if S.fh is not None:
                e.check(not S.fh.closed, "the one in use isn't")
            S.line('one')
            if S.fh is None: e.cover('off')
            elif S.fh is out: e.cover('stdout')
            else: e.cover('on')
            if cfg.get('both'):
                fh = S.handle()
                prev, S.fh = S.fh, fh
                S.msg(fh, "Also {}", 'this')
                S.wrote("Also this\n", True)
                S.present()
                S.look()
    finally: sys.stdout = stdout


def faults(e, cfg):
    """
    A handle that fails at any time.
    """
    S = Session(e)
    S.select(S.handle(cfg['faulty']))
    for n in range(cfg['N']):
        k = e.choose(2, 'what')
        if k: S.char('*')
        else: S.line('before1')
    S.asked()
    if cfg.get('another'):
        # There may be a newline first
        S.needed = False
        fh = S.handle()
        S.select(fh)
        S.msg("Got {:d} of it", 7)
        e.check(fh.text in ("Got 7 of it\n", "\nGot 7 of it\n"),
                "another handle is used like the first one")
    e.cover('done')


def progress(e, cfg):
    """
    Progress characters don't get lost, and lines of them don't get long.
    """
    P = Pop(e, 2, 1, Evaluator(e), SSE=lambda k: 1.0+k,
            values=lambda k: [0.1*k])
    w = e.world
    rep = w.load('ade.report').Reporter(P.p)
    rep.pm.maxLineLength = cfg['M']
    fh = Handle(e)
    w.load('ade.util').msg(fh)
    syms = ""
    for n in range(cfg['N']):
        if e.choose(2, 'reset'):
            rep.progressChar()
            e.check(not syms or fh.text.endswith('\n'),
                    "a new line is started on request")
            e.cover('reset')
            continue
        sym = 'ab'[n % 2]
        rep.progressChar(sym)
        syms += sym
    w.load('ade.util').msg(None)
    e.check(fh.text.replace('\n', '') == syms, "all characters are there")
    e.check(all(len(x) <= cfg['M'] for x in fh.text.split('\n')),
            "no line is longer than the maximum")
    e.check('\n\n' not in fh.text, "no line is empty")
    e.cover('done')


HARNESSES = [
    Harness(calls, quick=[
        dict(N=1, what=sorted(LINES)),
        dict(N=2, what=['char'] + sorted(LINES)),
        dict(N=2, what=['char .', 'char >', 'char 0', 'char {', 'char  ',
                        'short']),
        dict(N=4, what=['char', 'rawchar', 'rawline', 'asked', 'before']),
        dict(N=3, what=['char', 'rawchar', 'rawline', 'asked', 'beforeB'],
             on=False)],
            thorough=[
        dict(N=3, what=['char', 'asked'] + sorted(LINES)),
        dict(N=5, what=['char', 'rawline', 'asked', 'before', 'dash'])],
            covers=['line', 'noline', 'done'],
            bounds="all sequences of up to 2 of 27 kinds of messages, 4 of 5 "
            "kinds"),
    Harness(handles, quick=[dict(N=3), dict(N=2, both=True)],
            thorough=[dict(N=4), dict(N=3, both=True)],
            covers=['off', 'on', 'stdout'],
            bounds="up to 3 changes of the handle (4 thorough)"),
    Harness(faults, quick=[
        dict(N=3, faulty=['write']), dict(N=2, faulty=['write', 'flush']),
        dict(N=2, faulty=['write', 'close'], another=True),
        dict(N=2, faulty=['flush'], another=True)],
            thorough=[dict(N=3, faulty=['write', 'flush', 'close'],
                           another=True)],
            covers=['failed', 'done'],
            bounds="2-3 messages to a handle whose every operation may fail"),
    Harness(progress, quick=[dict(N=6, M=3), dict(N=5, M=1), dict(N=6, M=40)],
            thorough=[dict(N=9, M=4)], covers=['reset', 'done'],
            bounds="up to 6 characters (9 thorough)"),
]
