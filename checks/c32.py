"""
C32: The image viewer runs one viewer per image, properly invoked.

Nothing is really run, watched, or signalled: processes, notifications
and process lookups are stand-ins, and files are in a scratch directory.
"""
import os, tempfile

from .common import *


class INotify(object):
    """
    Keeps who is to be notified of what.
    """
    made = None
    def __init__(self, *args, **kw):
        self.callbacks = []
        self.active = False
        self.lost = False
        self.made.append(self)
    def startReading(self): self.active = True
    def watch(self, path, mask=None, autoAdd=False, callbacks=None,
              recursive=False):
        self.path = path
        self.callbacks += callbacks or []
    def loseConnection(self): self.lost = True
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return lambda *args, **kw: None


class Stubs(object):
    INotify = INotify
    IN_MODIFY = 2
    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        return 0


class Transport(object):
    def __init__(self, pid):
        self.pid = pid
        self.signals = []
    def signalProcess(self, x): self.signals.append(x)
    def loseConnection(self): pass


class Viewing(object):
    """
    A directory with an image and some viewers.
    """
    def __init__(self, e, cfg, where):
        self.e, self.where = e, where
        w = e.world
        class Notifier(INotify): made = []
        class Stub(Stubs): pass
        Stub.INotify = Notifier
        self.notifiers = Notifier.made
        w.overrides[('twisted.internet', 'inotify')] = Stub()
        u = w.load('ade.util')
        u.msg(None)
        self.image = w.load('ade.image')
        self.path = os.path.join(where, 'plot.png')
        self.viewers, self.present = [], []
        for k in range(cfg['viewers']):
            path = os.path.join(where, 'viewer%d' % k)
            if e.choose(2, 'present'):
                with open(path, 'w'): pass
                self.present.append(k)
            self.viewers.append(
                [path] + [["--plain"], ["--title={}", "-x"],
                          ["-a", "{}", "-b{}c"]][k])
        self.spawned = []
        self.running = set()
        self.looked = []

    def spawn(self, proto, executable, args=(), env=None, path=None, **kw):
        t = Transport(1000 + 7*len(self.spawned))
        self.spawned.append(
            dict(proto=proto, executable=executable, args=list(args),
                 transport=t))
        self.running.add(t.pid)
        return t

    def getsid(self, pid):
        self.looked.append(pid)
        if pid in self.running: return pid
        raise ProcessLookupError("No such process")

    def kill(self, pid, sig):
        # Looking for a process only
        self.e.check(sig == 0, "no process is killed")
        self.getsid(pid)

    def viewer(self, **kw):
        cls = self.image.ImageViewer
        cls.exList = [list(x) for x in self.viewers]
        return cls(self.path, **kw)

    def notify(self):
        """The image changed."""
        with open(self.path, 'w') as fh: fh.write('x')
        for x in list(self.notifiers):
            if not x.active or x.lost: continue
            for f in list(x.callbacks): f(None, x.path, 2)

    def invocation(self, k):
        name = os.path.basename(self.path)
        path = self.viewers[k][0]
        args = [x.replace('{}', name) for x in self.viewers[k][1:]]
        return path, [os.path.basename(path)] + args + [self.path]

    def check(self, n, k):
        """The n-th process spawned is of the k-th viewer."""
        x = self.spawned[n]
        path, args = self.invocation(k)
        self.e.check(x['executable'] == path, "the right program is run")
        self.e.check(x['args'] == args, "with its arguments and the image")
        with open(self.path + '.pid') as fh:
            self.e.check(fh.read().strip() == str(x['transport'].pid),
                         "its process ID is recorded")

    def end(self, n, stderr=()):
        """The n-th process spawned ends."""
        x = self.spawned[n]
        x['proto'].childDataReceived(1, b"Some output")
        for data in stderr: x['proto'].childDataReceived(2, data)
        self.running.discard(x['transport'].pid)
        x['transport'].pid = None
        x['proto'].processEnded(None)


def within(f):
    """
    Runs a harness with everything replaced that concerns processes.
    """
    def harness(e, cfg):
        r = e.world.reactor
        getsid, kill, killpg = os.getsid, os.kill, os.killpg
        with tempfile.TemporaryDirectory(
                dir=os.path.dirname(scratch('x'))) as where:
            V = Viewing(e, cfg, where)
            try:
                r.spawnProcess = V.spawn
                os.getsid, os.kill, os.killpg = V.getsid, V.kill, V.kill
                f(e, cfg, V)
            finally:
                os.getsid, os.kill, os.killpg = getsid, kill, killpg
                del r.spawnProcess
    harness.__name__ = f.__name__
    harness.__doc__ = f.__doc__
    return harness


class Log(object):
    def __init__(self): self.text = ""
    def write(self, x): self.text += x
    def flush(self): pass
    def close(self): pass


@within
def started(e, cfg, V):
    """
    From the first change of an image until a viewer works.
    """
    if e.choose(2, 'exists'):
        with open(V.path, 'w') as fh: fh.write("An image")
        text = "An image"
    else: text = ""
    silent = bool(e.choose(2, 'silent'))
    log = Log()
    V.image.msg(log)
    iv = V.viewer(noComplain=silent)
    with open(V.path) as fh:
        e.check(fh.read() == text, "there is an image, as it was if there was")
    e.check(not V.spawned, "no viewer until the image changes")
    V.notify()
    tried = 0
    works = False
    for k in V.present:
        e.check(len(V.spawned) == tried + 1, "one viewer at a time")
        V.check(tried, k)
        # Nothing more as long as it runs
        V.notify()
        e.check(len(V.spawned) == tried + 1, "just one for an image")
        tried += 1
        bad = e.choose(2, 'fails')
        V.end(tried-1, [b"Can't open display", b"!"] if bad else [])
        if not bad:
            works = True
            break
        e.cover('failed')
    e.check(len(V.spawned) == tried, "others are tried after a failure only")
    n = log.text.count("Error launching")
    e.check(n == (0 if silent else tried - works), "a complaint per failure")
    n = log.text.count("No image viewer found")
    e.check(n == (0 if silent or works else 1), "a complaint if none works")
    if silent: e.check(log.text == "", "no complaints, if not wanted")
    e.cover('works' if works else 'none')


@within
def again(e, cfg, V):
    """
    With a process ID left from another time.
    """
    left = ['', 'x', '4321', ' 4321\n', None][e.choose(5, 'left')]
    if left is not None:
        with open(V.path + '.pid', 'w') as fh: fh.write(left)
    running = bool(e.choose(2, 'running'))
    if running: V.running.add(4321)
    iv = V.viewer(noComplain=True)
    there = running and left is not None and '4321' in left
    e.check(bool(iv.processRunning()) == there,
            "whether the process recorded is running")
    V.notify()
    if there:
        e.check(not V.spawned, "the viewer still there is used")
        with open(V.path + '.pid') as fh:
            e.check(fh.read() == left, "it's still the one recorded")
        # Perhaps it ends, then
        V.running.clear()
        V.notify()
        e.cover('there')
    e.check(len(V.spawned) == bool(V.present), "one is started otherwise")
    if V.present: V.check(0, V.present[0])
    # Another one for the same image
    N = len(V.spawned)
    iv2 = V.viewer(noComplain=True)
    V.notify()
    e.check(len(V.spawned) == N, "none but one for the same image")
    e.cover('done')


@within
def ended(e, cfg, V):
    """
    Ending the viewer.
    """
    iv = V.viewer(noComplain=True)
    iv.termViewer()
    def shutdown():
        for key, (f, args, kw) in list(e.world.reactor.triggers.items()):
            if key[:2] == ('before', 'shutdown'): f(*args, **kw)
        e.check(all(x.lost for x in V.notifiers),
                "nothing is watched after shutdown")
    if e.choose(2, 'early'):
        shutdown()
        V.notify()
        e.check(not V.spawned, "nothing is run after shutdown")
        return e.cover('early')
    V.notify()
    if not V.present: return
    t = V.spawned[0]['transport']
    over = e.choose(2, 'over')
    if over: V.end(0)
    iv.termViewer()
    e.check(t.signals == ([] if over else ['TERM']),
            "it's terminated unless it has ended")
    iv.termViewer()
    e.check(len(t.signals) == (0 if over else 1), "once")
    shutdown()
    e.cover('over' if over else 'terminated')


HARNESSES = [
    Harness(started, quick=[
        dict(viewers=1), dict(viewers=2), dict(viewers=3)],
            covers=['works', 'none', 'failed'],
            bounds="up to 3 viewers, any of them present, any of them failing"),
    Harness(again, quick=[dict(viewers=1), dict(viewers=2)],
            covers=['there', 'done'],
            bounds="5 contents of the file with the process ID, running or not"),
    Harness(ended, quick=[dict(viewers=1)], covers=['over', 'terminated'],
            bounds="ended or not"),
]
