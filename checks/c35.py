"""
C35: Extracting the examples never overwrites anything.

The home directory is a scratch directory, as is the current one.
"""
import os, shutil, warnings

from .common import *


def names(sDir):
    """
    Names of what's to be extracted.
    """
    return [x for x in sorted(os.listdir(sDir))
            if x[0].islower() and x.endswith(('.py', '.c'))]


def contents(path):
    result = {}
    for name in os.listdir(path):
        x = os.path.join(path, name)
        if os.path.isdir(x): result[name] = contents(x)
        else:
            with open(x, 'rb') as fh: result[name] = fh.read()
    return result


def extract(e, cfg):
    """
    Any of the files may be there already, others too.
    """
    w = e.world
    w.quiet()
    home, cwd = scratch('home'), os.getcwd()
    for x in (home, home+'-cwd'):
        shutil.rmtree(x, ignore_errors=True)
        os.makedirs(x)
    env = os.environ.get('HOME')
    os.environ['HOME'] = home
    os.chdir(home+'-cwd')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod = w.load('ade.scripts.examples')
        run(e, mod, home)
        e.check(not os.listdir(home+'-cwd'), "nothing elsewhere")
    finally:
        os.chdir(cwd)
        if env is None: del os.environ['HOME']
        else: os.environ['HOME'] = env


def run(e, mod, home):
    import ade
    sDir = os.path.join(os.path.dirname(ade.__file__), 'examples')
    known = names(sDir)
    e.check(known, "there are examples")
    eDir = os.path.join(home, 'ade-examples')
    before = {}
    if e.choose(2, 'directory'):
        os.mkdir(eDir)
        # Older or newer than the examples, or whatever
        age = (None, 1e9, 4e9)[e.choose(3, 'age')]
        for k, name in enumerate(known + ['own.py']):
            if not e.choose(2, 'exists%d' % k): continue
            # Empty, or as is, or modified
            text = b""
            if k % 3 and name in known:
                with open(os.path.join(sDir, name), 'rb') as fh:
                    text = fh.read()
                if k % 3 == 1: text = text[:100] + b"#"
            before[name] = text
            path = os.path.join(eDir, name)
            with open(path, 'wb') as fh: fh.write(text)
            if age: os.utime(path, (age, age))
        e.cover('exists')
    else: e.cover('none')
    for _ in range(2):
        mod.extract()
        e.check(os.listdir(home) == ['ade-examples'], "nothing elsewhere")
        after = contents(eDir)
        for name, text in before.items():
            e.check(after.get(name) == text, "existing files are left alone")
        for name in known:
            e.check(name in after, "missing files are created")
            if name in before: continue
            with open(os.path.join(sDir, name), 'rb') as fh:
                e.check(after[name] == fh.read(), "they are true copies")
        for name in after:
            e.check(name in before or os.path.exists(
                os.path.join(sDir, name)), "nothing else is created")
        # Not again
        before = after
    # One of them gets restored
    name = known[e.choose(len(known), 'restore')]
    os.remove(os.path.join(eDir, name))
    mod.extract()
    after = contents(eDir)
    with open(os.path.join(sDir, name), 'rb') as fh: before[name] = fh.read()
    e.check(after == before, "a deleted file is restored, nothing else")
    e.cover('restored')


HARNESSES = [
    Harness(extract, quick=[{}], covers=['exists', 'none', 'restored'],
            bounds="any of the example files there already"),
]

ASSUMPTIONS = [
    "no other process writes to the directory meanwhile",
]
