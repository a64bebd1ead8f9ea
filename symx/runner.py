"""
Runs the checks of one property.

    python run.py C01 [--tier quick|thorough] [--replay FILE] [--only NAME]
"""
import concurrent.futures, importlib, json, multiprocessing, os, sys
import tempfile, time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N_PROC = int(os.environ.get('VERIF_PROCS', 0)) or min(8, os.cpu_count() or 1)


class Harness(object):
    """
    One harness: a function plus its configurations for each tier.

    @ivar covers: Names of reachability witnesses that must be seen.

    @ivar final: Called with a configuration all of whose paths have
        been explored and the witnesses reached in it, returns a list of
        messages about what turned out to be impossible but shouldn't.

    @ivar runs: The number of concrete runs that corroborate those.
    """
    def __init__(self, func, quick, thorough=None, covers=(), bounds="",
                 final=None, runs=3000):
        self.final = final
        self.runs = runs
        self.func = func
        self.name = func.__name__
        self._quick = quick
        self._thorough = thorough
        self.covers = covers
        self.bounds = bounds
    def cfgs(self, tier):
        if tier == 'thorough' and self._thorough is not None:
            return list(self._quick) + list(self._thorough)
        return list(self._quick)


def load(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + pid.lower())


_MOD = None

def _init(pid):
    global _MOD
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.stdout = open(os.devnull, 'w')
    if os.environ.get('VERIF_DEBUG') is None:
        sys.stderr = open(os.devnull, 'w')
    import gc
    gc.set_threshold(20000, 20, 50)
    _MOD = load(pid)
    gc.collect()
    gc.freeze()


def _work(hname, cfg, stack, deadline, slice_s, seed, stop_after):
    from . import engine, world
    st = engine.Stats()
    h = [x for x in _MOD.HARNESSES if x.name == hname][0]
    x = engine.Explorer(
        h.func, cfg, st, deadline, stack=stack, slice_s=slice_s, seed=seed,
        stop_after=stop_after, validate=1)
    try:
        confirmed = x.run()
        err = None
    except Exception:
        confirmed = x.confirmed
        err = traceback.format_exc()
    funcs = sorted(world.FUNCTIONS)
    world.FUNCTIONS.clear()
    return st.asdict(), confirmed, x.stack, x.samples, funcs, err


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path): return []
    with open(path) as fh: return json.load(fh)['known']


def match_known(known, pid, hname, v):
    for k in known:
        if k['property'] != pid or k['harness'] != hname: continue
        if k['message'] != v['message']: continue
        cfg = k.get('cfg', {})
        if any(v['cfg'].get(n) != cfg[n] for n in cfg): continue
        model = k.get('model', {})
        if any(v['model'].get(n) != model[n] for n in model): continue
        return k


def run(*args, **kw):
    """
    Runs the checks with a scratch directory that gets removed.
    """
    with tempfile.TemporaryDirectory(
            prefix='vade', ignore_cleanup_errors=True) as path:
        os.environ['VERIF_SCRATCH'] = path
        return _run(*args, **kw)


def _run(pid, tier, budget, only=None, verbose=False):
    from . import engine
    t0 = time.time()
    mod = load(pid)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deadline = t0 + budget
    known = known_findings()
    stop_after = 1 if not any(k['property'] == pid for k in known) else 20
    total = engine.Stats()
    per = {}
    queue = []
    for h in mod.HARNESSES:
        if only and h.name != only: continue
        for kc, cfg in enumerate(h.cfgs(tier)):
            queue.append((h.name, kc, cfg, [[]]))
            per[(h.name, kc)] = dict(
                cfg=cfg, paths=0, completed=0, asserts=0, solver_s=0.0,
                truncated=0, t=0.0)
    samples, funcs, violations, errors = [], set(), [], []
    ctx = multiprocessing.get_context('fork')
    pending = {}
    unfinished = {}
    with concurrent.futures.ProcessPoolExecutor(
            N_PROC, mp_context=ctx, initializer=_init, initargs=(pid,)) as ex:
        try:
            n = 0
            while queue or pending:
                while queue and len(pending) < N_PROC + 2:
                    hname, kc, cfg, stack = queue.pop(0)
                    if time.time() > deadline:
                        unfinished[(hname, kc)] = \
                            unfinished.get((hname, kc), 0) + len(stack)
                        continue
                    n += 1
                    f = ex.submit(
                        _work, hname, cfg, stack, deadline, 4.0, seed + n,
                        stop_after)
                    pending[f] = (hname, kc, cfg, time.time())
                if not pending: break
                done, _ = concurrent.futures.wait(
                    pending, timeout=5.0,
                    return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    hname, kc, cfg, ts = pending.pop(f)
                    std, confirmed, stack, smp, fns, err = f.result()
                    total.merge(std)
                    r = per[(hname, kc)]
                    for name in ('paths', 'completed', 'asserts', 'solver_s',
                                 'truncated', 'concretized'):
                        r[name] = r.get(name, 0) + std[name]
                    r['t'] += time.time() - ts
                    r.setdefault('cover', {}).update(std['cover'])
                    r.setdefault('messages', {}).update(std['messages'])
                    funcs.update(tuple(x) for x in fns)
                    if len(samples) < 8: samples += smp
                    if err: errors.append((hname, cfg, err))
                    for v in confirmed:
                        v['harness'] = hname
                        violations.append(v)
                    if stack:
                        # Share what's left, giving the shallow ones to others
                        if len(stack) > 1:
                            h1 = stack[::2]; h2 = stack[1::2]
                            queue.append((hname, kc, cfg, h1))
                            queue.append((hname, kc, cfg, h2))
                        else: queue.append((hname, kc, cfg, stack))
                new = [v for v in violations
                       if not match_known(known, pid, v['harness'], v)]
                if new:
                    for f in pending: f.cancel()
                    for p in list(ex._processes.values()): p.terminate()
                    break
                if errors:
                    for p in list(ex._processes.values()): p.terminate()
                    break
        except BaseException:
            for p in list((ex._processes or {}).values()): p.terminate()
            raise
    if not violations and not errors:
        violations += impossible(mod, per, unfinished, only)
    truncated = total.truncated + sum(unfinished.values())
    wall = time.time() - t0
    # Vacuity
    missing = []
    for h in mod.HARNESSES:
        if only and h.name != only: continue
        seen = {}
        for (hn, kc), r in per.items():
            if hn == h.name: seen.update(r.get('cover', {}))
        for c in h.covers:
            if c not in seen: missing.append(h.name + ": " + c)
    new = [v for v in violations
           if not match_known(known, pid, v['harness'], v)]
    old = [v for v in violations if v not in new]
    coverage = {
        'states': total.paths,
        'transitions': total.forks + total.paths,
        'traces_validated_against_impl': total.validated,
        'samples': samples[:6],
        'exhaustive': truncated == 0 and not total.concretized,
        'paths_completed': total.completed,
        'paths_concretized': total.concretized,
        'concretized_because': total.unsupported,
        'paths_infeasible_after_assumptions': total.infeasible,
        'truncated': truncated,
        'assertions': total.asserts,
        'assertions_discharged': total.discharged,
        'assertions_syntactically_true': total.trivial,
        'solver_queries': total.queries,
        'solver_unsat': total.unsat,
        'solver_sat': total.sat,
        'solver_unknown': total.unknown,
        'assertions_undecided': len(total.unknown_asserts),
        'solver_s': round(total.solver_s, 2),
        'not_reproduced': total.not_reproduced,
        'not_reproduced_messages': total.nonrep[:10],
        'functions_executed': sorted(
            "%s:%s" % f for f in funcs if not f[1].startswith('<')),
        'reached': total.cover,
        'assertion_kinds': total.messages,
        'harnesses': [
            dict(harness=k[0], bounds=next(
                h.bounds for h in mod.HARNESSES if h.name == k[0]),
                 cfg=r['cfg'], paths=r['paths'], assertions=r['asserts'],
                 solver_s=round(r['solver_s'], 2), cpu_s=round(r['t'], 2),
                 unexplored_prefixes=unfinished.get(k, 0) + r['truncated'])
            for k, r in per.items()],
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'coverage': coverage,
        'assumptions': COMMON + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if verbose:
        for k, r in per.items():
            print("  %-28s %-60s paths=%d asserts=%d solver=%.1f cpu=%.1f%s" % (
                k[0], json.dumps(r['cfg']), r['paths'], r['asserts'],
                r['solver_s'], r['t'],
                " UNFINISHED %d" % unfinished[k] if k in unfinished else ""))
        print("  reached:", total.cover)
        print("  asserted:", total.messages)
        if total.unsupported: print("  unsupported:", total.unsupported)
        if total.nonrep: print("  not reproduced:", total.nonrep)
    print("%s %s: paths=%d queries=%d assertions=%d discharged=%d "
          "validated=%d concretized=%d truncated=%d solver=%.1fs wall=%.1fs" % (
              pid, tier, total.paths, total.queries, total.asserts,
              total.discharged, total.validated, total.concretized,
              truncated, total.solver_s, wall))
    seen = set()
    for v in old:
        k = match_known(known, pid, v['harness'], v)
        if k['what'] in seen: continue
        seen.add(k['what'])
        print("KNOWN-FINDING: property=%s %s" % (pid, k['what']))
    if new:
        v = new[0]
        path = os.path.join(VERIF, 'evidence', pid + '.replay.json')
        with open(path, 'w') as fh:
            json.dump({
                'property': pid, 'harness': v['harness'], 'cfg': v['cfg'],
                'message': v['message'], 'model': v['model'],
                'traceback': v.get('traceback')}, fh, indent=1)
        print("  harness %s, cfg %s: %s" % (
            v['harness'], json.dumps(v['cfg']), v['message']))
        if v.get('traceback'): print(v['traceback'])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for hn, cfg, err in errors[:3]:
            print("ERROR in harness %s %s:\n%s" % (hn, json.dumps(cfg), err))
        return 3
    if total.unknown_asserts:
        print("INCONCLUSIVE: the solver gave no verdict on: %s" % (
            sorted(set(total.unknown_asserts))))
        # Some nonlinear ones may remain open, as the evidence shows
        if len(total.unknown_asserts) > 0.01*total.asserts: return 4
    if total.not_reproduced:
        print("INCONCLUSIVE: %d counterexample(s) not reproduced in doubles: %s"
              % (total.not_reproduced, sorted(set(total.nonrep))))
    if missing and not truncated:
        print("VACUOUS: never reached: %s" % ", ".join(missing))
        return 5
    if truncated:
        print("Note: %d decision prefixes were left unexplored within the "
              "time budget" % truncated)
    return 0


def impossible(mod, per, unfinished, only):
    """
    Violations in the form of something that no path reaches, though it
    should be possible. They are corroborated with concrete runs.
    """
    from . import engine
    out = []
    for (hn, kc), r in per.items():
        h = [x for x in mod.HARNESSES if x.name == hn][0]
        if h.final is None or (only and hn != only): continue
        if unfinished.get((hn, kc)) or r['truncated'] or r.get('concretized'):
            continue
        for msg in h.final(r['cfg'], set(r.get('cover', {}))):
            x = engine.Explorer(
                h.func, r['cfg'], engine.Stats(), time.time() + 100)
            if msg in h.final(r['cfg'], set(x.reachable(h.runs))):
                out.append({
                    'message': msg, 'model': {}, 'cfg': r['cfg'],
                    'harness': hn, 'final': True})
                return out
    return out


COMMON = [
    "numbers are extended reals: IEEE comparisons, NaN and infinities exact; "
    "finite arithmetic is not rounded and doesn't overflow",
    "random draws are arbitrary values within the documented range",
    "the reactor is deterministic; all asynchrony is scheduled by the harness",
]


def replay(path, verbose=True):
    """
    Replays a counterexample on the real code. Returns exit code 1 if it
    still violates the property.
    """
    from . import engine
    with open(path) as fh: d = json.load(fh)
    mod = load(d['property'])
    h = [x for x in mod.HARNESSES if x.name == d['harness']][0]
    x = engine.Explorer(h.func, d['cfg'], engine.Stats(), time.time() + 600)
    if h.final and d['message'] in h.final(d['cfg'], set(x.reachable(h.runs))):
        print("violated:", d['message'])
        print("VIOLATION property=%s replay=%s" % (d['property'], path))
        return 1
    c = x.conc(d['model'])
    if c is None:
        print("The replay doesn't satisfy the assumptions")
        return 2
    print("inputs:", json.dumps(c.used, default=str))
    if not c.violations:
        print("No violation")
        return 0
    for v in c.violations: print("violated:", v.message)
    if c.notes.get('traceback'): print(c.notes['traceback'])
    print("VIOLATION property=%s replay=%s" % (d['property'], path))
    return 1


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay: return replay(a.replay)
    budget = a.budget or (280 if a.tier == 'quick' else 780)
    return run(a.property, a.tier, budget, a.only, a.v)
