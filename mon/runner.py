"""Runs the cases of a property on all cores, writes evidence and the verdict."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """What the monitors of one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.calls = 0          # monitored calls into the library
        self.counts = {}
        self.sigs = set()
        self.sets = {}
        self.samples = []
        self.known = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def nontrivial(self, signature):
        self.sigs.add(signature if isinstance(signature, int) else hash(signature))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text if len(text) < 600 else text[:600] + '...')

    def is_known(self, kid):
        """Count a listed finding; False when the file does not list it."""
        if kid in KNOWN.get(self.prop, {}):
            self.known[kid] = self.known.get(kid, 0) + 1
            return True
        return False


def load_known():
    out = {}
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        for e in json.load(f)['findings']:
            out.setdefault(e['property'], {})[e['id']] = e
    return out


KNOWN = load_known()


def case_rng(seed, prop, idx):
    return random.Random('%d:%s:%d' % (seed, prop, idx))


HANG = 120  # seconds without an end of the case, spent inside the library


class Watchdog:
    """Interrupts a case which hangs inside the library, be it waiting or working."""

    def __init__(self):
        from .lib import REPO, Hung
        self.pre, self.hung = REPO + '/sqlparams', Hung
        self.ticks = 0
        signal.signal(signal.SIGALRM, self.tick)

    def tick(self, no, frame):
        while frame is not None and not frame.f_code.co_filename.startswith(self.pre):
            frame = frame.f_back
        self.ticks = self.ticks + 1 if frame is not None else 0
        if self.ticks >= 4:
            self.ticks = 0
            raise self.hung(''.join(traceback.format_stack(frame, 12)))

    def start(self):
        self.ticks = 0
        signal.setitimer(signal.ITIMER_REAL, HANG / 4, HANG / 4)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(prop, tier, seed, w, nw, n, deadline, stop, q, cover):
    from . import gen
    from .lib import Coverage, Hung, Skip, Violation
    mod = importlib.import_module('mon.props.' + prop.lower())
    cov = Coverage() if cover else None
    ctx = Ctx(prop, tier, seed)
    res = {'violation': None, 'error': None, 'done': 0, 'skipped': 0}
    dog = Watchdog()
    try:
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        for idx in range(w, n, nw):
            if time.monotonic() > deadline or (ctx.counts.get('_t', 0) & 15) == 0 and stop.is_set():
                break
            ctx.counts['_t'] = ctx.counts.get('_t', 0) + 1
            gen._uid = 0
            try:
                dog.start()
                mod.case(case_rng(seed, prop, idx), ctx)
                res['done'] += 1
            except Hung as h:
                res['violation'] = (idx, {'what': 'a call does not return (%d s)' % HANG, 'stack': str(h)[-3000:]})
                stop.set()
                break
            except Skip:
                res['skipped'] += 1
            except Violation as v:
                res['violation'] = (idx, v.args[0])
                stop.set()
                break
            except (MemoryError, OSError, KeyboardInterrupt):
                raise
            except Exception:
                # The oracles judge every well-formed result without an error.
                res['violation'] = (idx, {'what': 'the result is so malformed that the oracle fails on it',
                                          'oracle': traceback.format_exc()[-1500:]})
                stop.set()
                break
    except BaseException:
        res['error'] = traceback.format_exc()
        stop.set()
    dog.stop()
    ctx.counts.pop('_t', None)
    res.update(calls=ctx.calls, counts=ctx.counts, sigs=ctx.sigs, sets=ctx.sets,
               samples=ctx.samples, known=ctx.known, cov=cov.hit if cov else None)
    q.put(res)


def replay(prop, path):
    from . import gen
    from .lib import Skip, Violation
    d = json.load(open(path))
    mod = importlib.import_module('mon.props.' + prop.lower())
    ctx = Ctx(prop, d['tier'], d['seed'])
    if hasattr(mod, 'setup'):
        mod.setup(ctx)
    try:
        if d['case'] is None:
            mod.probes(ctx)
        else:
            gen._uid = 0
            mod.case(case_rng(d['seed'], prop, d['case']), ctx)
    except Violation as v:
        print(json.dumps(v.args[0], indent=1, ensure_ascii=False))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except Skip:
        print('case is skipped')
        return 2
    print('no violation')
    return 0


def run(prop, tier, seed):
    from .lib import Violation, src_lines
    t0 = time.monotonic()
    mod = importlib.import_module('mon.props.' + prop.lower())
    n = mod.QUICK if tier == 'quick' else mod.THOROUGH
    # On a busy machine the last cases take long.
    limit, grace = (240, 420) if tier == 'quick' else (700, 150)
    nw = max(2, min(8, os.cpu_count() or 2))
    deadline = t0 + limit

    violation = None
    pctx = Ctx(prop, tier, seed)
    out_known = []
    # Directed probes first: fixed defects, listed findings.
    try:
        if hasattr(mod, 'setup'):
            mod.setup(pctx)
        if hasattr(mod, 'probes'):
            mod.probes(pctx)
    except Violation as v:
        violation = (None, v.args[0])

    mp = multiprocessing.get_context('fork')
    results = []
    if violation is None:
        q, stop = mp.Queue(), mp.Event()
        ps = [mp.Process(target=worker, args=(prop, tier, seed, w, nw, n, deadline, stop, q,
                                              w == 0 and not getattr(mod, 'NO_COVERAGE', False)))
              for w in range(nw)]
        for p in ps:
            p.start()
        lost = False
        for _ in ps:
            while True:
                try:
                    results.append(q.get(timeout=5))
                    break
                except Exception:
                    if time.monotonic() > deadline + grace or not any(p.is_alive() for p in ps):
                        lost = True
                        break
            if lost:
                break
        for p in ps:
            if lost:
                p.kill()
            p.join()
        errors = [r['error'] for r in results if r['error']]
        found = sorted((r['violation'] for r in results if r['violation']), key=lambda v: v[0])
        if found:
            violation = found[0]
        elif errors:
            print('INCONCLUSIVE property=%s: the check itself failed\n%s' % (prop, errors[0]))
            return 2
        elif lost or len(results) != nw:
            print('INCONCLUSIVE property=%s: a worker gave no answer (after %.0f s; exit codes %s)' % (
                prop, time.monotonic() - t0, [p.exitcode for p in ps]))
            return 2

    # Merge.
    counts, sets, known, samples, sigs, cov = {}, {}, {}, [], set(), {}
    calls = pctx.calls
    for r in results:
        calls += r['calls']
        sigs |= r['sigs']
        samples += r['samples'][:1]
        for a, b in ((counts, r['counts']), (known, r['known'])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for k, v in r['sets'].items():
            sets.setdefault(k, set()).update(v)
        if r['cov']:
            cov = r['cov']
    for k, v in pctx.counts.items():
        counts[k] = counts.get(k, 0) + v
    for k, v in pctx.sets.items():
        sets.setdefault(k, set()).update(v)
    sigs |= pctx.sigs
    samples += pctx.samples
    done = sum(r['done'] for r in results)
    coverage = {
        'evaluations': calls,
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples[:5],
        'cases_judged': done,
        'cases_skipped_unspecified': sum(r['skipped'] for r in results),
        'monitor_counts': {k: counts[k] for k in sorted(counts)},
        'distinct_observed': {k: len(v) for k, v in sorted(sets.items())},
        'known_findings_met': known,
    }
    if cov:
        lines = src_lines()
        coverage['lines_of_package_executed'] = {
            os.path.basename(f): '%d/%d' % (len(cov.get(f, set()) & ls), len(ls)) for f, ls in lines.items() if ls}
        miss = {os.path.basename(f): sorted(ls - cov.get(f, set()))[:40] for f, ls in lines.items()}
        coverage['lines_not_executed_by_worker_0'] = {f: m for f, m in miss.items() if m}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': coverage,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'held on the executions counted here, nothing is claimed about others',
            'the reference reading in mon/ref.py is the documented meaning; what the documentation leaves open is skipped'],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        f.write('\n')

    if violation:
        idx, what = violation
        d = {'property': prop, 'tier': tier, 'seed': seed, 'case': idx, 'observed': what,
             'how': '/opt/venv/bin/python /verif/check.py %s --replay <this file>' % prop}
        text = json.dumps(d, indent=1, ensure_ascii=True, default=str)
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(text + '\n')
        print(text)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    floors = dict(getattr(mod, 'FLOORS', {}))
    bad = [k for k, v in floors.items() if counts.get(k, 0) < v]
    if bad or done < mod.QUICK // 20 or not sigs:
        print('INCONCLUSIVE property=%s: too little observed: %s, %d of %d cases' % (prop, {k: counts.get(k, 0) for k in bad}, done, n))
        return 2
    for kid, e in KNOWN.get(prop, {}).items():
        if getattr(pctx, 'probe_failed', {}).get(kid) or known.get(kid):
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, kid, e['what_fails']))
    print('HELD property=%s tier=%s seed=%d: %d monitored calls, %d distinct cases, %.1f s' % (
        prop, tier, seed, calls, len(sigs), ev['wall_s']))
    return 0
