"""Runner: generates cases, executes the real code under monitors, decides.

A check module defines ID, TITLE-independent metadata and FAMILIES, a list of
Family objects.  One case is (family, index); all randomness of a case derives
from (property, family, VERIF_SEED, index), so a case is replayed exactly.
The monitor code in a family calls Ctx.require for every observation it
judges; a failed requirement is a violation with the case as replay."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, 'known-findings.txt')
CASE_CPU_LIMIT = 60       # CPU seconds; ordinary cases take milliseconds
MAX_VIOLATIONS = 5


class Hang(BaseException):
    pass


class Skip(Exception):
    """Case outside the domain of the property (counted, not judged)."""


class Family(object):
    def __init__(self, name, func, quick, thorough=None, doc=''):
        self.name = name
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else 20 * quick
        self.doc = doc or (func.__doc__ or '').strip().split('\n')[0]


class Ctx(object):
    def __init__(self, prop, family, seed, index, tier):
        import numpy as np
        self.prop, self.family, self.seed = prop, family, seed
        self.index, self.tier = index, tier
        h = hashlib.sha256(('%s/%s/%d/%d' % (prop, family, seed, index)).encode()).digest()
        self.rng = np.random.RandomState(np.frombuffer(h[:16], dtype='u4'))
        self.counts = {}
        self.keys = set()
        self.failures = []
        self.known = {}
        self.sample = None
        self.info = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def seen(self, *key):
        """Record a distinct, non-trivial situation that was observed."""
        self.keys.add(repr(key))

    def note(self, **kw):
        self.info.update(kw)

    def require(self, ok, kind, msg='', **data):
        self.count('judged:' + kind)
        if not ok:
            if len(self.failures) < 10:
                self.failures.append((kind, msg, {k: describe(v) for k, v in data.items()}))
        return bool(ok)

    def close(self, a, b, kind, rtol=1e-9, atol=1e-9, msg='', **data):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        ok = a.shape == b.shape
        err = None
        if ok and a.size:
            nan_ok = np.array_equal(np.isnan(a), np.isnan(b))
            with np.errstate(all='ignore'):
                d = np.abs(a - b)
                lim = atol + rtol * np.maximum(np.abs(a), np.abs(b))
                d = np.where(np.isnan(a) & np.isnan(b), 0, d)
                ok = nan_ok and bool(np.all((d <= lim) | (a == b) | (np.isnan(a) & np.isnan(b))))
                err = float(np.nanmax(d)) if d.size else 0.0
        return self.require(ok, kind, msg + ' (max difference %r)' % err,
                            got=a, expected=b, **data)

    def finding(self, fid, msg):
        """A defect that is expected to be listed in the known findings."""
        self.known.setdefault(fid, msg)


def describe(v):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            if v.size <= 60:
                return v.tolist()
            return {'shape': list(v.shape), 'head': v.ravel()[:20].tolist()}
        if isinstance(v, (np.floating, np.integer)):
            return v.item()
        json.dumps(v)
        return v
    except Exception:
        return repr(v)[:400]


# -- line coverage of the code under test (cheap: each line reported once) ---
_lines = set()
_funcs = set()


def _start_coverage(src):
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    tool = 4
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(src):
            _lines.add((os.path.basename(code.co_filename), line))
            _funcs.add('%s:%s' % (os.path.basename(code.co_filename)[:-3], code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def _on_alarm(signum, frame):
    raise Hang()


_check = None
_args = None


def run_case(fam_name, index, verbose=False):
    fam = {f.name: f for f in _check.FAMILIES}[fam_name]
    ctx = Ctx(_check.ID, fam_name, _args.seed, index, _args.tier)
    import numpy as np
    import warnings
    np.random.seed(12345)
    status = 'ok'
    error = None
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                fam.func(ctx)
    except Skip:
        status = 'skip'
    except Hang:
        ctx.require(False, 'returns-in-bounded-time',
                    'no result after %d CPU seconds (cases take milliseconds)' % CASE_CPU_LIMIT)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [t for t in tb if '/src/reor/' in t.filename]
        frame = where[-1] if where else tb[-1]
        ctx.require(False, 'no-unexpected-exception',
                    '%s: %s at %s:%d in %s' % (type(e).__name__, e, frame.filename,
                                               frame.lineno or 0, frame.name),
                    traceback=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return dict(family=fam_name, index=index, status=status, counts=ctx.counts,
                keys=list(ctx.keys), failures=ctx.failures, known=ctx.known,
                info={k: describe(v) for k, v in ctx.info.items()})


def _run_chunk(chunk):
    l0 = len(_lines)
    res = [run_case(f, i) for f, i in chunk]
    new = list(_lines) if len(_lines) > l0 else []
    return res, new, sorted(_funcs) if new else []


def load_known():
    """finding: property=<id> id=<fid> <description> / fixed: property=..."""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                prop = parts[1].split('=')[1]
                fid = parts[2].split('=')[1]
                out[(prop, fid)] = parts[3] if len(parts) > 3 else ''
    return out


def main(argv):
    global _check, _args
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    _args = args = ap.parse_args(argv)
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    t0 = time.time()
    try:
        from vlib import repo
        _check = importlib.import_module('checks.' + args.prop.lower())
    except Exception:
        traceback.print_exc()
        src = os.environ.get('VERIF_REPO', '/repo')
        if _args.prop and ('/src/reor/' in traceback.format_exc()):
            # The code under test cannot even be imported
            path = write_replay(args.prop, dict(property=args.prop, error='import failure',
                                                traceback=traceback.format_exc()))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
            return 1
        print('INCONCLUSIVE property=%s: harness could not be loaded' % args.prop)
        return 2
    _start_coverage(os.path.join(repo.SRC, 'reor'))

    if args.replay:
        rec = json.load(open(args.replay))
        args.seed, args.tier = rec['seed'], rec['tier']
        r = run_case(rec['family'], rec['index'])
        print(json.dumps(r, indent=1)[:20000])
        if r['failures']:
            print('VIOLATION property=%s replay=%s' % (args.prop, args.replay))
            return 1
        return 0

    fams = [f for f in _check.FAMILIES if not args.family or f.name == args.family]
    todo = []
    for f in fams:
        n = f.quick * getattr(_check, 'SCALE', 1) if args.tier == 'quick' else f.thorough
        n = max(1, int(round(n * args.scale)))
        todo.append([(f.name, i) for i in range(n)])
    # interleave the families so that early stopping sees all of them
    cases = []
    longest = max(len(t) for t in todo)
    pos = [0] * len(todo)
    for step in range(longest):
        for j, t in enumerate(todo):
            upto = (step + 1) * len(t) // longest
            cases.extend(t[pos[j]:upto])
            pos[j] = upto
    chunk_size = max(1, min(25, len(cases) // (args.jobs * 8) or 1))
    chunks = [cases[i:i + chunk_size] for i in range(0, len(cases), chunk_size)]

    budget = 780.0 if args.tier == 'quick' else float(os.environ.get('VERIF_BUDGET', '3600'))
    counts, keys, per_family = {}, set(), {}
    failures, known, samples, lines, funcs = [], {}, [], set(), set()
    evaluations = skipped = 0
    timed_out = False

    def absorb(out):
        nonlocal evaluations, skipped
        res, new, fn = out
        lines.update(tuple(x) for x in new)
        funcs.update(fn)
        for r in res:
            if r['status'] == 'skip':
                skipped += 1
                continue
            evaluations += 1
            per_family[r['family']] = per_family.get(r['family'], 0) + 1
            for k, v in r['counts'].items():
                counts[k] = counts.get(k, 0) + v
            for k in r['keys']:
                keys.add((r['family'], k))
            for k, v in r['known'].items():
                known.setdefault(k, (v, r['family'], r['index']))
            if r['failures']:
                failures.append(r)
            elif r['info'] and sum(1 for s in samples if s['family'] == r['family']) < 2:
                samples.append(dict(family=r['family'], index=r['index'], **r['info']))

    if args.jobs <= 1:
        for c in chunks:
            absorb(_run_chunk(c))
            if len(failures) >= MAX_VIOLATIONS or time.time() - t0 > budget:
                break
    else:
        mp = multiprocessing.get_context('fork')
        pool = mp.Pool(args.jobs)
        try:
            it = pool.imap_unordered(_run_chunk, chunks)
            for _ in range(len(chunks)):
                try:
                    absorb(it.next(timeout=max(1.0, budget - (time.time() - t0))))
                except multiprocessing.TimeoutError:
                    timed_out = True
                    break
                if len(failures) >= MAX_VIOLATIONS:
                    break
        finally:
            pool.terminate()
            pool.join()

    listed = load_known()
    unlisted = []
    for fid, (msg, fam, idx) in sorted(known.items()):
        if (args.prop, fid) in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (args.prop, fid, listed[(args.prop, fid)]))
        else:
            unlisted.append(dict(family=fam, index=idx, failures=[('unlisted-finding', fid + ': ' + msg, {})]))
    for (prop, fid), desc in sorted(listed.items()):
        if prop == args.prop and fid not in known:
            print('note: listed finding %s of %s was not observed in this run' % (fid, prop))
    failures.extend(unlisted)

    wall = time.time() - t0
    judged = {k[7:]: v for k, v in counts.items() if k.startswith('judged:')}
    other = {k: v for k, v in counts.items() if not k.startswith('judged:')}
    required = getattr(_check, 'REQUIRED', {})
    missing = [k for k in required if judged.get(k, 0) + other.get(k, 0) == 0]
    failed_families = [f.name for f in fams if per_family.get(f.name, 0) == 0]
    inconclusive = bool(missing or failed_families or timed_out) and not args.family

    evidence = dict(
        property=args.prop, tier=args.tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys),
            rule=_check.RULE, samples=samples[:12] or [dict(note='no sample')],
            cases_per_family=per_family, observations_judged=judged,
            events_observed=other, skipped_outside_domain=skipped,
            lines_of_reor_executed=len(lines), functions_of_reor_executed=len(funcs),
            functions=sorted(funcs)),
        assumptions=getattr(_check, 'ASSUMPTIONS', []) + [
            'holds on the executions observed in this run only (runtime monitoring)'],
        wall_s=round(wall, 3), violations=len(failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', args.prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    print('%s %s seed=%d: %d executions, %d distinct situations, %d observations judged, '
          '%d skipped, %.1f s' % (args.prop, args.tier, args.seed, evaluations, len(keys),
                                  sum(judged.values()), skipped, wall))
    if failures:
        failures.sort(key=lambda r: (r['family'], r['index']))
        shown = set()
        for r in failures:
            kind, msg, data = r['failures'][0]
            path = write_replay(args.prop, dict(
                property=args.prop, seed=args.seed, tier=args.tier, family=r['family'],
                index=r['index'], failures=r['failures']))
            print('  %s[%d] %s: %s' % (r['family'], r['index'], kind, msg[:300]))
            print('VIOLATION property=%s replay=%s' % (args.prop, path))
        return 1
    if inconclusive:
        print('INCONCLUSIVE property=%s: missing observations %r, families without cases %r, '
              'timed out %r' % (args.prop, missing, failed_families, timed_out))
        return 2
    return 0


def write_replay(prop, rec):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (prop, rec.get('family', 'import'), rec.get('index', 0)))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, default=repr)
    return path
