"""C16: reproducibility, global generator, verbosity, thread isolation."""
import io
import sys
import threading
import contextlib
import numpy as np
from vlib import repo, gen, jobs, core
from vlib.recorders import same, differing, snapshot, poisoned
from vlib.core import Family, Skip

ID = 'C16'
RULE = ('repeated, verbose and concurrent runs of all models with every initialisation; threads are interleaved by handing over '
        'at random lines of the code under test (trace-driven scheduler) and by a microsecond switch interval; uninitialised arrays are filled with different values; newly imported modules are used for a job alone and after similar work; distinct = '
        '(models, init, schedule hash)')
REQUIRED = {'repeat-identical': 1, 'global-generator-untouched': 1, 'verbosity-only-prints': 1, 'seeds-used': 1,
            'threads-isolated': 1, 'free-running-threads-isolated': 1, 'interleaved-steps-isolated': 1,
            'uninitialised-memory-not-used': 1, 'independent-of-other-work': 1}
TECHNIQUE = 'differential monitor (bitwise) over repeated runs, poisoned uninitialised memory and forced thread interleavings at line granularity'
LEVEL_NOTE = 'Each observed interleaving is decided bitwise; interleavings are sampled by a random hand-over scheduler.'


def whole(job, seed, **over):
    m = job.make(seed, **over)
    r = job.run(m)
    r.update(job.use(m))
    return r


def total(job, seed, **over):
    """as whole; fits that the collaborating libraries reject count as results"""
    try:
        return whole(job, seed, **over)
    except ValueError as e:
        return dict(error=str(e)[:60])


def repeat(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        np.random.seed(rng.randint(10 ** 6))
        g0 = np.random.get_state()
        a = total(job, seed)
        g1 = np.random.get_state()
        ctx.require(g0[0] == g1[0] and np.array_equal(g0[1], g1[1]) and g0[2:] == g1[2:], 'global-generator-untouched',
                    '%s (init %r)' % (name, job.init))
        np.random.seed(rng.randint(10 ** 6))
        np.random.uniform(size=3)
        b = total(job, seed)
        d = differing(a, b)
        ctx.require(not d, 'repeat-identical', '%s (init %r): %r differ between equal runs' % (name, job.init, d))
        # an equally seeded generator instance
        g0 = np.random.get_state()
        if name not in ('PW', 'KMC', 'AA', 'KAA'):
            c = total(job, np.random.RandomState(seed))
            d = differing(a, c)
            ctx.require(not d, 'seed-equals-generator', '%s: %r' % (name, d))
            g1 = np.random.get_state()
            ctx.require(np.array_equal(g0[1], g1[1]) and g0[2] == g1[2], 'global-generator-untouched',
                        '%s with a generator instance' % name)
        # verbosity
        out = io.StringIO()
        if name in jobs.FACTOR + ('FKM', 'FVX'):
            quiet = io.StringIO()
            over = {}
            if rng.rand() < 0.6:
                # stopping criteria of every magnitude
                c = a.get('cost_', 1.0)
                over = dict(tolerance=float(10.0 ** rng.uniform(-6, 0.5) * (abs(c) + 1e-6)), max_iterations=60)
            with contextlib.redirect_stdout(quiet):
                a = total(job, seed, **over)
            with contextlib.redirect_stdout(out):
                v = total(job, seed, verbose=int(gen.pick(rng, [1, 2, 3, True])), **over)
            d = differing(a, v)
            ctx.require(not d, 'verbosity-only-prints', '%s: %r' % (name, d))
            ctx.require(quiet.getvalue() == '', 'silent-by-default', repr(quiet.getvalue()[:200]))
            ctx.require(out.getvalue() != '', 'verbose-prints', name)
        ctx.seen(name, job.init, job.k, tuple(sorted(job.options.items(), key=str)).__repr__()[:80])
        ctx.note(model=name, init=job.init, k=job.k)
    return run


def seeds(ctx):
    """different seeds lead to different starts, with seeds and with generators"""
    rng = ctx.rng
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'FKM', 'FVX'])
    job = jobs.build(rng, name, limit=1, init='random', generic=True, kinds=('gauss',))
    if name == 'FKM':
        job.options['max_tv_norm'] = None
    got = []
    for s in range(4):
        seed = int(rng.randint(10 ** 6))
        m = job.make(np.random.RandomState(seed) if rng.rand() < 0.5 else seed)
        got.append(job.run(m))
    key = {'FKM': 'Theta', 'FVX': 'mu'}.get(name, 'returned')
    distinct = sum(1 for i in range(4) if all(not same(got[i][key], got[j][key]) for j in range(i)))
    ctx.require(distinct >= 3, 'seeds-used', '%s: %d distinct starts from 4 seeds' % (name, distinct))
    # furthest sum: random start index and random weights
    if name in jobs.FACTOR:
        job.init = 'furthest_sum'
        got = [job.run(job.make(int(rng.randint(10 ** 6))))['returned'] for _ in range(4)]
        ctx.require(any(not same(got[0], g) for g in got[1:]), 'seeds-used', '%s furthest_sum' % name)
    # without a random state the global generator drives the fit
    job.init = 'random'
    np.random.seed(7)
    a = job.run(job.make(None))
    np.random.seed(7)
    b = job.run(job.make(None))
    np.random.seed(8)
    c = job.run(job.make(None))
    ctx.require(same(a[key], b[key]), 'repeat-identical', '%s with the seeded global generator' % name)
    ctx.require(not same(a[key], c[key]), 'seeds-used', '%s with differently seeded global generators' % name)
    ctx.seen('seeds', name, job.k)


class Baton(object):
    """Lets exactly one thread run; hands over at random lines of the code under test."""

    def __init__(self, rng, n, p):
        self.cond = threading.Condition()
        self.rng, self.p = rng, p
        self.alive = set(range(n))
        self.turn = 0
        self.switches = 0
        self.trail = 0

    def local(self, me):
        src = repo.SRC

        def trace_line(frame, event, arg):
            if event == 'line' and self.rng.random_sample() < self.p:
                self.hand_over(me, frame.f_lineno)
            return trace_line

        def trace_call(frame, event, arg):
            if frame.f_code.co_filename.startswith(src):
                return trace_line
            return None
        return trace_call

    def hand_over(self, me, line):
        with self.cond:
            others = sorted(self.alive - {me})
            if others:
                self.turn = others[self.rng.randint(len(others))]
                self.switches += 1
                self.trail = hash((self.trail, me, self.turn, line)) & 0xffffffff
                self.cond.notify_all()
                while self.turn != me:
                    self.cond.wait(30)

    def start(self, me):
        with self.cond:
            while self.turn != me:
                self.cond.wait(30)

    def stop(self, me):
        with self.cond:
            self.alive.discard(me)
            if self.alive:
                self.turn = sorted(self.alive)[0]
            self.cond.notify_all()


def in_threads(tasks, baton=None):
    results = [None] * len(tasks)
    errors = []

    def work(i):
        try:
            with np.errstate(all='ignore'):
                if baton is not None:
                    baton.start(i)
                    sys.settrace(baton.local(i))
                results[i] = tasks[i]()
        except Exception as e:      # judged by the caller
            errors.append('%s: %s' % (type(e).__name__, e))
        finally:
            sys.settrace(None)
            if baton is not None:
                baton.stop(i)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(tasks))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results, errors


def choose(rng, pool):
    names = [gen.pick(rng, pool) for _ in range(rng.randint(2, 4))]
    if rng.rand() < 0.6:
        names[1] = names[0]          # same class: shared class state would show
    return names


def interleaved(ctx):
    """models fitted in threads that hand over at random lines"""
    rng = ctx.rng
    names = choose(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'MTD', 'FKM', 'FVX', 'KMC'])
    js = [jobs.build(rng, n, limit=int(gen.pick(rng, [2, 5, 12]))) for n in names]
    ss = [int(rng.randint(10 ** 6)) for _ in js]
    alone = [whole(j, s) for j, s in zip(js, ss)]
    baton = Baton(rng, len(js), float(gen.pick(rng, [0.02, 0.1, 0.4])))
    got, errors = in_threads([lambda j=j, s=s: whole(j, s) for j, s in zip(js, ss)], baton)
    ctx.require(not errors, 'threads-isolated', '%r together: %r' % (names, errors))
    for n, a, b in zip(names, alone, got):
        if b is not None:
            d = differing(a, b)
            ctx.require(not d, 'threads-isolated', '%s with %r: %r differ from the run alone' % (n, names, d))
    ctx.count('forced hand-overs', baton.switches)
    ctx.seen('schedule', tuple(names), baton.trail)
    ctx.note(models=names, hand_overs=baton.switches)


def free_running(ctx):
    """models fitted in free-running threads with a tiny switch interval"""
    rng = ctx.rng
    names = choose(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'FKM', 'FVX'])
    js = [jobs.build(rng, n, limit=int(gen.pick(rng, [5, 30]))) for n in names]
    ss = [int(rng.randint(10 ** 6)) for _ in js]
    alone = [whole(j, s) for j, s in zip(js, ss)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        got, errors = in_threads([lambda j=j, s=s: whole(j, s) for j, s in zip(js, ss)])
    finally:
        sys.setswitchinterval(old)
    ctx.require(not errors, 'free-running-threads-isolated', '%r together: %r' % (names, errors))
    for n, a, b in zip(names, alone, got):
        if b is not None:
            ctx.require(not differing(a, b), 'free-running-threads-isolated', '%s with %r: %r' % (n, names, differing(a, b)))
    ctx.seen('free', tuple(names), ctx.index)


def steps(ctx):
    """complete calls on several models alternate in one thread"""
    rng = ctx.rng
    names = choose(rng, list(jobs.NAMES))
    js = [jobs.build(rng, n) for n in names]
    ss = [int(rng.randint(10 ** 6)) for _ in js]

    def calls(j, m):
        yield lambda: j.run(m)
        for i in range(len(j.others)):
            yield lambda i=i: j.use(m, which=i)

    def execute(order):
        ms = [j.make(s) for j, s in zip(js, ss)]
        its = [calls(j, m) for j, m in zip(js, ms)]
        out = [dict() for _ in js]
        for i in order:
            out[i].update(next(its[i])())
        return out
    order = [i for i in range(len(js)) for _ in range(3)]
    try:
        a = execute(order)
        mixed = list(rng.permutation(order))
        b = execute(mixed)
    except ValueError:
        raise Skip()            # piecewise model with a single class
    for n, x, y in zip(names, a, b):
        ctx.require(not differing(x, y), 'interleaved-steps-isolated', '%s among %r: %r' % (n, names, differing(x, y)))
    ctx.seen('steps', tuple(names), tuple(int(i) for i in mixed))


MODULES = [repo.simplex_projection, repo.furthest_sum_module, repo.spg, repo.random_matrix, repo.aa, repo.gpnh, repo.crom_gpnh,
           repo.mtd, repo.fembv, repo.fembv_kmeans, repo.fembv_varx, repo.pwvarx, repo.crom]


def uninitialised(name):
    def run(ctx):
        """workspaces filled with different values before use"""
        rng = ctx.rng
        job = jobs.build(rng, name)
        flags = [f for f in ('update_dictionary', 'update_weights', 'update_parameters')
                 if (f != 'update_parameters' or name in ('MTD', 'FKM', 'FVX')) and (f != 'update_dictionary' or name in jobs.FACTOR)]
        if job.init == 'custom' and rng.rand() < 0.6:
            job.args.update({f: False for f in flags if rng.rand() < 0.5})
        seed = int(rng.randint(10 ** 6))
        results = []
        for value in (np.nan, 1e3, -1e3):
            with poisoned(MODULES, value) as p:
                results.append(total(job, seed))
                ctx.count('uninitialised arrays filled', p._filled)
        plain = total(job, seed)
        for r in results:
            d = differing(plain, r)
            ctx.require(not d, 'uninitialised-memory-not-used',
                        '%s (init %r): %r depend on the previous contents of uninitialised arrays' % (name, job.init, d))
        ctx.seen('uninitialised', name, job.init, job.k, tuple(sorted(job.args)))
        ctx.note(model=name, init=job.init, k=job.k)
    return run


def variant(rng, job):
    """work similar to that of a job: other data or options, the same sizes"""
    o = dict(job.options)
    args = jobs.convert(job.args, jobs.ident)
    name, k = job.name, job.k
    if rng.rand() < 0.6:
        X = np.asarray(args['data'])
        args['data'] = X * 2 if rng.rand() < 0.5 or name == 'KAA' else X[::-1].copy()
    if rng.rand() < 0.8:
        for q, vals in dict(epsilon_states=[0, 0.1, 3.0], epsilon_weights=[0, 0.5, 4.0], delta=[0, 0.1, 0.6], max_tv_norm=[None, 0, 1, 3, 8.0],
                            tolerance=[0, 1e-2], include_trend=[True, False]).items():
            if (q in o or (q == 'tolerance' and name in jobs.FACTOR)) and rng.rand() < 0.7:
                o[q] = gen.pick(rng, vals)
        if name in ('CROM', 'MTD') and 'lags' in o and rng.rand() < 0.5:
            o['lags'] = [int(i) for i in rng.permutation(max(o['lags']))[:len(o['lags'])] + 1]
    others = [jobs.convert(a, jobs.ident) for a in job.others]
    if rng.rand() < 0.3:
        others = others[::-1]
    return jobs.Job(name, k, o, args, others, job.features, job.init)


def after_others(name):
    def run(ctx):
        """a job as the first work of the modules, and after similar work"""
        rng = ctx.rng
        job = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        with repo.fresh():
            first = total(job, seed)
        ran = 0
        with repo.fresh():
            for _ in range(rng.randint(1, 4)):
                try:
                    total(variant(rng, job) if rng.rand() < 0.8 else jobs.build(rng, gen.pick(rng, jobs.NAMES)), int(rng.randint(10 ** 6)))
                    ran += 1
                except Exception:
                    ctx.count('other work that failed')
            later = total(job, seed)
        d = differing(first, later)
        ctx.require(not d, 'independent-of-other-work', '%s (init %r, %r): %r differ after %d other uses of the modules' % (
            name, job.init, job.options, d, ran))
        ctx.seen('after others', name, job.init, job.k, ran)
        ctx.note(model=name, init=job.init, k=job.k, other_uses=ran)
    return run


FAMILIES = [Family('repeat_' + nm, repeat(nm), q) for nm, q in (
    ('AA', 50), ('KAA', 30), ('GPNH', 50), ('CROM', 40), ('MTD', 50), ('FKM', 25), ('FVX', 25), ('PW', 20), ('KMC', 20))]
FAMILIES += [Family('seeds', seeds, 60), Family('interleaved', interleaved, 120), Family('free_running', free_running, 60),
             Family('steps', steps, 60)]
FAMILIES += [Family('uninitialised_' + nm, uninitialised(nm), q) for nm, q in (
    ('AA', 40), ('KAA', 30), ('GPNH', 40), ('CROM', 40), ('MTD', 40), ('FKM', 25), ('FVX', 30), ('PW', 15), ('KMC', 15))]
FAMILIES += [Family('after_others_' + nm, after_others(nm), q) for nm, q in (
    ('AA', 40), ('KAA', 30), ('GPNH', 40), ('CROM', 40), ('MTD', 40), ('FKM', 40), ('FVX', 40), ('PW', 15), ('KMC', 15))]
