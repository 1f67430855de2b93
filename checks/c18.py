"""C18: results do not depend on what a model object was used for before."""
import numpy as np
from vlib import repo, gen, jobs, models as M
from vlib.recorders import Injected, same, differing, snapshot
from vlib.core import Family, Skip

ID = 'C18'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('random call histories (fits of data with other shapes and external inputs, transforms, forecasts, rejected and aborted '
        'calls) on one object, followed by an observed fit and its uses, compared bitwise with a fresh object given the same random state; '
        'distinct = (model, init, history)')
REQUIRED = {'refit-equals-fresh': 1, 'uses-equal-fresh': 1}
TECHNIQUE = 'differential monitor: used object versus fresh object, bitwise'
LEVEL_NOTE = 'Every observed history is decided bitwise; histories are sampled.'


class Abort(Exception):
    pass


def stop_early(rng, func):
    """Run a call that is ended by an exception at an executed line."""
    inj = Injected(int(gen.pick(rng, [1, 3, 10, 30, 100, 300])) * int(rng.randint(1, 10)), Abort())
    e = inj.run(func)
    if e is not None:
        raise e


def other_args(rng, job):
    """Arguments for an earlier fit: other shapes, other external inputs."""
    name, k = job.name, job.k
    if name in jobs.FACTOR:
        spec = M.SPECS[name]
        n = rng.randint(max(k, spec.min_samples(job.options)) + 1, 30)
        f = rng.randint(1, 6)
        X = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'dup', 'big', 'tiny', 'const', 'zero']))
        a = dict(data=spec.observed(X))
        if job.init == 'custom':
            a.update(spec.start(rng, X, k, job.options))
        return a
    n, f = rng.randint(30, 45), rng.randint(1, 4)
    a = dict(data=gen.data(rng, n, f, gen.pick(rng, ['gauss', 'ar', 'clusters'])))
    if name == 'FVX' and rng.rand() < 0.5:
        a['external_factors'] = rng.randn(n, rng.randint(1, 3))
    if name == 'PW' and rng.rand() < 0.5:
        a['exog'] = rng.randn(n, rng.randint(1, 3))
    if name == 'KMC' and rng.rand() < 0.5:
        a['sample_weight'] = rng.uniform(0.1, 1, size=n)
    return a


def bad_args(rng, job):
    a = other_args(rng, job)
    how = rng.randint(4)
    if how == 0:
        a['data'] = rng.randn(4)                      # not a matrix
        a['data'] = a['data'] if job.name != 'PW' else rng.randn(1)
    elif how == 1 and 'weights' in a:
        a['weights'] = a['weights'][:-1]
    elif how == 2 and 'dictionary' in a:
        a['dictionary'] = a['dictionary'][:, :-1]
    elif job.name == 'FVX':
        a['external_factors'] = rng.randn(3, 1)
    else:
        a['data'] = np.array([['a', 'b'], ['c', 'd']])
    return a


def history(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        stateful = name in ('GPNH', 'CROM', 'MTD', 'FKM', 'FVX')
        rs = np.random.RandomState(seed) if (stateful or rng.rand() < 0.3) else seed
        if name in ('PW', 'KMC'):
            rs = seed
        m = job.make(rs)
        calls = []

        def attempt(what, func):
            try:
                func()
                calls.append(what)
            except Exception as e:
                calls.append('%s -> %s' % (what, type(e).__name__))

        fitted = False
        for _ in range(rng.randint(1, 5)):
            what = gen.pick(rng, ['fit', 'fit', 'bad', 'use', 'same', 'stopped'])
            if what == 'fit':
                a = other_args(rng, job)
                attempt('fit %r%s' % (a['data'].shape, ' with external' if len(a) > 1 else ''), lambda: job.run(m, args=a))
                fitted = True
            elif what == 'bad':
                a = bad_args(rng, job)
                attempt('bad call', lambda: job.run(m, args=a))
            elif what == 'use' and fitted:
                # the object may have been fitted to data of another width
                attempt('use', lambda: job.use(m))
            elif what == 'stopped':
                a = gen.pick(rng, [job.args, other_args(rng, job)])
                if fitted and rng.rand() < 0.4:
                    attempt('stopped use', lambda: stop_early(rng, lambda: job.use(m)))
                else:
                    attempt('stopped fit', lambda: stop_early(rng, lambda: job.run(m, args=a)))
            elif what == 'same':
                attempt('same fit', lambda: job.run(m))
                fitted = True
        with repo.fresh():
            # not even its modules have been used
            fresh = job.make(np.random.RandomState(0) if isinstance(rs, np.random.RandomState) else seed)

        def both(func, kind, label):
            state = np.random.RandomState(seed + 1).get_state()
            out = []
            for mm in (m, fresh):
                if isinstance(mm.__dict__.get('random_state'), np.random.RandomState):
                    mm.random_state.set_state(state)
                try:
                    out.append(func(mm))
                except ValueError as e:
                    if name != 'PW':
                        raise
                    out.append(dict(error=str(e)[:40]))
            d = differing(out[0], out[1])
            ctx.require(not d, kind, '%s (init %r) %s after %r: %r differ from a fresh object' % (name, job.init, label, calls, d))
            return 'error' not in out[1]

        if both(lambda mm: job.run(mm), 'refit-equals-fresh', 'fit'):
            # transforms do not depend on earlier transforms
            which = rng.randint(len(job.others))
            if rng.rand() < 0.5:
                attempt('transform others', lambda: job.use(m, which=1 - which))
            both(lambda mm: job.use(mm, which=which), 'uses-equal-fresh', 'use')
            if rng.rand() < 0.5:
                both(lambda mm: job.run(mm), 'refit-equals-fresh', 'second fit')
        ctx.seen(name, job.init, tuple(calls))
        ctx.note(model=name, init=job.init, history=calls)
    return run


def unspecified(ctx):
    """models created without a number of components"""
    rng = ctx.rng
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'FKM', 'FVX'])
    seed = int(rng.randint(10 ** 6))
    by_samples = name in ('AA', 'KAA')

    def data(size):
        X = rng.randn(size, 3) if by_samples else rng.randn(24, size)
        return X.dot(X.T) if name == 'KAA' else X
    first, second = int(rng.randint(2, 5)), int(rng.randint(2, 5))
    A, B = data(first), data(second)
    o = dict(max_iterations=3)
    ref = jobs.Job(name, None, o, dict(data=B), [], 0, 'random')
    m, fresh = ref.make(np.random.RandomState(1)), ref.make(np.random.RandomState(1))
    fixed = jobs.Job(name, first, o, dict(data=B), [], 0, 'random').make(np.random.RandomState(1))
    state = np.random.RandomState(seed).get_state()

    def run(mm, X):
        mm.random_state.set_state(state)
        return ref.run(mm, args=dict(data=X))
    run(m, A)
    try:
        got = run(m, B)
    except Exception as e:
        got = dict(error=type(e).__name__)
    want = run(fresh, B)
    if not differing(got, want):
        ctx.require(True, 'refit-equals-fresh')
    else:
        try:
            old = run(fixed, B)
        except Exception as e:
            old = dict(error=type(e).__name__)
        kept = first != second and not differing(got, old)
        ctx.require(kept, 'refit-equals-fresh', '%s without number of components: %d then %d' % (name, first, second))
        if kept:
            ctx.finding('unspecified-components-kept', '%s: %d then %d' % (name, first, second))
    ctx.seen('unspecified', name, first, second)


FAMILIES = [Family(nm, history(nm), q) for nm, q in (
    ('AA', 120), ('KAA', 80), ('GPNH', 120), ('CROM', 120), ('MTD', 150), ('FKM', 80), ('FVX', 120), ('PW', 60), ('KMC', 40))]
FAMILIES += [Family('unspecified', unspecified, 60)]
