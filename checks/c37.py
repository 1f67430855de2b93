"""C37: memory and work grow in proportion to the data."""
import sys
import gc
import tracemalloc
import numpy as np
from vlib import repo, gen, jobs, models as M, fem
from vlib.core import Family, Skip

ID = 'C37'
RULE = ('peak memory and executed lines of package code of fits, transforms, forecasts and projections on problems and on enlarged ones with more samples, features '
        'or iterations; distinct = (model, what is enlarged, by how much)')
REQUIRED = {'memory-in-proportion': 1, 'work-in-proportion': 1, 'at-most-pairs-of-samples': 1}
TECHNIQUE = 'resource monitors (allocation peaks, executed lines) on families of growing problems'
LEVEL_NOTE = 'Growth faster than proportional is told apart by a factor of two; work inside numerical libraries is not counted.'


def peak(func):
    gc.collect()
    tracemalloc.start()
    try:
        func()
        return tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()


def lines(func):
    count = [0]

    def local(frame, event, arg):
        count[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(repo.SRC) else None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        func()
    finally:
        sys.settrace(old)
    return count[0]


def maker(rng, name, k):
    """(function making a model for an iteration limit, fit arguments of n samples)"""
    o = {}
    if name in ('GPNH', 'CROM', 'MTD'):
        o['epsilon_states'] = float(gen.pick(rng, [0, 0.1, 1]))
        if name != 'GPNH':
            o['lags'] = [int(l) for l in 1 + rng.permutation(5)[:rng.randint(1, 4)]]
        if name == 'MTD':
            o['epsilon_weights'] = float(gen.pick(rng, [0, 0.1, 1]))
        o['init'] = 'random'
        o['verbose'] = 0
        spec = M.SPECS[name]
        return lambda m, s: spec.make(k, dict(o, max_iterations=m, tolerance=0, random_state=s, require_monotonic_cost_decrease=False))
    if name in ('AA', 'KAA'):
        o['init'] = gen.pick(rng, ['random', 'furthest_sum'])
        o['delta'] = float(gen.pick(rng, [0, 0.2]))
        spec = M.SPECS[name]
        return lambda m, s: spec.make(k, dict(o, max_iterations=m, tolerance=0, random_state=s, require_monotonic_cost_decrease=False))
    if name in ('FKM', 'FVX'):
        o['max_tv_norm'] = gen.pick(rng, [None, 3, 10])
        if name == 'FKM':
            return lambda m, s: repo.fembv_kmeans.FEMBVKMeans(k, max_iterations=m, tolerance=0, random_state=s, **o)
        mem = int(rng.randint(0, 3))
        return lambda m, s: repo.fembv_varx.FEMBVVARX(k, memory=mem, max_iterations=m, tolerance=0, random_state=s, **o)
    if name == 'PW':
        p = int(rng.randint(1, 3))
        return lambda m, s: repo.pwvarx.ClusterPWVARX(k, p, random_state=s)
    return lambda m, s: repo.crom.KMeansMarkovCROM(k, n_init=1, random_state=s)


def use(name, make, X, its, seed, what):
    model = make(its, seed)
    model.fit(X)
    if what != 'fit':
        model.transform(X)
        if name in ('CROM', 'MTD', 'KMC'):
            model.predict(X, horizon=3)


def slack(name):
    """Line searches take different numbers of steps."""
    return 2.5 if name in ('FKM', 'FVX', 'PW', 'KMC', 'furthest_sum') else 6


def samples(name):
    def run(ctx):
        rng = ctx.rng
        k, f = int(rng.randint(1, 4)), int(rng.randint(1, 4))
        if name in ('FKM', 'FVX'):
            n, times, its = int(rng.randint(100, 160)), 6, 1
        else:
            n, times, its = int(rng.randint(100, 150)), 12, int(rng.randint(2, 4))
        make = maker(rng, name, k)
        seed = int(rng.randint(10 ** 6))
        what = gen.pick(rng, ['fit', 'use'])
        kind = gen.pick(rng, ['gauss', 'clusters', 'ar'])
        A, B = gen.data(rng, n, f, kind), gen.data(rng, times * n, f, kind)

        def go(X):
            return lambda: use(name, make, X, its, seed, what)
        try:
            go(A)()         # imports and caches
            a, b = peak(go(A)), peak(go(B))
            la, lb = lines(go(A)), lines(go(B))
        except (ValueError, RuntimeError):
            raise Skip()
        ctx.require(b <= 1.6 * times * a, 'memory-in-proportion', '%s (%s): %d bytes at most for %d samples, %d for %d' % (name, what, a, n, b, n * times))
        ctx.require(lb <= slack(name) * times * la, 'work-in-proportion', '%s (%s): %d lines executed for %d samples, %d for %d' % (name, what, la, n, lb, n * times))
        ctx.seen('samples', name, what, k, f)
        ctx.note(n=n, times=times, peaks=(a, b), lines=(la, lb))
    return run


def features(name):
    def run(ctx):
        rng = ctx.rng
        k, n = int(rng.randint(1, 4)), int(rng.randint(12, 25))
        f, times, its = int(rng.randint(120, 160)), 12, int(rng.randint(2, 4))
        make = maker(rng, name, k)
        seed = int(rng.randint(10 ** 6))
        what = gen.pick(rng, ['fit', 'use'])
        A, B = rng.randn(n, f), rng.randn(n, times * f)

        def go(X):
            return lambda: use(name, make, X, its, seed, what)
        go(A)()
        a, b = peak(go(A)), peak(go(B))
        la, lb = lines(go(A)), lines(go(B))
        ctx.require(b <= 1.6 * times * a, 'memory-in-proportion', '%s (%s): %d bytes at most for %d features, %d for %d' % (name, what, a, f, b, f * times))
        ctx.require(lb <= slack(name) * times * la, 'work-in-proportion', '%s (%s): %d lines executed for %d features, %d for %d' % (name, what, la, f, lb, f * times))
        ctx.seen('features', name, what, k)
        ctx.note(f=f, times=times, peaks=(a, b), lines=(la, lb))
    return run


def iterations(name):
    def run(ctx):
        rng = ctx.rng
        k, f, n = int(rng.randint(2, 5)), int(rng.randint(1, 4)), int(rng.randint(10, 30))
        make = maker(rng, name, k)
        seed = int(rng.randint(10 ** 6))
        lo, times = (60, 5) if name not in ('FKM', 'FVX') else (3, 6)
        X = gen.data(rng, n, f, 'gauss')
        if name == 'KAA':
            X = X.dot(X.T)

        def go(m):
            return lambda: use(name, make, X, m, seed, 'fit')
        try:
            go(lo)()
            a, b = peak(go(lo)), peak(go(lo * times))
            la, lb = lines(go(lo)), lines(go(lo * times))
        except (ValueError, RuntimeError):
            raise Skip()
        if name not in ('FKM', 'FVX'):      # the modelling language leaves cycles to the garbage collector
            ctx.require(b <= 1.6 * a + 40000, 'memory-in-proportion', '%s: %d bytes at most in %d iterations, %d in %d' % (name, a, lo, b, lo * times))
        if name in ('FKM', 'FVX'):          # late line searches take more steps
            ctx.require(lb <= 2 * times * la, 'work-in-proportion', '%s: %d lines executed in %d iterations, %d in %d' % (name, la, lo, lb, lo * times))
        ctx.seen('iterations', name, k)
        ctx.note(iterations=(lo, lo * times), peaks=(a, b), lines=(la, lb))
    return run


def pairs(name):
    """Kernels and dissimilarities are tables of pairs of samples; nothing larger is needed."""
    def run(ctx):
        rng = ctx.rng
        k, f, its = int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 4))
        n, times = int(rng.randint(40, 60)), 8
        seed = int(rng.randint(10 ** 6))
        A, B = gen.data(rng, n, f, 'gauss'), gen.data(rng, times * n, f, 'gauss')
        if name in ('AA', 'KAA'):
            make = maker(rng, name, k)
            if name == 'KAA':
                A, B = A.dot(A.T), B.dot(B.T)

            def go(X):
                return lambda: use(name, make, X, its, seed, 'fit')
        elif name == 'furthest_sum':
            extra = int(rng.randint(0, 8))

            def go(X):
                D = np.sqrt(((X[:, None, :] - X) ** 2).sum(axis=-1))
                return lambda: repo.furthest_sum_module.furthest_sum(D, k, 0, extra_steps=extra)
        else:
            spec = M.SPECS[name]
            make = lambda m, s: spec.make(k, dict(max_iterations=m, tolerance=0, random_state=s, init='furthest_sum', require_monotonic_cost_decrease=False))

            def go(X):
                return lambda: use(name, make, X, its, seed, 'fit')
        a, b = peak(go(A)), peak(go(B))
        la, lb = lines(go(A)), lines(go(B))
        table = 8 * (times * n) ** 2
        ctx.require(b <= 1.6 * times ** 2 * a + 2e4 and b <= 20 * table + 1e5, 'at-most-pairs-of-samples', '%s: %d bytes at most for %d samples, %d for %d (a table of pairs has %d)' % (
            name, a, n, b, n * times, table))
        ctx.require(lb <= slack(name) * times * la, 'work-in-proportion', '%s: %d lines executed for %d samples, %d for %d' % (name, la, n, lb, n * times))
        ctx.seen('pairs', name, k, its)
        ctx.note(n=n, times=times, peaks=(a, b), lines=(la, lb))
    return run


def projection(ctx):
    rng = ctx.rng
    p = repo.simplex_projection
    which = gen.pick(rng, ['vector', 'rows', 'columns'])
    n, times = int(rng.randint(400, 800)), 8
    kind = rng.randint(3)

    def data(m):
        x = rng.randn(m) * 10.0 ** rng.randint(-3, 4)
        return x if kind == 0 else np.sort(x) if kind == 1 else np.round(x)
    k = int(rng.randint(1, 6))
    A, B = data(n * k), data(times * n * k)

    def go(x):
        if which == 'vector':
            return lambda: p.simplex_project_vector(x)
        if which == 'rows':
            X = x.reshape(-1, k)
            return lambda: p.simplex_project_rows(X.copy())
        X = x.reshape(k, -1)
        return lambda: p.simplex_project_columns(X.copy())
    a, b = peak(go(A)), peak(go(B))
    la, lb = lines(go(A)), lines(go(B))
    ctx.require(b <= 1.6 * times * a + 20000, 'memory-in-proportion', 'projection (%s): %d bytes for %d numbers, %d for %d' % (which, a, A.size, b, B.size))
    ctx.require(lb <= 2.5 * times * la + 20 * B.size, 'work-in-proportion', 'projection (%s): %d lines for %d numbers, %d for %d' % (which, la, A.size, lb, B.size))
    ctx.seen('projection', which, k, kind)


FAMILIES = [Family('samples_' + nm, samples(nm), q) for nm, q in (('GPNH', 10), ('CROM', 10), ('MTD', 12), ('FKM', 6), ('FVX', 6), ('PW', 10), ('KMC', 10))]
FAMILIES += [Family('features_' + nm, features(nm), q) for nm, q in (('GPNH', 20), ('CROM', 20), ('MTD', 20), ('AA', 20), ('FKM', 8), ('KMC', 15))]
FAMILIES += [Family('iterations_' + nm, iterations(nm), q) for nm, q in (('AA', 15), ('KAA', 10), ('GPNH', 15), ('CROM', 15), ('MTD', 15), ('FKM', 5), ('FVX', 5))]
FAMILIES += [Family('pairs_' + nm, pairs(nm), q) for nm, q in (('AA', 15), ('KAA', 10), ('GPNH', 12), ('CROM', 8), ('MTD', 8), ('furthest_sum', 20))]
FAMILIES += [Family('projection', projection, 60)]
