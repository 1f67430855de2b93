"""C35: repeated use does not accumulate."""
import copy
import gc
import sys
import tracemalloc
import types
import weakref
import numpy as np
from vlib import repo, gen, jobs, models as M
from vlib.core import Family, Skip

ID = 'C35'
RULE = ('models used many times: the arrays and objects reachable from a model after a few and after many fits, transforms, forecasts and rejected '
        'or interrupted calls of equal shape, after fits of few and of many iterations, weak references to the data of earlier calls and to deleted models, and '
        'the memory allocated in the package over series of uses on different data; distinct = (model, kind of use, number of uses)')
REQUIRED = {'model-does-not-grow': 1, 'size-independent-of-iterations': 1, 'data-released': 1, 'model-released': 1, 'package-does-not-accumulate': 1}
TECHNIQUE = 'heap monitors (reachable objects, weak references, allocation traces) over repeated uses'
LEVEL_NOTE = 'Every observed history is decided; accumulation of less than a few hundred bytes per use is not resolved.'

ATOMS = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, str, int, float, bool, type(None), np.dtype)


def reachable(root):
    """(bytes of arrays, number of containers and arrays) reachable from an object."""
    seen, stack, nbytes, count = set(), [root], 0, 0
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, ATOMS):
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            if isinstance(x.base, np.ndarray):
                stack.append(x.base)
            else:
                nbytes += x.nbytes
            count += 1
            if x.dtype == object:
                count += x.size
                stack.extend(x.ravel().tolist())
            continue
        count += 1
        if isinstance(x, dict):
            count += len(x)
            stack.extend(x.keys())
            stack.extend(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == 'deque':
            count += len(x)
            stack.extend(x)
        elif isinstance(x, np.random.RandomState):
            continue
        elif hasattr(x, '__dict__'):
            stack.append(x.__dict__)
        else:
            stack.extend(r for r in gc.get_referents(x) if not isinstance(r, ATOMS))
    return nbytes, count


def other_data(rng, args, name):
    """Arguments of the same shape with different observations."""
    out = dict(args)
    X = np.array(args['data'], dtype=float)
    out['data'] = X * (1 + 0.2 * rng.rand()) if name == 'KAA' else X + 0.05 * rng.randn(*X.shape) * (1e-6 + X.std())
    return out


def attempt(func):
    try:
        func()
    except (ValueError, np.linalg.LinAlgError, RuntimeError):
        return False
    return True


def build(rng, name, **kw):
    job = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 3, 8])), nmax=kw.pop('nmax', 20), **kw)
    seed = int(rng.randint(10 ** 6))
    return job, (lambda: np.random.RandomState(seed)) if name not in ('PW', 'KMC') else (lambda: seed)


def same_shape_uses(rng, job, kinds):
    """(label, function of a model) performing one use."""
    def fit(m):
        attempt(lambda: job.run(m, args=other_data(rng, job.args, job.name)))

    def use(m):
        for i in range(len(job.others)):        # of different lengths
            attempt(lambda: job.use(m, which=i, horizon=3))

    def rejected(m):
        a = dict(job.others[0])
        X = np.array(a.pop('data'), dtype=float)
        for bad in (np.hstack([X, X]), X[:, :-1] if X.shape[1] > 1 else X[:, [0, 0]]):
            try:
                m.transform(bad, **a)
            except Exception:
                pass
    table = dict(fit=fit, use=use, rejected=rejected)
    return [table[q] for q in kinds]


def growth(name):
    def run(ctx):
        rng = ctx.rng
        job, rs = build(rng, name)
        m = job.make(rs())
        kinds = [['fit'], ['use'], ['fit', 'use'], ['use', 'rejected'], ['fit', 'use', 'rejected']][rng.randint(5)]
        if not attempt(lambda: job.run(m)):
            raise Skip()
        uses = same_shape_uses(rng, job, kinds)
        n = int(rng.randint(6, 25)) if name not in ('FKM', 'FVX') else int(rng.randint(4, 9))
        for u in uses * 2:
            u(m)
        if 'fit' in kinds:
            job.run(m)
        job.use(m, which=0, horizon=3)
        before = reachable(m)
        for i in range(n):
            for u in uses:
                u(m)
        if 'fit' in kinds:
            job.run(m)
        job.use(m, which=0, horizon=3)
        after = reachable(m)
        ctx.require(after[0] <= before[0] + 8 * n and after[1] <= before[1] + n // 2, 'model-does-not-grow',
                    '%s: after %d more rounds of %r the model reaches %d bytes of arrays in %d objects, before %d in %d' % (
                        (name, n, kinds) + after + before))
        ctx.seen('growth', name, tuple(kinds), n)
    return run


def iterations(name):
    def run(ctx):
        rng = ctx.rng
        job, rs = build(rng, name)
        job.options['tolerance'] = 0
        sizes = []
        budgets = (3, 40, 250) if name not in ('FKM', 'FVX') else (3, 8, 20)
        for lim in budgets:
            m = job.make(rs(), max_iterations=lim)
            if not attempt(lambda: job.run(m)):
                raise Skip()
            sizes.append(reachable(m))
        for lim, s in zip(budgets[1:], sizes[1:]):
            ctx.require(s[0] <= sizes[0][0] + 64 and s[1] <= sizes[0][1] + 8, 'size-independent-of-iterations',
                        '%s: %d bytes of arrays in %d objects after %d iterations, %d in %d after %d' % ((name,) + s + (lim,) + sizes[0] + (budgets[0],)))
        ctx.seen('iterations', name)
    return run


def release(name):
    def run(ctx):
        rng = ctx.rng
        job, rs = build(rng, name)
        m = job.make(rs())
        refs = []

        def fresh(args):
            a = {}
            for q, v in args.items():
                if isinstance(v, np.ndarray):
                    a[q] = v.copy()
                    refs.append((q, weakref.ref(a[q])))
                elif isinstance(v, dict):
                    a[q] = fresh(v)
                else:
                    a[q] = v
            return a
        if not attempt(lambda: job.run(m, args=fresh(other_data(rng, job.args, name)))):
            raise Skip()
        if rng.rand() < 0.5:
            a = fresh(job.others[0])
            data = a.pop('data')
            attempt(lambda: m.transform(data, **a))
            del data, a
        if not attempt(lambda: job.run(m)):
            raise Skip()
        job.use(m, which=0)
        gc.collect()
        alive = [q for q, r in refs if r() is not None]
        ctx.require(not alive, 'data-released', '%s: %r of earlier calls are still referenced after a new fit' % (name, alive))
        r = weakref.ref(m)
        del m
        gc.collect()
        ctx.require(r() is None, 'model-released', '%s: a deleted model is still referenced' % name)
        ctx.seen('release', name, job.init)
    return run


FILTER = [tracemalloc.Filter(True, repo.SRC + '/*', all_frames=True)]


LEAST = 1200            # smaller blocks are kept by numpy for later use


def held():
    gc.collect()
    snap = tracemalloc.take_snapshot().filter_traces(FILTER)
    return sum(t.size for t in snap.traces if t.size >= LEAST), snap


def enlarge(rng, job, least):
    """Many more samples, so that whatever is kept of them is large."""
    X = np.array(job.args['data'], dtype=float)
    n = len(X)
    reps = -(-least // n)
    if job.name == 'KAA':
        X = X.dot(rng.randn(n, 3))
    out = {}
    for q, v in job.args.items():
        if q in ('external_factors', 'exog', 'sample_weight'):
            v = np.array(v, dtype=float)
            out[q] = np.tile(v, (reps,) + (1,) * (v.ndim - 1)) * rng.uniform(0.9, 1.1, size=(n * reps,) + v.shape[1:])
    X = np.tile(X, (reps, 1)) + 0.1 * (1e-3 + X.std()) * rng.randn(n * reps, X.shape[1])
    out['data'] = X.dot(X.T) if job.name == 'KAA' else X
    job.args = out
    if job.init == 'custom':
        job.init = 'random'
    job.k = max(2, job.k)
    if job.name == 'FVX' and not np.isscalar(job.options.get('memory')):
        job.options['memory'] = 1
    if job.name in ('AA', 'KAA'):
        job.others = [dict(out)]
    else:
        job.others = [{q: v[:-1].copy() for q, v in out.items() if q != 'sample_weight'}]


def accumulation(name):
    def run(ctx):
        rng = ctx.rng
        job, rs = build(rng, name)
        enlarge(rng, job, 100)
        if name in jobs.FACTOR and rng.rand() < 0.5:
            job.init = 'furthest_sum'
            if rng.rand() < 0.6:
                job.args['start_index'] = int(rng.randint(5))
        if name not in ('PW', 'KMC'):
            job.options['max_iterations'] = 2
        if not attempt(lambda: job.run(job.make(rs()))):
            raise Skip()
        once = np.asarray(job.args['data']).nbytes

        def rounds(c):
            for _ in range(c):
                m = job.make(rs())
                if attempt(lambda: job.run(m, args=other_data(rng, job.args, name))):
                    attempt(lambda: job.use(m, which=0, horizon=3))
                if rng.rand() < 0.3:
                    copy.deepcopy(m)
                del m
        n = 8 if name not in ('FKM', 'FVX') else 5
        tracemalloc.start(6)
        try:
            rounds(2)
            a, sa = held()
            rounds(n)
            b, sb = held()
            top = ['%s +%d' % (s.traceback.format()[-1].strip()[:80] if s.traceback else '', s.size_diff) for s in sb.compare_to(sa, 'traceback')[:4]]
        finally:
            tracemalloc.stop()
        ctx.require(b - a <= 500 * n, 'package-does-not-accumulate',
                    '%s: %d further uses of new models hold %d bytes (one data set has %d): %s' % (name, n, b - a, once, top))
        ctx.note(growth=b - a, n=n, once=once, top=top)
        ctx.seen('accumulation', name)
    return run


def function_call(rng, which):
    """(name, function performing one call on new data, references to which are appended)."""
    n = 150
    if which == 'furthest_sum':
        k, start, extra = int(rng.randint(2, 6)), int(rng.randint(5)), int(rng.randint(1, 4))
        exclude = [6, 7] if rng.rand() < 0.4 else None

        def call(r, refs):
            D = r.rand(n, n)
            D = D + D.T
            refs.append(weakref.ref(D))
            np.fill_diagonal(D, 0)
            return repo.furthest_sum_module.furthest_sum(D, k, start, exclude=exclude, extra_steps=extra)
    elif which == 'simplex':
        def call(r, refs):
            x = r.randn(3 * n)
            X = r.randn(n, 20)
            refs.extend([weakref.ref(x), weakref.ref(X)])
            p = repo.simplex_projection
            return p.simplex_project_vector(x), p.simplex_project_rows(X), p.simplex_project_columns(X)
    elif which == 'random_matrix':
        def call(r, refs):
            return repo.random_matrix.left_stochastic_matrix((n, 12), random_state=r), \
                repo.random_matrix.right_stochastic_matrix((n, 12), random_state=r)
    else:
        memory, exog = int(rng.randint(1, 4)), int(rng.randint(0, 3))

        def call(r, refs):
            X = r.randn(n, 3)
            u = r.randn(n, exog) if exog else None
            w = r.rand(n) + 0.1
            refs.extend(weakref.ref(a) for a in (X, w) + (() if u is None else (u,)))
            m = repo.fembv_varx.FEMBVVARXLocalLinearModel(X, p=memory, u=u, s=0)
            m.fit()
            m.fit(weights=w)
            return m.residuals
    return call


def functions(which):
    def run(ctx):
        rng = ctx.rng
        call = function_call(rng, which)
        seeds = iter(rng.randint(10 ** 6, size=100).tolist())
        refs = []

        def rounds(c):
            for _ in range(c):
                attempt(lambda: call(np.random.RandomState(next(seeds)), refs))
        n = int(rng.randint(10, 30))
        tracemalloc.start(6)
        try:
            rounds(3)
            a, sa = held()
            rounds(n)
            b, sb = held()
            top = ['%s +%d' % (s.traceback.format()[-1].strip()[:80] if s.traceback else '', s.size_diff) for s in sb.compare_to(sa, 'traceback')[:4]]
        finally:
            tracemalloc.stop()
        ctx.require(b - a <= 500 * n, 'package-does-not-accumulate', '%s: %d further calls hold %d bytes: %s' % (which, n, b - a, top))
        alive = sum(r() is not None for r in refs)
        ctx.require(alive == 0, 'data-released', '%s: %d of %d arguments of earlier calls are still referenced' % (which, alive, len(refs)))
        ctx.seen('function', which, n)
    return run


FAMILIES = [Family('growth_' + nm, growth(nm), q) for nm, q in zip(jobs.NAMES, (60, 40, 60, 60, 60, 16, 16, 16, 16))]
FAMILIES += [Family('iterations_' + nm, iterations(nm), q) for nm, q in (('AA', 15), ('KAA', 10), ('GPNH', 15), ('CROM', 15), ('MTD', 15), ('FKM', 6), ('FVX', 6))]
FAMILIES += [Family('release_' + nm, release(nm), q) for nm, q in zip(jobs.NAMES, (60, 40, 60, 60, 60, 20, 20, 20, 30))]
FAMILIES += [Family('accumulation_' + nm, accumulation(nm), q) for nm, q in zip(jobs.NAMES, (8, 8, 8, 8, 8, 4, 4, 6, 6))]
FAMILIES += [Family('function_' + nm, functions(nm), q) for nm, q in (('furthest_sum', 12), ('simplex', 6), ('random_matrix', 4), ('local', 8))]
