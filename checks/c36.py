"""C36: options set on an existing model count from the next call."""
import copy
import numpy as np
from vlib import repo, gen, jobs, models as M, fem
from vlib.core import Family, Skip
from vlib.recorders import RecordingState
from checks.c08 import fitted_state, objective, gap_of

ID = 'C36'
RULE = ('option attributes of models assigned after construction, after fits, after transforms and in deep copies, some or all of them at once, then fits of '
        'the same or other data compared bitwise with a model constructed with the options; iteration limits, tolerances and line search settings assigned between a '
        'fit and a transform; distinct = (model, options assigned, situation)')
REQUIRED = {'refit-uses-assigned-options': 1, 'results-kept-until-next-fit': 1, 'transform-uses-assigned-options': 1, 'numpy-typed-options': 1}
TECHNIQUE = 'differential monitor of option histories'
LEVEL_NOTE = 'Equality is bitwise; each observed history is decided.'

SEARCH = dict(line_search_memory='line_search_memory', gamma='line_search_gamma', alpha_min='line_search_alpha_min', alpha_max='line_search_alpha_max',
              sigma_one='line_search_sigma_one', sigma_two='line_search_sigma_two', step_size_tolerance='step_size_tolerance',
              require_monotonic_cost_decrease='require_monotonic_cost_decrease')
COMMON = dict(n_components='n_components', init='init', tolerance='tolerance', max_iterations='max_iterations', random_state='random_state')
ATTRIBUTES = dict(
    AA=dict(COMMON, delta='delta', **SEARCH), KAA=dict(COMMON, delta='delta', **SEARCH),
    GPNH=dict(COMMON, epsilon_states='epsilon_states', **SEARCH),
    CROM=dict(COMMON, epsilon_states='epsilon_states', lags='lags', **SEARCH),
    MTD=dict(COMMON, epsilon_states='epsilon_states', epsilon_weights='epsilon_weights', lags='lags', **SEARCH),
    FKM=dict(COMMON, max_tv_norm='max_tv_norm', require_monotonic_cost_decrease='require_monotonic_cost_decrease'),
    FVX=dict(COMMON, max_tv_norm='max_tv_norm', memory='memory', require_monotonic_cost_decrease='require_monotonic_cost_decrease'),
    PW=dict(n_components='n_components', p='p', s='s', include_trend='include_trend', random_state='random_state'),
    KMC=dict(n_clusters='n_clusters', kmeans_kwargs='kmeans_kwargs'))


def same(a, b):
    if set(a) != set(b):
        return ['keys']
    bad = []
    for q in a:
        x, y = a[q], b[q]
        if isinstance(x, (list, tuple)):
            ok = len(x) == len(y) and all(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=True) for u, v in zip(x, y))
        elif isinstance(x, np.ndarray) and x.dtype == object or x is None or y is None:
            ok = repr(x) == repr(y)
        else:
            ok = np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)
        if not ok:
            bad.append(q)
    return bad


def outcome(func):
    try:
        return 'done', func()
    except (ValueError, TypeError, RuntimeError, np.linalg.LinAlgError) as e:
        return type(e).__name__, {}


def random_options(rng, name):
    """More options than the jobs use."""
    o = {}
    if name in ('AA', 'KAA', 'GPNH', 'CROM', 'MTD'):
        if rng.rand() < 0.4:
            o.update(jobs.solver_options(rng))
        if rng.rand() < 0.2:
            o['step_size_tolerance'] = float(gen.pick(rng, [1e-6, 1e-3, 0.1]))
        o['tolerance'] = float(gen.pick(rng, [0, 1e-6, 1e-3, 0.05]))
    if name in ('AA', 'KAA') and rng.rand() < 0.4:
        o['delta'] = float(gen.pick(rng, [0, 0.1, 0.5]))
    if name in ('FKM', 'FVX'):
        o['tolerance'] = float(gen.pick(rng, [0, 1e-4, 1.0]))
    return o


def refit(name):
    def run(ctx):
        rng = ctx.rng
        old = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 2, 5, 20])))
        new = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 2, 5, 20, 60])))
        old.options.update(random_options(rng, name))
        new.options.update(random_options(rng, name))
        seed = int(rng.randint(10 ** 6))
        plain = name in ('PW', 'KMC')

        def state():
            return seed if plain else np.random.RandomState(seed)
        if name == 'KMC':
            fresh = new.make(state(), n_init=int(rng.randint(1, 3)), max_iter=int(gen.pick(rng, [2, 300])))
        else:
            fresh = new.make(state())
        how, expected = outcome(lambda: new.run(copy.deepcopy(fresh)))
        if how != 'done':
            raise Skip()
        # a model of the old options, used
        m = old.make(np.random.RandomState(3) if not plain else 3)
        situation = gen.pick(rng, ['constructed', 'fitted', 'fitted', 'fitted and used', 'copied', 'interrupted'])
        if situation != 'constructed':
            a = outcome(lambda: old.run(m))[0]
            if a != 'done':
                raise Skip()
            if situation == 'fitted and used':
                outcome(lambda: old.use(m))
            elif situation == 'copied':
                m = copy.deepcopy(m)
        kept = situation in ('fitted', 'copied') and name not in ('FVX', 'CROM', 'MTD')   # lags and memory are both options and part of the result
        if kept:
            before = old.state(m)
        names = ATTRIBUTES[name]
        for opt, attr in names.items():
            setattr(m, attr, copy.deepcopy(getattr(fresh, attr)))
        if kept:
            after = old.state(m)
            before.pop('n_components_', None)
            after.pop('n_components_', None)
            bad = same(before, after)
            ctx.require(not bad, 'results-kept-until-next-fit', '%s: assigning options changed %r' % (name, bad))
        how, got = outcome(lambda: new.run(m))
        ctx.require(how == 'done', 'refit-uses-assigned-options', '%s (%s, %r -> %r): %s' % (name, situation, old.options, new.options, how))
        if how != 'done':
            return
        bad = same(expected, got)
        ctx.require(not bad, 'refit-uses-assigned-options', '%s (%s, k %d -> %d, init %r -> %r, %r -> %r): %r differ' % (
            name, situation, old.k, new.k, old.init, new.init, old.options, new.options, bad))
        f2 = copy.deepcopy(fresh)
        new.run(f2)
        a, b = outcome(lambda: new.use(f2, which=0)), outcome(lambda: new.use(m, which=0))
        ctx.require(a[0] == b[0] and not same(a[1], b[1]), 'refit-uses-assigned-options', '%s (%s): transforms or forecasts differ after the refit: %r %r' % (
            name, situation, a[0], b[0]))
        ctx.seen('refit', name, situation, old.k == new.k, old.init == new.init, tuple(sorted(new.options)))
    return run


def single(name):
    """One option assigned at a time, data and everything else as before."""
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, limit=8, generic=True, nmax=20)
        if job.init == 'custom':
            job.init = 'random'
        for q in ('weights', 'dictionary', 'parameters', 'order_weights', 'transition_matrices'):
            job.args.pop(q, None)
        n, f = np.shape(job.args['data'])[0], job.features
        other = random_options(rng, name)
        if name in jobs.FACTOR:
            other.update(M.SPECS[name].options(rng))
            other.update(max_iterations=int(rng.randint(1, 15)), init=str(gen.pick(rng, ['random', 'furthest_sum'])), n_components=int(rng.randint(1, min(n, 5) + 1)))
            if 'lags' in other and max(other['lags']) >= n:
                other['lags'] = [1]
            other['require_monotonic_cost_decrease'] = False
        elif name in ('FKM', 'FVX'):
            other.update(max_tv_norm=gen.pick(rng, [None, 1, 2.5]), max_iterations=int(rng.randint(1, 10)), n_components=int(rng.randint(1, 4)))
            if name == 'FVX':
                other['memory'] = int(rng.randint(0, 3))
        elif name == 'PW':
            other.update(p=int(rng.randint(1, 3)), include_trend=bool(rng.rand() < 0.5), n_components=int(rng.randint(1, 4)))
        else:
            other.update(n_clusters=int(rng.randint(1, 5)), kmeans_kwargs=dict(n_init=2, random_state=5, max_iter=int(gen.pick(rng, [1, 300]))))
        opt = gen.pick(rng, sorted(other))
        attr = ATTRIBUTES[name].get(opt)
        if attr is None:
            raise Skip()
        seed = int(rng.randint(10 ** 6))
        plain = name in ('PW', 'KMC')

        def state():
            return seed if plain else np.random.RandomState(seed)
        # the model constructed with the option
        o = dict(job.options)
        k = job.k
        if opt in ('n_components', 'n_clusters'):
            k = other[opt]
            if name == 'FVX' and not np.isscalar(o.get('memory')):
                raise Skip()
        direct = copy.copy(job)
        direct.k, direct.options = k, o
        if opt == 'init':
            direct.init = other[opt]
        elif opt == 'kmeans_kwargs':
            q = dict(other[opt])
            q.pop('random_state')
            direct.options = q
            seed = 5
        elif opt not in ('n_components', 'n_clusters'):
            o[opt] = other[opt]
        how, expected = outcome(lambda: direct.run(direct.make(state())))
        if how != 'done':
            raise Skip()
        m = job.make(np.random.RandomState(1) if not plain else seed)
        if outcome(lambda: job.run(m))[0] != 'done':
            raise Skip()
        value = other[opt]
        if opt == 'lags':
            value = np.array(value)
        elif opt == 'memory':
            value = np.full((k,), value)
        setattr(m, attr, value)
        if not plain:
            m.random_state = np.random.RandomState(seed)
        how, got = outcome(lambda: direct.run(m))
        ctx.require(how == 'done' and not same(expected, got), 'refit-uses-assigned-options', '%s: after assigning %s=%r to a fitted model its fit %s differs in %r' % (
            name, opt, other[opt], how, same(expected, got)))
        ctx.seen('single', name, opt)
    return run


def typed(name):
    """Options given as NumPy scalars count like Python numbers."""
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 3, 8])), nmax=18)
        job.options.update(random_options(rng, name))
        seed = int(rng.randint(10 ** 6))
        plain = name in ('PW', 'KMC')
        rs = (lambda: seed) if plain else (lambda: np.random.RandomState(seed))
        how, expected = outcome(lambda: job.run(job.make(rs())))
        if how != 'done':
            raise Skip()
        q = copy.copy(job)
        q.options = {}
        for key, v in job.options.items():
            if isinstance(v, bool):
                v = np.bool_(v) if name != 'KMC' else v
            elif isinstance(v, int) and key != 'line_search_memory':
                v = gen.pick(rng, [np.int64, np.int32, np.int16])(v) if name != 'KMC' else v
            elif isinstance(v, float):
                v = np.float64(v)
            elif isinstance(v, list) and key in ('lags',):
                v = gen.pick(rng, [lambda l: np.array(l, dtype='i8'), lambda l: np.array(l, dtype='i4'), tuple, lambda l: [np.int64(i) for i in l]])(v)
            q.options[key] = v
        if name != 'KMC':
            q.k = gen.pick(rng, [np.int64, np.int32])(job.k)
        how, got = outcome(lambda: q.run(q.make(rs())))
        ctx.require(how == 'done' and not same(expected, got), 'numpy-typed-options', '%s: options %r: %s, differing %r' % (name, q.options, how, same(expected, got)))
        ctx.seen('typed', name, tuple(sorted(q.options)))
    return run


def transform(name):
    """Limits assigned between a fit and a transform."""
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, kinds=('gauss', 'clusters', 'ar', 'simplex'))
        k = max(2, k)
        if len(X) < k + 2:
            raise Skip()
        model = spec.make(k, o, init='random', random_state=np.random.RandomState(rng.randint(10 ** 6)), max_iterations=int(gen.pick(rng, [1, 2])),
                          tolerance=float(gen.pick(rng, [1e-6, 0.1, 10.0])))
        spec.fit(model, X)
        fitted = fitted_state(spec, model)
        n2 = len(X) if spec.archetypal else rng.randint(spec.min_samples(o), 26)
        X2 = gen.data(rng, n2, X.shape[1], 'gauss')
        values = []
        for lim in (1, 4, 3000):
            c = copy.deepcopy(model)
            c.max_iterations, c.tolerance = lim, 0
            W = np.array(c.transform(spec.observed(X2)))
            v, F = objective(spec, X2, W, fitted, o)
            values.append((v, gap_of(spec, X2, F, o), spec.cost_scale(X2, o, F)))
        v1, g1, s1 = values[0]
        v2, g2, s2 = values[-1]
        spread = np.linalg.cond(fitted['dictionary_']) if not spec.archetypal else 10
        ctx.require(values[1][0] <= v1 + 1e-9 * max(s1, v1) and v2 <= values[1][0] + 1e-9 * max(s1, v1), 'transform-uses-assigned-options',
                    '%s: objectives %r with 1, 4 and 3000 iterations' % (name, [v[0] for v in values]))
        if g1 > 0.05 * max(s1, v1):
            ctx.require(v2 < v1 - 1e-4 * g1, 'transform-uses-assigned-options', '%s: 3000 iterations assigned before a transform end at %r like 1 at %r (gap %r)' % (name, v2, v1, g1))
        # a coarse tolerance stops at once, as it would in a model made with it
        c = copy.deepcopy(model)
        c.max_iterations, c.tolerance = 3000, 1e9
        W = np.array(c.transform(spec.observed(X2)))
        v, F = objective(spec, X2, W, fitted, o)
        ctx.require(abs(v - v1) <= 1e-9 * max(s1, v1), 'transform-uses-assigned-options', '%s: with an enormous tolerance assigned, a transform ends at %r, after one iteration at %r' % (name, v, v1))
        ctx.seen('transform', name, k, len(X))
    return run


FAMILIES = [Family('refit_' + nm, refit(nm), q) for nm, q in zip(jobs.NAMES, (150, 100, 150, 150, 150, 50, 50, 60, 40))]
FAMILIES += [Family('single_' + nm, single(nm), q) for nm, q in zip(jobs.NAMES, (150, 100, 150, 150, 150, 50, 50, 60, 40))]
FAMILIES += [Family('typed_' + nm, typed(nm), q) for nm, q in zip(jobs.NAMES, (60, 40, 60, 60, 60, 30, 30, 40, 10))]
FAMILIES += [Family('transform_' + nm, transform(nm), q) for nm, q in (('AA', 60), ('KAA', 40), ('GPNH', 60), ('CROM', 60), ('MTD', 60))]
