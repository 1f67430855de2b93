"""C23: omitted options take their documented defaults."""
import numpy as np
from vlib import repo, gen, jobs, oracles as O, models as M, fem
from vlib.recorders import same, differing
from vlib.core import Family, Skip

ID = 'C23'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('pairs of equally seeded models, one with an option left out (or None) and one given the documented value, fitted and '
        'used on the same data and compared bitwise; distinct = (model, option left out, form, k)')
REQUIRED = {'omitted-equals-documented': 1, 'documented-limits': 1, 'components-from-data': 1}
TECHNIQUE = 'differential monitor: omitted versus explicit option, bitwise'
LEVEL_NOTE = 'Every observed pair is decided bitwise; sampled data and other options.'

CLS = dict(AA=lambda: repo.aa.ArchetypalAnalysis, KAA=lambda: repo.aa.KernelAA, GPNH=lambda: repo.gpnh.GPNHConvexCoding,
           CROM=lambda: repo.crom_gpnh.GPNHConvexCodingCROM, MTD=lambda: repo.mtd.MTDConvexCoding,
           FKM=lambda: repo.fembv_kmeans.FEMBVKMeans, FVX=lambda: repo.fembv_varx.FEMBVVARX,
           PW=lambda: repo.pwvarx.ClusterPWVARX, KMC=lambda: repo.crom.KMeansMarkovCROM)

# documented values of options that may be left out
DEFAULTS = dict(
    AA=dict(init='furthest_sum', tolerance=1e-6, max_iterations=1000, delta=0, kernel_func=None, verbose=0),
    KAA=dict(init='furthest_sum', tolerance=1e-6, max_iterations=1000, delta=0, verbose=0),
    GPNH=dict(init='random', tolerance=1e-6, max_iterations=1000, epsilon_states=0, verbose=0),
    CROM=dict(init='random', tolerance=1e-6, max_iterations=1000, epsilon_states=0, lags=[1], verbose=0),
    MTD=dict(init='random', tolerance=1e-6, max_iterations=1000, epsilon_states=0, epsilon_weights=0, lags=[1], verbose=0),
    FKM=dict(init='random', tolerance=1e-4, max_iterations=500, max_tv_norm=-1, verbose=0),
    FVX=dict(init='random', tolerance=1e-4, max_iterations=500, max_tv_norm=-1, memory=0, verbose=0),
    PW=dict(s=0, include_trend=True),
    KMC=dict())
# options for which None stands for the documented value as well
NONE = ('init', 'lags', 'max_tv_norm', 'memory', 'kernel_func', 'n_components')


def outcome(name, job, k, options, seed, use=True):
    m = CLS[name]()(k, random_state=seed, **options)
    r = job.run(m)
    if use:
        r.update(job.use(m))
    if name == 'PW':
        r.pop('B', None)
    return r, m


def omitted(name):
    def run(ctx):
        rng = ctx.rng
        while True:
            job = jobs.build(rng, name, init=None, limit=int(gen.pick(rng, [1, 3, 30])))
            if job.init != 'custom':
                break
        defaults = DEFAULTS[name]
        options = dict(job.options)
        if job.init is not None and name not in ('PW', 'KMC'):
            options['init'] = job.init
        if not defaults:
            raise Skip()
        left_out = [q for q in sorted(defaults) if rng.rand() < 0.4] or [gen.pick(rng, sorted(defaults))]
        explicit = dict(options, **{q: defaults[q] for q in left_out})
        short = {q: v for q, v in options.items() if q not in left_out}
        form = {}
        for q in left_out:
            if q in NONE and rng.rand() < 0.5:
                short[q] = None
                form[q] = 'None'
        if 'max_iterations' in left_out and 'tolerance' in explicit and 'tolerance' not in left_out:
            explicit['tolerance'] = short['tolerance'] = max(short.get('tolerance', 1e-5), 1e-5)
        if 'kernel_func' in explicit:
            explicit['kernel_func'] = lambda X: np.dot(X, X.T)
        if name == 'FVX':
            # other data was made for another memory
            L = max(fem.memories(explicit.get('memory'), job.k))
            for o in job.others:
                if len(o['data']) < L + 3:
                    raise Skip()
        if name in ('CROM', 'MTD'):
            if any(len(o['data']) <= max(explicit.get('lags') or [1]) + 1 for o in job.others):
                raise Skip()
        if name == 'PW' and ('s' in left_out):
            explicit['s'] = 0
        seed = int(rng.randint(10 ** 6))
        try:
            a, ma = outcome(name, job, job.k, explicit, seed)
            b, mb = outcome(name, job, job.k, short, seed)
        except ValueError as e:
            if name == 'PW' and 'class' in str(e):
                raise Skip()
            raise
        d = differing(a, b)
        ctx.require(not d, 'omitted-equals-documented', '%s without %r (%r) and others %r: %r differ' % (name, left_out, form, sorted(short), d))
        for q in left_out:
            ctx.seen(name, q, form.get(q, 'omitted'), job.k)
        ctx.note(model=name, left_out=left_out, as_none=sorted(form))
    return run


def components(ctx):
    """models without a number of components"""
    rng = ctx.rng
    name = gen.pick(rng, list(jobs.NAMES))
    by_samples = name in ('AA', 'KAA')
    for _ in range(20):
        job = jobs.build(rng, name, limit=3)
        if job.init != 'custom':
            break
    else:
        raise Skip()
    X = job.args['data']
    if name == 'KMC':
        # coinciding, few or coarse values
        how = rng.randint(4)
        if how == 0:
            X[:, rng.randint(X.shape[1])] = 1.5
        elif how == 1:
            X[...] = np.round(X)
        elif how == 2:
            m = rng.randint(3, 8)
            job.args = {q: v[:m] for q, v in job.args.items()}
            X = job.args['data']
        if len(np.unique(X, axis=0)) < 2:
            raise Skip()
    if name in ('GPNH', 'MTD', 'CROM') and rng.rand() < 0.4:
        # fewer samples than features
        X = gen.data(rng, rng.randint(5, 9), rng.randint(8, 13), 'gauss')
        job.init = gen.pick(rng, [None, 'random'])
        job.others = []
        job.args = dict(data=X)
    k = X.shape[0] if by_samples else X.shape[1]
    if name == 'FVX' and job.options.get('memory') is not None and not np.isscalar(job.options['memory']):
        job.options['memory'] = int(max(job.options['memory']))
    if name == 'KMC':
        k = 2
    options = dict(job.options)
    if job.init and name not in ('PW', 'KMC'):
        options['init'] = job.init
    if k > 20 or (k > len(X) and (name not in ('GPNH', 'MTD', 'CROM') or options.get('init', 'random') not in (None, 'random'))):
        raise Skip()
    job.args.pop('exclude', None)
    seed = int(rng.randint(10 ** 6))
    # other data must have as many features
    job.k = k
    try:
        a, ma = outcome(name, job, k, options, seed)
        b, mb = outcome(name, job, None, options, seed)
    except ValueError as e:
        if name == 'PW' and 'class' in str(e):
            raise Skip()
        raise
    d = differing(a, b)
    ctx.require(not d, 'omitted-equals-documented', '%s without number of components: %r differ from %d' % (name, d, k))
    if 'n_components_' in b:
        ctx.require(b['n_components_'] == k, 'components-from-data', '%s: %r instead of %d' % (name, b['n_components_'], k))
    if name == 'KMC':
        ctx.require(b['cluster_centers_'].shape[0] == 2, 'components-from-data', 'default clusters')
        km, T = repo.crom.kmeans_markov_crom(X, random_state=seed, n_init=1)
        ctx.require(np.array_equal(T, b['transition_matrix_'], equal_nan=True) or 'sample_weight' in job.args,
                    'omitted-equals-documented', 'kmeans_markov_crom without clusters')
        ctx.require(T.shape == (2, 2), 'components-from-data', 'kmeans_markov_crom default clusters')
    ctx.seen('components', name, k)


def limits(ctx):
    """default iteration limits are reached when nothing else stops"""
    rng = ctx.rng
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'MTD', 'CROM'])
    spec = M.SPECS[name]
    X = rng.randn(7, 2)
    m = CLS[name]()(2, tolerance=0, random_state=3, init='random')
    F = spec.fit(m, X)
    n = int(m.n_iter_)
    if n < 900:
        raise Skip()
    # the count of archetypal analysis starts at zero (see C06)
    ctx.require(n in ((999, 1000) if spec.archetypal else (1000,)), 'documented-limits', '%s stopped after %d iterations' % (name, n))
    ctx.seen('limit', name, n)


def unbounded(ctx):
    """without variation bound every sample takes a component of least distance"""
    rng = ctx.rng
    name = gen.pick(rng, ['FKM', 'FVX'])
    job = jobs.build(rng, name, init='random')
    o = {q: v for q, v in job.options.items() if q != 'max_tv_norm'}
    o['max_iterations'] = 5
    m = CLS[name]()(job.k, random_state=1, **o)
    job.run(m)
    G = np.asarray(m.transform(**job.args))
    if name == 'FKM':
        D = fem.kmeans_distances(job.args['data'], np.asarray(m.Theta))
    else:
        mems = fem.memories(job.options['memory'], job.k)
        s = fem.varx_state(m, mems)
        D = fem.varx_distances(job.args['data'], job.args.get('external_factors'), mems, s['mu'], s['A'], s['B0'])
    ctx.require((G * D).sum() - D.min(axis=1).sum() <= 1e-5 * (D.sum() + 1e-12) / job.k, 'omitted-equals-documented',
                '%s without bound: %r instead of %r' % (name, (G * D).sum(), D.min(axis=1).sum()))
    ctx.seen('unbounded', name, job.k)


def helpers(ctx):
    """defaults of helper calls"""
    rng = ctx.rng
    y = rng.randn(25, 2)
    L = repo.fembv_varx.FEMBVVARXLocalLinearModel
    u = rng.randn(25, 1)
    for a, b in ((L(y), L(y, p=0, u=None, s=0)), (L(y, p=2), L(y, p=2, u=None)), (L(y, p=1, u=u), L(y, p=1, u=u, s=0))):
        a.fit()
        b.fit(weights=None)
        ctx.require(all(same(getattr(a, q), getattr(b, q)) for q in ('mu', 'A', 'B', 'B0', 'Sigma_u', 'residuals')),
                    'omitted-equals-documented', 'local model')
    name = gen.pick(rng, ['CROM', 'MTD', 'KMC'])
    job = jobs.build(rng, name, limit=2)
    m = job.make(1)
    job.run(m)
    X = job.others[0]['data']
    state = np.random.RandomState(5).get_state()
    out = []
    for kw in ({}, dict(horizon=0)):
        if hasattr(m, 'random_state'):
            m.random_state.set_state(state)
        out.append(np.array(m.predict(X, **kw)))
    ctx.require(same(out[0], out[1]), 'omitted-equals-documented', '%s horizon' % name)
    ctx.seen('helpers', name)


FAMILIES = [Family(nm, omitted(nm), q) for nm, q in (('AA', 90), ('KAA', 70), ('GPNH', 90), ('CROM', 90), ('MTD', 90), ('FKM', 60),
                                                     ('FVX', 80), ('PW', 40))]
FAMILIES += [Family('components', components, 150), Family('limits', limits, 16), Family('unbounded', unbounded, 60),
             Family('helpers', helpers, 40)]
