"""C25: finite data gives finite results, without exceptions."""
import numpy as np
from vlib import repo, gen, fem, models as M
from vlib.core import Family, Skip

ID = 'C25'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('fits, refits and transforms of every model on degenerate data sets (duplicated, constant, collinear, zero, single '
        'samples, fewer distinct samples than components) scaled to magnitudes between 1e-6 and 1e6; distinct = '
        '(model, data kind, magnitude, n, f, k, init)')
REQUIRED = {'finite': 1, 'fits of degenerate data': 1}
TECHNIQUE = 'exception and non-finite-value monitor under degenerate and badly scaled workloads'
LEVEL_NOTE = 'Every observed call is decided; reach comes from the product of data kinds, magnitudes and options.'
MAG = [1e-6, 1e-3, 1.0, 1.0, 1e3, 1e6]
KINDS = gen.ALL + ('zerorows', 'onehot', 'halfzero', 'neardup', 'mixedscale')


def data(rng, n, f, kind):
    if kind == 'zerorows':
        X = rng.randn(n, f)
        X[rng.rand(n) < 0.5] = 0
        return X
    if kind == 'onehot':
        X = np.zeros((n, f))
        X[rng.randint(n)] = 1.0
        return X
    if kind == 'halfzero':
        X = rng.randn(n, f)
        X[:, : (f + 1) // 2] = 0
        return X
    if kind == 'neardup':
        return np.tile(rng.randn(f), (n, 1)) + 1e-13 * rng.randn(n, f)
    if kind == 'mixedscale':
        return rng.randn(n, f) * 10.0 ** rng.randint(-6, 1, size=f)
    return gen.data(rng, n, f, kind)


def scaled(rng, n, f, kind):
    X = data(rng, n, f, kind)
    m = np.abs(X).max()
    if m > 0:
        X = X / m
    mag = gen.pick(rng, MAG)
    return X * mag, mag


def finite(ctx, **values):
    for name, v in values.items():
        if v is None:
            continue
        ctx.require(bool(np.all(np.isfinite(np.asarray(v, dtype=float)))), 'finite',
                    '%s not finite' % name, value=np.asarray(v, dtype=float))


def factorisations(ctx):
    """archetypal analysis and convex coding"""
    rng = ctx.rng
    spec = M.SPECS[gen.pick(rng, list(M.SPECS))]
    o = spec.options(rng)
    lo = spec.min_samples(o)
    n = rng.randint(lo, 16) if rng.rand() < 0.8 else lo
    f = rng.randint(1, 5)
    kind = gen.pick(rng, KINDS)
    X, mag = scaled(rng, n, f, kind)
    k = rng.randint(1, min(6, n if rng.rand() < 0.9 else 6) + 1)
    k = min(k, n)
    init = gen.pick(rng, ['random', 'furthest_sum', 'custom', None])
    if spec.archetypal and rng.rand() < 0.2:
        o['delta'] = gen.pick(rng, [0.1, 0.5, 2.0])
    o.update(init=init, max_iterations=gen.pick(rng, [1, 3, 20, 120]), tolerance=gen.pick(rng, [0, 1e-6]),
             random_state=int(rng.randint(1 << 30)))
    kw = spec.start(rng, X, k, o) if init == 'custom' else {}
    m = spec.make(k, o)
    F = spec.fit(m, X, **kw)
    finite(ctx, weights=F['W'], dictionary=F['D'], cost=m.cost_, order_weights=F.get('w'), transitions=F.get('T'),
           reconstruction=m.inverse_transform(F['W']))
    V = m.transform(spec.observed(X))
    finite(ctx, transformed=V)
    if not spec.archetypal:
        n2 = max(lo, rng.randint(1, 12))
        Y, _ = scaled(rng, n2, f, gen.pick(rng, KINDS))
        finite(ctx, transformed_other=m.transform(Y))
    ctx.count('fits of degenerate data', kind not in gen.NICE)
    ctx.seen(spec.name, kind, mag, n, f, k, init)
    ctx.note(model=spec.name, kind=kind, magnitude=mag, n=n, k=k, init=init, cost=float(m.cost_))


def fembv(ctx):
    """FEM-BV models"""
    rng = ctx.rng
    which = gen.pick(rng, ['kmeans', 'varx'])
    kind = gen.pick(rng, KINDS)
    f = rng.randint(1, 4)
    k = rng.randint(1, 5)
    o = dict(random_state=int(rng.randint(1 << 30)), max_iterations=gen.pick(rng, [1, 2, 5, 20]))
    if which == 'kmeans':
        n = rng.randint(1, 20)
        k = min(k, n)
        X, mag = scaled(rng, n, f, kind)
        o['max_tv_norm'] = fem.tv_bound(rng, n)
        m = repo.fembv_kmeans.FEMBVKMeans(k, **o)
        G = m.fit_transform(X)
        finite(ctx, affiliations=G, centroids=m.Theta if hasattr(m, 'Theta') else None, cost=m.cost_)
        finite(ctx, transformed=m.transform(X))
    else:
        mem = gen.pick(rng, [None, 0, 1, 2, 'mixed'])
        if mem == 'mixed':
            mem = [int(v) for v in rng.randint(0, 3, size=k)]
        n = rng.randint(12 + 4 * f, 40)
        X, mag = scaled(rng, n, f, kind)
        u = None
        if rng.rand() < 0.4:
            u, _ = scaled(rng, n, rng.randint(1, 3), gen.pick(rng, KINDS))
        o['max_tv_norm'] = fem.tv_bound(rng, n)
        m = repo.fembv_varx.FEMBVVARX(k, memory=mem, **o)
        kw = {} if u is None else dict(external_factors=u)
        G = m.fit_transform(X, **kw)
        finite(ctx, affiliations=G, mu=m.mu, A=m.A if max(fem.memories(mem, k)) else None, B0=m.B0, cost=m.cost_)
        finite(ctx, transformed=m.transform(X, **kw))
    ctx.count('fits of degenerate data', kind not in gen.NICE)
    ctx.seen(which, kind, mag, n, f, k)
    ctx.note(model=which, kind=kind, magnitude=mag, n=n, k=k, cost=float(m.cost_))


def local_model(ctx):
    """local VARX model, weighted and unweighted"""
    rng = ctx.rng
    kind = gen.pick(rng, KINDS)
    f = rng.randint(1, 4)
    n = rng.randint(8, 40)
    X, mag = scaled(rng, n, f, kind)
    p = rng.randint(0, 3)
    u = None
    s = 0
    if rng.rand() < 0.5:
        u, _ = scaled(rng, n, rng.randint(1, 3), gen.pick(rng, KINDS))
        s = rng.randint(0, 3)
    m = repo.fembv_varx.FEMBVVARXLocalLinearModel(X, u=u, p=p, s=s)
    for _ in range(rng.randint(1, 3)):
        w = gen.pick(rng, [None, 'ones', 'uniform', 'sparse', 'zero'])
        if w == 'ones':
            w = np.ones(n)
        elif w == 'zero':
            # a component that lost all its samples
            w = np.zeros(n)
        elif w == 'uniform':
            w = rng.uniform(0.1, 1, size=n)
        elif w == 'sparse':
            w = 1.0 * (rng.rand(n) < 0.5)
            w[-3:] = 1.0
        m.fit(weights=w)
        finite(ctx, mu=m.mu, A=m.A if p else None, B=m.B if s else None, B0=m.B0, residuals=m.residuals)
    ctx.count('fits of degenerate data', kind not in gen.NICE)
    ctx.seen('local', kind, mag, n, f, p, s)


def furthest_sum(ctx):
    """selection among degenerate dissimilarities"""
    rng = ctx.rng
    kind = gen.pick(rng, KINDS)
    n, f = rng.randint(1, 14), rng.randint(1, 4)
    X, mag = scaled(rng, n, f, kind)
    D = np.sqrt(np.maximum(((X[:, None] - X[None]) ** 2).sum(-1), 0))
    k = rng.randint(1, n + 1)
    r = np.asarray(repo.furthest_sum_module.furthest_sum(D, k, rng.randint(n), extra_steps=rng.randint(0, 12)))
    ctx.require(len(set(int(i) for i in r)) == k, 'selection', 'selected %r' % (r.tolist(),))
    x = gen.pick(rng, MAG) * rng.randn(rng.randint(1, 30))
    if rng.rand() < 0.3:
        x[:] = x[0]
    finite(ctx, projection=repo.simplex_projection.simplex_project_vector(x))
    ctx.count('fits of degenerate data', kind not in gen.NICE)
    ctx.seen('furthest_sum', kind, mag, n, k)


def piecewise(ctx):
    """piecewise VARX models with degenerate columns or regions"""
    rng = ctx.rng
    n, f, k = rng.randint(30, 80), rng.randint(1, 4), rng.randint(2, 5)
    p, s = int(rng.randint(1, 3)), int(rng.randint(0, 3))
    Y, mag = scaled(rng, n, f, gen.pick(rng, ['gauss', 'ar', 'clusters']))
    how = gen.pick(rng, ['constant', 'zero', 'duplicate', 'collinear', 'none'])
    if how == 'constant':
        Y[:, rng.randint(f)] = mag
    elif how == 'zero':
        Y[:, rng.randint(f)] = 0
    elif how == 'duplicate':
        Y = np.c_[Y, Y[:, :1]]
    elif how == 'collinear':
        Y = np.c_[Y, Y.sum(axis=1)]
    u = None
    if s:
        u, _ = scaled(rng, n, rng.randint(1, 3), gen.pick(rng, KINDS))
    trend = bool(rng.rand() < 0.7)
    late = gen.pick(rng, [None, 'lost', 'few'])
    kw = {}
    if late:
        # regions without samples, or with fewer than coefficients
        kw['classifier'] = Fixed(lambda m: rng.randint(k - 1, size=m) if late == 'lost' else
                                 np.r_[np.full(m - 2, 0), rng.randint(k, size=2)])
    m = repo.pwvarx.ClusterPWVARX(k, p, s=s, include_trend=trend, random_state=int(rng.randint(1000)), **kw)
    try:
        labels = np.asarray(m.fit_transform(Y, exog=u) if u is not None else m.fit_transform(Y))
    except ValueError as e:
        if 'class' in str(e):
            raise Skip()            # all samples in one cluster
        raise
    finite(ctx, mu=m.mu if trend else None, A=m.A, B=m.B if s else None, residuals=m.residuals)
    cols = p * Y.shape[1] + (s * u.shape[1] if s else 0) + (1 if trend else 0)
    for j in range(k):
        if (labels == j).sum() > cols:
            finite(ctx, covariance=m.Sigma_u[j])
    t = np.asarray(m.transform(Y, exog=u) if u is not None else m.transform(Y))
    ctx.require(t.shape == labels.shape, 'finite', 'labels of a transform')
    ctx.count('regions without samples', len(set(labels.tolist())) < k)
    ctx.seen('piecewise', how, mag, p, s, f, k, late)
    ctx.note(model='ClusterPWVARX', degenerate=how, magnitude=mag, p=p, s=s, k=k)


class Fixed(object):
    """Classifier with given labels."""

    def __init__(self, labels_of):
        self.labels_of = labels_of
        self.labels = None

    def fit(self, x, labels):
        self.labels = np.asarray(self.labels_of(len(x)))
        return self

    def predict(self, x):
        return np.resize(self.labels, len(x))


def clustering(ctx):
    """k-means Markov models"""
    rng = ctx.rng
    n, f = rng.randint(4, 60), rng.randint(1, 4)
    X, mag = scaled(rng, n, f, gen.pick(rng, KINDS))
    distinct = len(np.unique(X, axis=0))
    k = int(rng.randint(1, min(6, n) + 1))
    m = repo.crom.KMeansMarkovCROM(k, random_state=int(rng.randint(1000)), n_init=1)
    m.fit(X)
    finite(ctx, centres=m.cluster_centers_, inertia=m.inertia_, distances=m.transform(X))
    L = np.asarray(m.labels_)
    T = np.asarray(m.transition_matrix_)
    used = [j for j in range(k) if np.any(L[:-1] == j)]
    finite(ctx, transitions=T[:, used])
    if len(used) == k:
        finite(ctx, predictions=m.predict(X, horizon=int(rng.randint(4))))
    ctx.count('clusters without samples', len(set(L.tolist())) < k)
    ctx.seen('clustering', k, distinct < k, mag)


FAMILIES = [Family('factorisations', factorisations, 2000), Family('fembv', fembv, 500), Family('local_model', local_model, 400), Family('furthest_sum', furthest_sum, 300),
            Family('piecewise', piecewise, 200), Family('clustering', clustering, 150)]
