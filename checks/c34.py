"""C34: units of measurement do not matter where no option has units."""
import numpy as np
from sklearn.cluster import KMeans
from vlib import repo, gen, fem, oracles as O, models as M
from vlib.core import Family, Skip

ID = 'C34'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('pairs of runs on data in different units (powers of two from 2^-40 to 2^40, and other factors; separate units of every '
        'column for the least squares models) started from correspondingly scaled guesses; pairs that hang on rounding are '
        'counted and not judged; distinct = (routine, data kind, sizes, magnitude of the factor)')
REQUIRED = {'selection-unchanged': 1, 'start-scales': 1, 'markov-unchanged': 1, 'affiliations-unchanged': 1, 'parameters-scale': 1,
            'cost-scales': 1, 'coefficients-scale': 1, 'covariance-scales': 1, 'regions-scale': 1}
TECHNIQUE = 'metamorphic monitor: runs in different units of measurement'
LEVEL_NOTE = 'Every observed pair is decided up to rounding (solver accuracy for FEM-BV); sampled problems and factors.'
# a line search that cannot accept any step shows the starting factors
FREEZE = dict(gamma=1e12, max_iterations=1, tolerance=0)
KINDS = ('gauss', 'clusters', 'simplex', 'ar', 'offset', 'outlier', 'constcol', 'lowrank')


def factor(rng, top=40):
    """a change of units, and whether it is free of rounding"""
    if rng.rand() < 0.8:
        return float(2.0 ** rng.randint(-top, top + 1)), True
    return float(10.0 ** rng.uniform(-top / 4.0, top / 4.0)), False


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def size(a):
    return float(np.abs(a).max(initial=0)) + 1e-300


def selection(ctx):
    """FurthestSum"""
    rng = ctx.rng
    n = rng.randint(2, 30)
    kind = gen.pick(rng, KINDS + ('integers', 'asymmetric'))
    if kind == 'integers':
        D = rng.randint(0, 5, size=(n, n)).astype(float)
        D = D + D.T
    elif kind == 'asymmetric':
        D = rng.uniform(size=(n, n))
    else:
        X = gen.data(rng, n, rng.randint(1, 5), kind)
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(axis=2))
    c, exact = factor(rng, 300)
    ex = [int(i) for i in rng.permutation(n)[:rng.randint(0, n // 2)]]
    allowed = [i for i in range(n) if i not in ex]
    k = rng.randint(1, len(allowed) + 1)
    kw = dict(extra_steps=int(rng.randint(0, 12)))
    if ex:
        kw['exclude'] = ex
    start = int(gen.pick(rng, allowed))
    a = [int(i) for i in repo.furthest_sum_module.furthest_sum(D, k, start, **kw)]
    b = [int(i) for i in repo.furthest_sum_module.furthest_sum(c * D, k, start, **kw)]
    if not exact and a != b:
        # ties may be broken by the rounding of the factor
        for _ in range(20):
            p = [int(i) for i in repo.furthest_sum_module.furthest_sum(D * (1 + 1e-14 * rng.uniform(-1, 1, size=D.shape)), k, start, **kw)]
            if p != a:
                ctx.count('pairs sensitive to rounding, not judged')
                raise Skip()
    ctx.require(a == b, 'selection-unchanged', 'FurthestSum (%s, n=%d, k=%d, %r): %r, and %r for dissimilarities times %r' % (
        kind, n, k, kw, a, b, c))
    ctx.seen('furthest sum', kind, n, k, int(np.log10(c)))
    ctx.note(routine='furthest_sum', factor=c, selected=a)


def starts(ctx):
    """samples chosen as first archetypes or dictionary"""
    rng = ctx.rng
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD'])
    spec = M.SPECS[name]
    X, k, o, kind = M.problem(rng, spec, kinds=KINDS)
    o.update(FREEZE)
    c, exact = factor(rng, 20)
    if k == 1 and not exact:
        raise Skip()          # every choice of an extra step is tied
    kw = dict(start_index=int(rng.randint(len(X))), n_extra_steps=int(rng.randint(6)))
    if len(X) > k + 2 and rng.rand() < 0.5:
        kw['exclude'] = [i for i in rng.permutation(len(X))[:2].tolist() if i != kw['start_index']]
    seed = int(rng.randint(10 ** 6))

    def start(Z):
        m = spec.make(k, o, init='furthest_sum', random_state=seed)
        m.fit(spec.observed(Z), **kw)
        return np.array(m.dictionary_)
    a = start(X)
    b = start(c * X) / (1 if spec.archetypal else c)
    if not near(a, b, 1e-9 * size(a)) and (not exact or name == 'KAA'):
        for _ in range(20):
            if not near(start(X * (1 + 1e-13 * rng.randn(*X.shape))), a, 1e-6 * size(a)):
                ctx.count('pairs sensitive to rounding, not judged')
                raise Skip()
    ctx.require(near(a, b, 1e-9 * size(a)), 'start-scales', '%s (%s, k=%d, %r): FurthestSum start differs for data times %r: %r, %r' % (
        name, kind, k, kw, c, a.tolist(), b.tolist()))
    ctx.seen('start', name, kind, len(X), k, int(np.log10(c)))
    ctx.note(routine=name + ' start', factor=c)


def markov(ctx):
    """k-means Markov models"""
    rng = ctx.rng
    n, f = rng.randint(8, 60), rng.randint(1, 5)
    k = rng.randint(1, 6)
    kind = gen.pick(rng, ('gauss', 'clusters', 'ar', 'offset'))
    X = gen.data(rng, n, f, kind)
    c, exact = factor(rng, 40)
    kw = dict(random_state=int(rng.randint(10 ** 6)), n_init=int(rng.randint(1, 4)))
    w = rng.randint(1, 4, size=n).astype(float) if rng.rand() < 0.4 else None

    def fit(Z):
        return repo.crom.KMeansMarkovCROM(k, **kw).fit(Z, sample_weight=w)
    a, b = fit(X), fit(c * X)
    if not np.array_equal(a.labels_, b.labels_):
        # k-means is scikit-learn's: what is judged is the model built on it
        ctx.count('pairs clustered differently by scikit-learn, not judged')
        raise Skip()
    label = 'Markov model (%s, k=%d, factor %r)' % (kind, k, c)
    T, S = np.asarray(a.transition_matrix_), np.asarray(b.transition_matrix_)
    ctx.require(near(np.nan_to_num(T, nan=-1), np.nan_to_num(S, nan=-1), 0), 'markov-unchanged', label + ': transition matrices differ')
    ctx.require(near(a.cluster_centers_, b.cluster_centers_ / c, 1e-9 * size(X)), 'markov-unchanged', label + ': centres')
    ctx.require(abs(a.inertia_ - b.inertia_ / c / c) <= 1e-8 * float(np.sum(X * X) + 1e-300) * (1 if w is None else 3), 'markov-unchanged', label + ': inertia')
    h = int(rng.randint(0, 5))
    Y = X[rng.randint(n, size=rng.randint(1, 12))]
    P, Q = a.predict(Y, horizon=h), b.predict(c * Y, horizon=h)
    ctx.require(near(np.nan_to_num(P, nan=-1), np.nan_to_num(Q, nan=-1), 1e-9), 'markov-unchanged', label + ': predictions')
    ctx.require(near(a.transform(Y), b.transform(c * Y) / c, 1e-6 * size(X)), 'markov-unchanged', label + ': distances')
    ctx.seen('markov', kind, n, k, int(np.log10(c)))
    ctx.note(routine='KMeansMarkovCROM', factor=c)


def kmeans(ctx):
    """FEM-BV-k-means"""
    rng = ctx.rng
    X, k, o, kind = fem.kmeans_problem(rng, kinds=('gauss', 'clusters', 'ar', 'offset', 'outlier', 'constcol'))
    n = len(X)
    c, exact = factor(rng, 60)
    its = int(rng.randint(1, 5))
    P = X[rng.choice(n, k, replace=False)]
    G = gen.rows(rng, n, k, sparse=0)
    custom = rng.rand() < 0.7
    seed = int(rng.randint(10 ** 6))
    scale2 = float(np.sum(X * X)) + 1e-300
    if scale2 < 1e-200:
        raise Skip()
    tol = 0 if rng.rand() < 0.6 else 1e-2 * scale2

    def fit(Z, s=1.0):
        m = repo.fembv_kmeans.FEMBVKMeans(k, init='custom' if custom else 'random', random_state=seed, max_iterations=its,
                                          tolerance=tol * s * s, **o)
        kw = dict(parameters=s * P, weights=np.array(G)) if custom else {}
        W = np.array(m.fit_transform(Z, **kw))
        V = np.array(m.transform(Z[::-1].copy()))
        return dict(W=W, V=V, T=np.array(m.Theta) / s, cost=float(m.cost_) / s / s, it=int(m.n_iter_))
    a, b = fit(X), fit(c * X, c)
    label = 'FEM-BV-k-means (%s, k=%d, %d iterations, %r, factor %r)' % (kind, k, its, o, c)

    def agree(p, q):
        return (near(p['W'], q['W'], 1e-3) and near(p['V'], q['V'], 1e-3) and near(p['T'], q['T'], 1e-3 * size(X)) and
                abs(p['cost'] - q['cost']) <= 1e-4 * scale2 and p['it'] == q['it'])
    same = agree(a, b)
    if not same:
        for i in range(6):
            if not agree(a, fit(X * (1 + 10.0 ** -rng.randint(7, 13) * rng.randn(*X.shape)))):
                ctx.count('pairs sensitive to rounding, not judged')
                raise Skip()
    ctx.require(same or (near(a['W'], b['W'], 1e-3) and near(a['V'], b['V'], 1e-3)), 'affiliations-unchanged', label)
    ctx.require(same or near(a['T'], b['T'], 1e-3 * size(X)), 'parameters-scale', label)
    ctx.require(same, 'cost-scales', '%s: costs %r, %r; %d and %d iterations' % (label, a['cost'], b['cost'], a['it'], b['it']))
    ctx.seen('fembv kmeans', kind, n, k, its, int(np.log10(c)))
    ctx.note(routine='FEMBVKMeans', factor=c, iterations=its)


def state(m, mems, f, c, d):
    """model parameters in the units of the unscaled data (c: one factor per feature, d: per external factor)"""
    s = fem.varx_state(m, mems)
    k = len(mems)
    out = [np.asarray(s['mu']) / c]
    if s['A'] is not None:
        out.append(np.concatenate([(np.asarray(s['A'][i])[:mems[i]] / c[:, None] * c[None, :]).ravel() for i in range(k)]))
    if s['B0'] is not None:
        out.append(np.asarray(s['B0']) / c[:, None] * d[None, :])
    return out


def varx(ctx):
    """FEM-BV-VARX"""
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng, nmax=60)
    mems = fem.memories(mem, k)
    n, f = X.shape
    if n - max(mems) < 3 * k * (1 + f * max(mems) + (0 if u is None else u.shape[1])):
        k, mem, mems = 1, int(max(mems)), [int(max(mems))]
    c, exact = factor(rng, 12)
    d = np.array([2.0 ** rng.randint(-12, 13) for _ in range(0 if u is None else u.shape[1])])
    its = int(rng.randint(1, 4))
    G = gen.rows(rng, n - max(mems), k, sparse=0)
    scale2 = float(np.sum(X * X)) + 1e-300

    def fit(Z, s=1.0, v=u, e=None):
        m = repo.fembv_varx.FEMBVVARX(k, memory=mem, init='custom', random_state=0, max_iterations=its, tolerance=0, **o)
        kw = {} if v is None else dict(external_factors=np.array(v))
        W = np.array(m.fit_transform(Z, weights=np.array(G), **kw))
        return dict(W=W, S=state(m, mems, f, np.full(f, s), e), cost=float(m.cost_) / s / s)
    one = None if u is None else np.ones(u.shape[1])
    a = fit(X, e=one)
    b = fit(c * X, c, None if u is None else u * d, d)
    label = 'FEM-BV-VARX (%s, memory %r, %d iterations, %r, factors %r, %r)' % (kind, mem, its, o, c, d.tolist())

    def agree(p, q):
        return (near(p['W'], q['W'], 1e-3) and abs(p['cost'] - q['cost']) <= 1e-4 * scale2 and
                all(near(x, y, 1e-3 * (1 + size(x))) for x, y in zip(p['S'], q['S'])))
    same = agree(a, b)
    if not same:
        members = 2 + f * max(mems) + (0 if u is None else u.shape[1])
        if a['W'].sum(axis=0).min() < members:
            ctx.count('pairs with undetermined components, not judged')
            raise Skip()
        for i in range(6):
            if not agree(a, fit(X * (1 + 10.0 ** -rng.randint(7, 13) * rng.randn(*X.shape)), e=one)):
                ctx.count('pairs sensitive to rounding, not judged')
                raise Skip()
    ctx.require(same or near(a['W'], b['W'], 1e-3), 'affiliations-unchanged', label)
    ctx.require(same or all(near(x, y, 1e-3 * (1 + size(x))) for x, y in zip(a['S'], b['S'])), 'parameters-scale', label)
    ctx.require(same, 'cost-scales', '%s: costs %r, %r' % (label, a['cost'], b['cost']))
    ctx.seen('fembv varx', kind, n, k, its, tuple(mems), int(np.log10(c)))
    ctx.note(routine='FEMBVVARX', factor=c, iterations=its)


def local(ctx):
    """local models, each column in its own units"""
    rng = ctx.rng
    n, f, p = rng.randint(25, 80), rng.randint(1, 4), int(rng.randint(0, 4))
    kind = gen.pick(rng, ('gauss', 'ar', 'clusters'))
    X = gen.data(rng, n, f, kind)
    q = int(rng.randint(0, 3))
    s = int(rng.randint(0, 3)) if q else 0
    u = rng.randn(n, q) if q else None
    if rng.rand() < 0.3:
        X = X.cumsum(axis=0) * 0.1
    top = int(gen.pick(rng, [3, 10, 18]))
    c = np.array([2.0 ** rng.randint(-top, top + 1) for _ in range(f)])
    d = np.array([2.0 ** rng.randint(-top, top + 1) for _ in range(q)])
    w = rng.uniform(0.1, 1, size=n) if rng.rand() < 0.5 else None
    e = float(2.0 ** rng.randint(-30, 31)) if w is not None and rng.rand() < 0.5 else 1.0

    def fit(Y, v, weights):
        m = repo.fembv_varx.FEMBVVARXLocalLinearModel(Y, p=p, u=v, s=s)
        m.fit() if weights is None else m.fit(weights=weights)
        return m
    a, b = fit(X, u, w), fit(X * c, None if u is None else u * d, None if w is None else w * e)
    label = 'local model (%s, n=%d, f=%d, p=%d, s=%d, %d factors, units %r, %r, weights times %r)' % (kind, n, f, p, s, q, c.tolist(), d.tolist(), e)
    # accuracy of the coefficients: conditioning of the two designs
    L = max(p, s)
    z = [np.ones((n - L, 1))] + [X[L - i:n - i] for i in range(1, p + 1)]
    if q:
        z += [u[L - i:n - i] for i in range(0, s + 1)]
    zs = [z[0]] + [x * c for x in z[1:p + 1]] + [x * d for x in z[p + 1:]]
    root = 1 if w is None else np.sqrt(w[L:])[:, None]
    cond = max(np.linalg.cond(np.hstack(z) * root), np.linalg.cond(np.hstack(zs) * root))
    if cond > 1e11 or n - L < 2 * sum(x.shape[1] for x in z):
        ctx.count('ill-conditioned, not judged')
        raise Skip()
    tol = 1e-12 * cond + 1e-9
    back = c[:, None]
    ctx.require(near(a.mu, b.mu / c, tol * (1 + size(X)) * 10), 'coefficients-scale', label + ': intercepts')
    if p:
        A, B = np.asarray(a.A), np.asarray(b.A) / back * c[None, :]
        ctx.require(near(A, B, 10 * tol * (1 + size(A))), 'coefficients-scale', label + ': lag matrices')
    if q:
        A, B = np.asarray(a.B0), np.asarray(b.B0) / back * d[None, :]
        ctx.require(near(A, B, 10 * tol * (1 + size(A))), 'coefficients-scale', label + ': factors')
        if s:
            A, B = np.asarray(a.B), np.asarray(b.B) / back * d[None, :]
            ctx.require(near(A, B, 10 * tol * (1 + size(A))), 'coefficients-scale', label + ': lagged factors')
    S, T = np.asarray(a.Sigma_u), np.asarray(b.Sigma_u) / np.outer(c, c)
    # the divisor is the sum of the weights less one
    ctx.require(e != 1 or near(S, T, 10 * tol * (1e-300 + size(S)) + 1e-10 * size(X) ** 2), 'covariance-scales', '%s: %r and %r' % (label, S, T))
    R, Q = np.asarray(a.residuals)[p:], np.asarray(b.residuals)[p:] / c
    ctx.require(near(R[max(0, s - p):], Q[max(0, s - p):], 10 * tol * (1 + size(X))), 'coefficients-scale', label + ': residuals')
    ctx.seen('local', kind, f, p, s, q, w is None, top)
    ctx.note(routine='local model', units=c.tolist(), condition=cond)


def piecewise(ctx):
    """piecewise models with clusters of k-means"""
    rng = ctx.rng
    n, f, p, k = rng.randint(40, 90), rng.randint(1, 3), int(rng.randint(1, 3)), rng.randint(1, 4)
    kind = gen.pick(rng, ('gauss', 'ar', 'clusters'))
    X = gen.data(rng, n, f, kind)
    c = float(2.0 ** rng.randint(-12, 13))
    seed = int(rng.randint(10 ** 6))
    trend = gen.pick(rng, ['c', 'c', 'nc', None])

    def fit(Z):
        kw = {} if trend is None else dict(trend=trend)
        km = KMeans(k, n_init=1, random_state=seed)
        m = repo.pwvarx.ClusterPWVARX(k, p=p, s=0, clusterer=km, classifier=KMeans(k, n_init=1, random_state=seed), **kw)
        z = m.fit_transform(Z)
        return m, np.asarray(z)
    try:
        a, za = fit(X)
    except Exception:
        ctx.count('degenerate regions, not judged')
        raise Skip()
    b, zb = fit(c * X)
    if not np.array_equal(za, zb) or min(np.bincount(za.astype(int), minlength=k)) < 3 * (f * p + 2):
        ctx.count('regions too small or clustered differently, not judged')
        raise Skip()
    label = 'piecewise model (%s, k=%d, p=%d, trend %r, factor %r)' % (kind, k, p, trend, c)
    tol = 1e-5
    if trend != 'nc':
        ctx.require(near(np.asarray(a.mu), np.asarray(b.mu) / c, tol * size(X)), 'regions-scale', label + ': intercepts')
    ctx.require(near(a.A, b.A, tol * (1 + size(a.A))), 'regions-scale', label + ': lag matrices')
    ctx.require(near(a.Sigma_u, np.asarray(b.Sigma_u) / c / c, tol * (size(X) ** 2)), 'regions-scale', label + ': covariances')
    ctx.require(near(a.residuals, np.asarray(b.residuals) / c, tol * size(X)), 'regions-scale', label + ': residuals')
    ctx.seen('piecewise', kind, n, k, p, trend, int(np.log10(c)))
    ctx.note(routine='ClusterPWVARX', factor=c, regions=np.bincount(za.astype(int)).tolist())


FAMILIES = [Family('selection', selection, 200), Family('starts', starts, 120), Family('markov', markov, 80), Family('kmeans', kmeans, 120),
            Family('varx', varx, 80), Family('local', local, 150), Family('piecewise', piecewise, 60)]
