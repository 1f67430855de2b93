"""C33: models agree where their definitions coincide."""
import numpy as np
from sklearn.cluster import KMeans
from vlib import repo, gen, fem, oracles as O, models as M
from vlib.core import Family, Skip

ID = 'C33'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('pairs of fits of different models, or of one model in one and in several parts, on problems where both must '
        'give the same; pairs that hang on rounding (perturbed twins end elsewhere) are counted and not judged; distinct = '
        '(relation, data kind, sizes, options)')
REQUIRED = {'coding-of-reduced-model': 1, 'coding-without-lag-penalty': 1, 'varx-without-memory': 1, 'unbounded-is-lloyd': 1,
            'one-component-is-local-model': 1, 'one-region-is-local-model': 1, 'uninformative-factors': 1,
            'one-component-is-mean': 1, 'continued-fit': 1, 'all-samples-are-archetypes': 1, 'bound-not-reached': 1,
            'integer-weights-are-copies': 1}
TECHNIQUE = 'differential monitor: one model as reference for another on common special cases'
LEVEL_NOTE = 'Every observed pair is decided up to rounding (solver accuracy for FEM-BV); sampled problems.'
KINDS = ('gauss', 'clusters', 'simplex', 'ar', 'offset', 'dup', 'constcol')


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def reduced_model(ctx):
    """coding of the CROM and GPNH convex coding"""
    rng = ctx.rng
    spec, ref = M.SPECS['CROM'], M.SPECS['GPNH']
    X, k, o, kind = M.problem(rng, spec)
    its = int(gen.pick(rng, [1, 2, 5, 30]))
    init = gen.pick(rng, ['random', 'furthest_sum', 'custom', None])
    start = spec.start(rng, X, k, o) if init == 'custom' else {}
    if init == 'furthest_sum' and rng.rand() < 0.5:
        start['n_extra_steps'] = int(rng.randint(4))
    seed = int(rng.randint(10 ** 6))
    tol = gen.pick(rng, [0, 1e-6, 1e-3])
    common = dict(init=init, random_state=seed, max_iterations=its, tolerance=tol)
    m = spec.make(k, o, **common)
    W = m.fit_transform(X, **start)
    r = ref.make(k, {q: v for q, v in o.items() if q != 'lags'}, **common)
    V = r.fit_transform(X, **start)
    label = 'CROM (%s, k=%d, init %r, %d iterations, %r)' % (kind, k, init, its, o)
    for what, a, b in (('weights', W, V), ('dictionary', m.dictionary_, r.dictionary_)):
        s = np.abs(b).max() + 1e-300
        ctx.require(near(a, b, 1e-9 * s), 'coding-of-reduced-model', '%s: %s differ from GPNH convex coding' % (label, what))
    seed = int(rng.randint(10 ** 6))
    Y = gen.data(rng, rng.randint(1, 15), X.shape[1], gen.pick(rng, KINDS))
    m.random_state, r.random_state = np.random.RandomState(seed), np.random.RandomState(seed)
    a, b = m.transform(Y), r.transform(Y)
    ctx.require(near(a, b, 1e-9), 'coding-of-reduced-model', label + ': transforms differ')
    ctx.require(near(m.predict(Y, horizon=0) if len(Y) >= 1 else 0, m.inverse_transform(a), np.inf), 'coding-of-reduced-model')
    ctx.seen('crom', kind, k, init, its)
    ctx.note(model='CROM', init=init, iterations=its, k=k)


def lagless_coding(ctx):
    """MTD coding without lag penalty and GPNH convex coding"""
    rng = ctx.rng
    spec, ref = M.SPECS['MTD'], M.SPECS['GPNH']
    X, k, o, kind = M.problem(rng, spec, kinds=KINDS)
    o['epsilon_weights'] = 0
    g = dict(epsilon_states=o['epsilon_states'])
    its = int(gen.pick(rng, [1, 2, 3, 5]))
    start = spec.start(rng, X, k, o)
    s = {q: start[q] for q in ('weights', 'dictionary')}
    F = spec.fit(spec.make(k, o, init='custom', max_iterations=its, tolerance=0), X, **start)

    def coding(Z, st):
        return ref.fit(ref.make(k, g, init='custom', max_iterations=its, tolerance=0), Z, **st)
    G = coding(X, s)
    ds = np.abs(G['D']).max() + np.abs(X).max() + 1e-300
    label = 'MTD without lag penalty (%s, k=%d, %d iterations, %r)' % (kind, k, its, o)
    same = near(F['W'], G['W'], 1e-6) and near(F['D'], G['D'], 1e-6 * ds)
    if not same:
        for i in range(40):
            e = 10.0 ** -rng.randint(11, 16)
            P = coding(X + e * ds * rng.randn(*X.shape), dict(s, dictionary=s['dictionary'] + e * ds * rng.randn(*s['dictionary'].shape)))
            if not (near(P['W'], G['W'], 1e-9) and near(P['D'], G['D'], 1e-9 * ds)):
                ctx.count('pairs sensitive to rounding, not judged')
                raise Skip()
    ctx.require(same, 'coding-without-lag-penalty', '%s: differs from convex coding by %r, %r' % (
        label, float(np.abs(F['W'] - G['W']).max()), float(np.abs(F['D'] - G['D']).max())))
    ctx.require(near(F['w'], start['order_weights'], 1e-9) and near(F['T'], start['transition_matrices'], 1e-9),
                'coding-without-lag-penalty', label + ': lag parameters moved')
    ctx.seen('mtd', kind, k, its, tuple(o['lags']))
    ctx.note(model='MTD', iterations=its, k=k, lags=o['lags'])


def kmeans_fit(X, k, its, P, G, bound=None, **kw):
    m = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, init='custom', tolerance=0, max_iterations=its, random_state=0, **kw)
    W = np.array(m.fit_transform(X, parameters=np.array(P), weights=np.array(G)))
    return W, np.array(m.Theta), float(m.cost_)


def varx_fit(X, u, k, mem, its, par, G, bound=None):
    m = repo.fembv_varx.FEMBVVARX(k, memory=mem, max_tv_norm=bound, init='custom', tolerance=0, max_iterations=its, random_state=0)
    kw = {} if u is None else dict(external_factors=u.copy())
    if par is not None:
        kw['parameters'] = {q: None if v is None else np.array(v) for q, v in par.items()}
    W = np.array(m.fit_transform(X, weights=np.array(G), **kw))
    return W, fem.varx_state(m, fem.memories(mem, k)), float(m.cost_)


def without_memory(ctx):
    """FEM-BV-VARX without memory and FEM-BV-k-means"""
    rng = ctx.rng
    n, f, k = rng.randint(5, 40), rng.randint(1, 4), rng.randint(1, 5)
    k = min(k, n)
    kind = gen.pick(rng, ('gauss', 'clusters', 'ar', 'simplex'))
    X = gen.data(rng, n, f, kind)
    bound = gen.pick(rng, [None, None, 1, 2, 5])
    its = int(rng.randint(1, 5))
    P = X[rng.choice(n, k, replace=False)] + 0.05 * rng.randn(k, f)
    G = gen.rows(rng, n, k, sparse=0)
    mem = gen.pick(rng, [0, None, [0] * k])
    W, T, c = kmeans_fit(X, k, its, P, G, bound)
    V, s, d = varx_fit(X, None, k, mem, its, dict(mu=P, A=None, B0=None), G, bound)
    for _ in range(2):
        W3, T3, c3 = kmeans_fit(X * (1 + 1e-7 * rng.randn(*X.shape)), k, its, P, G, bound)
        if not near(W3, W, 1e-3) or not near(T3, T, 1e-3 * np.abs(X).max()) or W.sum(axis=0).min() < 1e-3:
            ctx.count('pairs sensitive to rounding, not judged')
            raise Skip()
    label = 'k=%d, %d iterations, bound %r, %s' % (k, its, bound, kind)
    ctx.require(near(V, W, 1e-2), 'varx-without-memory', label + ': affiliations differ')
    ctx.require(near(s['mu'], T, 1e-2 * np.abs(X).max()), 'varx-without-memory', label + ': intercepts and centroids differ')
    ctx.require(abs(c - d) <= 1e-3 * float(np.sum(X * X)), 'varx-without-memory', '%s: costs %r and %r' % (label, c, d))
    ctx.seen('memoryless', kind, k, n, its, bound, mem is None)
    ctx.note(relation='VARX without memory', k=k, bound=bound, iterations=its)


def lloyd(ctx):
    """FEM-BV-k-means without bound and Lloyd's algorithm"""
    rng = ctx.rng
    n, f = rng.randint(4, 60), rng.randint(1, 4)
    k = rng.randint(1, min(6, n) + 1)
    kind = gen.pick(rng, ('gauss', 'clusters', 'ar', 'offset'))
    X = gen.data(rng, n, f, kind)
    P = X[rng.choice(n, k, replace=False)]
    z = rng.randint(k, size=n)
    z[rng.permutation(n)[:k]] = np.arange(k)
    G = np.eye(k)[z]
    if rng.rand() < 0.5:
        G = gen.rows(rng, n, k, sparse=0)
    its = int(rng.randint(1, 8))
    bound = gen.pick(rng, [None, -1])
    T, V = P.copy(), G.copy()
    for _ in range(its):
        s = V.sum(axis=0)
        T = np.array([V[:, j].dot(X) / s[j] if s[j] > 0 else T[j] for j in range(k)])
        D = fem.kmeans_distances(X, T)
        near2 = np.sort(D, axis=1)
        if k > 1 and (near2[:, 1] - near2[:, 0]).min() < 1e-4 * D.max():
            ctx.count('pairs sensitive to rounding, not judged')
            raise Skip()
        V = np.eye(k)[D.argmin(axis=1)]
        if V.sum(axis=0).min() == 0:
            # empty up to the accuracy of the solver only
            ctx.count('components that become empty, not judged')
            raise Skip()
    W, S, c = kmeans_fit(X, k, its, P, G, bound)
    label = '%s, n=%d, k=%d, %d iterations, bound %r' % (kind, n, k, its, bound)
    ctx.require(near(W, V, 1e-3), 'unbounded-is-lloyd', label + ': affiliations differ from those of Lloyd\'s algorithm')
    ctx.require(near(S, T, 1e-3 * np.abs(X).max()), 'unbounded-is-lloyd', label + ': centroids differ')
    want = float((V * fem.kmeans_distances(X, T)).sum())
    ctx.require(abs(c - want) <= 1e-4 * float(np.sum(X * X)), 'unbounded-is-lloyd', '%s: cost %r, inertia %r' % (label, c, want))
    # at a fixed point scikit-learn's k-means does not move either
    W, S, c = kmeans_fit(X, k, 60, P, G)
    lab = W.argmax(axis=1)
    if W.max(axis=1).min() > 0.999 and len(set(lab)) == k:
        km = KMeans(k, init=S, n_init=1, tol=0, max_iter=5).fit(X)
        if near(km.cluster_centers_, S, 1e-4 * np.abs(X).max()):
            ctx.require(abs(km.inertia_ - c) <= 1e-4 * float(np.sum(X * X)), 'unbounded-is-lloyd', label + ': inertia of scikit-learn')
            ctx.count('fixed points shared with scikit-learn')
    ctx.seen('lloyd', kind, n, k, its, bound)
    ctx.note(relation="Lloyd's algorithm", n=n, k=k, iterations=its, inertia=want)


def local_fit(y, p, u, weights=None, s=0):
    m = repo.fembv_varx.FEMBVVARXLocalLinearModel(y, p=p, u=u, s=s)
    m.fit() if weights is None else m.fit(weights=weights)
    return m


def one_component(ctx):
    """one component or one region and the local model"""
    rng = ctx.rng
    n, f, p = rng.randint(25, 70), rng.randint(1, 4), int(rng.randint(0, 4))
    kind = gen.pick(rng, ('gauss', 'ar', 'clusters', 'offset'))
    X = gen.data(rng, n, f, kind)
    u = rng.randn(n, rng.randint(1, 3)) if rng.rand() < 0.5 else None
    m = local_fit(X, p, u)
    init = gen.pick(rng, ['random', None, 'custom'])
    fm = repo.fembv_varx.FEMBVVARX(1, memory=p, max_tv_norm=gen.pick(rng, [None, 0, 3]), init=init, random_state=0,
                                   max_iterations=int(rng.randint(1, 4)))
    kw = {} if u is None else dict(external_factors=u)
    if init == 'custom':
        kw['weights'] = np.ones((n - p, 1))
    W = fm.fit_transform(X, **kw)
    sc = 1e-7 * (1 + np.abs(X).max())
    label = 'p=%d, %d factors, %s, init %r' % (p, 0 if u is None else u.shape[1], kind, init)
    ctx.require(near(W, np.ones((n - p, 1)), 1e-9), 'one-component-is-local-model', label)
    ctx.require(near(fm.mu[0], m.mu, sc), 'one-component-is-local-model', label + ': intercepts')
    if p:
        ctx.require(near(fm.A[0], m.A, sc), 'one-component-is-local-model', label + ': lag matrices')
    if u is not None:
        ctx.require(near(fm.B0[0], m.B0, sc), 'one-component-is-local-model', label + ': factors')
    rss = float(np.sum(np.asarray(m.residuals)[p:] ** 2))
    ctx.require(abs(fm.cost_ - rss) <= 1e-8 * float(np.sum(X * X)), 'one-component-is-local-model', '%s: cost %r, residuals %r' % (label, fm.cost_, rss))

    class One(object):
        def fit_predict(self, z, *a, **q):
            return np.zeros(len(z), dtype=int)

        def fit(self, *a, **q):
            return self

        def predict(self, x, *a, **q):
            return np.zeros(len(x), dtype=int)
    if p:
        pw = repo.pwvarx.ClusterPWVARX(1, p=p, s=0, clusterer=One(), classifier=One())
        pw.fit_transform(X)
        m = local_fit(X, p, None)
        ctx.require(near(pw.mu[0], m.mu, sc) and near(pw.A[0], m.A, sc), 'one-region-is-local-model', label)
        ctx.require(near(pw.residuals, np.asarray(m.residuals)[p:], sc), 'one-region-is-local-model', label + ': residuals')
        S1, S2 = np.asarray(pw.Sigma_u[0]), np.asarray(m.Sigma_u)
        ctx.require(near(S1, S2, 1e-6 * np.abs(S2).max()), 'one-region-is-local-model', '%s: covariances %r and %r' % (label, S1, S2))
    if p == 0 and u is None and rng.rand() < 0.7:
        ctx.require(near(m.mu, X.mean(axis=0), sc), 'one-component-is-mean', 'local model without memory: intercept')
        S2 = np.cov(X.T).reshape(f, f)
        ctx.require(near(m.Sigma_u, S2, 1e-6 * np.abs(S2).max()), 'one-component-is-mean',
                    'local model without memory: covariance %r, of the data %r' % (m.Sigma_u, S2))
    # factors without information
    base = local_fit(X, p, u)
    pre = 0 if u is None else u.shape[1]
    what = gen.pick(rng, ['zero', 'constant', 'repeated'] if u is not None else ['zero', 'constant'])
    extra = dict(zero=np.zeros((n, 1)), constant=np.full((n, 1), float(rng.randint(1, 9))), repeated=None if u is None else u[:, :1])[what]
    v = extra if u is None else np.hstack([u, extra])
    more = local_fit(X, p, v)
    res = 1e-6 * (1 + np.abs(X).max())
    ctx.require(near(np.asarray(more.residuals)[p:], np.asarray(base.residuals)[p:], res), 'uninformative-factors',
                '%s: residuals change with a %s factor' % (label, what))
    ctx.require(p == 0 or near(more.A, base.A, 1e-6 * (1 + np.abs(base.A).max())), 'uninformative-factors',
                '%s: lag matrices change with a %s factor' % (label, what))
    if what == 'zero':
        ctx.require(near(more.B0[:, pre:], 0 * more.B0[:, pre:], 1e-9) and near(more.mu, base.mu, sc), 'uninformative-factors', label)
    ctx.seen('one', kind, p, pre, init, what)
    ctx.note(relation='one component', p=p, factors=pre, uninformative=what)


def means(ctx):
    """one component of every factorisation and clustering"""
    rng = ctx.rng
    n, f = rng.randint(2, 30), rng.randint(1, 5)
    kind = gen.pick(rng, KINDS)
    X = gen.data(rng, n, f, kind)
    if kind == 'offset' and rng.rand() < 0.5:
        X = X - 50
    mean = X.mean(axis=0)
    best = float(np.sum((X - mean) ** 2))
    scale = float(np.sum(X * X))
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'FKM', 'KMC'])
    init = gen.pick(rng, ['random', 'furthest_sum'])
    if name in M.SPECS:
        spec = M.SPECS[name]
        o = spec.options(rng)
        for limit in (300, 3000, 20000):
            m = spec.make(1, o, init=init, random_state=1, tolerance=0, max_iterations=limit)
            W = m.fit_transform(spec.observed(X))
            got = float(m.cost_) * (1 if spec.archetypal else X.size)
            if got <= best + 1e-3 * scale:
                break
        ctx.require(near(W, np.ones((n, 1)), 1e-9), 'one-component-is-mean', name + ': weights')
        # a flat direction may be left undetermined by a cost of given accuracy
        ctx.require(best - 1e-9 * scale <= got <= best + 1e-3 * scale, 'one-component-is-mean',
                    '%s (%s, n=%d, init %r): objective %r, total variance %r after %d iterations' % (name, kind, n, init, got, best, limit))
        D = np.asarray(m.dictionary_)
        if spec.archetypal:
            D = D.dot(X)
        ctx.require(np.sum((D[0] - mean) ** 2) * n <= got - best + 1e-6 * scale, 'one-component-is-mean',
                    '%s: component %r, mean %r' % (name, D[0], mean))
    elif name == 'FKM':
        W, T, c = kmeans_fit(X, 1, int(rng.randint(1, 4)), X[:1], np.ones((n, 1)))
        ctx.require(near(T[0], mean, 1e-9 * (1 + np.abs(X).max())) and near(W, np.ones((n, 1)), 1e-9) and
                    abs(c - best) <= 1e-9 * scale, 'one-component-is-mean', 'k-means')
    else:
        m = repo.crom.KMeansMarkovCROM(1, random_state=0).fit(X)
        ctx.require(near(m.cluster_centers_[0], mean, 1e-9 * (1 + np.abs(X).max())) and abs(m.inertia_ - best) <= 1e-9 * scale and
                    near(m.transition_matrix_, [[1.0]], 0), 'one-component-is-mean', 'k-means Markov model')
    ctx.seen('mean', name, kind, n, init)
    ctx.note(relation='one component', model=name, objective=best)


def continued(ctx):
    """a FEM-BV fit continued from its own result"""
    rng = ctx.rng
    a, b = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    kind = gen.pick(rng, ('gauss', 'clusters', 'ar'))
    bound = gen.pick(rng, [None, 1, 2, 4])
    which = gen.pick(rng, ['kmeans', 'varx'])
    if which == 'kmeans':
        n, f = rng.randint(6, 40), rng.randint(1, 4)
        k = rng.randint(2, 5)
        X = gen.data(rng, n, f, kind)
        P, G = X[rng.choice(n, k, replace=False)], gen.rows(rng, n, k, sparse=0)

        def fit(Z, its, par, aff):
            return kmeans_fit(Z, k, its, par, aff, bound)
        W1, T1, _ = fit(X, a, P, G)
        mid = (W1, T1)
    else:
        X, u, k, mem, o, kind = fem.varx_problem(rng, kinds=('gauss', 'ar', 'clusters'))
        n, f = X.shape
        mems = fem.memories(mem, k)
        G = gen.rows(rng, n - max(mems), k, sparse=0)
        P = dict(mu=rng.randn(k, f), A=None if max(mems) == 0 else 0.1 * rng.randn(k, max(mems), f, f),
                 B0=None if u is None else rng.randn(k, f, u.shape[1]))
        if P['A'] is not None:
            for i in range(k):
                P['A'][i, mems[i]:] = 0

        def fit(Z, its, par, aff):
            return varx_fit(Z, u, k, list(mems), its, par, aff, bound)
        W1, s1, _ = fit(X, a, P, G)
        if s1['A'] is not None:
            for i in range(k):
                s1['A'][i, mems[i]:] = 0
        mid = (W1, s1)

    def flat(r):
        p = r[1]
        if which == 'varx':
            A = p['A']
            p = np.concatenate([p['mu'].ravel()] + ([] if A is None else [A[i, :mems[i]].ravel() for i in range(k)]) +
                               ([] if p['B0'] is None else [p['B0'].ravel()]))
        return r[0], p
    whole = fit(X, a + b, P, G)
    twin = fit(X * (1 + 1e-7 * rng.randn(*X.shape)), a + b, P, G)
    s = np.abs(flat(whole)[1]).max() + 1e-9
    if not near(flat(twin)[0], flat(whole)[0], 1e-3) or not near(flat(twin)[1], flat(whole)[1], 1e-3 * s):
        ctx.count('pairs sensitive to rounding, not judged')
        raise Skip()
    V = np.clip(mid[0], 0, None)
    V = V / V.sum(axis=1, keepdims=True)
    parts = fit(X, b, mid[1], V)
    label = '%s: %d + %d iterations, bound %r' % (which, a, b, bound)
    ctx.require(near(flat(parts)[0], flat(whole)[0], 1e-2) and near(flat(parts)[1], flat(whole)[1], 1e-2 * s), 'continued-fit',
                label + ': result differs from that of one fit')
    ctx.require(abs(parts[2] - whole[2]) <= 1e-3 * float(np.sum(X * X)), 'continued-fit', '%s: costs %r and %r' % (label, parts[2], whole[2]))
    # a bound that the unbounded affiliations respect makes no difference
    if bound is None and k > 1:
        free = [fit(X, i, P, G) for i in range(1, a + b + 1)]
        members = 1e-3 if which == 'kmeans' else 2 + f * max(mems) + (0 if u is None else u.shape[1])
        if min(float(w[0].sum(axis=0).min()) for w in free) < members:
            # what is left of an empty component hangs on the solver's rounding
            ctx.count('fits with empty components, bound not judged')
        else:
            need = max(float(O.tv_norms(w[0]).max()) for w in free)
            bound = need + 1.0 + rng.randint(3)
            lim = fit(X, a + b, P, G)
            ctx.require(near(flat(lim)[0], flat(whole)[0], 1e-2) and near(flat(lim)[1], flat(whole)[1], 1e-2 * s),
                        'bound-not-reached', '%s: a bound of %r changes affiliations of variation %r' % (label, bound, need))
    ctx.seen('continued', which, kind, n, k, a, b, bound)
    ctx.note(relation='continued fit', model=which, parts=[a, b])


def vertices(ctx):
    """every sample its own archetype; repeated samples and weighted ones"""
    rng = ctx.rng
    if rng.rand() < 0.5:
        n, f = rng.randint(1, 14), rng.randint(1, 5)
        kind = gen.pick(rng, KINDS)
        X = gen.data(rng, n, f, kind)
        name = gen.pick(rng, ['AA', 'KAA'])
        spec = M.SPECS[name]
        p = rng.permutation(n)
        C, S = np.eye(n)[p], np.eye(n)[np.argsort(p)].T.copy()
        S = np.eye(n)[:, p]
        m = spec.make(n, {}, init='custom', tolerance=0, max_iterations=int(rng.randint(1, 6)))
        W = m.fit_transform(spec.observed(X), weights=S, dictionary=C)
        ctx.require(abs(m.cost_) <= 1e-9 * float(np.sum(X * X)) + 1e-300, 'all-samples-are-archetypes',
                    '%s (%s): cost %r although every sample is an archetype' % (name, kind, m.cost_))
        ctx.close(np.asarray(W).dot(np.asarray(m.dictionary_)).dot(X), X, 'all-samples-are-archetypes', rtol=0,
                  atol=1e-4 * (1e-300 + np.abs(X).max()), msg=name)
        ctx.seen('vertices', name, kind, n)
    else:
        # samples of the local model without memory: integer weights are repetitions
        n, f, e = rng.randint(6, 25), rng.randint(1, 4), rng.randint(0, 3)
        y, u = rng.randn(n, f) * 3, rng.randn(n, e)
        w = rng.randint(0, 4, size=n)
        w[:f + e + 2] = 1
        u = u if e else None
        m = local_fit(y, 0, u, weights=w.astype(float))
        i = np.repeat(np.arange(n), w)
        r = local_fit(y[i], 0, None if u is None else u[i])
        ctx.close(m.mu, r.mu, 'integer-weights-are-copies', rtol=1e-9, atol=1e-9)
        if u is not None:
            ctx.close(m.B0, r.B0, 'integer-weights-are-copies', rtol=1e-9, atol=1e-9)
        G = np.eye(2)[rng.randint(2, size=n)]
        G[:2] = np.eye(2)
        k2 = kmeans_fit(y, 2, 1, y[:2], G)
        j = np.repeat(np.arange(n), 2)
        k4 = kmeans_fit(y[j], 2, 1, y[:2], G[j])
        ctx.close(k4[1], k2[1], 'integer-weights-are-copies', rtol=1e-9, atol=1e-9, msg='k-means')
        ctx.seen('copies', n, f, e)
    ctx.note(relation='vertices')


FAMILIES = [Family('reduced_model', reduced_model, 60), Family('lagless_coding', lagless_coding, 120), Family('without_memory', without_memory, 60),
            Family('lloyd', lloyd, 60), Family('one_component', one_component, 120), Family('means', means, 70),
            Family('continued', continued, 60), Family('vertices', vertices, 80)]
