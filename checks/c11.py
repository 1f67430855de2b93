"""C11: centroids of FEM-BV-k-means are affiliation-weighted means."""
import numpy as np
from vlib import repo, gen, oracles as O, fem
from vlib.core import Family, Skip

ID = 'C11'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('iterations of a fit are separated by refitting with limits 0,1,2,..; the centroids of each are compared with the means '
        'weighted by the affiliations before it (custom, recorded random, or those of the previous iteration); distinct = '
        '(start, kind, k, bound, iteration, empty components)')
REQUIRED = {'centroids-are-weighted-means': 1, 'empty-component-finite': 1, 'distances-are-squared-euclidean': 1,
            'random-centroids-are-distinct-samples': 1, 'transform-keeps-centroids': 1, 'single-component-mean': 1}
TECHNIQUE = 'offline recomputation oracle over reconstructed iteration traces'
LEVEL_NOTE = 'Every observed iteration is decided by an independent weighted mean; sampled problems.'

KM = repo.fembv_kmeans.FEMBVKMeans


def weighted_mean(X, g):
    tot = 0.0
    acc = np.zeros(X.shape[1])
    for t in range(len(X)):
        acc = acc + g[t] * X[t]
        tot += g[t]
    return acc / tot


def judge_means(ctx, X, G, Theta, label):
    scale = float(np.abs(X).max()) + 1e-300
    ok = Theta.shape == (G.shape[1], X.shape[1]) and np.all(np.isfinite(Theta))
    ctx.require(ok, 'empty-component-finite', '%s: centroids %r' % (label, Theta.tolist()))
    empty = 0
    for j in range(G.shape[1]):
        mass = float(G[:, j].sum())
        if mass <= 1e-6:
            empty += 1
            continue
        want = weighted_mean(X, G[:, j])
        err = float(np.abs(Theta[j] - want).max())
        ctx.require(err <= 1e-9 * scale * max(1.0, 1e-3 / mass), 'centroids-are-weighted-means',
                    '%s: component %d (mass %r): %r instead of %r' % (label, j, mass, Theta[j].tolist(), want.tolist()))
    ctx.count('empty components', empty)
    return empty


def trace(ctx):
    rng = ctx.rng
    X, k, o, kind = fem.kmeans_problem(rng)
    n, f = X.shape
    custom = rng.rand() < 0.6
    seed = rng.randint(10 ** 6)
    kw = {}
    if custom:
        kw['weights'] = gen.rows(rng, n, k, sparse=rng.randint(3))
        if k > 1 and rng.rand() < 0.3:
            W = kw['weights'].copy()
            W[:, 0] += W[:, k - 1]
            W[:, k - 1] = 0          # an empty component from the start
            kw['weights'] = W
        if rng.rand() < 0.7:
            kw['parameters'] = X[rng.randint(n, size=k)] + rng.randn(k, f) * gen.pick(rng, [0.1, 10.0])

    def fit(m, **more):
        model = KM(k, init='custom' if custom else 'random', random_state=seed, max_iterations=m, tolerance=0, **o)
        G = np.array(model.fit_transform(X, **dict(kw, **more)))
        return model, G

    # iteration 0: starting guesses
    m0, G0 = fit(1, update_weights=False, update_parameters=False)
    Theta0 = np.array(m0.Theta)
    D = fem.kmeans_distances(X, Theta0)
    ctx.require(abs(float(m0.cost_) - float((G0 * D).sum())) <= 1e-9 * (D.max() * n + 1e-300), 'distances-are-squared-euclidean',
                '%r instead of %r' % (m0.cost_, float((G0 * D).sum())))
    if custom:
        ctx.require(np.array_equal(G0, kw['weights']), 'custom-affiliations-used')
        if 'parameters' in kw:
            ctx.require(np.array_equal(Theta0, kw['parameters']), 'custom-centroids-used')
    if 'parameters' not in kw:
        hit = [set(np.where((X == Theta0[j]).all(axis=1))[0]) for j in range(k)]
        # distinct samples: a system of distinct representatives exists
        ok = all(hit) and _matching(hit) == k
        ctx.require(ok, 'random-centroids-are-distinct-samples', '%r' % Theta0.tolist())
    Gprev, Tprev = G0, Theta0
    for m in (1, 2, 3, 5):
        model, G = fit(m)
        if m in (1, 2, 3):
            e = judge_means(ctx, X, Gprev, np.array(model.Theta), '%s, k=%d, iteration %d' % (kind, k, m))
            ctx.seen(custom, kind, k, o['max_tv_norm'], m, e)
        Gprev = G
    # parameters of a fit whose affiliations are kept
    if custom:
        model, G = fit(int(rng.randint(1, 4)), update_weights=False)
        judge_means(ctx, X, kw['weights'], np.array(model.Theta), 'fixed affiliations')
        ctx.require(np.array_equal(G, kw['weights']), 'fixed-affiliations-kept')
    # transform
    model, G = fit(int(gen.pick(rng, [1, 3, 20])))
    Theta = np.array(model.Theta)
    obj = model.Theta
    for _ in range(2):
        X2 = gen.data(rng, rng.randint(2, 30), f, gen.pick(rng, fem.KINDS)) + X.mean(axis=0)
        G2 = np.array(model.transform(X2))
        ctx.require(np.array_equal(model.Theta, Theta) and np.array_equal(obj, Theta), 'transform-keeps-centroids',
                    'centroids %r became %r' % (Theta.tolist(), np.asarray(model.Theta).tolist()))
        ctx.require(G2.shape == (len(X2), k), 'transform-shape')
    ctx.note(kind=kind, k=k, custom=custom, options=o, centroids=Theta)


def _matching(sets):
    match = {}

    def go(j, seen):
        for i in sets[j]:
            if i in seen:
                continue
            seen.add(i)
            if i not in match or go(match[i], seen):
                match[i] = j
                return True
        return False
    return sum(go(j, set()) for j in range(len(sets)))


def single(ctx):
    """one component"""
    rng = ctx.rng
    X, _, o, kind = fem.kmeans_problem(rng)
    m = KM(1, random_state=rng.randint(10 ** 6), max_iterations=int(gen.pick(rng, [1, 2, 50])), **o)
    G = np.array(m.fit_transform(X))
    ctx.close(np.asarray(m.Theta), X.mean(axis=0)[None], 'single-component-mean', rtol=1e-9,
              atol=1e-9 * (np.abs(X).max() + 1e-300), msg=kind)
    ctx.close(G, np.ones((len(X), 1)), 'single-component-affiliations', atol=1e-9)
    ctx.close(m.cost_, ((X - X.mean(axis=0)) ** 2).sum(), 'single-component-cost', rtol=1e-8,
              atol=1e-8 * float((X ** 2).sum()) + 1e-300)
    ctx.seen('single', kind, len(X))


def initial(ctx):
    """random starts with many components"""
    rng = ctx.rng
    n, f = rng.randint(2, 14), rng.randint(1, 4)
    k = rng.randint(max(1, n - 3), n + 1)
    X = rng.randn(n, f)
    for _ in range(3):
        m = KM(k, init=gen.pick(rng, ['random', None]), random_state=int(rng.randint(10 ** 6)), max_iterations=1)
        m.fit(X, update_weights=False, update_parameters=False)
        used = [np.where((X == c).all(axis=1))[0] for c in np.asarray(m.Theta)]
        ok = all(len(u) == 1 for u in used) and len(set(int(u[0]) for u in used)) == k
        ctx.require(ok, 'random-centroids-are-distinct-samples', '%d of %d samples' % (k, n))
    ctx.seen('initial', n, f, k)


def far(ctx):
    """data whose variation is small compared with its distance from the origin"""
    rng = ctx.rng
    n, f, k = rng.randint(6, 30), rng.randint(1, 4), rng.randint(2, 4)
    spread = 10.0 ** rng.randint(-3, 4)
    off = spread * 10.0 ** rng.uniform(3, 7)
    z = rng.randint(k, size=n)
    z[:k] = np.arange(k)
    X = spread * (4 * np.arange(k)[z][:, None] + 0.3 * rng.randn(n, f)) + off
    start = X[:k] + 0.1 * spread * rng.randn(k, f)
    G = gen.rows(rng, n, k, sparse=rng.randint(3))
    m = KM(k, init='custom', random_state=0, max_iterations=int(rng.randint(1, 6)), tolerance=0, max_tv_norm=None)
    m0 = KM(k, init='custom', random_state=0, max_iterations=1)
    m0.fit(X, parameters=start, weights=G, update_parameters=False, update_weights=False)
    m.fit(X, parameters=start, weights=G)
    for mm, GG in ((m0, G), (m, np.asarray(m.Gamma))):
        d = fem.kmeans_distances(X, np.asarray(mm.Theta))
        want = float((GG * d).sum())
        ctx.require(abs(float(mm.cost_) - want) <= 1e-3 * want + 1e-4 * n * spread ** 2, 'distances-are-squared-euclidean',
                    'spread %r at distance %r: cost %r, from the distances %r' % (spread, off, mm.cost_, want))
    new = spread * (4 * np.arange(k)[rng.randint(k, size=5)][:, None] + 0.3 * rng.randn(5, f)) + off
    T = np.array(m.transform(new))
    d = fem.kmeans_distances(new, np.asarray(m.Theta))
    ctx.require(float((T * d).sum() - d.min(axis=1).sum()) <= 1e-3 * spread ** 2 * 5 * f, 'distances-are-squared-euclidean',
                'spread %r at distance %r: affiliations of new data' % (spread, off))
    ctx.seen('far', n, k, f, int(np.log10(off / spread)))


def emptied(ctx):
    """components that lose all their samples keep a finite centroid"""
    rng = ctx.rng
    n, f, k = rng.randint(6, 25), rng.randint(1, 3), rng.randint(2, 5)
    X = rng.randn(n, f)
    start = X[rng.choice(n, k, replace=False)].copy()
    start[k - 1] += 1e3
    W = np.zeros((n, k))
    W[np.arange(n), rng.randint(k - 1, size=n)] = 1
    m = KM(k, init='custom', random_state=0, max_iterations=int(rng.randint(1, 6)), tolerance=0,
           max_tv_norm=gen.pick(rng, [None, None, 2]))
    G = np.array(m.fit_transform(X, parameters=start, weights=W))
    ctx.require(np.all(np.isfinite(np.asarray(m.Theta))) and np.all(np.isfinite(G)) and np.isfinite(m.cost_),
                'empty-component-finite', '%r' % np.asarray(m.Theta).tolist())
    ctx.seen('emptied', n, f, k)


FAMILIES = [Family('trace', trace, 150), Family('single', single, 80), Family('emptied', emptied, 60),
            Family('initial', initial, 60), Family('far', far, 40)]
