"""C04: reported cost equals the objective of the returned factors."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M, fem
from vlib.core import Family

ID = 'C04'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('complete and truncated fits and refits of every model on 16 data kinds with random penalties, lags, components '
        '(including one), starts and limits; the objective is recomputed with scalar loops from the data and the returned '
        'factors; distinct = (model, kind, k, limit, penalties active)')
REQUIRED = {'cost-is-objective': 1, 'gram-equivalence': 1, 'fembv-cost-is-objective': 1}
TECHNIQUE = 'offline recomputation oracle over recorded fit results'
LEVEL_NOTE = 'Each recorded fit is decided against an independently written objective; sampled fits.'


def factor_model(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec)
        init = gen.pick(rng, ['random', 'furthest_sum', 'custom'])
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        lim = int(gen.pick(rng, [1, 2, 5, 30, 300]))
        model = spec.make(k, o, init=init, random_state=rng.randint(10 ** 6), max_iterations=lim)
        for rep in range(2):
            F = spec.fit(model, X, **start)
            want = spec.objective(X, F, o)
            scale = spec.cost_scale(X, o, F)
            got = float(model.cost_)
            ctx.require(abs(got - want) <= 1e-9 * scale + 1e-300, 'cost-is-objective',
                        '%s (%s, k=%d, limit %d, %r): reported %r, objective of returned factors %r' % (
                            name, kind, k, lim, o, got, want), **F)
            ctx.require(int(model.n_components_) == k, 'reports-number-of-components')
            ctx.seen(name, kind, k, lim, tuple(sorted(o)), o.get('epsilon_states', 0) > 0, o.get('epsilon_weights', 0) > 0)
            if rep == 0:
                if rng.rand() < 0.5:
                    break
                n2 = rng.randint(max(k, spec.least(rng, o)), 20 + max(k, spec.min_samples(o)))
                X = gen.data(rng, n2, X.shape[1], gen.pick(rng, gen.ALL))
                start = spec.start(rng, X, k, o) if init == 'custom' else {}
        ctx.note(model=name, kind=kind, k=k, options=o, init=init, limit=lim, reported=got, recomputed=want)
    return run


def gram(ctx):
    """archetypal analysis of data, of its Gram matrix, and of custom kernels"""
    rng = ctx.rng
    aa, kaa = M.SPECS['AA'], M.SPECS['KAA']
    n, f = rng.randint(3, 20), rng.randint(1, 5)
    k = rng.randint(1, min(n, 5) + 1)
    X = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'clusters', 'simplex', 'ar', 'grid']))
    kern = gen.pick(rng, ['linear', 'rbf', 'poly', 'dot'])
    func = None
    K = X.dot(X.T)
    if kern == 'rbf':
        func = lambda Z: np.exp(-0.3 * ((Z[:, None] - Z[None]) ** 2).sum(-1))
    elif kern == 'poly':
        func = lambda Z: (1 + Z.dot(Z.T)) ** 2
    elif kern == 'dot':
        func = lambda Z: Z.dot(Z.T)
    if func is not None:
        K = func(X)
    init = gen.pick(rng, ['custom', 'random'])
    start = aa.start(rng, X, k, {}) if init == 'custom' else {}
    seed, lim = rng.randint(10 ** 6), int(gen.pick(rng, [1, 2, 3]))
    a = aa.make(k, init=init, random_state=seed, max_iterations=lim, kernel_func=func)
    b = kaa.make(k, init=init, random_state=seed, max_iterations=lim)
    Wa = a.fit_transform(X, **start)
    Wb = b.fit_transform(K, **start)
    scale = max(float(np.trace(K)), 1e-300)
    for m, W in ((a, Wa), (b, Wb)):
        want = O.kernel_objective(K, np.array(W), np.array(m.dictionary_))
        ctx.require(abs(m.cost_ - want) <= 1e-8 * scale, 'kernel-cost-is-objective',
                    '%s kernel: %r vs %r' % (kern, m.cost_, want))
    ctx.require(np.allclose(Wa, Wb, atol=1e-6) and np.allclose(a.dictionary_, b.dictionary_, atol=1e-6) and
                abs(a.cost_ - b.cost_) <= 1e-6 * scale, 'gram-equivalence',
                '%s kernel, init %r, %d iterations: factors of data and kernel analysis differ' % (kern, init, lim),
                Wa=np.array(Wa), Wb=np.array(Wb))
    Ta, Tb = a.transform(X), b.transform(K)
    # same generator history: both used it identically
    ctx.require(np.allclose(Ta, Tb, atol=1e-5), 'gram-equivalence-transform', kern)
    ctx.seen('gram', kern, init, lim, n, k)
    ctx.note(kernel=kern, n=n, k=k, cost=float(a.cost_))


def fixed(rng):
    return {q: False for q in ('update_weights', 'update_parameters') if rng.rand() < 0.2}


def kmeans(ctx):
    """FEM-BV-k-means cost"""
    rng = ctx.rng
    X, k, o, kind = fem.kmeans_problem(rng)
    lim = int(gen.pick(rng, [1, 2, 5, 100]))
    m = repo.fembv_kmeans.FEMBVKMeans(k, random_state=rng.randint(10 ** 6), max_iterations=lim, **o)
    G = np.array(m.fit_transform(X, **fixed(rng)))
    want = float((G * fem.kmeans_distances(X, np.asarray(m.Theta))).sum())
    ctx.require(abs(m.cost_ - want) <= 1e-9 * (gen.spd_scale(X) + abs(want)) + 1e-300, 'fembv-cost-is-objective',
                'k-means (%s): reported %r, recomputed %r' % (kind, m.cost_, want))
    ctx.seen('kmeans', kind, k, lim, o['max_tv_norm'] is None)
    ctx.note(model='FEMBVKMeans', kind=kind, k=k, options=o, reported=float(m.cost_), recomputed=want)


def varx(ctx):
    """FEM-BV-VARX cost"""
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng)
    mems = fem.memories(mem, k)
    lim = int(gen.pick(rng, [1, 2, 5, 100]))
    m = repo.fembv_varx.FEMBVVARX(k, memory=mem, random_state=rng.randint(10 ** 6), max_iterations=lim, **o)
    kw = {} if u is None else dict(external_factors=u)
    G = np.array(m.fit_transform(X, **dict(kw, **fixed(rng))))
    s = fem.varx_state(m, mems)
    want = float((G * fem.varx_distances(X, u, mems, s['mu'], s['A'], s['B0'])).sum())
    ctx.require(abs(m.cost_ - want) <= 1e-7 * (gen.spd_scale(X) + abs(want)), 'fembv-cost-is-objective',
                'VARX (%s, memory %r, external %r): reported %r, recomputed %r' % (kind, mem, u is not None, m.cost_, want))
    ctx.seen('varx', kind, k, tuple(mems), u is not None, lim)
    ctx.note(model='FEMBVVARX', kind=kind, k=k, memory=mems, reported=float(m.cost_), recomputed=want)


FAMILIES = [Family(nm, factor_model(nm), q) for nm, q in (('AA', 300), ('KAA', 150), ('GPNH', 300), ('CROM', 150), ('MTD', 400))]
FAMILIES += [Family('gram', gram, 200), Family('kmeans', kmeans, 120), Family('varx', varx, 120)]
