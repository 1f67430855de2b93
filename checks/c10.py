"""C10: FEM-BV affiliations solve the bounded-variation linear program."""
import numpy as np
import cvxpy
from vlib import repo, gen, oracles as O, fem
from vlib.core import Family, Skip

ID = 'C10'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('affiliations returned by fits (any limit) and transforms of both FEM-BV models; distances recomputed from the returned '
        'parameters, optimal value of the linear program from an independent formulation solved with HiGHS; distinct = '
        '(model, n, k, bound, kind of data)')
REQUIRED = {'rows-are-probabilities': 1, 'variation-within-bound': 1, 'affiliations-optimal': 1,
            'unbounded-least-distance': 1, 'transform-affiliations-optimal': 1}
TECHNIQUE = 'independent linear-programming oracle and constraint monitor on recorded affiliations'
LEVEL_NOTE = 'Every observed affiliation sequence is decided to solver accuracy (1e-6 of the distance scale).'

TOL = 1e-5


def judge(ctx, label, X, G, D, bound, prefix=''):
    n, k = D.shape
    floor = 1e-9 * float(np.mean(X * X))
    if not ctx.require(G.shape == (n, k), prefix + 'affiliation-shape', '%s: %r instead of %r' % (label, G.shape, (n, k))):
        return
    scale = float(D.max() - D.min()) + 1e-9 * float(D.max()) + floor + 1e-300
    d, ex = fem.affiliation_defects(G, bound)
    ctx.require(d <= TOL, 'rows-are-probabilities', '%s: defect %r' % (label, d))
    bounded = bound is not None and bound >= 0 and k > 1
    if bounded:
        ctx.require(ex <= TOL * (1 + n), 'variation-within-bound',
                    '%s: bound %r exceeded by %r' % (label, bound, ex))
        ctx.count('binding variation bounds', bool(O.tv_norms(G).max() > bound - 1e-4))
    value = float((G * D).sum())
    best = O.lp_affiliations(D, bound if bounded else None) if k > 1 else value
    if best is None:
        ctx.count('reference solver gave no answer')
    else:
        ctx.require(value <= best + 2e-6 * n * scale + 1e-7 * abs(best), prefix + 'affiliations-optimal',
                    '%s: value %r, optimum %r (bound %r)' % (label, value, best, bound))
    if not bounded and k > 1:
        loss = (G * D).sum(axis=1) - D.min(axis=1)
        ctx.require(float(loss.max()) <= 1e-5 * scale * max(1.0, np.sqrt(n)), 'unbounded-least-distance',
                    '%s: sample %d is assigned with excess distance %r' % (label, int(loss.argmax()), float(loss.max())))
    ctx.note(model=label, bound=bound, value=value, optimum=best)


def random_bound(rng, n):
    return gen.pick(rng, [None, -1, 0, 0.3, 1, 2, 3.5, 6, float(n)])


def solver(rng):
    if rng.rand() < 0.15 and 'SCIPY' in cvxpy.installed_solvers():
        return dict(weights_solver_kwargs=dict(solver='SCIPY'))
    return {}


def kmeans(ctx):
    rng = ctx.rng
    X, k, o, kind = fem.kmeans_problem(rng, nmax=40)
    n, f = X.shape
    bound = random_bound(rng, n)
    m = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, random_state=rng.randint(10 ** 6), tolerance=0,
                                      max_iterations=int(gen.pick(rng, [1, 2, 5, 20])), **solver(rng))
    G = np.array(m.fit_transform(X))
    judge(ctx, 'k-means (%s)' % kind, X, G, fem.kmeans_distances(X, np.asarray(m.Theta)), bound)
    Theta = np.array(m.Theta)
    X2 = gen.data(rng, rng.randint(2, 40), f, gen.pick(rng, fem.KINDS)) + X.mean(axis=0)
    G2 = np.array(m.transform(X2))
    judge(ctx, 'k-means transform', X2, G2, fem.kmeans_distances(X2, Theta), bound, 'transform-')
    ctx.seen('kmeans', n, k, bound, kind)


def switching(ctx):
    """strongly separated regimes with more switches than the bound allows"""
    rng = ctx.rng
    n, f, k = rng.randint(6, 40), rng.randint(1, 3), rng.randint(2, 4)
    C = 5 * rng.randn(k, f)
    z = np.repeat(rng.randint(k, size=n), rng.randint(1, 6))[:n]
    X = C[z] + 0.5 * rng.randn(n, f)
    bound = gen.pick(rng, [0, 0.5, 1, 1.5, 2, 3, 4])
    start = C + 0.3 * rng.randn(k, f)
    m = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, init='custom', random_state=0, tolerance=0,
                                      max_iterations=int(rng.randint(1, 8)), **solver(rng))
    W = gen.rows(rng, n, k)
    G = np.array(m.fit_transform(X, parameters=start, weights=W))
    judge(ctx, 'switching regimes', X, G, fem.kmeans_distances(X, np.asarray(m.Theta)), bound)
    Theta = np.array(m.Theta)
    m2 = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, init='custom', random_state=0, tolerance=0, max_iterations=1)
    G = np.array(m2.fit_transform(X, parameters=start, weights=W, update_parameters=False))
    judge(ctx, 'switching regimes, fixed parameters', X, G, fem.kmeans_distances(X, start), bound)
    ctx.seen('switching', n, k, bound)


def varx(ctx):
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng)
    mems = fem.memories(mem, k)
    n, f = X.shape
    bound = random_bound(rng, n)
    m = repo.fembv_varx.FEMBVVARX(k, memory=mem, max_tv_norm=bound, random_state=rng.randint(10 ** 6), tolerance=0,
                                  max_iterations=int(gen.pick(rng, [1, 2, 5, 20])), **solver(rng))
    kw = {} if u is None else dict(external_factors=u)
    G = np.array(m.fit_transform(X, **kw))
    s = fem.varx_state(m, mems)
    judge(ctx, 'VARX (%s, memory %r)' % (kind, mems), X, G, fem.varx_distances(X, u, mems, s['mu'], s['A'], s['B0']), bound)
    n2 = rng.randint(max(mems) + 2, 40)
    X2 = gen.data(rng, n2, f, gen.pick(rng, ['gauss', 'ar'])) + X.mean(axis=0)
    u2 = None if u is None else rng.randn(n2, u.shape[1])
    kw = {} if u is None else dict(external_factors=u2)
    G2 = np.array(m.transform(X2, **kw))
    judge(ctx, 'VARX transform', X2, G2, fem.varx_distances(X2, u2, mems, s['mu'], s['A'], s['B0']), bound, 'transform-')
    ctx.seen('varx', n, k, bound, kind, tuple(mems))


def magnitudes(ctx):
    """very small and very large distances"""
    rng = ctx.rng
    n, f, k = rng.randint(3, 40), rng.randint(1, 4), rng.randint(2, 5)
    k = min(k, n)
    kind = gen.pick(rng, fem.KINDS)
    X = gen.data(rng, n, f, kind)
    mag = gen.pick(rng, [1e-6, 1e-4, 1e-2, 1e2, 1e4, 1e6])
    X = X / max(np.abs(X).max(), 1e-300) * mag
    bound = random_bound(rng, n)
    m = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, random_state=rng.randint(10 ** 6), tolerance=0,
                                      max_iterations=int(gen.pick(rng, [1, 2, 5, 20])))
    G = np.array(m.fit_transform(X))
    Theta = np.array(m.Theta)
    judge(ctx, 'k-means at magnitude %g (%s)' % (mag, kind), X, G, fem.kmeans_distances(X, Theta), bound)
    X2 = X[rng.randint(n, size=rng.randint(2, 20))]
    judge(ctx, 'k-means transform at magnitude %g' % mag, X2, np.array(m.transform(X2)), fem.kmeans_distances(X2, Theta),
          bound, 'transform-')
    ctx.seen('magnitudes', mag, n, k, bound, kind)


def regimes(ctx):
    """switching autoregressions"""
    rng = ctx.rng
    k, f = 2, rng.randint(1, 3)
    n = rng.randint(20, 50)
    A = [0.8 * np.eye(f), -0.8 * np.eye(f)]
    mu = 2 * rng.randn(2, f)
    z = (np.arange(n) // rng.randint(3, 12)) % 2
    X = np.zeros((n, f))
    for t in range(1, n):
        X[t] = mu[z[t]] + A[z[t]].dot(X[t - 1]) + 0.1 * rng.randn(f)
    bound = gen.pick(rng, [None, 0, 1, 2, 3, 5])
    m = repo.fembv_varx.FEMBVVARX(k, memory=gen.pick(rng, [1, [1, 0], [2, 1]]), max_tv_norm=bound,
                                  random_state=rng.randint(10 ** 6), tolerance=0, max_iterations=int(rng.randint(1, 12)))
    mems = [int(v) for v in m.memory]
    G = np.array(m.fit_transform(X))
    s = fem.varx_state(m, mems)
    judge(ctx, 'switching autoregression', X, G, fem.varx_distances(X, None, mems, s['mu'], s['A'], None), bound)
    ctx.seen('regimes', n, f, bound, tuple(mems))


FAMILIES = [Family('kmeans', kmeans, 150), Family('switching', switching, 120), Family('varx', varx, 120),
            Family('regimes', regimes, 60), Family('magnitudes', magnitudes, 120)]
