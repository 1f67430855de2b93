"""C24: archetypal analysis with a positive relaxation parameter."""
import numpy as np
from vlib import gen, oracles as O, models as M
from vlib.core import Family

ID = 'C24'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('fits of relaxed archetypal analysis (data and kernel form) with all initialisations and iteration limits, prefixes of '
        'single runs, and long runs; feasibility, objective and optimality of the rescaled factorisation are recomputed; '
        'distinct = (model, data kind, n, k, delta, limit, init)')
REQUIRED = {'feasible': 1, 'cost-of-rescaled-factorisation': 1, 'no-increase': 1, 'rescaling-optimal': 1, 'stationary': 1}
TECHNIQUE = 'recomputation and optimality-certificate monitor on recorded fits'
LEVEL_NOTE = ('Every observed fit is decided against recomputed objectives; the optimal rescaling of single archetypes is '
              'computed in closed form. Convergence is observed for the configured iteration budgets only. The scale '
              'factors never move on the current tree (known finding).')
DELTAS = [0.05, 0.1, 0.3, 0.5, 0.9, 1.0, 1.5, 3.2]


def scales(model, k):
    return np.array(getattr(model, 'alpha', np.ones(k)), dtype=float)


def rescaled_cost(X, F):
    return O.aa_objective(X, F['W'] * F['a'], F['D'])


def run_fit(spec, X, k, o, kw):
    m = spec.make(k, o)
    F = spec.fit(m, X, **kw)
    F['a'] = scales(m, k)
    F['cost'] = float(m.cost_)
    return F


def setting(ctx, kinds=gen.ALL, nmax=16):
    rng = ctx.rng
    spec = M.SPECS[gen.pick(rng, ['AA', 'KAA'])]
    n = rng.randint(2, nmax + 1)
    f = rng.randint(1, 5)
    k = rng.randint(1, min(5, n) + 1)
    kind = gen.pick(rng, kinds)
    X = gen.data(rng, n, f, kind)
    d = gen.pick(rng, DELTAS)
    return spec, X, k, kind, d


def judge_feasible(ctx, F, d, k, n):
    ctx.require(F['W'].shape == (n, k) and F['D'].shape == (k, n) and F['a'].shape == (k,), 'shapes')
    for what, v in (('weights', O.simplex_defect(F['W'], 1)), ('dictionary', O.simplex_defect(F['D'], 1))):
        ctx.require(v <= 1e-8, 'feasible', '%s violate the simplex constraints by %g' % (what, v))
    ctx.require(bool(np.all(np.isfinite(F['a']))) and F['a'].min() >= 1 - d - 1e-9 and F['a'].max() <= 1 + d + 1e-9,
                'feasible', 'scale factors outside [1 - %g, 1 + %g]' % (d, d), alpha=F['a'])


def results(ctx):
    """feasibility and reported cost at every kind of start and iteration limit"""
    rng = ctx.rng
    spec, X, k, kind, d = setting(ctx)
    n = len(X)
    init = gen.pick(rng, ['random', 'furthest_sum', 'custom', None])
    it = gen.pick(rng, [1, 2, 3, 7, 40])
    o = dict(delta=d, init=init, max_iterations=it, tolerance=gen.pick(rng, [0, 1e-6]), random_state=int(rng.randint(1 << 30)))
    kw = spec.start(rng, X, k, o) if init == 'custom' else {}
    F = run_fit(spec, X, k, o, kw)
    judge_feasible(ctx, F, d, k, n)
    s = float(np.sum(X * X))
    ctx.close(F['cost'], rescaled_cost(X, F), 'cost-of-rescaled-factorisation', rtol=1e-8, atol=1e-9 * s * (1 + d) ** 2)
    ctx.seen(spec.name, kind, n, k, d, it, init)
    ctx.note(model=spec.name, kind=kind, n=n, k=k, delta=d, limit=it, init=init, cost=F['cost'])


def prefixes(ctx):
    """objective along the prefixes of one run"""
    rng = ctx.rng
    spec, X, k, kind, d = setting(ctx)
    o = dict(delta=d, init='custom', tolerance=0, random_state=0)
    kw = spec.start(rng, X, k, o)
    s = float(np.sum(X * X))
    tol = 1e-9 * s * (1 + d) ** 2
    last = O.aa_objective(X, kw['weights'], kw['dictionary'])
    moved = 0
    for it in (1, 2, 3, 4, 6, 10):
        F = run_fit(spec, X, k, dict(o, max_iterations=it), kw)
        judge_feasible(ctx, F, d, k, len(X))
        c = rescaled_cost(X, F)
        ctx.require(c <= last + tol, 'no-increase', 'objective %r after at most %d iterations, %r before' % (c, it, last))
        ctx.close(F['cost'], c, 'cost-of-rescaled-factorisation', rtol=1e-8, atol=tol)
        moved += c < last - tol
        last = c
    ctx.count('prefixes that lowered the objective', moved)
    ctx.seen('prefix', spec.name, kind, k, d)


def best_single(X, F, d):
    """largest decrease of the objective by rescaling one archetype within its bounds"""
    W, a, A = F['W'], F['a'], F['D'].dot(X)
    R = X - (W * a).dot(A)
    best, at = 0.0, None
    for i in range(len(a)):
        q = float(W[:, i].dot(W[:, i]) * A[i].dot(A[i]))
        if q <= 0:
            continue
        lin = float(W[:, i].dot(R).dot(A[i]))
        t = np.clip(a[i] + lin / q, 1 - d, 1 + d) - a[i]
        gain = 2 * t * lin - t * t * q
        if gain > best:
            best, at = gain, (i, float(a[i] + t))
    return best, at


def long_runs(ctx):
    """optimality of scales, weights and dictionary after long runs"""
    rng = ctx.rng
    spec, X, k, kind, d = setting(ctx, kinds=('gauss', 'clusters', 'simplex', 'ar', 'grid'), nmax=12)
    s = float(np.sum(X * X))
    if s == 0:
        ctx.count('zero data')
        return
    o = dict(delta=d, init='custom', tolerance=0)
    kw = spec.start(rng, X, k, o)
    K = X.dot(X.T)
    for budget in (150, 800, 4000):
        F = run_fit(spec, X, k, dict(o, max_iterations=budget), kw)
        gain, at = best_single(X, F, d)
        V, C = F['W'] * F['a'], F['D']
        CK = C.dot(K)
        gw = O.simplex_gap((-2 * K.dot(C.T) + 2 * V.dot(CK.dot(C.T))) * F['a'], F['W'])
        gc = O.simplex_gap(F['a'][:, None] * (-2 * F['W'].T.dot(K) + 2 * F['W'].T.dot(V).dot(CK)), C)
        if max(gw, gc) <= 3e-4 * s and (gain <= 3e-4 * s or np.all(F['a'] == 1)):
            break
    judge_feasible(ctx, F, d, k, len(X))
    ctx.require(gw <= 3e-4 * s and gc <= 3e-4 * s, 'stationary',
                'weights or dictionary can be improved: relative gaps %g, %g' % (gw / s, gc / s))
    if gain > 3e-4 * s:
        # Recorded defect: the relaxation has no effect whatsoever.  Anything
        # else that leaves the scales short of their optimum is a violation.
        Z = run_fit(spec, X, k, dict(o, delta=0, max_iterations=budget), kw)
        same = np.all(F['a'] == 1) and all(np.allclose(F[q], Z[q], rtol=1e-9, atol=1e-9) for q in ('W', 'D'))
        if same:
            ctx.finding('delta-scale-factors', 'scale factors stay at one although rescaling archetype %d to %.3f lowers the '
                        'cost by %.3g of the total sum of squares' % (at[0], at[1], gain / s))
        ctx.require(same, 'rescaling-optimal', 'rescaling archetype %r lowers the objective by %g' % (at, gain))
    else:
        ctx.require(True, 'rescaling-optimal')
    ctx.seen('long', spec.name, kind, len(X), k, d)
    ctx.note(model=spec.name, kind=kind, k=k, delta=d, relative_gain_left=gain / s)


FAMILIES = [Family('results', results, 600), Family('prefixes', prefixes, 200), Family('long_runs', long_runs, 120)]
