"""C07: stationarity of long optimisations."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M
from vlib.core import Family, Skip

ID = 'C07'
RULE = ('long fits (zero tolerance, hundreds to thousands of iterations) of small well-scaled problems from several starts; '
        'Frank-Wolfe gaps and gradients are recomputed from the returned factors; weight-only problems are compared with an '
        'independent convex solver; distinct = '
        '(model, n, f, k, penalties)')
REQUIRED = {'stationary': 1, 'weights-globally-optimal': 1, 'lag-parameters-stationary': 1}
TECHNIQUE = 'optimality-certificate monitor (duality gaps, gradients, independent convex solver) on recorded results'
LEVEL_NOTE = ('Certificates decide each observed result to the stated thresholds; convergence itself is observed for the '
              'configured iteration budgets only.')
GAP = 3e-4           # relative gap accepted; typical values are 1e-8 and below
STAGES = (1, 5, 30)  # slow convergence is not a violation: the budget is extended before judging


def well_scaled(rng, n, f):
    return gen.data(rng, n, f, gen.pick(rng, ['gauss', 'clusters', 'simplex', 'ar', 'grid']))


def lag_gradients(W, lags, w, T):
    n, k = W.shape
    L = max(lags)
    R = W[L:] - O.lag_prediction(W, lags, w, T)
    c = -2.0 / (k * (n - L))
    gw = np.array([c * np.sum(R * W[L - lag:n - lag].dot(T[i].T)) for i, lag in enumerate(lags)])
    gT = np.array([c * w[i] * R.T.dot(W[L - lag:n - lag]) for i, lag in enumerate(lags)])
    return gw, gT


def pair_gradient(S):
    k, f = S.shape
    if k < 2:
        return np.zeros_like(S)
    return 4.0 / (f * k * (k - 1)) * (k * S - S.sum(axis=0))


def weight_gradient(spec, X, F, o):
    W, S = F['W'], F['D']
    g = -2.0 / X.size * (X - W.dot(S)).dot(S.T)
    if spec.name == 'MTD' and o.get('epsilon_weights', 0) > 0 and W.shape[1] > 1:
        n, k = W.shape
        lags, w, T = F['lags'], F['w'], F['T']
        L = max(lags)
        R = W[L:] - O.lag_prediction(W, lags, w, T)
        e = o['epsilon_weights'] * 2.0 / (k * max(n - L, 1))
        g[L:] += e * R
        for i, lag in enumerate(lags):
            if n > L:
                g[L - lag:n - lag] -= e * w[i] * R.dot(T[i])
    return g


def joint(name, budget):
    spec = M.SPECS[name]

    def gaps_of(X, F, o):
        if spec.archetypal:
            K = X.dot(X.T)
            W, C = F['W'], F['D']
            CK = C.dot(K)
            return {'weights': O.simplex_gap(-2 * K.dot(C.T) + 2 * W.dot(CK.dot(C.T)), W),
                    'dictionary': O.simplex_gap(-2 * W.T.dot(K) + 2 * W.T.dot(W).dot(CK), C)}
        W, S = F['W'], F['D']
        gaps = {'weights': O.simplex_gap(weight_gradient(spec, X, F, o), W)}
        gS = -2.0 / X.size * W.T.dot(X - W.dot(S)) + o.get('epsilon_states', 0) * pair_gradient(S)
        gaps['dictionary'] = float(np.abs(gS).sum() * max(np.abs(X).max(), 1e-12))
        if name == 'MTD' and W.shape[1] > 1 and o['epsilon_weights'] > 0:
            gw, gT = lag_gradients(W, F['lags'], F['w'], F['T'])
            e = o['epsilon_weights']
            gaps['order weights'] = e * O.simplex_gap(gw[None], F['w'][None])
            gaps['transitions'] = e * sum(O.simplex_gap(gT[i], F['T'][i], axis=0) for i in range(len(gT)))
        return gaps

    def run(ctx):
        rng = ctx.rng
        o = spec.options(rng)
        if 'epsilon_states' in o:
            o['epsilon_states'] = gen.pick(rng, [0, 1e-2, 0.1, 1.0])
        if 'epsilon_weights' in o:
            o['epsilon_weights'] = gen.pick(rng, [0, 1e-2, 0.1, 1.0])
        n = rng.randint(max(4, spec.min_samples(o)), max(14, spec.min_samples(o) + 4))
        f = rng.randint(1, 4)
        k = rng.randint(1, min(4, n) + 1)
        X = well_scaled(rng, n, f)
        start = spec.start(rng, X, k, o) if rng.rand() < 0.6 else {}
        init = 'custom' if start else gen.pick(rng, ['random', 'furthest_sum'])
        seed = rng.randint(10 ** 6)
        scale = max(spec.cost_scale(X, o), 1e-12)
        size = []
        for stage in STAGES:
            model = spec.make(k, o, init=init, random_state=seed, max_iterations=budget * stage, tolerance=0,
                              require_monotonic_cost_decrease=False)
            F = spec.fit(model, X, **start)
            gaps = gaps_of(X, F, o)
            size.append(float(np.abs(F['D']).max()))
            if max(gaps.values()) <= GAP * scale:
                break
            ctx.count('extended budgets')
        if (name == 'MTD' and o.get('epsilon_weights') and not o.get('epsilon_states') and len(size) > 1 and
                max(gaps.values()) > GAP * scale and size[-1] > 1.05 * size[-2]):
            # nothing keeps the dictionary bounded: ever smaller variations of the weights are ever cheaper
            ctx.count('objectives without a minimiser, not judged')
            raise Skip()
        for what, g in gaps.items():
            ctx.require(g <= GAP * scale, 'stationary', '%s (n=%d, f=%d, k=%d, %r): %s gap %.3g of scale %.3g' % (
                name, n, f, k, o, what, g, scale), **F)
        ctx.seen(name, n, f, k, o.get('epsilon_states', 0) > 0, o.get('epsilon_weights', 0) > 0)
        ctx.note(model=name, n=n, f=f, k=k, options=o, gaps={a: b / scale for a, b in gaps.items()},
                 iterations=budget * stage)
    return run


def weights_only(ctx):
    """transform attains the optimum of the convex problem"""
    rng = ctx.rng
    name = gen.pick(rng, ['AA', 'KAA', 'GPNH', 'CROM', 'MTD'])
    spec = M.SPECS[name]
    o = spec.options(rng)
    if 'epsilon_weights' in o:
        o['epsilon_weights'] = gen.pick(rng, [0, 0.01, 0.1])
    n = rng.randint(max(5, spec.min_samples(o)), max(16, spec.min_samples(o) + 4))
    f = rng.randint(1, 4)
    k = rng.randint(1, 5)
    X = well_scaled(rng, n, f)
    model = spec.make(k, o, init=gen.pick(rng, ['random', 'furthest_sum']), random_state=rng.randint(10 ** 6),
                      max_iterations=20, tolerance=0, require_monotonic_cost_decrease=False)
    spec.fit(model, X)
    Y = X if spec.archetypal else well_scaled(rng, n + 3, f)
    S = np.array(model.dictionary_)
    S = S.dot(X) if spec.archetypal else S
    coupled = name == 'MTD' and o['epsilon_weights'] > 0 and k > 1
    if not coupled:
        best, slack = O.best_weights(Y, S)
        optimum = gen.spd_scale(Y - best.dot(S))
    limit = 1e-4 if coupled else 2e-5            # the duality gap overestimates the distance
    for stage in STAGES:
        model.max_iterations = 300 * stage
        W = np.array(model.transform(spec.observed(Y)))
        F = spec.factors(model, W)
        if coupled:
            gap = O.simplex_gap(weight_gradient(spec, Y, F, o), W)
            scale = spec.cost_scale(Y, o, F)
        else:
            scale = gen.spd_scale(Y) + gen.spd_scale(S)
            gap = gen.spd_scale(Y - W.dot(S)) - optimum
        if gap <= limit * scale:
            break
        ctx.count('extended budgets')
    ctx.require(gap <= limit * scale, 'weights-globally-optimal',
                '%s (n=%d, f=%d, k=%d): %.3g above the optimum (scale %.3g)' % (name, n, f, k, gap, scale), **F)
    ctx.seen('transform', name, n, f, k)
    ctx.note(model=name, n=n, f=f, k=k, relative_gap=gap / scale)


def lag_parameters(ctx):
    """parameter stage of the CROM"""
    rng = ctx.rng
    spec = M.SPECS['CROM']
    k = rng.randint(2, 4)
    lags = gen.lags(rng)
    n = rng.randint(max(lags) + 4, 25)
    X = gen.rows(rng, n, k).dot(3 * rng.randn(k, k + 1))
    init, seed = gen.pick(rng, ['random', 'furthest_sum']), rng.randint(10 ** 6)
    for stage in STAGES:
        model = spec.make(k, dict(lags=lags), init=init, random_state=seed, max_iterations=400 * stage, tolerance=0,
                          require_monotonic_cost_decrease=False)
        F = spec.fit(model, X)
        gw, gT = lag_gradients(F['W'], lags, F['w'], F['T'])
        g1 = O.simplex_gap(gw[None], F['w'][None])
        g2 = sum(O.simplex_gap(gT[i], F['T'][i], axis=0) for i in range(len(gT)))
        if max(g1, g2) <= GAP:
            break
        ctx.count('extended budgets')
    ctx.require(max(g1, g2) <= GAP, 'lag-parameters-stationary',
                'CROM k=%d lags %r: gaps %.3g (order weights), %.3g (transitions)' % (k, lags, g1, g2), **F)
    ctx.seen('lag', k, tuple(lags), n)
    ctx.note(k=k, lags=lags, gaps=[g1, g2])


FAMILIES = [Family('AA', joint('AA', 400), 80, 1500), Family('KAA', joint('KAA', 400), 30, 500),
            Family('GPNH', joint('GPNH', 400), 80, 1500), Family('MTD', joint('MTD', 400), 80, 1500),
            Family('weights_only', weights_only, 150, 3000), 
            Family('lag_parameters', lag_parameters, 40, 600)]
