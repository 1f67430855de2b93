"""C28: factors excluded from updating stay as given, the others are optimised."""
import numpy as np
from vlib import repo, gen, fem, oracles as O, models as M
from vlib.core import Family
from checks.c07 import weight_gradient, lag_gradients, pair_gradient, well_scaled

ID = 'C28'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('fits of every model with every combination of factors excluded from updating, from custom starts and with the other '
        'factors initialised by the model, at all iteration limits; fixed factors are compared bitwise with those given, the '
        'others by the descent of the recomputed objective and, after long runs, by optimality of the remaining problem (closed '
        'form for dictionaries of feature vectors, duality gaps otherwise, linear program and least squares for FEM-BV); '
        'distinct = (model, updated factors, init, n, k, limit)')
REQUIRED = {'fixed-factor-exact': 1, 'objective-not-increased': 1, 'remaining-problem-solved': 1, 'feasible': 1,
            'fembv-fixed-exact': 1, 'fembv-remaining-problem-solved': 1}
TECHNIQUE = 'state-comparison monitor with optimality oracles for the remaining problem'
LEVEL_NOTE = 'Every observed fit is decided bitwise (fixed factors) and by certificates (updated ones); sampled problems.'

PARTS = {'AA': ('D', 'W'), 'KAA': ('D', 'W'), 'GPNH': ('D', 'W'), 'CROM': ('D', 'W'), 'MTD': ('D', 'W', 'P')}
FLAG = {'D': 'update_dictionary', 'W': 'update_weights', 'P': 'update_parameters'}
ARGS = {'D': ('dictionary',), 'W': ('weights',), 'P': ('order_weights', 'transition_matrices')}
KEYS = {'D': ('D',), 'W': ('W',), 'P': ('w', 'T')}


def choose(rng, name):
    """parts that are updated"""
    return [p for p in PARTS[name] if rng.rand() < 0.5]


def setup(ctx, name, nice):
    rng = ctx.rng
    spec = M.SPECS[name]
    if nice:
        o = spec.options(rng)
        if 'epsilon_states' in o:
            o['epsilon_states'] = gen.pick(rng, [0, 1e-2, 0.1, 1.0])
        if 'epsilon_weights' in o:
            o['epsilon_weights'] = gen.pick(rng, [1e-2, 0.1, 1.0])
        n = rng.randint(max(4, spec.min_samples(o)), max(14, spec.min_samples(o) + 4))
        X = well_scaled(rng, n, rng.randint(1, 4))
        k, kind = rng.randint(1, min(4, n) + 1), 'nice'
    else:
        X, k, o, kind = M.problem(rng, spec, nmax=18)
    return spec, X, k, o, kind


def kept(name, updated):
    return {FLAG[p]: False for p in PARTS[name] if p not in updated}


def judge_fixed(ctx, name, F, s, updated, label):
    for p in PARTS[name]:
        if p in updated:
            continue
        for key, arg in zip(KEYS[p], ARGS[p]):
            ctx.require(np.array_equal(F[key], s[arg]), 'fixed-factor-exact', '%s: %s differs from the one given by %r' % (
                label, arg, float(np.abs(F[key] - s[arg]).max()) if F[key].shape == s[arg].shape else F[key].shape))


def fixed(name):
    def run(ctx):
        """fixed factors, feasibility and descent"""
        rng = ctx.rng
        spec, X, k, o, kind = setup(ctx, name, False)
        updated = choose(rng, name)
        s = spec.start(rng, X, k, o)
        custom = rng.rand() < 0.6 or not updated
        lim = int(gen.pick(rng, [1, 2, 3, 10, 60]))
        seed = int(rng.randint(10 ** 6))
        label = '%s, updating %r (%s, k=%d, limit %d)' % (name, updated, kind, k, lim)
        if custom:
            args, init = s, 'custom'
            if not updated:
                # whatever the initialisation method
                init = gen.pick(rng, ['random', 'furthest_sum', 'custom', None])
        else:
            init = gen.pick(rng, ['random', 'furthest_sum'])
            args = {a: s[a] for p in PARTS[name] if p not in updated for a in ARGS[p]}
        model = spec.make(k, o, init=init, random_state=seed, max_iterations=lim, tolerance=gen.pick(rng, [0, 1e-6]))
        F = spec.fit(model, X, **dict(args, **kept(name, updated)))
        judge_fixed(ctx, name, F, s, updated, label)
        for what, v in spec.defects(F).items():
            ctx.require(v <= 1e-8, 'feasible', '%s: %s %r' % (label, what, v))
        scale = spec.cost_scale(X, o, F)
        if custom:
            before = spec.objective(X, spec.start_factors(s, o), o)
            after = spec.objective(X, F, o)
            scale += spec.cost_scale(X, o, spec.start_factors(s, o))
            ctx.require(after <= before + 1e-9 * scale, 'objective-not-increased', '%s: %r to %r' % (label, before, after))
            if updated and any(p != 'P' for p in updated):
                ctx.count('fits that lowered the objective', after < before - 1e-9 * scale)
        ctx.require(abs(model.cost_ - spec.objective(X, F, o)) <= 1e-9 * scale + 1e-300, 'reported-cost-is-objective', label)
        ctx.seen(name, tuple(updated), init, len(X), k, lim)
        ctx.note(model=name, updated=updated, init=init, limit=lim)
    return run


def best_dictionary(X, W, eps):
    """minimal objective over dictionaries of feature vectors"""
    n, f = X.shape
    k = W.shape[1]
    H = W.T.dot(W) * 2.0 / (n * f)
    if k > 1 and eps:
        H = H + eps * 4.0 / (f * k * (k - 1)) * (k * np.eye(k) - np.ones((k, k)))
    S = np.linalg.lstsq(H, W.T.dot(X) * 2.0 / (n * f), rcond=1e-13)[0]
    return O.mse(X, W, S) + eps * O.pair_penalty(S)


def solved(name):
    def run(ctx):
        """long fits of the remaining factors"""
        rng = ctx.rng
        spec, X, k, o, kind = setup(ctx, name, True)
        updated = [gen.pick(rng, PARTS[name])]
        if name == 'MTD' and rng.rand() < 0.3:
            updated = gen.pick(rng, [['D', 'W'], ['D', 'P'], ['W', 'P']])
        s = spec.start(rng, X, k, o)
        scale = spec.cost_scale(X, o, spec.start_factors(s, o))
        if spec.archetypal:
            K = X.dot(X.T)
        for budget in (400, 2000, 10000):
            model = spec.make(k, o, init='custom', max_iterations=budget, tolerance=0, random_state=0)
            F = spec.fit(model, X, **dict(s, **kept(name, updated)))
            gaps = {}
            if 'W' in updated:
                if spec.archetypal:
                    CK = F['D'].dot(K)
                    gaps['weights'] = O.simplex_gap(-2 * K.dot(F['D'].T) + 2 * F['W'].dot(CK.dot(F['D'].T)), F['W'])
                else:
                    gaps['weights'] = O.simplex_gap(weight_gradient(spec, X, F, o), F['W'])
            if 'D' in updated:
                if spec.archetypal:
                    gaps['dictionary'] = O.simplex_gap(-2 * F['W'].T.dot(K) + 2 * F['W'].T.dot(F['W']).dot(F['D'].dot(K)), F['D'])
                else:
                    eps = o.get('epsilon_states', 0)
                    gaps['dictionary'] = (O.mse(X, F['W'], F['D']) + eps * O.pair_penalty(F['D'])
                                          - best_dictionary(X, F['W'], eps))
            if 'P' in updated and k > 1:
                gw, gT = lag_gradients(F['W'], F['lags'], F['w'], F['T'])
                e = o['epsilon_weights']
                gaps['order weights'] = e * O.simplex_gap(gw[None], F['w'][None])
                gaps['transition matrices'] = e * sum(O.simplex_gap(gT[i], F['T'][i], axis=0) for i in range(len(gT)))
            worst = max(gaps.values(), default=0)
            if worst <= 3e-4 * scale:
                break
            ctx.count('extended budgets')
        label = '%s, updating %r (k=%d, %r)' % (name, updated, k, o)
        judge_fixed(ctx, name, F, s, updated, label)
        for what, g in gaps.items():
            ctx.require(g <= 3e-4 * scale, 'remaining-problem-solved', '%s: %s %.3g from optimal (scale %.3g)' % (
                label, what, g, scale))
        ctx.seen('long', name, tuple(updated), len(X), k)
        ctx.note(model=name, updated=updated, relative_gaps={a: b / scale for a, b in gaps.items()})
    return run


def fembv(ctx):
    """FEM-BV models with fixed affiliations or fixed parameters"""
    rng = ctx.rng
    which = gen.pick(rng, ['kmeans', 'varx'])
    fix = gen.pick(rng, ['weights', 'parameters', 'both'])
    flags = dict(update_weights=fix == 'parameters', update_parameters=fix == 'weights')
    # fixed factors are kept whatever the initialisation method
    init = gen.pick(rng, ['custom', 'custom', 'random', None])
    both = init == 'custom' or rng.rand() < 0.5
    given = lambda G, P: {a: v for a, v in (('weights', G), ('parameters', P)) if both or fix in (a, 'both')}
    lim = int(gen.pick(rng, [1, 2, 5]))
    if which == 'kmeans':
        X, k, o, kind = fem.kmeans_problem(rng)
        n, f = X.shape
        G = gen.rows(rng, n, k)
        P = X[rng.randint(n, size=k)] + rng.randn(k, f)
        m = repo.fembv_kmeans.FEMBVKMeans(k, init=init, random_state=0, max_iterations=lim, tolerance=0, **o)
        W = np.array(m.fit_transform(X, **dict(given(G, P), **flags)))
        T = np.array(m.Theta)
        if fix != 'parameters':
            ctx.require(np.array_equal(W, G), 'fembv-fixed-exact', 'affiliations of k-means changed')
        if fix != 'weights':
            ctx.require(np.array_equal(T, P), 'fembv-fixed-exact', 'centroids of k-means changed')
        D = fem.kmeans_distances(X, T)
        if fix == 'weights':
            for j in range(k):
                if G[:, j].sum() > 1e-9:
                    ctx.close(T[j], G[:, j].dot(X) / G[:, j].sum(), 'fembv-remaining-problem-solved',
                              rtol=1e-9, atol=1e-9 * (1 + np.abs(X).max()))
    else:
        X, u, k, mem, o, kind = fem.varx_problem(rng)
        mems = fem.memories(mem, k)
        n, f = X.shape
        L = max(mems)
        G = gen.rows(rng, n - L, k, sparse=0)
        P = dict(mu=rng.randn(k, f), A=0.3 * rng.randn(k, L, f, f) if L else None,
                 B0=rng.randn(k, f, u.shape[1]) if u is not None else None)
        m = repo.fembv_varx.FEMBVVARX(k, memory=mem, init=init, random_state=0, max_iterations=lim, tolerance=0, **o)
        kw = {} if u is None else dict(external_factors=u)
        W = np.array(m.fit_transform(X, **dict(given(G, P), **dict(flags, **kw))))
        s = fem.varx_state(m, mems)
        if fix != 'parameters':
            ctx.require(np.array_equal(W, G), 'fembv-fixed-exact', 'affiliations of VARX changed')
        if fix != 'weights':
            ok = np.array_equal(s['mu'], P['mu'])
            for i in range(k):
                if mems[i]:
                    ok = ok and np.array_equal(s['A'][i, :mems[i]], P['A'][i, :mems[i]])
            if u is not None:
                ok = ok and np.array_equal(s['B0'], P['B0'])
            ctx.require(ok, 'fembv-fixed-exact', 'coefficients of VARX changed')
        D = fem.varx_distances(X, u, mems, s['mu'], s['A'], s['B0'])
        if fix == 'weights':
            for i in range(k):
                Z = O.varx_design(X, mems[i], u, 0, contemporaneous=u is not None)[L - mems[i]:]
                best = O.weighted_ls_value(Z, X[L:], G[:, i])
                got = float((G[:, i] * D[:, i]).sum())
                sc = float((G[:, i][:, None] * X[L:] ** 2).sum()) + 1e-12
                ctx.require(got <= best + 1e-7 * sc, 'fembv-remaining-problem-solved',
                            'component %d of VARX: residual %r, least %r' % (i, got, best))
    if fix == 'parameters':
        b = o['max_tv_norm']
        b = b if b is not None and b >= 0 and k > 1 else None
        best = O.lp_affiliations(D, b) if k > 1 else float(D.sum())
        sc = float(D.max()) * len(D) + 1e-12
        if best is not None:
            ctx.require(float((W * D).sum()) <= best + 3e-6 * sc, 'fembv-remaining-problem-solved',
                        '%s affiliations: %r, least %r' % (which, float((W * D).sum()), best))
    cost = float((W * D).sum())
    ctx.require(abs(m.cost_ - cost) <= 1e-7 * (float(D.sum()) + gen.spd_scale(X)), 'reported-cost-is-objective',
                '%s with fixed %s: %r, recomputed %r' % (which, fix, m.cost_, cost))
    ctx.seen(which, fix, k, lim, kind)
    ctx.note(model=which, fixed=fix, cost=cost)


FAMILIES = [Family(nm, fixed(nm), q) for nm, q in (('AA', 150), ('KAA', 80), ('GPNH', 150), ('CROM', 100), ('MTD', 300))]
FAMILIES += [Family('long_' + nm, solved(nm), q) for nm, q in (('AA', 60), ('KAA', 30), ('GPNH', 80), ('CROM', 30), ('MTD', 120))]
FAMILIES += [Family('fembv', fembv, 250)]
