"""C12: FEM-BV-VARX components are affiliation-weighted least squares fits."""
import numpy as np
from vlib import repo, gen, oracles as O, fem
from vlib.recorders import snapshot, same
from vlib.core import Family, Skip

ID = 'C12'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('iterations separated by refitting with limits 0,1,2,..; the coefficients of each component are judged by the weighted '
        'residual sum of squares they attain for the affiliations before the iteration against an orthogonal-basis solver, with '
        'equal, mixed and zero memory and external factors; distinct = (memories, k, f, external, start, iteration)')
REQUIRED = {'weighted-least-squares': 1, 'beyond-memory-zero': 1, 'transform-keeps-coefficients': 1,
            'initial-components-unweighted': 1, 'custom-coefficients-used': 1, 'planted-coefficients-recovered': 1,
            'no-stale-external-factors': 1}
TECHNIQUE = 'optimality oracle (independent weighted least squares) over reconstructed iteration traces'
LEVEL_NOTE = 'Every observed component fit is decided by its attained residual; sampled series.'

VARX = repo.fembv_varx.FEMBVVARX


def judge_components(ctx, X, u, mems, G, s, label):
    L = max(mems)
    n, f = X.shape
    D = fem.varx_distances(X, u, mems, s['mu'], s['A'], s['B0'])
    scale = gen.spd_scale(X) + 1e-300
    for i, p in enumerate(mems):
        got = float((G[:, i] * D[:, i]).sum())
        Z = O.varx_design(X[L - p:], p, None if u is None else u[L - p:], 0)
        want = O.weighted_ls_value(Z, X[L:], G[:, i])
        ctx.require(abs(got) < np.inf and got <= want + 1e-7 * scale * max(1e-6, float(G[:, i].max())),
                    'weighted-least-squares',
                    '%s: component %d (memory %d of %r): residual %r, attainable %r' % (label, i, p, mems, got, want),
                    mu=s['mu'][i], B0=None if u is None else s['B0'][i])
        if s['A'] is not None and p < L:
            ctx.require(not np.any(s['A'][i, p:]), 'beyond-memory-zero', '%s: %r' % (label, s['A'][i, p:].tolist()))
        elif L == 0 or p == L:
            ctx.require(True, 'beyond-memory-zero')
    shapes = (s['mu'].shape == (len(mems), f) and
              (L == 0 or s['A'].shape == (len(mems), L, f, f)) and
              ((s['B0'] is None) if u is None else s['B0'].shape == (len(mems), f, u.shape[1])))
    ctx.require(shapes, 'coefficient-shapes', label)


def trace(ctx):
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng)
    mems = fem.memories(mem, k)
    L = max(mems)
    n, f = X.shape
    custom = rng.rand() < 0.5
    par = None
    kw = {} if u is None else dict(external_factors=u)
    if custom:
        kw['weights'] = gen.rows(rng, n - L, k)
        if rng.rand() < 0.6:
            par = dict(mu=rng.randn(k, f), A=0.4 * rng.randn(k, L, f, f) if L else None,
                       B0=rng.randn(k, f, u.shape[1]) if u is not None else None)
            kw['parameters'] = par
    seed = rng.randint(10 ** 6)

    def fit(m, **more):
        model = VARX(k, memory=mem, init='custom' if custom else 'random', random_state=seed, max_iterations=m,
                     tolerance=0, **o)
        G = np.array(model.fit_transform(X, **dict(kw, **more)))
        return model, G

    # starting point: unweighted fits, or exactly the given coefficients
    m0, G0 = fit(1, update_weights=False, update_parameters=False)
    ctx.require(G0.shape == (n - L, k), 'affiliations-after-longest-memory', '%r' % (G0.shape,))
    if G0.shape != (n - L, k):
        return
    scale = gen.spd_scale(X) + 1e-300
    if par is None:
        want = 0.0
        for i, p in enumerate(mems):
            y, uu = X[L - p:], None if u is None else u[L - p:]
            Z = O.varx_design(y, p, uu, 0)
            B = np.linalg.lstsq(Z, X[L:], rcond=None)[0]
            r = X[L:] - Z.dot(B)
            want += float((G0[:, i] * (r * r).sum(axis=1)).sum())
        ctx.require(abs(float(m0.cost_) - want) <= 1e-6 * scale, 'initial-components-unweighted',
                    'initial cost %r, unweighted fits give %r' % (m0.cost_, want))
        # and are the coefficients reported (and used to transform) if they are not updated
        judge_components(ctx, X, u, mems, np.ones((n - L, k)), fem.varx_state(m0, mems), 'parameters not updated')
    else:
        want = float((G0 * fem.varx_distances(X, u, mems, par['mu'], par['A'], par['B0'])).sum())
        ctx.require(abs(float(m0.cost_) - want) <= 1e-8 * (scale + want), 'custom-coefficients-used',
                    'initial cost %r, given coefficients give %r' % (m0.cost_, want))
    if custom:
        ctx.require(np.array_equal(G0, kw['weights']), 'custom-affiliations-used')
    Gprev = G0
    for m in (1, 2, 3):
        model, G = fit(m)
        judge_components(ctx, X, u, mems, Gprev, fem.varx_state(model, mems),
                         '%s, memory %r, iteration %d' % (kind, mem, m))
        ctx.seen(tuple(mems), k, f, u is not None, custom, m)
        Gprev = G
    if custom:
        model, G = fit(int(rng.randint(1, 4)), update_weights=False)
        judge_components(ctx, X, u, mems, kw['weights'], fem.varx_state(model, mems), 'fixed affiliations')
    # transform keeps the coefficients
    model, G = fit(int(gen.pick(rng, [1, 3, 10])))
    s = snapshot(fem.varx_state(model, mems))
    live = (model.mu, model.A, model.B0)
    for _ in range(2):
        n2 = rng.randint(L + 2, 30)
        X2 = X[rng.randint(0, 3):][:n2]
        u2 = None if u is None else rng.randn(len(X2), u.shape[1])
        G2 = np.array(model.transform(X2, **({} if u is None else dict(external_factors=u2))))
        ctx.require(G2.shape == (len(X2) - L, k), 'transform-shape', '%r' % (G2.shape,))
        now = fem.varx_state(model, mems)
        kept = same(now['mu'], s['mu']) and same(now['B0'], s['B0']) and (
            s['A'] is None or all(same(now['A'][i, :p], s['A'][i, :p]) for i, p in enumerate(mems)))
        ctx.require(kept and same(live[0], s['mu']) and (s['A'] is None or same(live[1], s['A'])),
                    'transform-keeps-coefficients', 'memory %r' % (mems,))
    ctx.note(kind=kind, memory=mems, k=k, external=u is not None, custom=custom, mu=s['mu'])


def stale(ctx):
    """external factors of an earlier fit are forgotten"""
    rng = ctx.rng
    X, _, k, mem, o, kind = fem.varx_problem(rng)
    u = rng.randn(len(X), rng.randint(1, 3))
    rs = np.random.RandomState(3)
    model = VARX(k, memory=mem, random_state=rs, max_iterations=2, tolerance=0, **o)
    first = rng.rand() < 0.5
    model.fit(X, **(dict(external_factors=u) if first else {}))
    state = rs.get_state()
    kw = {} if first else dict(external_factors=u)
    G = np.array(model.fit_transform(X, **kw))
    rs.set_state(state)
    fresh = VARX(k, memory=mem, random_state=rs, max_iterations=2, tolerance=0, **o)
    Gf = np.array(fresh.fit_transform(X, **kw))
    ok = same(G, Gf) and same(model.mu, fresh.mu) and same(model.A, fresh.A) and same(model.B0, fresh.B0)
    ctx.require(ok, 'no-stale-external-factors', 'external factors in %s fit only' % ('first' if first else 'second'))
    ctx.seen('stale', first, kind, k)


def planted(ctx):
    """noise-free switching series driven by external factors: the generating coefficients are recovered"""
    rng = ctx.rng
    k, f, p, e = rng.randint(1, 3), rng.randint(1, 3), rng.randint(0, 3), rng.randint(1, 3)
    n = 80
    A = np.array([[(0.5 / (t + 1)) * np.linalg.qr(rng.randn(f, f))[0] for t in range(p)] for _ in range(k)])
    A = A.reshape(k, p, f, f)
    mu, B = rng.randn(k, f), rng.randn(k, f, e)
    u = rng.randn(n, e)
    z = np.repeat(np.arange(k), n // k + 1)[:n]
    X = np.zeros((n, f))
    X[:p] = rng.randn(p, f)
    for t in range(p, n):
        X[t] = mu[z[t]] + B[z[t]].dot(u[t])
        for tau in range(1, p + 1):
            X[t] += A[z[t], tau - 1].dot(X[t - tau])
    W = np.zeros((n - p, k))
    W[np.arange(n - p), z[p:]] = 1
    model = VARX(k, memory=int(p), init='custom', random_state=0, max_iterations=1, tolerance=0)
    model.fit(X, weights=W, update_weights=False, external_factors=u)
    s = fem.varx_state(model, [p] * k)
    judge_components(ctx, X, u, [int(p)] * k, W, s, 'planted')
    Z = O.varx_design(X, p, u, 0)
    for i in range(k):
        sv = np.linalg.svd(Z[W[:, i] > 0], compute_uv=False)
        if sv[-1] <= 1e-6 * sv[0]:
            ctx.count('collinear regimes')
            continue
        ok = (np.allclose(s['mu'][i], mu[i], atol=1e-5) and (p == 0 or np.allclose(s['A'][i], A[i], atol=1e-5)) and
              np.allclose(s['B0'][i], B[i], atol=1e-5))
        ctx.require(ok, 'planted-coefficients-recovered', 'component %d' % i, mu=s['mu'][i], true=mu[i],
                    A=None if p == 0 else s['A'][i], trueA=A[i])
    ctx.seen('planted', k, f, p, e)


FAMILIES = [Family('trace', trace, 200), Family('stale', stale, 50), Family('planted', planted, 80)]
