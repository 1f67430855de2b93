"""C05: descent along the iteration history, no spurious abort."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M, fem
from vlib.core import Family, Skip

ID = 'C05'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('iteration histories reconstructed by refitting from the same start with limits 1,2,3,..; the independently '
        'recomputed objective of every prefix is judged; starts dense, sparse, at vertices, from FurthestSum or random; 16 '
        'data kinds; distinct = (model, kind, k, start kind, penalties)')
REQUIRED = {'objective-not-increased': 1, 'progress-when-not-stationary': 1, 'fembv-not-increased': 1, 'guard-raises': 1,
            'lag-residual-not-increased': 1}
TECHNIQUE = 'offline trace checker (monotonicity) over reconstructed iteration histories'
LEVEL_NOTE = 'Every consecutive pair of the observed histories is decided by an independent objective; sampled fits.'


def gap(spec, X, F, o):
    if spec.archetypal:
        K = X.dot(X.T)
        W, C = F['W'], F['D']
        CK = C.dot(K)
        gW = -2 * K.dot(C.T) + 2 * W.dot(CK.dot(C.T))
        gC = -2 * W.T.dot(K) + 2 * W.T.dot(W).dot(CK)
        return O.simplex_gap(gW, W) + O.simplex_gap(gC, C)
    g = -2.0 / X.size * (X - F['W'].dot(F['D'])).dot(F['D'].T)
    return O.simplex_gap(g, F['W'])


def factor_model(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, nmax=20)
        if rng.rand() < 0.2:
            X = X * 10.0 ** rng.randint(-3, 4)
        init = gen.pick(rng, ['custom', 'custom', 'random', 'furthest_sum'])
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        seed = rng.randint(10 ** 6)
        limits = list(range(1, 9)) + [12, 20, 40]
        prev, where = None, 'start'
        first = None
        if init == 'custom':
            F0 = spec.start_factors(start, o)
            prev = spec.objective(X, F0, o)
            first = (prev, gap(spec, X, F0, o))
        objs = [] if prev is None else [prev]
        last = None
        for m in limits:
            model = spec.make(k, o, init=init, random_state=seed, max_iterations=m, tolerance=0)
            F = spec.fit(model, X, **start)
            cur = spec.objective(X, F, o)
            scale = max(spec.cost_scale(X, o, F), prev or 0.0)
            if prev is not None:
                ctx.require(cur <= prev + 2e-9 * scale + 1e-300, 'objective-not-increased',
                            '%s (%s, k=%d, init %r, %r): %r after %s -> %r after %d iterations' % (
                                name, kind, k, init, o, prev, where, cur, m))
                ctx.count('strict decreases', cur < prev)
            else:
                if name not in ('MTD', 'CROM', 'GPNH'):
                    first = (cur, gap(spec, X, F, o))
            prev, where = cur, '%d iterations' % m
            objs.append(cur)
        well_scaled = 1e-6 < spec.cost_scale(X, o) < 1e8     # step lengths are bounded by alpha_min and alpha_max
        if well_scaled and first is not None and first[1] > 0.05 * max(spec.cost_scale(X, o), first[0]) and first[0] > 0:
            ctx.require(prev < first[0] - 1e-7 * first[1], 'progress-when-not-stationary',
                        '%s (%s): objective %r with gap %r only reached %r' % (name, kind, first[0], first[1], prev))
        # with the default stopping rule nothing may abort either
        model = spec.make(k, o, init=init, random_state=seed)
        F = spec.fit(model, X, **start)
        cur = spec.objective(X, F, o)
        base = objs[0]
        ctx.require(cur <= base + 2e-9 * max(spec.cost_scale(X, o, F), base), 'objective-not-increased',
                    '%s: complete fit ends at %r, above %r' % (name, cur, base))
        # nor may a coarse one accept a rise
        for share in (0.03, 1.0):
            tol = share * float(objs[0])
            model = spec.make(k, o, init=init, random_state=seed, tolerance=tol, max_iterations=20)
            F = spec.fit(model, X, **start)
            cur = spec.objective(X, F, o)
            ctx.require(cur <= base + 2e-9 * max(spec.cost_scale(X, o, F), base), 'objective-not-increased',
                        '%s (%s, k=%d, init %r, %r): fit with tolerance %r ends at %r, above %r' % (name, kind, k, init, o, tol, cur, base))
        ctx.seen(name, kind, k, init, o.get('epsilon_states', 0) > 0, o.get('epsilon_weights', 0) > 0)
        ctx.note(model=name, kind=kind, k=k, init=init, options=o, objectives=[float(v) for v in objs])
    return run


def lag_parameters(ctx):
    """residual of the lag model of the CROM, on data it codes exactly"""
    rng = ctx.rng
    spec = M.SPECS['CROM']
    k = rng.randint(2, 5)
    lags = gen.lags(rng)
    n = rng.randint(max(lags) + 3, 30)
    f = k + rng.randint(0, 3)
    S = rng.randn(k, f) * 3
    G = gen.rows(rng, n, k)
    X = G.dot(S)
    seed = rng.randint(10 ** 6)
    prev = None
    trace = []
    G0 = None
    for m in list(range(1, 9)) + [15, 40, 100]:
        model = spec.make(k, dict(lags=lags), init='custom', random_state=seed, max_iterations=m, tolerance=0)
        F = spec.fit(model, X, weights=G, dictionary=S)
        if G0 is None:
            G0 = F['W']
        drift = float(np.abs(F['W'] - G0).max())
        cur = O.lag_penalty(F['W'], lags, F['w'], F['T'])
        trace.append(cur)
        if prev is not None:
            ctx.require(cur <= prev + 1e-9 + 20 * drift, 'lag-residual-not-increased',
                        'residual %r -> %r after %d iterations (drift %.2g)' % (prev, cur, m, drift))
        prev = cur
    ctx.seen('lag', k, tuple(sorted(lags)), n)
    ctx.note(lags=lags, k=k, residuals=trace)


def fem_kmeans(ctx):
    """FEM-BV-k-means histories"""
    rng = ctx.rng
    X, k, o, kind = fem.kmeans_problem(rng, nmax=20)
    bound = o['max_tv_norm']
    seed = rng.randint(10 ** 6)
    custom = rng.rand() < 0.6
    kw = {}
    scale = gen.spd_scale(X) + 1e-300
    prev, where = None, None
    if custom:
        G0 = gen.rows(rng, len(X), k, sparse=rng.randint(3))
        if bound is not None and bound >= 0:
            G0 = np.tile(gen.rows(rng, 1, k), (len(X), 1))
        T0 = X[rng.randint(len(X), size=k)] + 0.1 * rng.randn(k, X.shape[1])
        kw = dict(weights=G0, parameters=T0)
        prev, where = float((G0 * fem.kmeans_distances(X, T0)).sum()), 'start'
        scale = max(scale, prev)
    trace = [] if prev is None else [prev]
    for m in (1, 2, 3, 4, 6, 10):
        model = repo.fembv_kmeans.FEMBVKMeans(k, init='custom' if custom else 'random', random_state=seed,
                                              max_iterations=m, tolerance=0, **o)
        G = np.array(model.fit_transform(X, **kw))
        cur = float((G * fem.kmeans_distances(X, np.asarray(model.Theta))).sum())
        if prev is not None:
            ctx.require(cur <= prev + 1e-6 * scale, 'fembv-not-increased',
                        'k-means (%s, k=%d, bound %r): %r after %s -> %r after %d' % (kind, k, bound, prev, where, cur, m))
        prev, where = cur, '%d iterations' % m
        trace.append(cur)
    # rises within the accuracy of the solver are not asked to be below a smaller tolerance
    span = float(((X.max(axis=0) - X.min(axis=0)) ** 2).sum())
    model = repo.fembv_kmeans.FEMBVKMeans(k, random_state=seed, require_monotonic_cost_decrease=True,
                                          tolerance=max(1e-4, 1e-6 * len(X) * span), **o)
    model.fit(X)
    ctx.require(True, 'monotonicity-guard-silent')
    ctx.seen('kmeans', kind, k, bound, custom)
    ctx.note(model='FEMBVKMeans', kind=kind, k=k, bound=bound, costs=trace)


def fem_varx(ctx):
    """FEM-BV-VARX histories"""
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng, nmax=24)
    mems = fem.memories(mem, k)
    seed = rng.randint(10 ** 6)
    scale = gen.spd_scale(X) + 1e-300
    kw = {} if u is None else dict(external_factors=u)
    prev, where = None, None
    trace = []
    for m in (1, 2, 3, 4, 6, 10):
        model = repo.fembv_varx.FEMBVVARX(k, memory=mem, random_state=seed, max_iterations=m, tolerance=0, **o)
        G = np.array(model.fit_transform(X, **kw))
        s = fem.varx_state(model, mems)
        cur = float((G * fem.varx_distances(X, u, mems, s['mu'], s['A'], s['B0'])).sum())
        if prev is not None:
            ctx.require(cur <= prev + 1e-6 * scale, 'fembv-not-increased',
                        'VARX (%s, memory %r, bound %r): %r after %s -> %r after %d' % (
                            kind, mem, o['max_tv_norm'], prev, where, cur, m))
        prev, where = cur, '%d iterations' % m
        trace.append(cur)
    ctx.seen('varx', kind, k, tuple(mems), o['max_tv_norm'], u is not None)
    ctx.note(model='FEMBVVARX', kind=kind, k=k, memory=mems, bound=o['max_tv_norm'], costs=trace)


def fem_guard(ctx):
    """required decrease where a coarse solver lets costs rise"""
    rng = ctx.rng
    which = gen.pick(rng, ['kmeans', 'kmeans', 'varx'])
    n, f, k = rng.randint(15, 45), rng.randint(1, 4), rng.randint(2, 5)
    kind = gen.pick(rng, ('gauss', 'ar', 'clusters'))
    X = gen.data(rng, n, f, kind)
    o = dict(max_tv_norm=gen.pick(rng, [None, 2, 4, 8]), random_state=int(rng.randint(10 ** 6)), init='random')
    o['weights_solver_kwargs'] = dict(solver='SCS', eps=float(gen.pick(rng, [1e-1, 3e-1, 5e-1])), max_iters=int(rng.randint(20, 60)))
    cls = repo.fembv_kmeans.FEMBVKMeans
    if which == 'varx':
        cls = repo.fembv_varx.FEMBVVARX
        o['memory'] = int(rng.randint(2))
    its = int(rng.randint(2, 9))
    mem = o.get('memory', 0)

    def cost(m):
        W = np.array(cls(k, max_iterations=m, tolerance=0, require_monotonic_cost_decrease=False, **o).fit(X).cost_)
        return float(W)
    try:
        costs = [cost(m) for m in range(1, its + 1)]
    except Exception:
        # the solver gave up, or a component's parameters are undetermined
        raise Skip()
    rises = np.diff(costs)
    level = float(np.abs(rises).max()) + 1e-300
    tol = float(gen.pick(rng, [1e-3, 0.03, 0.3, 2.0])) * level
    if np.any(np.abs(np.abs(rises) - tol) < 1e-6 * max(costs)):
        raise Skip()
    # iterating stops at the first change below the tolerance
    performed = cls(k, max_iterations=its, tolerance=tol, require_monotonic_cost_decrease=False, **o).fit(X).n_iter_
    first = abs(costs[0])
    rose = [i for i in range(performed - 1) if rises[i] > tol]
    failed = None
    try:
        m = cls(k, max_iterations=its, tolerance=tol, require_monotonic_cost_decrease=True, **o).fit(X)
    except RuntimeError as e:
        failed = e
    label = '%s (%s, k=%d, memory %r, bound %r, tolerance %r): costs %r' % (which, kind, k, mem, o['max_tv_norm'], tol, costs)
    if rose:
        ctx.require(failed is not None, 'guard-raises', label + ': no error although the cost rose')
        ctx.count('fits in which the cost rose')
    else:
        ctx.require(failed is None, 'monotonicity-guard-silent', '%s: %r although no cost rose' % (label, failed))
        if failed is None:
            ctx.require(any(abs(m.cost_ - c) <= 1e-9 * first for c in costs), 'monotonicity-guard-silent',
                        '%s: cost %r with the requirement' % (label, m.cost_))
    ctx.seen('guard', which, kind, k, its, bool(rose), o['max_tv_norm'])
    ctx.note(model=which, costs=costs, tolerance=tol, rose=bool(rose))


def fem_start_beyond_bound(ctx):
    """starting affiliations that vary more than the bound allows"""
    rng = ctx.rng
    n, f, k = rng.randint(8, 30), rng.randint(1, 4), rng.randint(2, 4)
    X = gen.data(rng, n, f, gen.pick(rng, ('gauss', 'ar')))
    label = rng.randint(k, size=n)
    label[:k] = np.arange(k)
    c = rng.randn(k, f)
    X = 0.1 * X + 5 * c[label]
    G0 = np.eye(k)[label]
    T0 = np.array([X[label == i].mean(axis=0) for i in range(k)])
    bound = float(gen.pick(rng, [0.5, 1, 2]))
    require = rng.rand() < 0.7
    kw = dict(require_monotonic_cost_decrease=True) if require else {}
    start = float((G0 * fem.kmeans_distances(X, T0)).sum())
    m = repo.fembv_kmeans.FEMBVKMeans(k, init='custom', max_tv_norm=bound, max_iterations=int(rng.randint(1, 6)), random_state=1, **kw)
    try:
        m.fit(X, weights=G0, parameters=T0)
    except RuntimeError as e:
        ctx.require(False, 'monotonicity-guard-silent', 'k=%d, bound %r, start varying more: %r' % (k, bound, e))
    else:
        ctx.require(True, 'monotonicity-guard-silent')
        tv = np.abs(np.diff(np.asarray(m.weights_ if hasattr(m, 'weights_') else m.Gamma), axis=0)).sum(axis=0).max()
        ctx.require(tv <= bound + 1e-4, 'start-within-bound-afterwards', 'total variation %r, bound %r' % (tv, bound))
        ctx.count('first iterations that had to raise the cost', m.cost_ > start)
    ctx.seen('beyond', n, k, bound, require)
    ctx.note(k=k, bound=bound, start=start)


FAMILIES = [Family(nm, factor_model(nm), q) for nm, q in (('AA', 130), ('KAA', 50), ('GPNH', 130), ('CROM', 60), ('MTD', 160))]
FAMILIES += [Family('lag_parameters', lag_parameters, 80), Family('fem_kmeans', fem_kmeans, 60), Family('fem_varx', fem_varx, 60), Family('fem_guard', fem_guard, 60),
             Family('fem_start_beyond_bound', fem_start_beyond_bound, 40)]
