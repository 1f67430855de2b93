"""C06: stopping point, iteration count and limit warning."""
import warnings
import numpy as np
from vlib import repo, gen, jobs, oracles as O, models as M, fem
from vlib.core import Family, Skip

ID = 'C06'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('the cost history of each problem is reconstructed with limits 1,2,..; tolerances are then chosen between consecutive '
        'cost changes, so that the stopping iteration is known, and limits below, at and above it are tried; distinct = '
        '(model, stopping iteration, relation of the limit to it)')
REQUIRED = {'stops-at-first-small-change': 1, 'limit-respected': 1, 'warning-iff-limit-reached': 1,
            'fembv-stops-at-first-small-change': 1}
TECHNIQUE = 'reference-model monitor: stopping rule evaluated on the reconstructed history, compared with the reported run'
LEVEL_NOTE = ('Decides stopping iteration, reported count, result and warning of each observed run; tolerances within rounding '
              'of a cost change are avoided.')


def limit_warned(rec):
    return any('aximum number of iterations' in str(w.message) and 'reached' in str(w.message) for w in rec)


def judge_count(ctx, name, reported, performed, what):
    if reported == performed:
        ctx.require(True, 'reports-iterations')
    elif name in ('AA', 'KAA') and reported == performed - 1:
        ctx.require(True, 'reports-iterations')
        ctx.finding('aa-iteration-count', '%s reports %d after %d iterations' % (name, reported, performed))
    else:
        ctx.require(False, 'reports-iterations', '%s %s: reported %r, performed %d' % (name, what, reported, performed))


def choose_tolerance(rng, deltas, floor):
    """Tolerance separating the history at some iteration, away from rounding."""
    cand = []
    for m in range(1, len(deltas) + 1):
        before, now = deltas[:m - 1], deltas[m - 1]
        low = max(now, floor)
        high = min(before) if before else low * 1e3
        if high > 3 * low and high > 10 * floor:
            cand.append((m, float(np.sqrt(low * high))))
    return cand


def run_history(ctx, name, fit, cost_of, c0, scale, prefix='', maxm=14):
    """fit(limit, tol) -> (factors, model, warnings)"""
    rng = ctx.rng
    hist = []
    for m in range(1, maxm + 1):
        F, model, rec = fit(m, 0)
        hist.append((cost_of(F, model), F))
        judge_count(ctx, name, int(model.n_iter_), m, 'tolerance 0, limit %d' % m)
    costs = [c0] + [h[0] for h in hist]
    deltas = [abs(b - a) for a, b in zip(costs[:-1], costs[1:])]
    floor = 1e-11 * scale
    cand = choose_tolerance(rng, deltas, floor)
    if not cand:
        raise Skip()
    picks = [cand[rng.randint(len(cand))], cand[-1]]
    for N, tol in picks:
        for lim in sorted(set([max(1, N - 1), N, N + 1, N + 40])):
            F, model, rec = fit(lim, tol)
            performed = min(N, lim)
            want = hist[performed - 1][1]
            err = max(float(np.abs(np.asarray(F[a], float) - np.asarray(want[a], float)).max()) if np.size(F[a]) else 0.0
                      for a in F if F[a] is not None)
            size = max(1.0, max(float(np.abs(want[a]).max()) if np.size(want[a]) else 0 for a in want if want[a] is not None))
            ctx.require(err <= 1e-8 * size, prefix + 'stops-at-first-small-change',
                        '%s: tolerance %.3g, limit %d should stop after %d iterations (changes %r); result differs by %.3g' % (
                            name, tol, lim, performed, deltas, err))
            judge_count(ctx, name, int(model.n_iter_), performed, 'tolerance %.3g, limit %d' % (tol, lim))
            ctx.require(int(model.n_iter_) <= lim, 'limit-respected')
            warned = limit_warned(rec)
            ctx.require(warned == (performed == lim), 'warning-iff-limit-reached',
                        '%s: limit %d, %d iterations, warned %r' % (name, lim, performed, warned))
            ctx.require(abs(float(model.cost_) - costs[performed]) <= 1e-9 * scale, 'cost-of-last-iteration',
                        '%s: reported %r, history %r' % (name, model.cost_, costs[performed]))
            ctx.seen(name, N, np.sign(lim - N))
    # tolerances that no change comes near
    large = next((i for i, d in enumerate(deltas) if d <= 100 * floor), len(deltas))
    if large:
        lim = int(rng.randint(1, large + 1))
        tol = min(deltas[:lim]) * 10.0 ** -rng.uniform(1, 30)
        F, model, rec = fit(lim, tol)
        judge_count(ctx, name, int(model.n_iter_), lim, 'tolerance %.3g, limit %d' % (tol, lim))
        ctx.require(limit_warned(rec), 'warning-iff-limit-reached', '%s: no warning with tolerance %r although all %d iterations were performed' % (name, tol, lim))
    ctx.note(model=name, cost_history=costs, chosen=[list(p) for p in picks])


def factor_model(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, kinds=gen.NICE + ('dup', 'lowrank', 'grid', 'outlier'), nmax=18)
        if rng.rand() < 0.3:
            # the cost may then rise between iterations
            o.update(jobs.solver_options(rng))
        start = spec.start(rng, X, k, o)
        c0 = spec.objective(X, spec.start_factors(start, o), o)
        seed = rng.randint(10 ** 6)

        def fit(lim, tol):
            model = spec.make(k, o, init='custom', random_state=seed, max_iterations=lim, tolerance=tol)
            F, rec = M.recorded_fit(spec, model, X, **start)
            if name == 'CROM':
                F = dict(W=F['W'], D=F['D'])
            return {a: b for a, b in F.items() if a != 'lags'}, model, rec

        scale = spec.cost_scale(X, o) + c0
        run_history(ctx, name, fit, lambda F, m: float(m.cost_), c0, scale)
    return run


def fem_model(which):
    def run(ctx):
        rng = ctx.rng
        seed = rng.randint(10 ** 6)
        if which == 'kmeans':
            X, k, o, kind = fem.kmeans_problem(rng, nmax=20)
            if k == 1:
                raise Skip()
            G0, T0 = gen.rows(rng, len(X), k), X[rng.randint(len(X), size=k)] + rng.randn(k, X.shape[1])
            c0 = float((G0 * fem.kmeans_distances(X, T0)).sum())

            def fit(lim, tol):
                model = repo.fembv_kmeans.FEMBVKMeans(k, init='custom', random_state=seed, max_iterations=lim,
                                                      tolerance=tol, **o)
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter('always')
                    G = np.array(model.fit_transform(X, weights=G0, parameters=T0))
                return dict(G=G, T=np.array(model.Theta)), model, rec
        else:
            X, u, k, mem, o, kind = fem.varx_problem(rng, nmax=20)
            if k == 1:
                raise Skip()
            mems = fem.memories(mem, k)
            n, f = X.shape
            L = max(mems)
            G0 = gen.rows(rng, n - L, k)
            par = dict(mu=rng.randn(k, f), A=0.3 * rng.randn(k, max(L, 1), f, f) if L else None,
                       B0=rng.randn(k, f, u.shape[1]) if u is not None else None)
            c0 = float((G0 * fem.varx_distances(X, u, mems, par['mu'], par['A'], par['B0'])).sum())
            kw = {} if u is None else dict(external_factors=u)

            def fit(lim, tol):
                model = repo.fembv_varx.FEMBVVARX(k, memory=mem, init='custom', random_state=seed, max_iterations=lim,
                                                  tolerance=tol, **o)
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter('always')
                    G = np.array(model.fit_transform(X, weights=G0, parameters=par, **kw))
                return dict(G=G, mu=np.array(model.mu)), model, rec
        scale = 1e3 * (gen.spd_scale(X) + c0)    # solver accuracy
        run_history(ctx, 'FEM-' + which, fit, lambda F, m: float(m.cost_), c0, scale, prefix='fembv-', maxm=6)
    return run


FAMILIES = [Family(nm, factor_model(nm), q) for nm, q in (('AA', 90), ('KAA', 40), ('GPNH', 90), ('CROM', 50), ('MTD', 90))]
FAMILIES += [Family('fem_kmeans', fem_model('kmeans'), 50), Family('fem_varx', fem_model('varx'), 40)]
