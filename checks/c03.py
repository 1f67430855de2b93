"""C03: feasibility of factors."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M
from vlib.core import Family

ID = 'C03'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('each case fits one of the five factorisation models to one data set (16 kinds incl. duplicated, constant, zero, '
        'badly scaled) with random penalties, lags, initialisation, seed and iteration limits 1,2,3,.. up to 300, then '
        'transforms other data; every factor returned is judged; distinct = (model, initialisation, data kind, k, limit class)')
REQUIRED = {'feasible': 1, 'shapes': 1, 'feasible-after-transform': 1}
TECHNIQUE = 'invariant monitor on all factors at every observable stopping point (truncated fits)'
LEVEL_NOTE = 'Constraints are decided exactly up to 1e-8 at each observed stopping point of sampled fits.'
TOL = 1e-8


def judge(ctx, spec, F, n, f, k, kind, where):
    if not ctx.require(spec.shapes_ok(F, n, f, k), 'shapes', '%s %s: %r' % (
            spec.name, where, {a: np.shape(b) for a, b in F.items()})):
        return
    for what, d in spec.defects(F).items():
        ctx.require(d <= TOL, kind, '%s %s: %s violate the simplex constraint by %.3g' % (spec.name, where, what, d),
                    **{a: b for a, b in F.items()})


def make(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec)
        if rng.rand() < 0.15:
            X = X * 10.0 ** rng.randint(-6, 7)
            kind += '*scaled'
        n, f = X.shape
        init = gen.pick(rng, ['random', 'furthest_sum', 'custom', None])
        seed = rng.randint(10 ** 6)
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        limits = gen.pick(rng, [[1], [2, 3], [1, 4, 9], [25], [300]])
        o = dict(o, line_search_memory=int(gen.pick(rng, [1, 1, 1, 3])))
        if o['line_search_memory'] > 1:
            o['require_monotonic_cost_decrease'] = False
        if rng.rand() < 0.3:
            o['tolerance'] = float(gen.pick(rng, [0, 1e-12, 1e-2]))
        for m in limits:
            model = spec.make(k, o, init=init, random_state=seed, max_iterations=m)
            F = spec.fit(model, X, **{a: np.array(b) for a, b in start.items()})
            judge(ctx, spec, F, n, f, k, 'feasible', 'fit (init %r, %s, limit %d)' % (init, kind, m))
            ctx.seen(name, init, kind, k, m, n > k)
        if name in ('AA', 'KAA'):
            Y = X[rng.permutation(n)]
        else:
            Y = gen.data(rng, max(spec.least(rng, o), rng.randint(2, 12)), f, gen.pick(rng, gen.ALL))
        W = model.transform(spec.observed(Y))
        F = spec.factors(model, W)
        judge(ctx, spec, F, len(Y), f, k, 'feasible-after-transform', 'transform (init %r, %s)' % (init, kind))
        ctx.note(model=name, kind=kind, n=n, f=f, k=k, init=init, limits=limits, options=o,
                 smallest_weight=float(W.min()))
    return run


FAMILIES = [Family(nm, make(nm), q) for nm, q in (('AA', 250), ('KAA', 120), ('GPNH', 250), ('CROM', 250), ('MTD', 300))]
