"""C08: transform keeps the fitted model; inverse transform is linear."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M
from vlib.recorders import RecordingState, snapshot, differing
from vlib.core import Family
from checks.c07 import weight_gradient

ID = 'C08'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('sequences of transforms, inverse transforms and forecasts of new data on models fitted from every kind of '
        'initialisation; fitted attributes are compared bitwise with their values at the end of the fit; the objective of the '
        'returned weights is compared with that of the recorded starting guess and with a duality bound on the best; distinct = '
        '(model, init, k, samples fitted, samples transformed)')
REQUIRED = {'fitted-model-unchanged': 1, 'transformed-weights-feasible': 1, 'not-above-starting-guess': 1,
            'near-best-weights': 1, 'inverse-transform-is-product': 1}
TECHNIQUE = 'state-comparison monitor over call sequences with a convex-optimality certificate'
LEVEL_NOTE = 'Each observed call sequence is decided exactly (bitwise) or by a duality gap; sampled models and sequences.'


def fitted_state(spec, model):
    s = dict(dictionary_=snapshot(model.dictionary_), cost_=model.cost_, n_iter_=model.n_iter_,
             n_components_=model.n_components_)
    if spec.lagged:
        s.update(order_weights=snapshot(model.order_weights),
                 transition_matrices=snapshot(model.transition_matrices), lags=snapshot(model.lags))
    return s


def objective(spec, X, W, s, o):
    F = dict(W=W, D=s['dictionary_'])
    if spec.lagged:
        F.update(w=s['order_weights'], T=s['transition_matrices'], lags=[int(l) for l in s['lags']])
    return spec.objective(X, F, o), F


def gap_of(spec, X, F, o):
    if spec.archetypal:
        K = X.dot(X.T)
        C = F['D']
        return O.simplex_gap(-2 * K.dot(C.T) + 2 * F['W'].dot(C.dot(K).dot(C.T)), F['W'])
    return O.simplex_gap(weight_gradient(spec, X, F, o), F['W'])


def sequence(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec)
        n, f = X.shape
        init = gen.pick(rng, [None, 'random', 'furthest_sum', 'custom'])
        if init == 'custom':
            start = spec.start(rng, X, k, o)
        else:
            start = {}
        rs = RecordingState(rng.randint(10 ** 6))
        model = spec.make(k, o, init=init, random_state=rs, max_iterations=int(gen.pick(rng, [1, 5, 50, 200])))
        spec.fit(model, X, **start)
        fitted = fitted_state(spec, model)
        D_object = model.dictionary_
        calls = []
        for step in range(rng.randint(1, 4)):
            n2 = n if spec.archetypal else rng.randint(spec.least(rng, o), 26)
            kind2 = gen.pick(rng, gen.ALL)
            X2 = gen.data(rng, n2, f, kind2) if rng.rand() < 0.8 else X
            n2 = len(X2)
            rs.uniforms = []
            what = gen.pick(rng, ['transform', 'transform', 'predict']) if spec.lagged else 'transform'
            calls.append(what)
            if what == 'predict':
                model.predict(X2, horizon=int(rng.randint(0, 4)))
            else:
                W = np.array(model.transform(spec.observed(X2)))
                ok = W.shape == (n2, k) and O.simplex_defect(W, 1) <= 1e-9
                ctx.require(ok, 'transformed-weights-feasible', '%s: shape %r, defect %r' % (
                    name, W.shape, O.simplex_defect(W, 1) if W.ndim == 2 else None))
                if W.shape != (n2, k):
                    return
                v, F = objective(spec, X2, W, fitted, o)
                scale = spec.cost_scale(X2, o, F)
                W0 = rs.last_stochastic((n2, k))
                if W0 is not None:
                    v0, _ = objective(spec, X2, W0, fitted, o)
                    ctx.require(v <= v0 + 1e-9 * max(scale, v0), 'not-above-starting-guess',
                                '%s: starting guess %r, result %r' % (name, v0, v))
            now = fitted_state(spec, model)
            diff = differing(fitted, now)
            ctx.require(not diff and np.array_equal(D_object, fitted['dictionary_']), 'fitted-model-unchanged',
                        '%s after %r of %d samples (fitted on %d, init %r): changed %r' % (name, calls, n2, n, init, diff))
            # inverse transform, of feasible and of arbitrary weights
            for V in (gen.rows(rng, rng.randint(1, 7), k), 3 * rng.randn(rng.randint(1, 5), k)):
                ctx.close(model.inverse_transform(V), V.dot(fitted['dictionary_']), 'inverse-transform-is-product',
                          rtol=1e-12, atol=1e-12 * (1 + np.abs(fitted['dictionary_']).max()), msg=name)
            ctx.seen(name, init, k, n, n2, what)
        ctx.note(model=name, kind=kind, init=init, k=k, options=o, calls=calls)
    return run


def quality(name):
    """transform with a large iteration budget reaches the best weights"""
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, kinds=('gauss', 'clusters', 'simplex', 'ar', 'grid'), nmax=16, kmax=4)
        n, f = X.shape
        if 'epsilon_states' in o:
            o['epsilon_states'] = min(o['epsilon_states'], 1.0)
        model = spec.make(k, o, init=gen.pick(rng, ['random', 'furthest_sum']), random_state=rng.randint(10 ** 6),
                          max_iterations=60, tolerance=0)
        spec.fit(model, X)
        s = fitted_state(spec, model)
        n2 = n if spec.archetypal else rng.randint(spec.least(rng, o), 18)
        X2 = gen.data(rng, n2, f, 'gauss') + X.mean(axis=0)
        for limit in (500, 3000, 15000):
            model.max_iterations = limit
            W = np.array(model.transform(spec.observed(X2)))
            v, F = objective(spec, X2, W, s, o)
            gap = gap_of(spec, X2, F, o)
            scale = spec.cost_scale(X2, o, F)
            if gap <= 1e-3 * scale:
                break
        ctx.require(gap <= 1e-3 * scale, 'near-best-weights',
                    '%s: objective %r may be lowered by up to %r (scale %r) after %d iterations' % (name, v, gap, scale, limit))
        ctx.seen('quality', name, n, n2, k, tuple(sorted(o.items(), key=str)) and str(o))
        ctx.note(model=name, k=k, options=o, objective=v, gap=gap)
    return run


FAMILIES = [Family(nm, sequence(nm), q) for nm, q in (('AA', 150), ('KAA', 80), ('GPNH', 150), ('CROM', 120), ('MTD', 150))]
FAMILIES += [Family('quality_' + nm, quality(nm), q) for nm, q in (('AA', 50), ('GPNH', 50), ('MTD', 50), ('CROM', 30))]
