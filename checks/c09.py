"""C09: forecasts equal an independent recursion."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M
from vlib.core import Family

ID = 'C09'
RULE = ('forecasts of fitted lag models (sorted and unsorted lag sets with gaps, horizons 0 to 9, series shorter and longer than '
        'the largest lag) recomputed sample by sample with an explicit history list; distinct = (model, lags, k, horizon, n)')
REQUIRED = {'forecast-is-recursion': 1, 'missing-rows-exact': 1, 'horizon-zero-is-reconstruction': 1, 'causal': 1}
TECHNIQUE = 'reference-model monitor (independent recursion) over recorded forecasts'
LEVEL_NOTE = 'Every forecast entry of the observed calls is decided; sampled models and series.'


def reference(W, D, lags, w, T, h):
    n, k = W.shape
    L = max(lags)
    out = np.full((n, D.shape[1]), np.nan)
    for t in range(L - 1, n):
        hist = [W[s] for s in range(t + 1)]          # the whole past of the sample
        for _ in range(h):
            nxt = np.zeros(k)
            for i, lag in enumerate(lags):
                nxt = nxt + w[i] * T[i].dot(hist[-lag])
            hist.append(nxt)
        out[t] = hist[-1].dot(D)
    return out


def model_family(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        o = spec.options(rng)
        if rng.rand() < 0.3:
            o['lags'] = gen.pick(rng, [[3, 1], [4], [2, 5], [5, 1, 3], [1, 2, 3], [6, 2], [2]])
        if rng.rand() < 0.1:
            o.pop('lags')
        lags = o.get('lags') or [1]
        L = max(lags)
        n, f, k = rng.randint(L + 2, 30), rng.randint(1, 5), rng.randint(1, 5)
        k = min(k, n)
        X = gen.data(rng, n, f, gen.pick(rng, gen.ALL))
        init = gen.pick(rng, ['random', 'furthest_sum', 'custom'])
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        rs = np.random.RandomState(rng.randint(10 ** 6))
        model = spec.make(k, o, init=init, random_state=rs, max_iterations=int(gen.pick(rng, [1, 20, 100])))
        F = spec.fit(model, X, **start)
        if rng.rand() < 0.3:
            model.transform(gen.data(rng, L + 5, f, 'gauss'))
        hs = sorted(set([0, 1] + [int(h) for h in rng.randint(1, 10, size=2)] + ([int(rng.randint(20, 130))] if rng.rand() < 0.2 else [])))
        lo = L + 1 if name == 'MTD' else 1           # the MTD objective needs a sample after the largest lag
        n2 = rng.randint(lo, L + 14)
        X2 = gen.data(rng, n2, f, gen.pick(rng, gen.NICE + gen.HARD))
        scale = 1 + float(np.abs(F['D']).max())
        for h in hs:
            state = rs.get_state()
            P = np.array(model.predict(X2, horizon=h), dtype=float)
            rs.set_state(state)
            W = np.array(model.transform(X2))
            want = W.dot(F['D']) if h == 0 else reference(W, F['D'], lags, F['w'], F['T'], h)
            if h == 0:
                ctx.close(P, want, 'horizon-zero-is-reconstruction', atol=1e-10 * scale, msg=name)
            else:
                ok = P.shape == want.shape
                ctx.require(ok and np.array_equal(np.isnan(P), np.isnan(want)), 'missing-rows-exact',
                            '%s, lags %r, horizon %d, %d samples: rows with missing values %r' % (
                                name, lags, h, n2, np.where(np.isnan(P).any(axis=1))[0].tolist() if P.ndim == 2 else None))
                ctx.close(P, want, 'forecast-is-recursion', atol=1e-9 * scale,
                          msg='%s, lags %r, horizon %d' % (name, lags, h))
                ctx.count('forecast rows', max(0, n2 - L + 1))
            ctx.seen(name, tuple(lags), k, h, n2)
        # default horizon
        rs.set_state(state)
        P0 = model.predict(X2)
        rs.set_state(state)
        ctx.close(P0, np.array(model.transform(X2)).dot(F['D']), 'horizon-zero-is-reconstruction', atol=1e-10 * scale,
                  msg='default horizon')
        ctx.note(model=name, lags=lags, k=k, horizons=hs, samples=n2)
    return run


def causality(name):
    """data coded exactly by the dictionary: later samples do not matter"""
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        lags = gen.lags(rng)
        L = max(lags)
        k = rng.randint(2, 4)
        f = k + rng.randint(0, 3)
        o = dict(lags=lags)
        D = np.eye(k, f) * 3 + 0.3 * rng.randn(k, f)
        n = rng.randint(L + 4, 20)
        G = gen.rows(rng, n, k)
        s = dict(weights=G, dictionary=D)
        if name == 'MTD':
            s['order_weights'] = gen.rows(rng, 1, len(lags))[0]
            s['transition_matrices'] = np.array([gen.columns(rng, k) for _ in lags])
        model = spec.make(k, o, init='custom', random_state=1, max_iterations=3, tolerance=0)
        F = spec.fit(model, G.dot(D), **s)
        model.max_iterations = 1500
        model.tolerance = 0
        cut = rng.randint(L + 1, n)
        A = G.dot(F['D'])
        B = A.copy()
        G2 = gen.rows(rng, n - cut, k)
        B[cut:] = G2.dot(F['D'])
        h = int(rng.randint(1, 6))
        Wa, Wb = np.array(model.transform(A)), np.array(model.transform(B))
        if max(np.abs(Wa - G).max(), np.abs(Wb[:cut] - G[:cut]).max()) > 1e-4:
            ctx.count('weights not recovered')
            return
        Pa, Pb = np.array(model.predict(A, horizon=h)), np.array(model.predict(B, horizon=h))
        ctx.close(Pa[:cut], Pb[:cut], 'causal', atol=1e-2, msg='%s lags %r horizon %d cut %d' % (name, lags, h, cut))
        ctx.close(Pa, reference(G, F['D'], lags, F['w'], F['T'], h), 'forecast-of-known-weights', atol=1e-2, msg=name)
        ctx.seen('causal', name, tuple(lags), k, h, cut)
        ctx.note(model=name, lags=lags, horizon=h, cut=cut)
    return run


FAMILIES = [Family(nm, model_family(nm), q) for nm, q in (('CROM', 160), ('MTD', 160))]
FAMILIES += [Family('causality_' + nm, causality(nm), 12) for nm in ('CROM', 'MTD')]
