"""Uniform access to the factorisation models through their public interface."""
import warnings
import numpy as np
from vlib import repo, gen, oracles as O


class Spec(object):
    """name: AA, KAA, GPNH, CROM or MTD."""

    def __init__(self, name):
        self.name = name
        self.lagged = name in ('CROM', 'MTD')
        self.archetypal = name in ('AA', 'KAA')

    def make(self, k, opts=None, **kw):
        o = dict(opts or {})
        o.update(kw)
        cls = dict(AA=repo.aa.ArchetypalAnalysis, KAA=repo.aa.KernelAA,
                   GPNH=repo.gpnh.GPNHConvexCoding,
                   CROM=repo.crom_gpnh.GPNHConvexCodingCROM,
                   MTD=repo.mtd.MTDConvexCoding)[self.name]
        return cls(k, **o)

    def options(self, rng):
        o = {}
        if not self.archetypal:
            o['epsilon_states'] = gen.pick(rng, [0, 0, 1e-3, 0.1, 1.0, 10.0])
        if self.lagged:
            o['lags'] = gen.lags(rng)
        if self.name == 'MTD':
            o['epsilon_weights'] = gen.pick(rng, [0, 1e-3, 0.1, 1.0, 10.0])
        return o

    def min_samples(self, o):
        return (max(o.get('lags') or [1]) + 2) if self.lagged else 1

    def least(self, rng, o):
        """Fewest samples to transform: often fewer than the lags span."""
        return 1 if self.lagged and rng.rand() < 0.4 else self.min_samples(o)

    def observed(self, X):
        """What the model is given for data X."""
        return X.dot(X.T) if self.name == 'KAA' else X

    def start(self, rng, X, k, o, kind=None):
        """Admissible custom starting guess, as keyword arguments of fit."""
        n, f = X.shape
        s = dict(weights=gen.rows(rng, n, k))
        if self.archetypal:
            s['dictionary'] = gen.rows(rng, k, n)
        else:
            s['dictionary'] = X[rng.randint(n, size=k)] + (
                0.1 * rng.randn(k, f) * (np.abs(X).max() + 1e-12))
        if self.name == 'MTD':
            L = len(o.get('lags') or [1])
            s['order_weights'] = gen.rows(rng, 1, L)[0]
            s['transition_matrices'] = np.array([gen.columns(rng, k) for _ in range(L)])
        return s

    def fit(self, model, X, **kw):
        """Returns the factors of the fit, copied at return."""
        W = model.fit_transform(self.observed(X), **kw)
        return self.factors(model, W)

    def factors(self, model, W):
        d = dict(W=np.array(W), D=np.array(model.dictionary_))
        if self.lagged:
            d['w'] = np.array(model.order_weights)
            d['T'] = np.array(model.transition_matrices)
            d['lags'] = [int(l) for l in model.lags]
        return d

    def objective(self, X, F, o):
        if self.archetypal:
            return O.aa_objective(X, F['W'], F['D'])
        v = O.mse(X, F['W'], F['D']) + o.get('epsilon_states', 0) * O.pair_penalty(F['D'])
        if self.name == 'MTD':
            v += o.get('epsilon_weights', 0) * O.lag_penalty(F['W'], F['lags'], F['w'], F['T'])
        return v

    def start_factors(self, s, o):
        F = dict(W=np.asarray(s['weights'], float), D=np.asarray(s['dictionary'], float))
        if self.name == 'MTD':
            F.update(w=s['order_weights'], T=s['transition_matrices'],
                     lags=list(o.get('lags') or [1]))
        return F

    def cost_scale(self, X, o, F=None):
        """Magnitude of the terms whose difference is the cost."""
        e = float(np.sum(X * X))
        if self.archetypal:
            return e
        v = e / X.size
        if F is not None:
            v += float(np.sum(F['W'].dot(F['D']) ** 2)) / X.size
            v += o.get('epsilon_states', 0) * float(np.sum(F['D'] ** 2)) / F['D'].shape[1]
        v += o.get('epsilon_weights', 0)
        return v

    def defects(self, F):
        d = {'weights rows': O.simplex_defect(F['W'], 1)}
        if self.archetypal:
            d['dictionary rows'] = O.simplex_defect(F['D'], 1)
        if self.lagged:
            d['order weights'] = O.simplex_defect(F['w'], 0)
            d['transition columns'] = O.simplex_defect(F['T'], 1)
        return d

    def shapes_ok(self, F, n, f, k):
        ok = F['W'].shape == (n, k)
        ok = ok and F['D'].shape == ((k, n) if self.archetypal else (k, f))
        if self.lagged:
            L = len(F['lags'])
            ok = ok and F['w'].shape == (L,) and F['T'].shape == (L, k, k)
        return ok


SPECS = {n: Spec(n) for n in ('AA', 'KAA', 'GPNH', 'CROM', 'MTD')}


def problem(rng, spec, kinds=gen.ALL, nmax=24, fmax=5, kmax=5, kind=None, wide=gen.WIDE):
    """Random data, number of components and options for a model."""
    o = spec.options(rng)
    lo = max(3, spec.min_samples(o))
    short = spec.lagged and rng.rand() < 0.2
    if short:           # as long as the largest lag, shorter, or one sample longer
        L = max(o['lags'])
        n = int(np.clip(L + rng.randint(-1, 2), 1, 30))
        f = rng.randint(1, fmax + 1)
        kind = kind or gen.pick(rng, kinds)
        return gen.data(rng, n, f, kind), rng.randint(1, min(kmax, n) + 1), o, kind
    if gen.wide(rng, wide):
        which = rng.randint(4)
        if which in (0, 3):
            nmax = 150
            lo = max(lo, 40)
        if which in (1, 3):
            kmax, nmax = 12, max(nmax, 30)
            lo = max(lo, 13)
        if which in (2, 3):
            fmax = 20
    n = rng.randint(lo, max(nmax, lo + 1) + 1)
    f = rng.randint(1, fmax + 1)
    k = rng.randint(1, min(kmax, n) + 1)
    kind = kind or gen.pick(rng, kinds)
    X = gen.data(rng, n, f, kind)
    return X, k, o, kind


def recorded_fit(spec, model, X, **kw):
    """Fit, also returning the warnings issued."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        F = spec.fit(model, X, **kw)
    return F, [w for w in rec]
