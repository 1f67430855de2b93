"""One interface to all models for monitors that treat them alike.

A job is a model class with options, data and starting guesses.  ``run`` fits
a model object and returns the returned and fitted values, ``use`` calls
transform, predict and inverse_transform on other data."""
import numpy as np
from vlib import repo, gen, models as M, fem

NAMES = ('AA', 'KAA', 'GPNH', 'CROM', 'MTD', 'FKM', 'FVX', 'PW', 'KMC')
FACTOR = ('AA', 'KAA', 'GPNH', 'CROM', 'MTD')
NICE = ('gauss', 'clusters', 'ar', 'offset', 'simplex')


def ident(a):
    return a


class Job(object):
    def __init__(self, name, k, options, args, others, features, init=None):
        self.name, self.k, self.options = name, k, options
        self.args = args            # keyword arguments of fit_transform ('data' is positional)
        self.others = others        # list of further inputs for transform/predict, same structure
        self.features = features
        self.init = init

    @property
    def seeded(self):
        return True

    def make(self, random_state, **over):
        o = dict(self.options)
        o.update(over)
        n = self.name
        if n in FACTOR:
            return M.SPECS[n].make(self.k, o, init=self.init, random_state=random_state)
        if n == 'FKM':
            return repo.fembv_kmeans.FEMBVKMeans(self.k, init=self.init or 'random', random_state=random_state, **o)
        if n == 'FVX':
            return repo.fembv_varx.FEMBVVARX(self.k, init=self.init or 'random', random_state=random_state, **o)
        if n == 'PW':
            return repo.pwvarx.ClusterPWVARX(self.k, random_state=random_state, **o)
        if n == 'KMC':
            return repo.crom.KMeansMarkovCROM(self.k, random_state=random_state, **o)
        raise ValueError(n)

    def run(self, model, conv=ident, args=None):
        a = convert(args or self.args, conv)
        data = a.pop('data')
        if self.name == 'KMC':
            model.fit(data, **a)
            return self.state(model)
        out = model.fit_transform(data, **a)
        r = self.state(model)
        r['returned'] = np.array(out)
        return r

    def state(self, model):
        n = self.name
        names = dict(
            AA=('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
            KAA=('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
            GPNH=('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
            CROM=('dictionary_', 'cost_', 'n_iter_', 'n_components_', 'order_weights', 'transition_matrices', 'lags'),
            MTD=('dictionary_', 'cost_', 'n_iter_', 'n_components_', 'order_weights', 'transition_matrices', 'lags'),
            FKM=('Theta', 'cost_', 'n_iter_', 'n_components_'),
            FVX=('mu', 'A', 'B0', 'cost_', 'n_iter_', 'n_components_'),
            PW=('mu', 'A', 'B', 'Sigma_u', 'residuals'),
            KMC=('cluster_centers_', 'labels_', 'inertia_', 'n_iter_', 'transition_matrix_'))[n]
        d = {}
        for a in names:
            v = getattr(model, a)
            if isinstance(v, np.ndarray):
                v = v.copy()
            d[a] = v
        if n == 'FVX' and d['A'] is not None:
            for i, m in enumerate(fem.memories(self.options.get('memory'), self.k)):
                d['A'][i, m:] = 0
        return d

    def use(self, model, conv=ident, which=None, horizon=2):
        """Transform and forecast the other data; returns the results."""
        out = {}
        for i, o in enumerate(self.others):
            if which is not None and i != which:
                continue
            a = convert(o, conv)
            data = a.pop('data')
            out['transform%d' % i] = np.array(model.transform(data, **a))
            if self.name in ('CROM', 'MTD'):
                out['predict%d' % i] = np.array(model.predict(data, horizon=horizon))
            if self.name == 'KMC':
                out['predict%d' % i] = np.array(model.predict(data, horizon=horizon))
        return out

    def inverse(self, model, W):
        return np.array(model.inverse_transform(W))


def convert(args, conv):
    out = {}
    for k, v in args.items():
        if isinstance(v, np.ndarray):
            out[k] = conv(v)
        elif isinstance(v, dict):
            out[k] = convert(v, conv)
        else:
            out[k] = v
    return out


def solver_options(rng):
    """Line search settings other than the defaults (the cost may then rise)."""
    o = dict(line_search_memory=int(rng.randint(1, 6)), gamma=float(gen.pick(rng, [1e-4, 1e-2, 1e-6])),
             alpha_min=float(gen.pick(rng, [1e-3, 1e-6])), alpha_max=float(gen.pick(rng, [1e3, 1e5])),
             sigma_one=float(gen.pick(rng, [0.1, 0.2])), sigma_two=float(gen.pick(rng, [0.9, 0.5])),
             require_monotonic_cost_decrease=False)
    return {q: v for q, v in o.items() if rng.rand() < 0.7 or q == 'require_monotonic_cost_decrease'}


def build(rng, name, kinds=NICE, limit=None, init=None, generic=False, nmax=20):
    """Random job.  init: None (random choice), or a method."""
    lim = limit if limit is not None else int(gen.pick(rng, [1, 2, 5, 20, 100]))
    if name in FACTOR:
        spec = M.SPECS[name]
        X, k, o, kind = M.problem(rng, spec, kinds=kinds, nmax=nmax)
        if generic:
            k = max(2, k)
        o['max_iterations'] = lim
        if rng.rand() < 0.5:
            o['tolerance'] = 0
        init = init or gen.pick(rng, ['random', 'furthest_sum', 'custom'])
        args = dict(data=spec.observed(X))
        if init == 'custom':
            args.update(spec.start(rng, X, k, o))
        n, f = X.shape
        if init == 'furthest_sum' and rng.rand() < 0.4:
            args['start_index'] = int(rng.randint(n))
            if rng.rand() < 0.7:
                args['n_extra_steps'] = int(gen.pick(rng, [0, 1, 2, 3, 7, 30]))
            if rng.rand() < 0.5 and n > k:
                rest = [int(i) for i in rng.permutation(n) if i != args['start_index']]
                args['exclude'] = rest[:rng.randint(1, n - k + 1)]
        if rng.rand() < 0.12:
            o.update(solver_options(rng))
        others = []
        for _ in range(2):
            n2 = n if spec.archetypal else rng.randint(spec.least(rng, o), max(20, spec.min_samples(o) + 5))
            if not spec.archetypal and rng.rand() < 0.3:
                n2 = n
            others.append(dict(data=spec.observed(gen.data(rng, n2, f, gen.pick(rng, kinds)))))
        return Job(name, k, o, args, others, f, init)
    if name == 'FKM':
        X, k, o, kind = fem.kmeans_problem(rng, nmax=nmax, kinds=('gauss', 'clusters', 'ar', 'offset'))
        if generic:
            k = max(2, k)
        o['max_iterations'] = min(lim, 10)
        init = init or gen.pick(rng, ['random', 'custom'])
        args = dict(data=X)
        if init == 'custom':
            args.update(weights=gen.rows(rng, len(X), k), parameters=X[rng.randint(len(X), size=k)] + rng.randn(k, X.shape[1]))
        others = [dict(data=gen.data(rng, len(X) if rng.rand() < 0.3 else rng.randint(max(3, k), 20 + k), X.shape[1], 'gauss')) for _ in range(2)]
        return Job(name, k, o, args, others, X.shape[1], init)
    if name == 'FVX':
        X, u, k, mem, o, kind = fem.varx_problem(rng, nmax=nmax, kinds=('gauss', 'ar', 'clusters'))
        if generic and k == 1:
            k, mem = 2, 1
        o['max_iterations'] = min(lim, 10)
        o['memory'] = mem
        L = max(fem.memories(mem, k))
        n, f = X.shape
        init = init or gen.pick(rng, ['random', 'custom'])
        args = dict(data=X)
        if u is not None:
            args['external_factors'] = u
        if init == 'custom':
            args['weights'] = gen.rows(rng, n - L, k)
            args['parameters'] = dict(mu=rng.randn(k, f), A=0.3 * rng.randn(k, L, f, f) if L else None,
                                      B0=rng.randn(k, f, u.shape[1]) if u is not None else None)
        others = []
        for _ in range(2):
            n2 = n if rng.rand() < 0.3 else rng.randint(L + 2, 24)
            d = dict(data=gen.data(rng, n2, f, 'gauss'))
            if u is not None:
                d['external_factors'] = rng.randn(n2, u.shape[1])
            others.append(d)
        return Job(name, k, o, args, others, f, init)
    if name == 'PW':
        f, p = rng.randint(1, 3), rng.randint(1, 3)
        e = rng.randint(0, 3)
        s = int(rng.randint(0, 3)) if e else 0
        n = rng.randint(30, 50)
        o = dict(p=int(p), s=s, include_trend=bool(rng.rand() < 0.6))
        X = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'ar', 'clusters']))
        args = dict(data=X)
        others = []
        if e:
            args['exog'] = rng.randn(n, e)
        for _ in range(2):
            n2 = n if rng.rand() < 0.3 else rng.randint(6, 20)
            d = dict(data=gen.data(rng, n2, f, 'gauss'))
            if e:
                d['exog'] = rng.randn(n2, e)
            others.append(d)
        return Job(name, int(rng.randint(2, 4)), o, args, others, f)
    if name == 'KMC':
        n, f, k = rng.randint(15, 40), rng.randint(1, 4), rng.randint(1, 4)
        if gen.wide(rng):
            n, k = rng.randint(100, 300), rng.randint(4, 12)
        X = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'ar']))
        args = dict(data=X)
        if rng.rand() < 0.4:
            args['sample_weight'] = rng.uniform(0.2, 2, size=n)
        others = [dict(data=gen.data(rng, rng.randint(2, 15), f, 'gauss')) for _ in range(2)]
        return Job(name, int(k), dict(n_init=1), args, others, f)
    raise ValueError(name)
