"""C29: the example programs generate what they say, keep the best fit and report it."""
import contextlib
import importlib.util
import io
import os
import re
import sys
import types
import numpy as np
from vlib import repo, gen
from vlib.core import Family, Skip

ID = 'C29'
RULE = ('the data generators of all example scripts compared with the process they describe (parameters returned, weights, '
        'phases, regions), their best-of-several fit helpers and main programs run with recorders on every fit performed and '
        'on everything plotted (the plotting library is replaced by a recorder) and printed; distinct = (script, options)')
REQUIRED = {'series-follows-returned-parameters': 1, 'weights-are-indicators': 1, 'switches-as-requested': 1, 'noise-as-requested': 1,
            'clusters-as-defined': 1, 'piecewise-law': 1, 'best-fit-returned': 1, 'options-reach-the-fits': 1,
            'main-completes': 1, 'printed-summary': 1, 'plots-show-results': 1, 'seed-reproduces': 1}
TECHNIQUE = 'recorder on fits, plots and printed output of the example programs with reference processes'
LEVEL_NOTE = 'Every observed series, fit selection and report is decided; sampled options and seeds.'
DIRECTORY = os.path.join(repo.REPO, 'examples')


# ------------------------------------------------------ loading with stubs --
class Recorder(object):
    """Stands for figures and axes; keeps what is plotted."""

    def __init__(self, log, name='', attr=''):
        self.__dict__.update(_log=log, _name=name, _attr=attr)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Recorder(self._log, self._name, name)

    def __call__(self, *args, **kw):
        if self._attr in ('plot', 'scatter'):
            self._log.append((self._name, [np.array(a, copy=True) if not isinstance(a, str) else a for a in args], kw))
        return Recorder(self._log)


class Pyplot(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'matplotlib.pyplot')
        self.log = []
        self.figures = 0

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        self.figures += 1
        ax = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = Recorder(self.log, (self.figures, i, j))
        fig = Recorder(self.log)
        if squeeze:
            ax = ax[0, 0] if ax.size == 1 else ax.squeeze()
        return fig, ax

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **kw: Recorder(self.log)


class Poisoned(object):
    """numpy whose uninitialised arrays hold a value nobody writes"""
    POISON = -7.0625e77

    def __getattr__(self, name):
        return getattr(np, name)

    def empty(self, *args, **kw):
        a = np.empty(*args, **kw)
        if a.dtype.kind == 'f':
            a[...] = self.POISON
        return a

    def empty_like(self, *args, **kw):
        a = np.empty_like(*args, **kw)
        if a.dtype.kind == 'f':
            a[...] = self.POISON
        return a


def load(path):
    """Import an example script with the plotting library replaced."""
    plt = Pyplot()
    saved = {k: v for k, v in sys.modules.items() if k == 'matplotlib' or k.startswith('matplotlib.')}
    for k in saved:
        del sys.modules[k]
    top = types.ModuleType('matplotlib')
    top.pyplot = plt
    ticker = types.ModuleType('matplotlib.ticker')
    ticker.__getattr__ = lambda name: (lambda *a, **kw: Recorder(plt.log))
    top.ticker = ticker
    sys.modules.update({'matplotlib': top, 'matplotlib.pyplot': plt, 'matplotlib.ticker': ticker})
    old = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        full = os.path.join(DIRECTORY, path)
        spec = importlib.util.spec_from_loader('example_' + os.path.basename(path)[:-3], loader=None, origin=full)
        mod = importlib.util.module_from_spec(spec)
        mod.__file__ = full
        with open(full) as f:
            exec(compile(f.read(), full, 'exec'), mod.__dict__)
        if mod.__dict__.get('np') is np:
            mod.np = Poisoned()
    finally:
        sys.dont_write_bytecode = old
        for k in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.ticker'):
            sys.modules.pop(k, None)
        sys.modules.update(saved)
    return mod, plt


@contextlib.contextmanager
def recorded(cls):
    """Records every outermost fit_transform of a model class."""
    log = []
    original = cls.fit_transform

    def wrapped(self, data, *args, **kw):
        out = original(self, data, *args, **kw)
        log.append(dict(model=self, data=np.array(data), weights=np.array(out), cost=getattr(self, 'cost_', None), exog=kw.get('exog'),
                        state={a: (np.array(getattr(self, a)) if getattr(self, a, None) is not None else None)
                               for a in ('Theta', 'mu', 'A', 'B', 'B0') if hasattr(self, a)}))
        return out
    cls.fit_transform = wrapped
    try:
        yield log
    finally:
        cls.fit_transform = original


def run_main(mod, argv):
    old, out = sys.argv, io.StringIO()
    sys.argv = ['example'] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                mod.main()
            except SystemExit as e:
                raise RuntimeError('program exited with %r: %s' % (e.code, out.getvalue()[-300:]))
    finally:
        sys.argv = old
    return out.getvalue()


# -------------------------------------------------------------- generators --
def follow(X, order, mean):
    """largest deviation of the series from its conditional means, relative to the terms"""
    worst = 0.0
    for t in range(order, len(X)):
        m, scale = mean(t)
        worst = max(worst, float(np.abs(X[t] - m).max()) / (1 + scale))
    return worst


def switching_data(ctx):
    """switching VAR process"""
    rng = ctx.rng
    mod, plt = load('fem-bv-varx/switching.py')
    f, k, sw, order = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(0, 6)), int(rng.randint(0, 4))
    n = int(rng.randint(max(order + 2, 8), 30))
    seed = int(rng.randint(10 ** 6))
    v = 1e-14
    before = np.random.get_state()[1].copy()
    kw = dict(n_features=f, n_samples=n, n_components=k, n_switches=sw, order=order)
    X, mu, A, G = mod.generate_data(noise_variance=v, random_state=seed, **kw)
    label = 'switching %r' % (kw,)
    ctx.require(np.array_equal(before, np.random.get_state()[1]), 'global-generator-untouched', label)
    ctx.require(X.shape == (n, f) and mu.shape == (k, f) and G.shape == (n, k)
                and (A is None if order == 0 else A.shape == (k, order, f, f)), 'shapes', label)
    if np.any(G == Poisoned.POISON):
        ctx.finding('switching-weights-uninitialised', 'entries of the weights are never set')
        G = np.where(G == Poisoned.POISON, 0.0, G)
    ctx.require(set(np.unique(G)) <= {0.0, 1.0} and np.all(G.sum(axis=1) == 1), 'weights-are-indicators', label, G=G)
    c = np.argmax(G, axis=1)
    length = n if sw == 0 else n // (sw + 1)
    if length > order:
        ctx.require(all(c[t] == (c[0] + t // length) % k for t in range(n)), 'switches-as-requested',
                    '%s: components %r, residence length %d' % (label, c.tolist(), length))

    def deviation(accumulated):
        """accumulated: the intercepts returned are those after adding the lag terms of every sample to them"""
        start, scale = mu.copy(), np.zeros(k)
        terms = [np.zeros(f) for _ in range(n)]
        worst = 0.0
        for t in range(order, n):
            for tau in range(1, order + 1):
                terms[t] = terms[t] + A[c[t], tau - 1].dot(X[t - tau])
                scale[c[t]] += np.abs(A[c[t], tau - 1]).max() * np.abs(X[t - tau]).sum()
            if accumulated:
                start[c[t]] -= terms[t]
        for t in range(order, n):
            if accumulated:
                start[c[t]] += terms[t]
                m = start[c[t]]
            else:
                m = start[c[t]] + terms[t]
            worst = max(worst, float(np.abs(X[t] - m).max()) / (1 + scale[c[t]]))
        return worst
    d = deviation(False)
    if d >= 2e-6 and order > 0 and deviation(True) < 2e-6:
        ctx.finding('switching-intercepts-accumulated', 'the lag terms of every sample are added to the intercepts in place')
    else:
        ctx.require(d < 2e-6, 'series-follows-returned-parameters', '%s: deviation %r' % (label, d))
    again = mod.generate_data(noise_variance=v, random_state=seed, **kw)
    ctx.require(np.array_equal(X, again[0]) and np.array_equal(mu, again[1])
                and np.array_equal(G, np.where(again[3] == Poisoned.POISON, 0.0, again[3])), 'seed-reproduces', label)
    big = float(gen.pick(rng, [0.01, 1.0, 25.0]))
    X, mu, A, G = mod.generate_data(n_features=2, n_samples=300, n_components=k, n_switches=sw, order=0, noise_variance=big,
                                    random_state=seed)
    G = np.where(G == Poisoned.POISON, 0.0, G)
    r = (X - G.dot(mu)).var() / big
    ctx.require(0.5 < r < 1.7, 'noise-as-requested', 'switching: variance %r times the requested one' % r)
    ctx.seen('switching', f, k, sw, order)
    ctx.note(script='switching', **kw)


def periodic_data(ctx):
    """VAR process with periodic coefficients"""
    rng = ctx.rng
    mod, plt = load('fem-bv-varx/periodic.py')
    f, order = int(rng.randint(1, 4)), int(rng.randint(0, 4))
    period = gen.pick(rng, [1, 2, 3, 7, 10, 6.5])
    n = int(rng.randint(order + 2, 30))
    seed = int(rng.randint(10 ** 6))
    kw = dict(n_features=f, n_samples=n, period=period, order=order)
    before = np.random.get_state()[1].copy()
    X, mu, A, ph = mod.generate_data(noise_variance=1e-14, random_state=seed, **kw)
    label = 'periodic %r' % (kw,)
    ctx.require(np.array_equal(before, np.random.get_state()[1]), 'global-generator-untouched', label)
    ctx.require(X.shape == (n, f) and mu.shape == (f,) and np.shape(ph) == (n,)
                and (A is None if order == 0 else A.shape == (order, f, f)), 'shapes', label)
    ctx.close(ph, np.cos(2 * np.pi * np.arange(n) / period), 'phases', rtol=0, atol=1e-9)

    def mean(t):
        m, scale = mu * ph[t], 0.0
        for tau in range(1, order + 1):
            m = m + ph[t] * A[tau - 1].dot(X[t - tau])
            scale += np.abs(A[tau - 1]).max() * np.abs(X[t - tau]).sum()
        return m, scale
    d = follow(X, order, mean)
    ctx.require(d < 2e-6, 'series-follows-returned-parameters', '%s: deviation %r' % (label, d))
    again = mod.generate_data(noise_variance=1e-14, random_state=seed, **kw)
    ctx.require(np.array_equal(X, again[0]) and np.array_equal(mu, again[1]), 'seed-reproduces', label)
    big = float(gen.pick(rng, [0.01, 1.0, 25.0]))
    X, mu, A, ph = mod.generate_data(n_features=2, n_samples=300, period=period, order=0, noise_variance=big, random_state=seed)
    r = (X - np.outer(ph, mu)).var() / big
    ctx.require(0.5 < r < 1.7, 'noise-as-requested', 'periodic: variance %r times the requested one' % r)
    ctx.seen('periodic', f, period, order)
    ctx.note(script='periodic', **kw)


def gaussian_data(ctx):
    """Gaussian clusters"""
    rng = ctx.rng
    mod, plt = load('fem-bv-kmeans/gaussian_clusters.py')
    k, f = mod.N_CLUSTERS, mod.N_FEATURES
    sw = int(rng.randint(0, 8))
    n = int(rng.randint(sw + 1, 60))
    seed = int(rng.randint(10 ** 6))
    before = np.random.get_state()[1].copy()
    X, G = mod.generate_data(n, n_switches=sw, random_state=seed)
    label = 'clusters n=%d switches=%d' % (n, sw)
    ctx.require(np.array_equal(before, np.random.get_state()[1]), 'global-generator-untouched', label)
    ctx.require(X.shape == (n, f) and G.shape == (n, k), 'shapes', label)
    ctx.require(set(np.unique(G)) <= {0.0, 1.0} and np.all(G.sum(axis=1) == 1), 'weights-are-indicators', label, G=G)
    c = np.argmax(G, axis=1)
    length = n // (sw + 1)
    ctx.require(all(c[t] == min(t // length, sw) % k for t in range(n)), 'switches-as-requested',
                '%s: %r' % (label, c.tolist()))
    again = mod.generate_data(n, n_switches=sw, random_state=seed)
    ctx.require(np.array_equal(X, again[0]) and np.array_equal(G, again[1]), 'seed-reproduces', label)
    X, G = mod.generate_data(600, n_switches=sw, random_state=seed)
    for j in range(k):
        Y = X[G[:, j] == 1]
        if len(Y) < 30:
            continue
        S = np.asarray(mod.CLUSTER_COVARIANCES[j])
        z = np.abs(Y.mean(axis=0) - mod.CLUSTER_MEANS[j]) / np.sqrt(np.diag(S) / len(Y))
        r = Y.var(axis=0) / np.diag(S)
        e = 8 * np.sqrt(2.0 / len(Y))
        ctx.require(z.max() < 6.5 and np.all(np.abs(r - 1) < e), 'clusters-as-defined',
                    'cluster %d: %r standard errors off the mean, variance ratio %r' % (j, z, r))
    ctx.seen('clusters', n, sw)
    ctx.note(script='gaussian_clusters', n=n, switches=sw)


def siso_data(ctx):
    """piecewise affine system"""
    rng = ctx.rng
    mod, plt = load('pwvarx/kmeans_siso.py')
    n = int(rng.randint(1, 60))
    seed = int(rng.randint(10 ** 6))
    before = np.random.get_state()[1].copy()
    y, u, e = mod.generate_data(n, random_state=seed)
    ctx.require(np.array_equal(before, np.random.get_state()[1]), 'global-generator-untouched')
    ctx.require(y.shape == u.shape == e.shape == (n,), 'shapes')
    ctx.require(np.all(np.abs(u) <= 5) and np.all(np.abs(e) <= 0.1) and 0 <= y[0] <= 1, 'piecewise-law', 'ranges')
    visited = set()
    for t in range(1, n):
        a, b = y[t - 1], u[t - 1]
        first = 4 * a - b + 10
        second = 5 * a + b - 6
        if abs(first) < 1e-9 or abs(second) < 1e-9:
            continue
        if first < 0:
            region, p = 1, (-0.4, 1, 1.5)
        elif second <= 0:
            region, p = 2, (0.5, -1, -0.5)
        else:
            region, p = 3, (-0.3, 0.5, -1.7)
        visited.add(region)
        ctx.require(abs(y[t] - (p[0] * a + p[1] * b + p[2] + e[t])) < 1e-9, 'piecewise-law', 'sample %d in region %d' % (t, region))
    for r in visited:
        ctx.count('samples in region %d' % r)
    again = mod.generate_data(n, random_state=seed)
    ctx.require(all(np.array_equal(p, q) for p, q in zip((y, u, e), again)), 'seed-reproduces')
    ctx.seen('siso', n)
    ctx.note(script='kmeans_siso', n=n, regions=sorted(visited))


# ------------------------------------------------------------- fit helpers --
def judge_best(ctx, label, log, fit, weights):
    costs = [r['cost'] for r in log]
    best = int(np.argmin(costs))
    ties = [i for i, c in enumerate(costs) if c == costs[best]]
    ctx.require(fit.cost_ == costs[best], 'best-fit-returned', '%s: cost %r of fits with costs %r' % (label, fit.cost_, costs))
    ok = False
    for i in ties:
        s = log[i]['state']
        ok = ok or (np.array_equal(weights, log[i]['weights'])
                    and all(np.array_equal(np.asarray(getattr(fit, a)), v) for a, v in s.items() if v is not None))
    ctx.require(ok, 'best-fit-returned', '%s: weights or parameters are not those of the fit with the least cost' % label)
    ctx.count('helpers whose best fit was not the last', best < len(costs) - 1)
    ctx.count('helpers whose best fit was not the first', best > 0)


def helper(script):
    def run(ctx):
        """best of several fits"""
        rng = ctx.rng
        kmeans = script.startswith('fem-bv-kmeans')
        mod, plt = load(script)
        cls = repo.fembv_kmeans.FEMBVKMeans if kmeans else repo.fembv_varx.FEMBVVARX
        n, k = int(rng.randint(12, 30)), int(rng.randint(2, 4))
        X = gen.data(rng, n, int(rng.randint(1, 3)), gen.pick(rng, ['clusters', 'gauss', 'ar']))
        X0 = X.copy()
        kw = dict(n_components=k, max_tv_norm=gen.pick(rng, [None, 2, 4.0]), n_init=int(rng.randint(1, 6)),
                  tolerance=float(gen.pick(rng, [1e-4, 1e-2])), max_iterations=int(gen.pick(rng, [1, 3, 30])),
                  random_state=int(rng.randint(10 ** 6)))
        if not kmeans:
            kw['memory'] = int(rng.randint(0, 3))
        fn = mod.fit_fembv_kmeans if kmeans else mod.fit_fembv_varx
        label = '%s %r' % (script, kw)
        with recorded(cls) as log:
            fit, W = fn(X, **kw)
        ctx.require(len(log) == kw['n_init'], 'options-reach-the-fits', '%s: %d fits' % (label, len(log)))
        judge_best(ctx, label, log, fit, W)
        for r in log:
            m = r['model']
            ok = (m.n_components == k and m.max_tv_norm == kw['max_tv_norm'] and m.tolerance == kw['tolerance']
                  and m.max_iterations == kw['max_iterations'] and np.array_equal(r['data'], X0))
            if not kmeans:
                ok = ok and list(np.atleast_1d(m.memory)) == [kw['memory']] * len(np.atleast_1d(m.memory))
            ctx.require(ok, 'options-reach-the-fits', label)
        ctx.require(np.array_equal(X, X0), 'data-unmodified', label)
        fit2, W2 = fn(X, **kw)
        ctx.require(fit2.cost_ == fit.cost_ and np.array_equal(W, W2), 'seed-reproduces', label)
        ctx.seen(script, k, kw['n_init'], kw['max_tv_norm'], kw['max_iterations'])
        ctx.note(script=script, costs=[r['cost'] for r in log], **kw)
    return run


# ------------------------------------------------------------ main programs --
def plotted(plt):
    return [np.asarray(a, dtype=float) for (_, args, kw) in plt.log for a in args if not isinstance(a, str) and np.size(a)]


def shows(plt, columns):
    P = [p for p in plotted(plt) if p.ndim == 1]
    return all(any(p.shape == c.shape and np.array_equal(p, c) for p in P) for c in columns)


def varx_main(script):
    def run(ctx):
        rng = ctx.rng
        a = ['--n-samples', int(rng.randint(24, 40)), '--n-init', int(rng.randint(1, 4)), '--plot-data', '--plot-weights',
             '--n-features', int(rng.randint(1, 3)), '--n-components', int(rng.randint(1, 4)), '--max-iterations', 5,
             '--memory', int(rng.randint(0, 3)), '--order', int(rng.randint(0, 3)), '--random-seed', int(rng.randint(100)),
             '--noise-variance', float(gen.pick(rng, [0.1, 1.0]))]
        if rng.rand() < 0.5:
            a += ['--max-tv-norm', float(gen.pick(rng, [2, 4.5]))]
        if 'switching' in script:
            a += ['--true-n-components', int(rng.randint(1, 4)), '--n-switches', int(rng.randint(1, 4))]
        else:
            a += ['--period', int(rng.randint(2, 9))]
        outs = []
        for _ in range(2):
            mod, plt = load(script)
            with recorded(repo.fembv_varx.FEMBVVARX) as log:
                run_main(mod, a)
            ctx.require(len(log) == a[3], 'options-reach-the-fits', '%s %r: %d fits' % (script, a, len(log)))
            outs.append((plt, log))
        plt, log = outs[0]
        ctx.require(True, 'main-completes')
        X = log[0]['data']
        ctx.require(X.shape == (a[1], a[7]), 'options-reach-the-fits', '%s %r: data of shape %r' % (script, a, X.shape))
        ctx.require(shows(plt, X.T), 'plots-show-results', '%s: not all series plotted' % script)
        best = min(r['cost'] for r in log)
        ctx.require(any(shows(plt, r['weights'].T) for r in log if r['cost'] == best), 'plots-show-results',
                    '%s: weights of the best fit not plotted' % script)
        p, q = plotted(plt), plotted(outs[1][0])
        ctx.require(len(p) == len(q) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(p, q)), 'seed-reproduces',
                    '%s %r' % (script, a))
        ctx.seen('main', script, tuple(a[2:]))
        ctx.note(script=script, options=[str(v) for v in a])
    return run


def kmeans_main(ctx):
    """main program of the Gaussian clusters example"""
    rng = ctx.rng
    script = 'fem-bv-kmeans/gaussian_clusters.py'
    a = ['--n-samples', int(rng.randint(20, 50)), '--n-init', int(rng.randint(1, 4)), '--n-components', int(rng.randint(1, 5)),
         '--n-switches', int(rng.randint(0, 5)), '--max-iterations', 5, '--random-seed', int(rng.randint(100))]
    if rng.rand() < 0.5:
        a += ['--max-tv-norm', float(gen.pick(rng, [2, 4.5]))]
    outs = []
    for _ in range(2):
        mod, plt = load(script)
        with recorded(repo.fembv_kmeans.FEMBVKMeans) as log:
            run_main(mod, a)
        outs.append((plt, log))
    plt, log = outs[0]
    ctx.require(True, 'main-completes')
    ctx.require(len(log) == a[3] and len(log[0]['data']) == a[1], 'options-reach-the-fits', '%r' % (a,))
    best = min(log, key=lambda r: r['cost'])
    pts = [(float(x[0]), float(x[1])) for x in (args[:2] for _, args, kw in plt.log if len(args) > 1)
           if np.ndim(x[0]) == 0 and np.ndim(x[1]) == 0]
    ctx.require(all(any(abs(p - t[0]) + abs(q - t[1]) < 1e-12 for p, q in pts) for t in best['state']['Theta']),
                'plots-show-results', 'centroids of the best fit not plotted')
    # every sample appears in the panels of the data, the k-means clusters and the FEM-BV clusters
    count = 0
    for _, args, kw in plt.log:
        if len(args) > 1 and not isinstance(args[1], str) and np.ndim(args[0]) == 1:
            count += len(args[0])
    ctx.require(count == 3 * a[1], 'plots-show-results', '%d points plotted for %d samples' % (count, a[1]))
    ctx.require(np.array_equal(outs[0][1][0]['data'], outs[1][1][0]['data']), 'seed-reproduces', '%s data %r' % (script, a))
    p, q = plotted(plt), plotted(outs[1][0])
    if not (len(p) == len(q) and all(np.array_equal(x, y) for x, y in zip(p, q))):
        ctx.finding('gaussian-clusters-seed', 'the random seed is not used for the fits')
    ctx.seen('main', script, tuple(a[2:]))
    ctx.note(script=script, options=[str(v) for v in a])


def siso_main(ctx):
    """main program of the piecewise VARX example"""
    rng = ctx.rng
    script = 'pwvarx/kmeans_siso.py'
    mod, plt = load(script)
    k, p, s = int(rng.randint(2, 4)), int(rng.randint(0, 4)), int(rng.randint(0, 3))
    trend = bool(rng.rand() < 0.5)
    if p + s == 0:
        p = 1
    n_init, n = int(rng.randint(1, 3)), int(rng.randint(60, 110))
    a = ['--n-samples', n, '--n-components', k, '-p', p, '-s', s, '--n-init', n_init, '--plot-data']
    if trend:
        a.append('--include-trend')
    assign = p + s > 1
    if assign:
        a.append('--plot-cluster-assignments')
    np.random.seed(rng.randint(10 ** 6))
    try:
        with recorded(repo.pwvarx.ClusterPWVARX) as log:
            out = run_main(mod, a)
    except ValueError as e:
        if 'class' in str(e):
            raise Skip()        # all samples in one cluster
        if not trend and (p > 1 or (p == 0 and s > 1)) and 'broadcast' in str(e):
            ctx.finding('siso-component-order', 'fails for several lags without intercept')
            return
        raise
    ctx.require(True, 'main-completes')
    ctx.require(len(log) == n_init and all(len(np.ravel(r['data'])) == n for r in log), 'options-reach-the-fits', '%r' % (a,))
    vals = []
    for r in log:
        st = r['state']
        parts = []
        if trend:
            parts.append(st['mu'].reshape(k, -1)[:, :1])
        if p:
            parts.append(st['A'].reshape(k, p))
        if s:
            parts.append(st['B'].reshape(k, s))
        v = np.concatenate(parts, axis=1)
        vals.append(v[np.argsort(v[:, 0])])
    mean, sd = np.mean(vals, axis=0), np.std(vals, axis=0)
    got = re.findall(r'=\s+(\S+) \(sd =\s+(\S+)\)', out)
    ok = len(got) == mean.size
    ctx.require(ok, 'printed-summary', '%r: %d values printed instead of %d' % (a, len(got), mean.size))
    if ok:
        g = np.array([[float(x), float(y)] for x, y in got])
        sc = 1e-6 * (1 + np.abs(mean).max())
        ctx.require(np.abs(g[:, 0] - mean.ravel()).max() <= sc and np.abs(g[:, 1] - sd.ravel()).max() <= sc, 'printed-summary',
                    '%r: printed %r' % (a, got), mean=mean, sd=sd)
    y = np.ravel(log[0]['data'])
    ctx.require(shows(plt, [y]), 'plots-show-results', 'series not plotted')
    if assign:
        # points of each panel: all pairs of lagged values, exactly once each
        L = max(p, s)
        u = np.ravel(log[-1]['exog'])
        lagged = [y[L - i:n - i] for i in range(1, p + 1)] + [u[L - i:n - i] for i in range(1, s + 1)]
        want = []
        idx = list(range(p + s))
        pairs = ([(i, j) for i in idx[:p] for j in idx[:p] if j > i] + [(i, j) for i in idx[p:] for j in idx[p:] if j > i]
                 + [(i, j) for i in idx[:p] for j in idx[p:]])
        panels = {}
        for key, args, kw in plt.log:
            if kw.get('ls') == 'none' and len(args) >= 2:
                panels.setdefault(key, []).append(np.column_stack(args[:2]))
        labels = log[-1]['weights']
        want = sorted(sorted(map(tuple, np.column_stack([lagged[i], lagged[j]]).tolist())) for i, j in pairs)
        got = sorted(sorted(map(tuple, np.vstack(v).tolist())) for v in panels.values())
        ctx.require(want == got, 'plots-show-results', '%r: %d panels, %d expected' % (a, len(got), len(want)))
        groups = sorted(int((labels == c).sum()) for c in np.unique(labels))
        ctx.require(all(sorted(len(x) for x in v) == groups for v in panels.values()), 'plots-show-results',
                    'points per label %r' % groups)
    ctx.seen('main', k, p, s, trend)
    ctx.note(script=script, options=[str(v) for v in a])


FAMILIES = [
    Family('switching_data', switching_data, 180), Family('periodic_data', periodic_data, 150),
    Family('gaussian_data', gaussian_data, 90), Family('siso_data', siso_data, 150),
    Family('helper_kmeans', helper('fem-bv-kmeans/gaussian_clusters.py'), 120),
    Family('helper_periodic', helper('fem-bv-varx/periodic.py'), 90),
    Family('helper_switching', helper('fem-bv-varx/switching.py'), 90),
    Family('main_periodic', varx_main('fem-bv-varx/periodic.py'), 48),
    Family('main_switching', varx_main('fem-bv-varx/switching.py'), 48),
    Family('main_kmeans', kmeans_main, 48), Family('main_siso', siso_main, 72)]
