"""C14: cluster-based piecewise VARX models."""
import numpy as np
from sklearn.cluster import KMeans
from sklearn.svm import SVC
from sklearn.neighbors import KNeighborsClassifier
from vlib import repo, gen, oracles as O
from vlib.recorders import snapshot, same
from vlib.core import Family, Skip

ID = 'C14'
SCALE = 5                 # quick runs: this many times the cases below
RULE = ('fits with recording clusterers and classifiers, so that the exact vectors handed to them are observed, and with the '
        'default ones; per-region coefficients judged by attained residuals; distinct = '
        '(p, s, features, external, trend, regions, clusterer)')
REQUIRED = {'clustered-vectors': 1, 'classified-vectors': 1, 'labels-are-classifier-labels': 1, 'region-least-squares': 1,
            'region-residuals': 1, 'region-covariance': 1, 'transform-labels': 1, 'one-dimensional-series': 1,
            'refit-independent': 1, 'planted-regimes-recovered': 1}
TECHNIQUE = 'monitoring through recording collaborators plus least-squares oracle on recorded fits'
LEVEL_NOTE = 'Every observed fit is decided exactly; sampled series and collaborators.'

PW = repo.pwvarx.ClusterPWVARX


class RecordingClusterer(object):
    def __init__(self, labels_of):
        self.labels_of = labels_of
        self.seen = []

    def fit_predict(self, z, *a, **kw):
        self.seen.append(np.array(z))
        return np.array(self.labels_of(np.array(z)))


class RecordingClassifier(object):
    """Deterministic classifier disagreeing with its training labels now and then."""

    def __init__(self, k):
        self.k = k
        self.fitted = []
        self.predicted = []

    def fit(self, x, labels, *a, **kw):
        self.fitted.append((np.array(x), np.array(labels)))
        return self

    def label(self, x):
        x0, l0 = self.fitted[-1]
        out = []
        for row in x:
            d = ((x0 - row) ** 2).sum(axis=1) if x0.shape[1] else np.arange(len(x0))
            i = int(np.argmin(d))
            out.append(l0[i] if (i % 5) else l0[(i + 1) % len(l0)])
        return np.array(out, dtype=int)

    def predict(self, x, *a, **kw):
        self.predicted.append(np.array(x))
        return self.label(np.array(x))


def stack(y, p, u, s):
    """[y_{t-1}, .., y_{t-p}, u_{t-1}, .., u_{t-s}] for t after the presample"""
    L = max(p, s)
    rows = []
    for t in range(L, len(y)):
        z = []
        for tau in range(1, p + 1):
            z.extend(y[t - tau])
        if u is not None:
            for tau in range(1, s + 1):
                z.extend(u[t - tau])
        rows.append(z)
    return np.array(rows, dtype=float).reshape(len(y) - L, -1)


def problem(rng):
    f, p = rng.randint(1, 4), rng.randint(0, 4)
    e = rng.randint(0, 3)
    s = rng.randint(0, 4) if e else 0
    if p == 0 and s == 0:
        p = 1
    k = rng.randint(1, 4)
    n = max(p, s) + k * (4 + p * f + s * e) + rng.randint(8, 30)
    y = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'ar', 'clusters', 'offset', 'grid']))
    u = rng.randn(n, e) if e else None
    return y, int(p), u, int(s), int(k)


def as_input(a, one_dim):
    return a[:, 0].copy() if (one_dim and a is not None and a.shape[1] == 1) else a


def judge_regions(ctx, m, y, p, u, s, k, trend, labels, label):
    L = max(p, s)
    f = y.shape[1]
    e = 0 if (u is None or s == 0) else u.shape[1]
    Y = y[L:]
    Z = stack(y, p, u, s)
    size = float(np.abs(y).max()) + 1e-300
    res = np.array(m.residuals)
    if not ctx.require(res.shape == Y.shape, 'residual-shape', '%r' % (res.shape,)):
        return
    for i in range(k):
        mask = labels == i
        cnt = int(mask.sum())
        if cnt == 0:
            continue
        pred = np.zeros((cnt, f))
        x = Z[mask]
        if trend:
            pred += np.asarray(m.mu)[i]
        for tau in range(p):
            pred += x[:, tau * f:(tau + 1) * f].dot(np.asarray(m.A)[i, tau].T)
        for tau in range(s if e else 0):
            o = p * f + tau * e
            pred += x[:, o:o + e].dot(np.asarray(m.B)[i, tau].T)
        R = Y[mask] - pred
        D = np.c_[np.ones(cnt), x] if trend else x
        want = O.weighted_ls_value(D, Y[mask])
        got = float((R * R).sum())
        ctx.require(got <= want + 1e-8 * float((Y[mask] ** 2).sum()) + 1e-300, 'region-least-squares',
                    '%s region %d of %d samples: residual %r, attainable %r' % (label, i, cnt, got, want))
        ctx.close(res[mask], R, 'region-residuals', rtol=1e-7, atol=1e-7 * size, msg=label)
        df = cnt - p * f - (1 if trend else 0) - e * s
        if df > 0:
            ctx.close(np.asarray(m.Sigma_u)[i], R.T.dot(R) / df, 'region-covariance', rtol=1e-6, atol=1e-8 * size ** 2,
                      msg='%s region %d' % (label, i))
    if p:
        ctx.require(np.asarray(m.A).shape == (k, p, f, f), 'coefficient-shapes')
    if e:
        ctx.require(np.asarray(m.B).shape == (k, s, f, e), 'coefficient-shapes')


def recorded(ctx):
    """collaborators that record what they are given"""
    rng = ctx.rng
    y, p, u, s, k = problem(rng)
    L = max(p, s)
    trend = bool(rng.rand() < 0.6)
    seed = rng.randint(10 ** 6)
    labels_of = lambda z: np.random.RandomState(seed).randint(k, size=len(z))
    clu, cla = RecordingClusterer(labels_of), RecordingClassifier(k)
    m = PW(k, p=p, s=s, include_trend=trend, clusterer=clu, classifier=cla)
    one = rng.rand() < 0.5
    out = np.array(m.fit_transform(as_input(y, one), exog=as_input(u, one)))
    label = 'p=%d s=%d k=%d trend=%r' % (p, s, k, trend)
    x = stack(y, p, u, s)
    tol = dict(rtol=0, atol=0)
    ctx.require(len(clu.seen) == 1 and len(cla.fitted) == 1, 'collaborators-called-once')
    ctx.close(clu.seen[-1], np.hstack([x, y[L:]]), 'clustered-vectors', msg=label, **tol)
    ctx.close(cla.fitted[-1][0], x, 'classified-vectors', msg=label, **tol)
    cl = labels_of(x)
    ctx.require(same(cla.fitted[-1][1], cl) and same(np.asarray(m.cluster_labels_), cl), 'classifier-trained-on-cluster-labels')
    want = cla.label(x)
    ctx.require(same(out, want), 'labels-are-classifier-labels', '%s: %r instead of %r' % (label, out.tolist(), want.tolist()))
    judge_regions(ctx, m, y, p, u, s, k, trend, want, label)
    # transform
    n2 = len(y) if rng.rand() < 0.3 else rng.randint(L + 1, 25)
    y2 = gen.data(rng, n2, y.shape[1], 'gauss')
    u2 = None if u is None else rng.randn(n2, u.shape[1])
    state = snapshot(dict(mu=m.mu, A=m.A, B=m.B, S=m.Sigma_u, r=m.residuals))
    t = np.array(m.transform(as_input(y2, one), exog=as_input(u2, one)))
    ctx.close(cla.predicted[-1], stack(y2, p, u2, s), 'transform-vectors', msg=label, **tol)
    ctx.require(same(t, cla.label(stack(y2, p, u2, s))), 'transform-labels', label)
    ctx.require(same(snapshot(dict(mu=m.mu, A=m.A, B=m.B, S=m.Sigma_u, r=m.residuals)), state), 'transform-keeps-model')
    if y.shape[1] == 1 or (u is not None and u.shape[1] == 1):
        ctx.count('one-dimensional inputs', one)
    ctx.seen('rec', p, s, y.shape[1], 0 if u is None else u.shape[1], trend, k)
    ctx.note(orders=(p, s), k=k, trend=trend, labels=out)


def default_fit(ctx):
    """default and scikit-learn collaborators"""
    rng = ctx.rng
    y, p, u, s, k = problem(rng)
    k = max(2, k)
    trend = bool(rng.rand() < 0.6)
    kw = dict(p=p, s=s, include_trend=trend)
    seed = int(rng.randint(10 ** 6))
    how = gen.pick(rng, ['default', 'default', 'knn', 'svc'])
    make = lambda: dict(default={}, knn=dict(classifier=KNeighborsClassifier(1)),
                        svc=dict(classifier=SVC(kernel='linear'),
                                 clusterer=KMeans(k, random_state=seed, n_init=2)))[how]
    m = PW(k, random_state=seed, **dict(kw, **make()))
    x = stack(y, p, u, s)
    L = max(p, s)
    z = np.hstack([x, y[L:]])
    ref_clu = KMeans(n_clusters=k, random_state=seed) if how != 'svc' else KMeans(k, random_state=seed, n_init=2)
    lab = ref_clu.fit_predict(z)
    if len(np.unique(lab)) < 2:
        raise Skip()
    ref_cla = dict(default=SVC(), knn=KNeighborsClassifier(1), svc=SVC(kernel='linear'))[how]
    ref_cla.fit(x, lab)
    want = ref_cla.predict(x)
    out = np.array(m.fit_transform(y, exog=u))
    ctx.require(same(out, want), 'labels-are-classifier-labels', '%s p=%d s=%d' % (how, p, s))
    judge_regions(ctx, m, y, p, u, s, k, trend, want, how)
    y2 = y[: max(L + 1, len(y) // 2)] + 0.1
    if rng.rand() < 0.5:
        y2 = y[rng.permutation(len(y))] + 0.3 * rng.randn(*y.shape)          # as many samples as were fitted
    u2 = None if u is None else u[:len(y2)]
    ctx.require(same(np.array(m.transform(y2, exog=u2)), ref_cla.predict(stack(y2, p, u2, s))), 'transform-labels', how)
    # refit on other data, with other inputs, and back
    other = gen.data(rng, len(y) + 5, y.shape[1], 'gauss')
    try:
        m.fit(other, exog=(None if rng.rand() < 0.5 else rng.randn(len(other), 1)))
    except ValueError:
        pass          # a single class on the other data
    out2 = np.array(m.fit_transform(y, exog=u))
    fresh = PW(k, random_state=seed, **dict(kw, **make()))
    out3 = np.array(fresh.fit_transform(y, exog=u))
    ok = same(out2, out3) and all(same(getattr(m, a), getattr(fresh, a)) for a in ('mu', 'A', 'B', 'Sigma_u', 'residuals'))
    ctx.require(ok, 'refit-independent', '%s p=%d s=%d external=%r' % (how, p, s, u is not None))
    ctx.seen('default', how, p, s, y.shape[1], u is not None, trend, k)


def one_dimensional(ctx):
    """a vector is a single column"""
    rng = ctx.rng
    n, p, s = rng.randint(25, 50), rng.randint(1, 4), rng.randint(0, 3)
    y = rng.randn(n)
    u = rng.randn(n) if rng.rand() < 0.6 else None
    s = int(s) if u is not None else 0
    k = 2
    cls = lambda: dict(classifier=KNeighborsClassifier(1), clusterer=KMeans(k, random_state=0, n_init=2))
    a, b = PW(k, p=int(p), s=s, **cls()), PW(k, p=int(p), s=s, **cls())
    la = np.array(a.fit_transform(y, exog=u))
    lb = np.array(b.fit_transform(y[:, None], exog=None if u is None else u[:, None]))
    ok = same(la, lb) and all(same(getattr(a, q), getattr(b, q)) for q in ('mu', 'A', 'B', 'Sigma_u', 'residuals'))
    ctx.require(ok, 'one-dimensional-series', 'p=%d s=%d' % (p, s))
    ctx.require(same(np.array(a.transform(y, exog=u)), np.array(b.transform(y[:, None], exog=None if u is None else u[:, None]))),
                'one-dimensional-series', 'transform')
    ctx.seen('1d', p, s, u is not None)


def planted(ctx):
    """two regions with known affine dynamics"""
    rng = ctx.rng
    n = 120
    a = [0.5, -0.4]
    c = [2.0, -2.0]
    y = np.zeros((n, 1))
    y[0] = 3 * rng.randn()
    for t in range(1, n):
        i = 0 if y[t - 1] > 0 else 1
        y[t] = -c[i] + a[i] * y[t - 1]          # jumps to the other side
        if t % 3 == 0:
            y[t] += 0
    # break periodicity by restarting: exogenous kicks enter with lag one
    u = rng.randn(n, 1)
    b = [0.7, -0.3]
    for t in range(1, n):
        i = 0 if y[t - 1] > 0 else 1
        y[t] = -c[i] + a[i] * y[t - 1] + b[i] * u[t - 1]
    region = (y[:-1, 0] <= 0).astype(int)
    clu = RecordingClusterer(lambda z: region)

    class Sign(RecordingClassifier):
        def predict(self, x):
            return (x[:, 0] <= 0).astype(int)
    m = PW(2, p=1, s=1, clusterer=clu, classifier=Sign(2))
    out = np.array(m.fit_transform(y, exog=u))
    ctx.require(same(out, region), 'labels-are-classifier-labels')
    for i in range(2):
        if (region == i).sum() < 8:
            continue
        ok = (abs(m.mu[i, 0] + c[i]) < 1e-6 and abs(m.A[i, 0, 0, 0] - a[i]) < 1e-6 and abs(m.B[i, 0, 0, 0] - b[i]) < 1e-6)
        ctx.require(ok, 'planted-regimes-recovered', 'region %d: %r %r %r' % (i, m.mu[i], m.A[i], m.B[i]))
    ctx.seen('planted', int(region.sum()))


FAMILIES = [Family('recorded', recorded, 300), Family('default_fit', default_fit, 120),
            Family('one_dimensional', one_dimensional, 60), Family('planted', planted, 40)]
