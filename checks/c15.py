"""C15: k-means Markov reduced order models."""
import numpy as np
from fractions import Fraction
from vlib import repo, gen, oracles as O
from vlib.recorders import same
from vlib.core import Family, Skip

ID = 'C15'
SCALE = 5                 # quick runs: this many times the cases below
RULE = ('transition counts recomputed step by step with exact fractions from the reported labels; propagated distributions '
        'recomputed per sample; series with rare states, states seen only at the end, sample weights and refits; distinct = '
        '(n, clusters, horizon, kind, states without successor)')
REQUIRED = {'transition-fractions': 1, 'columns-are-probabilities': 1, 'prediction-is-propagation': 1,
            'indicator-at-horizon-zero': 1, 'labels-are-nearest-centres': 1, 'fit-predict-transform-agree': 1}
TECHNIQUE = 'offline counting checker (exact fractions) over the recorded label sequence'
LEVEL_NOTE = 'Every observed fit and prediction is decided; sampled series. One recorded finding: state without successor.'

CROM = repo.crom.KMeansMarkovCROM


def counts(labels, k):
    n_from = [0] * k
    n_jk = [[0] * k for _ in range(k)]
    for t in range(len(labels) - 1):
        n_from[labels[t]] += 1
        n_jk[labels[t + 1]][labels[t]] += 1
    return n_from, n_jk


def series(rng):
    kind = gen.pick(rng, ['clusters', 'gauss', 'ar', 'chain', 'rare', 'last', 'cycle'])
    n, f = rng.randint(8, 60), rng.randint(1, 4)
    k = rng.randint(1, 6)
    if gen.wide(rng):
        n, k = rng.randint(200, 1500), rng.randint(5, 13)
    if gen.wide(rng):
        # long stays: probabilities of leaving are small
        n, k = rng.randint(3000, 6000), rng.randint(2, 4)
        C = 10 * np.eye(k)
        z = np.repeat(rng.permutation(np.r_[np.arange(k), rng.randint(k, size=2)]), n // k)
        return C[z] + 0.05 * rng.randn(len(z), k), int(k), 'sticky'
    if kind in ('chain', 'rare', 'last', 'cycle'):
        C = 10 * np.eye(k, max(f, k))[:, :max(f, k)]
        f = C.shape[1]
        z = rng.randint(k, size=n)
        if kind == 'cycle':
            # (almost) periodic: distributions change for ever
            z = np.arange(n) % k
            if rng.rand() < 0.5:
                z[rng.randint(n)] = rng.randint(k)
        if kind == 'rare' and k > 1:
            z[z == k - 1] = 0
            z[rng.randint(n - 1)] = k - 1
        if kind == 'last' and k > 1:
            z[z == k - 1] = 0
            z[-1] = k - 1
        X = C[z] + 0.05 * rng.randn(n, f)
    else:
        X = gen.data(rng, n, f, kind)
    if len(np.unique(X, axis=0)) < k:
        k = 1
    return X, int(k), kind


def judge_fit(ctx, m, X, k, label):
    labels = np.asarray(m.labels_)
    T = np.asarray(m.transition_matrix_, dtype=float)
    ctx.require(labels.shape == (len(X),) and T.shape == (k, k), 'shapes', '%s: %r %r' % (label, labels.shape, T.shape))
    if T.shape != (k, k):
        return False
    n_from, n_jk = counts(labels.tolist(), k)
    lost = False
    for c in range(k):
        if n_from[c] == 0:
            if not np.all(np.isfinite(T[:, c])):
                lost = True
                only_last = int((labels == c).sum()) == 1 and labels[-1] == c
                if only_last:
                    ctx.finding('state-without-successor',
                                'column %d of the transition matrix is NaN (only member is the final sample)' % c)
                else:
                    ctx.require(False, 'empty-column', '%s: column %d' % (label, c))
            continue
        for j in range(k):
            want = Fraction(n_jk[j][c], n_from[c])
            ctx.require(abs(T[j, c] - float(want)) <= 1e-12, 'transition-fractions',
                        '%s: entry (%d, %d) is %r, counted %s' % (label, j, c, T[j, c], want))
        ctx.require(abs(T[:, c].sum() - 1) < 1e-9 and T[:, c].min() >= 0, 'columns-are-probabilities', label)
    C = np.asarray(m.cluster_centers_)
    d = ((X[:, None] - C[None]) ** 2).sum(-1)
    gap = d[np.arange(len(X)), labels] - d.min(axis=1)
    ctx.require(float(gap.max()) <= 1e-9 * (float(d.max()) + 1e-300), 'labels-are-nearest-centres', '%s %r' % (label, gap.max()))
    return not lost


def judge_predict(ctx, m, X2, k, h, label):
    C = np.asarray(m.cluster_centers_)
    d = ((X2[:, None] - C[None]) ** 2).sum(-1)
    near = d.argmin(axis=1)
    two = np.sort(d, axis=1)
    clear = np.ones(len(X2), bool) if k == 1 else (two[:, 1] - two[:, 0] > 1e-9 * (d.max() + 1e-300))
    P = np.asarray(m.predict(X2, horizon=h) if (h or ctx.rng.rand() < 0.5) else m.predict(X2))
    T = np.asarray(m.transition_matrix_, dtype=float)
    want = np.zeros((len(X2), k))
    for c in range(k):
        v = np.zeros(k)
        v[c] = 1
        for _ in range(h):
            v = T.dot(v)
        want[near == c] = v
    if not ctx.require(P.shape == want.shape, 'prediction-shape', '%r' % (P.shape,)):
        return
    ctx.close(P[clear], want[clear], 'indicator-at-horizon-zero' if h == 0 else 'prediction-is-propagation', atol=1e-10,
              msg='%s horizon %d' % (label, h))
    ctx.close(P.sum(axis=1), np.ones(len(X2)), 'predictions-are-probabilities', atol=1e-9)


def fits(ctx):
    rng = ctx.rng
    X, k, kind = series(rng)
    seed = int(rng.randint(10 ** 6))
    m = CROM(k, random_state=seed, n_init=int(rng.randint(1, 4)))
    sw = rng.uniform(0.2, 2, size=len(X)) if rng.rand() < 0.4 else None
    if rng.rand() < 0.3:
        m.fit(gen.data(rng, 20 + k, X.shape[1], 'gauss'))
    m.fit(X, sample_weight=sw) if sw is not None else m.fit(X)
    ok = judge_fit(ctx, m, X, k, kind)
    for h in (0, 1, int(rng.randint(2, 12)), int(gen.pick(rng, [30, 101, 365, 1000])) + int(rng.randint(5))):
        if ok or h == 0:
            judge_predict(ctx, m, X, k, h, kind)
            judge_predict(ctx, m, gen.data(rng, rng.randint(1, 20), X.shape[1], 'gauss') + X.mean(axis=0), k, h, kind)
    C = np.asarray(m.cluster_centers_)
    ctx.close(np.asarray(m.transform(X)), np.sqrt(((X[:, None] - C[None]) ** 2).sum(-1)), 'transform-is-distance',
              rtol=1e-6, atol=1e-6 * (np.abs(X).max() + 1e-300))
    w = np.ones(len(X)) if sw is None else sw
    labels = np.asarray(m.labels_)
    inertia = float((w * ((X - C[labels]) ** 2).sum(axis=1)).sum())
    ctx.require(abs(float(m.inertia_) - inertia) <= 1e-6 * (inertia + (X ** 2).sum() * 1e-6) + 1e-300, 'inertia',
                '%r vs %r' % (m.inertia_, inertia))
    ctx.seen(len(X), k, kind, sw is not None)
    ctx.note(kind=kind, k=k, transition_matrix=np.asarray(m.transition_matrix_))


def agree(ctx):
    """fit_predict, fit_transform, weights and the function interface"""
    rng = ctx.rng
    X, k, kind = series(rng)
    kw = dict(random_state=int(rng.randint(10 ** 6)), n_init=int(rng.randint(1, 4)))
    sw = rng.uniform(0.2, 2, size=len(X)) if rng.rand() < 0.5 else None
    a = CROM(k, **kw)
    r = a.fit(X, sample_weight=sw)
    ctx.require(r is a, 'fit-returns-self')
    b, c = CROM(k, **kw), CROM(k, **kw)
    lab = np.asarray(b.fit_predict(X, sample_weight=sw))
    dist = np.asarray(c.fit_transform(X, sample_weight=sw))
    km, T = repo.crom.kmeans_markov_crom(X, n_clusters=k, sample_weight=sw, **kw)
    ok = (same(lab, np.asarray(a.labels_)) and same(np.asarray(b.transition_matrix_), np.asarray(a.transition_matrix_)) and
          same(dist, np.asarray(a.transform(X))) and same(np.asarray(c.transition_matrix_), np.asarray(a.transition_matrix_)) and
          same(np.asarray(T), np.asarray(a.transition_matrix_)) and same(np.asarray(km.labels_), np.asarray(a.labels_)))
    ctx.require(ok, 'fit-predict-transform-agree', kind)
    # the weights passed to predictions have no influence
    P, Q = a.predict(X, horizon=0), a.predict(X, sample_weight=rng.uniform(size=len(X)), horizon=0)
    ctx.require(same(np.asarray(P), np.asarray(Q)), 'weights-affect-clustering-only')
    judge_fit(ctx, a, X, k, kind)
    ctx.seen('agree', len(X), k, kind, sw is not None)


def weights(ctx):
    """counting ignores sample weights when the clustering is the same"""
    rng = ctx.rng
    k = rng.randint(2, 5)
    n = rng.randint(12, 50)
    C = 50 * np.eye(k)
    z = np.r_[np.arange(k), rng.randint(k, size=n - k - 1), rng.randint(k)]
    z = np.r_[z, z[:1]]
    X = C[z] + 0.01 * rng.randn(len(z), k)
    w = rng.uniform(0.1, 5, size=len(X))
    m = CROM(int(k), random_state=0, n_init=10)
    m.fit(X, sample_weight=w)
    judge_fit(ctx, m, X, int(k), 'weighted')
    lab = np.asarray(m.labels_)
    if len(set(zip(lab.tolist(), z.tolist()))) == k:
        for c in range(k):
            ctx.close(np.asarray(m.cluster_centers_)[lab[z == c][0]], np.average(X[z == c], axis=0, weights=w[z == c]),
                      'centres-use-weights', rtol=1e-6, atol=1e-6)
    ctx.seen('weights', k, n)


FAMILIES = [Family('fits', fits, 300), Family('agree', agree, 150), Family('weights', weights, 60)]
