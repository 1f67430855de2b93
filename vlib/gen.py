"""Workload generators: data sets, starting guesses, options."""
import numpy as np

NICE = ('gauss', 'clusters', 'simplex', 'ar')
HARD = ('dup', 'lowrank', 'constcol', 'tiny', 'big', 'offset', 'outlier', 'grid', 'spike')
DEGENERATE = ('zero', 'const', 'twopoints')
ALL = NICE + HARD + DEGENERATE


def data(rng, n, f, kind):
    if kind == 'gauss':
        return rng.randn(n, f)
    if kind == 'clusters':
        c = 4 * rng.randn(3, f)
        return c[rng.randint(3, size=n)] + 0.3 * rng.randn(n, f)
    if kind == 'simplex':
        V = rng.randn(min(4, f + 1), f)
        return rng.dirichlet(np.ones(len(V)), size=n).dot(V) + 0.02 * rng.randn(n, f)
    if kind == 'ar':
        X = np.zeros((n, f))
        x = rng.randn(f)
        for t in range(n):
            x = 0.8 * x + 0.5 * rng.randn(f)
            X[t] = x
        return X
    if kind == 'dup':
        base = rng.randn(max(2, n // 3), f)
        return base[rng.randint(len(base), size=n)]
    if kind == 'lowrank':
        return np.outer(rng.randn(n), rng.randn(f))
    if kind == 'constcol':
        X = rng.randn(n, f)
        X[:, rng.randint(f)] = rng.choice([0.0, 3.0])
        return X
    if kind == 'tiny':
        return 1e-4 * rng.randn(n, f)
    if kind == 'big':
        return 1e3 * rng.randn(n, f)
    if kind == 'offset':
        return 50.0 + rng.randn(n, f)
    if kind == 'outlier':
        X = rng.randn(n, f)
        X[rng.randint(n)] *= 100
        return X
    if kind == 'grid':
        return rng.randint(-2, 3, size=(n, f)).astype(float)
    if kind == 'spike':
        X = np.zeros((n, f))
        for _ in range(max(1, n // 4)):
            X[rng.randint(n), rng.randint(f)] = rng.randn()
        return X
    if kind == 'zero':
        return np.zeros((n, f))
    if kind == 'const':
        return np.tile(rng.randn(f), (n, 1))
    if kind == 'twopoints':
        b = rng.randn(2, f)
        return b[rng.randint(2, size=n)]
    raise ValueError(kind)


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def rows(rng, n, k, sparse=None):
    """Random matrix with rows in the simplex (dense, sparse or vertices)."""
    s = sparse if sparse is not None else rng.randint(3)
    if s == 0:
        W = rng.uniform(size=(n, k)) + 1e-3
    elif s == 1:
        W = rng.uniform(size=(n, k)) * (rng.uniform(size=(n, k)) < 0.5)
        W[np.arange(n), rng.randint(k, size=n)] += 0.1
    else:
        W = np.zeros((n, k))
        W[np.arange(n), rng.randint(k, size=n)] = 1.0
    return W / W.sum(axis=1, keepdims=True)


def columns(rng, k):
    return np.ascontiguousarray(rows(rng, k, k).T)


WIDE = 0.06      # share of cases with unusually many samples, features, components or lags


def wide(rng, p=WIDE):
    return rng.rand() < p


def lags(rng, most=3, largest=4):
    if wide(rng):
        most, largest = pick(rng, [6, 12]), 13
    m = rng.randint(1, most + 1)
    ls = list(rng.permutation(np.arange(1, largest + 1))[:m])
    return [int(l) for l in ls]


def spd_scale(X):
    return float(np.sum(X * X))
