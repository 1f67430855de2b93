"""Workloads and recomputations for the FEM-BV models."""
import warnings
import numpy as np
from vlib import repo, gen, oracles as O

KINDS = ('gauss', 'clusters', 'ar', 'dup', 'lowrank', 'constcol', 'offset', 'outlier', 'grid')


def tv_bound(rng, n):
    return gen.pick(rng, [None, None, 0, 1, 2, 3.5, 0.5, float(n), -1])


def kmeans_problem(rng, nmax=30, fmax=3, kmax=4, kinds=KINDS):
    lo = 4
    if gen.wide(rng):
        which = rng.randint(3)
        if which == 0:
            lo, nmax = 70, 160
        elif which == 1:
            lo, kmax = 10, 8
        else:
            fmax = 12
    n = rng.randint(lo, max(nmax, lo) + 1)
    f = rng.randint(1, fmax + 1)
    k = rng.randint(1, min(kmax, n) + 1)
    kind = gen.pick(rng, kinds)
    X = gen.data(rng, n, f, kind)
    return X, k, dict(max_tv_norm=tv_bound(rng, n)), kind


def varx_problem(rng, nmax=40, fmax=2, kmax=3, kinds=('gauss', 'ar', 'clusters', 'offset', 'grid')):
    longest = 3
    if gen.wide(rng):
        which = rng.randint(3)
        if which == 0:
            fmax = 5
        elif which == 1:
            kmax = 6
        else:
            longest = 7
        nmax = 110
    f = rng.randint(1, fmax + 1)
    k = rng.randint(1, kmax + 1)
    mem = gen.pick(rng, [None, 0, 1, 2, 'mixed', 'mixed', 1, longest])
    if mem == 'mixed':
        mem = [int(m) for m in rng.randint(0, longest + 1, size=k)]
    n = rng.randint(14 + 6 * f if nmax < 100 else 80, nmax + 10)
    kind = gen.pick(rng, kinds)
    X = gen.data(rng, n, f, kind)
    u = None
    if rng.rand() < 0.5:
        u = rng.randn(n, rng.randint(1, 3))
        X = X + u.dot(rng.randn(u.shape[1], f))
    return X, u, k, mem, dict(max_tv_norm=tv_bound(rng, n)), kind


def memories(mem, k):
    if mem is None:
        return [0] * k
    if np.ndim(mem) == 0:
        return [int(mem)] * k
    return [int(m) for m in mem]


def kmeans_distances(X, Theta):
    D = np.empty((len(X), len(Theta)))
    for j in range(len(Theta)):
        d = X - Theta[j]
        D[:, j] = np.sum(d * d, axis=1)
    return D


def varx_distances(X, u, mems, mu, A, B0):
    """Squared one-step residuals, for samples after the longest memory."""
    L = max(mems)
    n = len(X)
    D = np.zeros((n - L, len(mems)))
    for i, p in enumerate(mems):
        for t in range(L, n):
            x = np.array(mu[i], dtype=float)
            for tau in range(1, p + 1):
                x = x + A[i, tau - 1].dot(X[t - tau])
            if u is not None:
                x = x + B0[i].dot(u[t])
            r = X[t] - x
            D[t - L, i] = r.dot(r)
    return D


def varx_state(model, mems):
    return dict(mu=np.array(model.mu),
                A=None if max(mems) == 0 else np.array(model.A),
                B0=None if model.B0 is None else np.array(model.B0))


def affiliation_defects(G, bound, tol_rows=1e-5):
    """Row-simplex defect and excess of the variation bound."""
    G = np.asarray(G, float)
    d = O.simplex_defect(G, 1)
    ex = 0.0
    if bound is not None and bound >= 0:
        ex = float(max(0.0, (O.tv_norms(G) - bound).max())) if G.size else 0.0
    return d, ex
