"""Independent reference implementations and judgements used by the monitors."""
import numpy as np


# ---------------------------------------------------------------- simplex --
def project_simplex(x):
    """Euclidean projection by exhaustive choice of the support size."""
    x = np.asarray(x, dtype=np.longdouble)
    shift = x.max()
    y = np.sort(x - shift)[::-1]
    best = None
    c = np.cumsum(y)
    for m in range(1, len(y) + 1):
        t = (c[m - 1] - 1) / m
        if y[m - 1] - t > 0:
            best = t
    return np.maximum((x - shift) - best, 0).astype(float)


def simplex_defect(A, axis):
    """Largest violation of 'non-negative and summing to one along axis'."""
    A = np.asarray(A, dtype=float)
    if A.size == 0:
        return 0.0
    if not np.all(np.isfinite(A)):
        return np.inf
    return float(max(np.abs(A.sum(axis=axis) - 1).max(), max(0.0, -A.min())))


# -------------------------------------------------------------- objectives --
def aa_objective(X, W, C):
    R = X - W.dot(C.dot(X))
    return float(np.sum(R * R))


def kernel_objective(K, W, C):
    """|| phi - W C phi ||^2 in feature space, for any kernel."""
    n = K.shape[0]
    M = np.eye(n) - W.dot(C)
    return float(np.einsum('ij,jk,ik->', M, K, M))


def pair_penalty(S):
    k, f = S.shape
    if k < 2:
        return 0.0
    total = 0.0
    for i in range(k):
        for j in range(i + 1, k):
            d = S[i] - S[j]
            total += float(d.dot(d))
    return 2.0 / (f * k * (k - 1)) * total


def mse(X, W, S):
    R = X - W.dot(S)
    return float(np.sum(R * R)) / X.size


def lag_prediction(W, lags, w, T):
    """Prediction of rows max(lags).. from earlier rows."""
    L = int(max(lags))
    n = W.shape[0]
    Z = np.zeros((max(n - L, 0), W.shape[1]))
    for t in range(L, n):
        for i, lag in enumerate(lags):
            Z[t - L] += w[i] * T[i].dot(W[t - lag])
    return Z


def lag_penalty(W, lags, w, T):
    n, k = W.shape
    if k < 2:
        return 0.0
    L = int(max(lags))
    if n <= L:
        return 0.0          # nothing is predicted
    R = W[L:] - lag_prediction(W, lags, w, T)
    return float(np.sum(R * R)) / (k * (n - L))


# ----------------------------------------------------------- optimality --
def simplex_gap(grad, A, axis=1):
    """Frank-Wolfe gap sum_i <grad_i, A_i - best vertex_i> (axis=1: rows)."""
    G, A = np.asarray(grad), np.asarray(A)
    if axis == 0:
        G, A = G.T, A.T
    return float(np.sum(G * A) - np.sum(G.min(axis=1)))


def best_weights(X, S, iters=20000, tol=1e-13):
    """min_W ||X - W S||^2 over the simplex, by accelerated projected gradient.

    Returns (W, upper bound on suboptimality via the Frank-Wolfe gap)."""
    k = S.shape[0]
    H = 2 * S.dot(S.T)
    lin = 2 * X.dot(S.T)
    Lc = max(np.linalg.norm(H, 2), 1e-300)
    W = np.full((X.shape[0], k), 1.0 / k)
    Y, t = W.copy(), 1.0
    scale = max(float(np.sum(X * X)), 1e-300)
    gap = np.inf
    for it in range(iters):
        Wn = project_rows(Y - (Y.dot(H) - lin) / Lc)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        Y = Wn + (t - 1) / tn * (Wn - W)
        W, t = Wn, tn
        if it % 20 == 19:
            gap = simplex_gap(W.dot(H) - lin, W)
            if gap <= tol * scale:
                break
    return W, gap


def project_rows(A):
    """Vectorised projection of every row onto the simplex."""
    n, k = A.shape
    B = A - A.max(axis=1, keepdims=True)
    U = -np.sort(-B, axis=1)
    c = np.cumsum(U, axis=1) - 1
    idx = np.arange(1, k + 1)
    rho = (U - c / idx > 0).cumsum(axis=1).argmax(axis=1)
    t = c[np.arange(n), rho] / (rho + 1)
    return np.maximum(B - t[:, None], 0)


# ------------------------------------------------------------- FEM-BV LP --
def tv_norms(G):
    return np.abs(np.diff(G, axis=0)).sum(axis=0) if len(G) > 1 else np.zeros(G.shape[1])


def lp_affiliations(D, max_tv):
    """Optimal value of min <D, G>, rows of G in simplex, TV of columns <= max_tv."""
    from scipy.optimize import linprog
    from scipy.sparse import coo_matrix
    n, k = D.shape
    if max_tv is None or max_tv < 0:
        return float(D.min(axis=1).sum())
    m = n - 1
    nv = n * k + 2 * m * k     # G, positive and negative parts of increments
    gi = lambda t, i: t * k + i
    pi = lambda t, i: n * k + t * k + i
    ni = lambda t, i: n * k + m * k + t * k + i
    r, c, v, b = [], [], [], []
    row = 0
    for t in range(n):
        for i in range(k):
            r.append(row); c.append(gi(t, i)); v.append(1.0)
        b.append(1.0); row += 1
    for t in range(m):
        for i in range(k):
            r += [row] * 4
            c += [gi(t + 1, i), gi(t, i), pi(t, i), ni(t, i)]
            v += [1.0, -1.0, -1.0, 1.0]
            b.append(0.0); row += 1
    A_eq = coo_matrix((v, (r, c)), shape=(row, nv)).tocsr()
    r, c, v = [], [], []
    for i in range(k):
        for t in range(m):
            r += [i, i]; c += [pi(t, i), ni(t, i)]; v += [1.0, 1.0]
    A_ub = coo_matrix((v, (r, c)), shape=(k, nv)).tocsr() if m > 0 else None
    cost = np.zeros(nv)
    cost[:n * k] = D.ravel()
    res = linprog(cost, A_ub=A_ub, b_ub=(np.full(k, float(max_tv)) if m > 0 else None),
                  A_eq=A_eq, b_eq=np.array(b), bounds=(0, None), method='highs')
    if res.status != 0:
        return None
    return float(res.fun)


# ------------------------------------------------------------------ VARX --
def varx_design(y, p, u=None, s=0, contemporaneous=True, trend=True):
    """Row t (t >= max(p, s)): [1, y_{t-1}, .., y_{t-p}, u_{t-1}, .., u_{t-s}, u_t]."""
    y = np.asarray(y, dtype=float)
    n = y.shape[0]
    L = max(p, s)
    rows_ = []
    for t in range(L, n):
        z = [1.0] if trend else []
        for tau in range(1, p + 1):
            z.extend(y[t - tau])
        if u is not None:
            for tau in range(1, s + 1):
                z.extend(np.atleast_1d(u[t - tau]))
            if contemporaneous:
                z.extend(np.atleast_1d(u[t]))
        rows_.append(z)
    return np.array(rows_, dtype=float).reshape(n - L, -1)


def weighted_ls_value(Z, Y, w=None):
    """Minimal weighted sum of squared residuals, via an orthogonal basis."""
    w = np.ones(len(Z)) if w is None else np.asarray(w, dtype=float)
    s = np.sqrt(np.maximum(w, 0))[:, None]
    A, B = s * Z, s * Y
    if A.shape[0] == 0:
        return 0.0
    U, sv, _ = np.linalg.svd(A, full_matrices=False)
    keep = sv > 1e-12 * max(sv.max() if sv.size else 0, 1e-300)
    U = U[:, keep]
    R = B - U.dot(U.T.dot(B))
    return float(np.sum(R * R))
