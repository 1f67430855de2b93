"""C13: local VARX model against independent least squares."""
import numpy as np
from vlib import repo, gen, oracles as O
from vlib.core import Family, Skip

ID = 'C13'
SCALE = 6                 # quick runs: this many times the cases below
RULE = ('single and repeated, weighted and unweighted fits for all small order combinations; residuals recomputed with scalar '
        'recursion from the returned coefficients, optimality against an orthogonal-basis solver, covariance formula; distinct = '
        '(p, s, f, external, weights kind, history)')
REQUIRED = {'least-squares-optimal': 1, 'residuals-aligned': 1, 'weight-scaling': 1, 'unit-weights': 1,
            'zero-weight-samples-ignored': 1, 'residual-covariance': 1, 'covariance-inverse': 1, 'refit-independent': 1,
            'planted-coefficients-recovered': 1}
TECHNIQUE = 'optimality oracle and metamorphic monitors on recorded fits'
LEVEL_NOTE = 'Every observed fit is decided by its attained residual sum of squares; sampled series.'

LLM = repo.fembv_varx.FEMBVVARXLocalLinearModel


def problem(rng):
    f, p = rng.randint(1, 4), rng.randint(0, 4)
    e = rng.randint(0, 3)
    s = rng.randint(0, 4) if e else 0
    cols = 1 + p * f + e * (1 + s)
    n = max(p, s) + cols + rng.randint(3, 30)
    y = gen.data(rng, n, f, gen.pick(rng, ['gauss', 'ar', 'clusters', 'offset', 'grid', 'big', 'tiny']))
    u = rng.randn(n, e) if e else None
    return y, int(p), u, int(s)


def coefficients(m, p, s, f, u):
    return dict(mu=np.array(m.mu), A=None if p == 0 else np.array(m.A),
                B=None if (u is None or s == 0) else np.array(m.B), B0=None if u is None else np.array(m.B0))


def predict(c, y, p, u, s):
    L = max(p, s)
    out = np.zeros((len(y) - L, y.shape[1]))
    for t in range(L, len(y)):
        v = c['mu'].astype(float).copy()
        for tau in range(1, p + 1):
            v = v + c['A'][tau - 1].dot(y[t - tau])
        if u is not None:
            for tau in range(1, s + 1):
                v = v + c['B'][tau - 1].dot(u[t - tau])
            v = v + c['B0'].dot(u[t])
        out[t - L] = v
    return out


def weights_for(rng, n, kind):
    if kind == 'uniform':
        return rng.uniform(0.1, 1, size=n)
    if kind == 'zeros':
        w = rng.uniform(0.1, 1, size=n)
        w[rng.choice(n, n // 4, replace=False)] = 0
        return w
    if kind == 'binary':
        return (rng.uniform(size=n) < 0.8).astype(float)
    if kind == 'large':
        return 10.0 * rng.uniform(0.5, 1, size=n)
    if kind == 'small':
        return 10.0 ** rng.uniform(-12, -4) * rng.uniform(0.1, 1, size=n)
    if kind == 'spread':
        return 10.0 ** rng.uniform(-8, 0, size=n)
    return np.ones(n)


def shapes_ok(c, p, s, f, u):
    ok = c['mu'].shape == (f,)
    if p:
        ok = ok and c['A'].shape == (p, f, f)
    if u is not None:
        ok = ok and c['B0'].shape == (f, u.shape[1])
        if s:
            ok = ok and c['B'].shape == (s, f, u.shape[1])
    return ok


def judge(ctx, m, y, p, u, s, w, label):
    n, f = y.shape
    L = max(p, s)
    c = coefficients(m, p, s, f, u)
    if not ctx.require(shapes_ok(c, p, s, f, u), 'coefficient-shapes', label):
        return
    ww = np.ones(n - L) if w is None else w[L:]
    R = y[L:] - predict(c, y, p, u, s)
    got = float((ww[:, None] * R * R).sum())
    want = O.weighted_ls_value(O.varx_design(y, p, u, s), y[L:], ww)
    scale = float((ww[:, None] * y[L:] ** 2).sum()) + 1e-300
    ctx.require(got <= want + 1e-8 * scale, 'least-squares-optimal', '%s: residual %r, attainable %r' % (label, got, want))
    size = float(np.abs(y).max()) + 1e-300
    res = np.array(m.residuals)
    ctx.require(res.shape == y.shape, 'residual-shape')
    ctx.close(res[L:], R, 'residuals-aligned', rtol=1e-8, atol=1e-7 * size, msg=label)
    if w is None:
        df = (n - L) - (1 + p * f + (0 if u is None else u.shape[1] * (1 + s)))
    else:
        df = float(ww.sum()) - 1
    if df > 1e-6:
        S = np.zeros((f, f))
        for t in range(n - L):
            S += ww[t] * np.outer(R[t], R[t])
        S /= df
        ctx.close(np.array(m.Sigma_u), S, 'residual-covariance', rtol=1e-6, atol=1e-8 * size * size, msg=label)
        inv = np.array(m.Sigma_u_inv)
        ev = np.linalg.eigvalsh(S)
        ctx.require(inv.shape == (f, f) and np.all(np.isfinite(inv)), 'covariance-inverse', label)
        if ev[0] > 1e-6 * ev[-1] > 0 and ev[-1] > 1e-12 * size ** 2:
            ctx.close(inv.dot(np.array(m.Sigma_u)), np.eye(f), 'covariance-inverse', atol=1e-6, msg=label)


def fits(ctx):
    rng = ctx.rng
    y, p, u, s = problem(rng)
    n, f = y.shape
    label = 'p=%d s=%d f=%d external=%r' % (p, s, f, None if u is None else u.shape[1])
    m = LLM(y, p=p, u=u, s=s)
    hist = [None, gen.pick(rng, ['uniform', 'zeros', 'binary', 'large', 'ones', 'small', 'spread'])]
    if rng.rand() < 0.5:
        hist = hist[::-1] + [gen.pick(rng, [None, 'uniform', 'small'])]
    for wk in hist:
        w = None if wk is None else weights_for(rng, n, wk)
        if w is None:
            m.fit() if rng.rand() < 0.5 else m.fit(weights=None)
        else:
            m.fit(weights=w)
        judge(ctx, m, y, p, u, s, w, label + ' weights=%r' % wk)
        fresh = LLM(y, p=p, u=u, s=s)
        fresh.fit(weights=w)
        a, b = coefficients(m, p, s, f, u), coefficients(fresh, p, s, f, u)
        ctx.require(all((a[q] is None and b[q] is None) or np.array_equal(a[q], b[q]) for q in a) and
                    np.array_equal(m.residuals[max(p, s):], fresh.residuals[max(p, s):]), 'refit-independent', label)
        ctx.seen(p, s, f, u is not None, wk, len(hist))
    ctx.note(orders=(p, s), features=f, history=[str(h) for h in hist], mu=np.array(m.mu))


def well_conditioned(y, p, u, s, w, ctx):
    L = max(p, s)
    Z = np.sqrt(w[L:])[:, None] * O.varx_design(y, p, u, s)
    sv = np.linalg.svd(Z, compute_uv=False)
    return len(Z) >= Z.shape[1] and sv[-1] > 1e-5 * sv[0]


def metamorphic(ctx):
    """weights: scale invariance, unit weights, zero-weight samples"""
    rng = ctx.rng
    y, p, u, s = problem(rng)
    n, f = y.shape
    L = max(p, s)
    w = weights_for(rng, n, gen.pick(rng, ['uniform', 'zeros', 'binary', 'small', 'spread']))
    if not well_conditioned(y, p, u, s, w, ctx):
        raise Skip()
    size = float(np.abs(y).max())

    def fit(y_, w_, u_=u):
        m = LLM(y_, p=p, u=u_, s=s)
        m.fit(weights=w_)
        return coefficients(m, p, s, f, u_), m

    def close(a, b, kind):
        for q in a:
            if a[q] is not None:
                ctx.close(a[q], b[q], kind, rtol=1e-5, atol=1e-6 * max(1, size), msg='%s p=%d s=%d' % (q, p, s))
            else:
                ctx.require(True, kind)

    base, m0 = fit(y, w)
    c = float(gen.pick(rng, [1e-3, 0.5, 7.0, 1e4]))
    close(base, fit(y, c * w)[0], 'weight-scaling')
    close(fit(y, None)[0], fit(y, np.ones(n))[0], 'unit-weights')
    # presample weights never matter
    w2 = w.copy()
    w2[:L] = rng.uniform(size=L)
    close(base, fit(y, w2)[0], 'presample-weights-ignored')
    # a zero-weight sample has no influence: change its target by changing a
    # sample all of whose appearances have zero weight
    t = rng.randint(L, n)
    w3 = w.copy()
    hi = min(n, t + max(p, s) + 1)
    w3[t:hi] = 0
    if well_conditioned(y, p, u, s, w3, ctx):
        y2 = y.copy()
        y2[t] += 5 * size * (1 + rng.uniform(size=f))
        u2 = u
        if u is not None:
            u2 = u.copy()
            u2[t] += 3.0
        close(fit(y, w3)[0], fit(y2, w3, u2)[0], 'zero-weight-samples-ignored')
        # equivalently: an integer weight repeats a sample
    ctx.seen('meta', p, s, f, u is not None)


def planted(ctx):
    """noise-free series driven by external factors: coefficients recovered"""
    rng = ctx.rng
    f, p, s, e = rng.randint(1, 3), rng.randint(0, 4), rng.randint(0, 4), rng.randint(1, 3)
    n = 80
    u = rng.randn(n, e)
    A = np.array([(0.5 / (t + 1)) * np.linalg.qr(rng.randn(f, f))[0] for t in range(p)]).reshape(p, f, f)
    B, B0, mu = rng.randn(s, f, e), rng.randn(f, e), rng.randn(f)
    L = max(p, s)
    y = np.zeros((n, f))
    y[:L] = rng.randn(L, f)
    for t in range(L, n):
        y[t] = mu + B0.dot(u[t])
        for tau in range(1, p + 1):
            y[t] += A[tau - 1].dot(y[t - tau])
        for tau in range(1, s + 1):
            y[t] += B[tau - 1].dot(u[t - tau])
    w = None if rng.rand() < 0.5 else rng.uniform(0.1, 1, size=n)
    m = LLM(y, p=int(p), u=u, s=int(s))
    m.fit(weights=w)
    # collinear lag terms (f > e) make individual coefficients arbitrary
    Z = O.varx_design(y, p, u, s)
    sv = np.linalg.svd(Z, compute_uv=False)
    judge(ctx, m, y, int(p), u, int(s), w, 'planted p=%d s=%d' % (p, s))
    if sv[-1] > 1e-6 * sv[0]:
        c = coefficients(m, p, s, f, u)
        ok = np.allclose(c['mu'], mu, atol=1e-5) and np.allclose(c['B0'], B0, atol=1e-5)
        ok = ok and (p == 0 or np.allclose(c['A'], A, atol=1e-5)) and (s == 0 or np.allclose(c['B'], B, atol=1e-5))
        ctx.require(ok, 'planted-coefficients-recovered', 'p=%d s=%d' % (p, s))
    ctx.seen('planted', f, p, s, e)


def singular(ctx):
    """singular residual covariance"""
    rng = ctx.rng
    n = rng.randint(20, 40)
    a = rng.randn(n)
    kind = gen.pick(rng, ['repeat', 'zero', 'exact'])
    if kind == 'repeat':
        y = np.c_[a, a]
    elif kind == 'zero':
        y = np.c_[a, np.zeros(n)]
    else:
        y = np.tile(rng.randn(2), (n, 1))
    p = int(rng.randint(0, 3))
    m = LLM(y, p=p)
    w = None if rng.rand() < 0.5 else rng.uniform(0.2, 1, size=n)
    m.fit(weights=w)
    judge(ctx, m, y, p, None, 0, w, 'singular (%s)' % kind)
    ctx.require(np.all(np.isfinite(np.asarray(m.Sigma_u_inv))), 'covariance-inverse', kind)
    ctx.seen('singular', kind, p, w is None)


FAMILIES = [Family('fits', fits, 500), Family('metamorphic', metamorphic, 250), Family('planted', planted, 200),
            Family('singular', singular, 60)]
