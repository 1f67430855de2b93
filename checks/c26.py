"""C26: equivariance under relabelling and rigid motion."""
import numpy as np
from vlib import repo, gen, fem, models as M
from vlib.core import Family, Skip

ID = 'C26'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('pairs of fits, one of transformed data from the correspondingly transformed starting guess, with the same number of '
        'iterations; permutations of components, features, samples and lags, rotations, translations and their combinations; '
        'pairs whose original fit is itself sensitive to rounding (a start perturbed by 1e-13 ends elsewhere) are counted and '
        'not judged; distinct = (model, transformation, data kind, n, f, k, iterations)')
REQUIRED = {'equivariant': 1, 'cost-invariant': 1, 'transform-equivariant': 1}
TECHNIQUE = 'metamorphic monitor: relations between recorded results of pairs of fits'
LEVEL_NOTE = 'Every observed pair is decided to rounding accuracy; sampled data, starts and transformations.'
TOL = 1e-4
KINDS = ('gauss', 'clusters', 'simplex', 'ar', 'constcol', 'dup', 'offset')


def rotation(rng, f):
    Q, R = np.linalg.qr(rng.randn(f, f))
    return Q * np.sign(np.diag(R))


def near(a, b, scale):
    return a.shape == b.shape and float(np.max(np.abs(a - b), initial=0)) <= TOL * (scale + 1e-300)


def factorisation(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        o = spec.options(rng)
        n = rng.randint(max(4, spec.min_samples(o)), max(16, spec.min_samples(o) + 4))
        f, k = rng.randint(1, 5), rng.randint(1, 5)
        kind = gen.pick(rng, KINDS)
        X = gen.data(rng, n, f, kind)
        its = int(gen.pick(rng, [1, 2, 3, 5, 10]))
        s = spec.start(rng, X, k, o)
        o2 = dict(o)
        t = dict(s)
        Y = X
        # invertible maps, applied one after the other
        what = []
        back = []        # maps taking results of the second fit back
        if rng.rand() < 0.6:
            p = rng.permutation(k)
            inv = np.argsort(p)
            t['weights'] = t['weights'][:, p]
            t['dictionary'] = t['dictionary'][p]
            if name == 'MTD':
                t['transition_matrices'] = t['transition_matrices'][:, p][:, :, p]
            what.append('components')

            def undo(F, inv=inv):
                F['W'], F['D'] = F['W'][:, inv], F['D'][inv]
                if name == 'MTD':
                    F['T'] = F['T'][:, inv][:, :, inv]
            back.append(undo)
        if name == 'MTD' and rng.rand() < 0.5:
            p = rng.permutation(len(o['lags']))
            inv = np.argsort(p)
            o2['lags'] = [o['lags'][i] for i in p]
            t['order_weights'], t['transition_matrices'] = t['order_weights'][p], t['transition_matrices'][p]
            what.append('lags')

            def undo(F, inv=inv):
                F['w'], F['T'] = F['w'][inv], F['T'][inv]
            back.append(undo)
        if name in ('AA', 'KAA', 'GPNH') and rng.rand() < 0.5:
            q = rng.permutation(n)
            qi = np.argsort(q)
            Y = Y[q]
            t['weights'] = t['weights'][q]
            if spec.archetypal:
                t['dictionary'] = t['dictionary'][:, q]
            what.append('samples')

            def undo(F, qi=qi):
                F['W'] = F['W'][qi]
                if spec.archetypal:
                    F['D'] = F['D'][:, qi]
            back.append(undo)
        if rng.rand() < 0.4:
            Q = np.eye(f)[rng.permutation(f)]
            what.append('features')
        elif rng.rand() < 0.7:
            Q = rotation(rng, f)
            what.append('rotation')
        else:
            Q = None
        if Q is not None:
            Y = Y.dot(Q)
            if not spec.archetypal:
                t['dictionary'] = t['dictionary'].dot(Q)

                def undo(F, Q=Q):
                    F['D'] = F['D'].dot(Q.T)
                back.append(undo)
        if rng.rand() < 0.4:
            b = rng.randn(f)
            Y = Y + b
            if not spec.archetypal:
                t['dictionary'] = t['dictionary'] + b

                def undo(F, b=b):
                    F['D'] = F['D'] - b
                back.append(undo)
            what.append('translation')
        if not what:
            raise Skip()
        base = dict(init='custom', tolerance=0, max_iterations=its, random_state=0)

        def fit(Z, opts, start):
            m = spec.make(k, opts, **base)
            F = spec.fit(m, Z, **start)
            F['cost'] = float(m.cost_)
            return m, F
        m1, A = fit(X, o, s)
        # rounding sensitivity of this very problem
        ds = float(np.abs(A['D']).max()) + float(np.abs(X).max()) + float(np.abs(Y).max()) + 1e-3
        keys = ['W', 'D'] + (['w', 'T'] if name == 'MTD' else [])

        def sensitive(times, X=X, s=s, o=o, A=A):
            ps = dict(s)
            for i in range(times):
                eps = (1e-13, 1e-11, 1e-15, 1e-12, 3e-16, 1e-14)[i % 6]
                pz = lambda a, sc=1.0: a + eps * sc * rng.randn(*a.shape)
                if spec.archetypal:
                    ps['dictionary'] = np.abs(pz(s['dictionary']))
                    ps['dictionary'] /= ps['dictionary'].sum(axis=1, keepdims=True)
                else:
                    ps['dictionary'] = pz(s['dictionary'], ds)
                ps['weights'] = np.abs(pz(s['weights']))
                ps['weights'] /= ps['weights'].sum(axis=1, keepdims=True)
                _, A2 = fit(pz(X, ds), o, ps)
                if not all(float(np.abs(A[q] - A2[q]).max()) <= 1e-3 * TOL * (ds if q == 'D' else 1) for q in keys):
                    return True
            return False
        if A['cost'] <= 1e-9 * spec.cost_scale(X, o, A) or sensitive(2):
            ctx.count('pairs sensitive to rounding, not judged')
            raise Skip()
        m2, B = fit(np.ascontiguousarray(Y), o2, t)
        raw = {q: B[q].copy() for q in keys}
        for undo in reversed(back):
            undo(B)
        label = '%s: %s, %d iterations (%s)' % (name, '+'.join(what), its, kind)
        differs = not all(near(B[q], A[q], ds if q == 'D' and not spec.archetypal else 1.0) for q in keys)
        if differs and (sensitive(40) or sensitive(40, np.ascontiguousarray(Y), t, o2, raw)):
            ctx.count('pairs sensitive to rounding, not judged')
            raise Skip()
        for q in keys:
            ctx.require(near(B[q], A[q], ds if q == 'D' and not spec.archetypal else 1.0), 'equivariant',
                        '%s: %s differ by %r' % (label, q, float(np.abs(B[q] - A[q]).max())), first=A[q], second=B[q])
        sc = spec.cost_scale(X, o, A) + spec.cost_scale(Y, o)
        ctx.require(abs(A['cost'] - B['cost']) <= 1e-2 * TOL * sc + 1e-9, 'cost-invariant', '%s: %r and %r' % (label, A['cost'], B['cost']))
        if its <= 3 and k > 1 and 'components' not in what and 'samples' not in what:
            # transforms start from random weights of the same generator state
            m1.max_iterations = m2.max_iterations = 3
            m1.random_state = m2.random_state = 5
            def again(m, Z):
                m.random_state = 5
                return np.array(m.transform(spec.observed(Z)))
            V1, V2 = again(m1, X), again(m2, np.ascontiguousarray(Y))
            if near(V2, V1, 1.0):
                ctx.require(True, 'transform-equivariant')
            else:
                probes = [again(m1, X + 10.0 ** -rng.randint(11, 16) * ds * rng.randn(*X.shape)) for _ in range(40)]
                if all(float(np.abs(V - V1).max()) <= 1e-3 * TOL for V in probes):
                    ctx.require(False, 'transform-equivariant', label)
        for w in what:
            ctx.count('pairs with transformed ' + w)
        ctx.seen(name, tuple(what), kind, n, f, k, its)
        ctx.note(model=name, transformation=what, n=n, k=k, iterations=its, cost=A['cost'])
    return run


def kmeans(ctx):
    """FEM-BV-k-means"""
    rng = ctx.rng
    n, f = rng.randint(4, 30), rng.randint(1, 4)
    k = rng.randint(1, min(4, n) + 1)
    kind = gen.pick(rng, ('gauss', 'clusters', 'simplex', 'ar'))
    X = gen.data(rng, n, f, kind)
    bound = gen.pick(rng, [None, None, 1, 2, 4])
    its = int(rng.randint(1, 5))
    P = X[rng.choice(n, k, replace=False)] + 0.1 * rng.randn(k, f)
    G = gen.rows(rng, n, k)
    Y, P2, G2, what = X, P, G, []
    p, q, b, c = np.arange(k), np.arange(n), np.zeros(f), 1.0
    Q = np.eye(f)
    if rng.rand() < 0.5:
        p = rng.permutation(k)
        what.append('components')
    if bound is None and rng.rand() < 0.5:
        q = rng.permutation(n)
        what.append('samples')
    elif rng.rand() < 0.3:
        q = np.arange(n)[::-1]
        what.append('reversal')
    if rng.rand() < 0.5:
        Q = rotation(rng, f)
        what.append('rotation')
    if rng.rand() < 0.5:
        far = gen.pick(rng, [1, 1, 1, 1e4, 1e8])
        b = 5 * far * rng.randn(f)
        what.append('translation' if far == 1 else 'far translation')
    if rng.rand() < 0.3 and 'far translation' not in what:
        c = gen.pick(rng, [1e-3, 0.1, 10.0, 1e3])
        what.append('scaling')
    if not what:
        raise Skip()
    Y = c * X[q].dot(Q) + b
    P2 = c * P[p].dot(Q) + b
    G2 = np.ascontiguousarray(G[q][:, p])

    def fit(Z, par, g):
        m = repo.fembv_kmeans.FEMBVKMeans(k, max_tv_norm=bound, init='custom', tolerance=0, max_iterations=its, random_state=0)
        return m, np.array(m.fit_transform(Z, parameters=par, weights=g)), np.array(m.Theta), float(m.cost_)
    m1, Ga, Ta, ca = fit(X, P, G)
    _, G3, T3, c3 = fit(X * (1 + 1e-7 * rng.randn(*X.shape)), P * (1 + 1e-7 * rng.randn(*P.shape)), G)
    if np.abs(G3 - Ga).max() > 1e-3 or np.abs(T3 - Ta).max() > 1e-3 * np.abs(X).max():
        ctx.count('pairs sensitive to rounding, not judged')
        raise Skip()
    m2, Gb, Tb, cb = fit(Y, P2, G2)
    pi, qi = np.argsort(p), np.argsort(q)
    Gb = Gb[qi][:, pi]
    Tb = ((Tb[pi] - b) / c).dot(Q.T)
    cb /= c * c
    label = 'k-means: %s, %d iterations (%s, bound %r)' % ('+'.join(what), its, kind, bound)
    ctx.require(np.abs(Gb - Ga).max() <= 1e-2, 'equivariant', label + ': affiliations differ', first=Ga, second=Gb)
    ctx.require(np.abs(Tb - Ta).max() <= 1e-2 * np.abs(X).max(), 'equivariant', label + ': centroids differ', first=Ta, second=Tb)
    ctx.require(abs(ca - cb) <= 1e-3 * float(np.sum(X * X)), 'cost-invariant', '%s: %r and %r' % (label, ca, cb))
    for w in what:
        ctx.count('pairs with transformed ' + w)
    ctx.seen('kmeans', tuple(what), kind, n, f, k, its, bound)


def varx(ctx):
    """FEM-BV-VARX"""
    rng = ctx.rng
    X, u, k, mem, o, kind = fem.varx_problem(rng, kinds=('gauss', 'ar', 'clusters'))
    mems = fem.memories(mem, k)
    n, f = X.shape
    bound = gen.pick(rng, [None, None, 1, 3])
    its = int(rng.randint(1, 4))
    G = gen.rows(rng, n - max(mems), k, sparse=0)
    Q, b, p, E, what = np.eye(f), np.zeros(f), np.arange(k), None, []
    if rng.rand() < 0.5:
        p = rng.permutation(k)
        what.append('components')
    if rng.rand() < 0.5:
        Q = rotation(rng, f)
        what.append('rotation')
    if rng.rand() < 0.4:
        b = 3 * rng.randn(f)
        what.append('translation')
    if u is not None and rng.rand() < 0.5:
        E = rotation(rng, u.shape[1]) * 2.0
        what.append('external')
    if not what:
        raise Skip()
    Y = X.dot(Q) + b
    v = u if E is None else u.dot(E)
    mems2 = [mems[i] for i in p]

    def fit(Z, w, g, ms):
        m = repo.fembv_varx.FEMBVVARX(k, memory=list(ms), max_tv_norm=bound, init='custom', tolerance=0, max_iterations=its,
                                      random_state=0)
        kw = {} if w is None else dict(external_factors=w)
        W = np.array(m.fit_transform(Z, weights=g, **kw))
        s = fem.varx_state(m, ms)
        return W, s, float(m.cost_)
    Wa, sa, ca = fit(X, u, G, mems)
    W3, s3, c3 = fit(X * (1 + 1e-7 * rng.randn(*X.shape)), u, G, mems)

    def same(W, s, c, tol, judge=None):
        out = [('affiliations', W, Wa, 1.0), ('intercepts', s['mu'], sa['mu'], 1 + np.abs(sa['mu']).max())]
        if sa['A'] is not None:
            out += [('lag matrices of component %d' % i, s['A'][i, :mems[i]], sa['A'][i, :mems[i]], 1 + np.abs(sa['A'][i]).max(initial=0))
                    for i in range(k) if mems[i]]
        if sa['B0'] is not None:
            out.append(('external matrices', s['B0'], sa['B0'], 1 + np.abs(sa['B0']).max()))
        bad = [q for q, x, y, sc in out if x.shape != y.shape or not np.abs(x - y).max() <= tol * sc]
        if not abs(c - ca) <= tol * float(np.sum(X * X)):
            bad.append('cost')
        return bad
    if same(W3, s3, c3, 1e-3):
        ctx.count('pairs sensitive to rounding, not judged')
        raise Skip()
    Wb, sb, cb = fit(Y, v, np.ascontiguousarray(G[:, p]), mems2)
    pi = np.argsort(p)
    Wb = Wb[:, pi]
    mu = sb['mu'][pi]
    A = None if sb['A'] is None else sb['A'][pi]
    B0 = None if sb['B0'] is None else sb['B0'][pi]
    # y = X Q + b: intercepts of the original variables
    mu = np.array([(mu[i] - b + (0 if A is None else sum(A[i, l].dot(b) for l in range(mems[i])))).dot(Q.T) for i in range(k)])
    if A is not None:
        A = np.array([[Q.dot(A[i, l]).dot(Q.T) for l in range(A.shape[1])] for i in range(k)])
    if B0 is not None:
        B0 = np.array([Q.dot(B0[i]).dot(np.eye(u.shape[1]) if E is None else E.T) for i in range(k)])
    label = 'VARX: %s, %d iterations (%s, memory %r, bound %r)' % ('+'.join(what), its, kind, mems, bound)
    bad = same(Wb, dict(mu=mu, A=A, B0=B0), cb, 1e-2)
    ctx.require(not [q for q in bad if q != 'cost'], 'equivariant', '%s: %s differ' % (label, ', '.join(bad)))
    ctx.require('cost' not in bad, 'cost-invariant', '%s: %r and %r' % (label, ca, cb))
    for w in what:
        ctx.count('pairs with transformed ' + w)
    ctx.seen('varx', tuple(what), kind, n, f, k, its, bound)


FAMILIES = [Family(nm, factorisation(nm), q) for nm, q in (('AA', 300), ('KAA', 150), ('GPNH', 400), ('MTD', 500))]
FAMILIES += [Family('kmeans', kmeans, 250), Family('varx', varx, 250)]
