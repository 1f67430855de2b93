"""C19: invalid requests are rejected and leave the fitted model intact."""
import numpy as np
from vlib import repo, gen, jobs, models as M, fem
from vlib.recorders import differing, snapshot
from vlib.core import Family, Skip

ID = 'C19'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('invalid options, data, starting guesses and model orders, one at a time, given to fresh and to fitted models of every '
        'kind at random points of their use; fitted results and later transforms are compared bitwise with those before the '
        'rejected call; distinct = (model, invalid request, fresh or fitted)')
REQUIRED = {'rejected': 1, 'results-intact': 1, 'transforms-intact': 1, 'local-model-rejects': 1, 'furthest-sum-rejects': 1}
TECHNIQUE = 'exception monitor with bitwise state comparison around rejected calls'
LEVEL_NOTE = 'Every observed rejected call is decided exactly; the kinds of invalid requests are enumerated, their contexts sampled.'

OPTIONS = [('n_components', v) for v in (0, -1, -7, 2.5, '3', (2,))] + \
          [('max_iterations', v) for v in (0, -1, 1.5, '10', None)] + \
          [('tolerance', v) for v in (-1, -1e-9, 'a', None)]
BAD_INIT = ('bogus', 'Random', 'furthest-sum', 7)


def slightly(rng):
    """factor somewhat different from one, well beyond rounding"""
    return 1 + gen.pick(rng, [-1, 1]) * 10.0 ** rng.uniform(-3.5, -0.5)


def bad_rows(rng, W):
    W = np.array(W, dtype=float)
    how = rng.randint(3)
    if how == 0:
        return W * gen.pick(rng, [slightly(rng), 1.1, 2.0])
    if how == 1:
        i = rng.randint(len(W))
        W[i] *= gen.pick(rng, [0.5, slightly(rng), slightly(rng)])
        return W
    i = rng.randint(len(W))
    W[i, rng.randint(W.shape[1])] += gen.pick(rng, [0.2, -0.1])
    return W


def bad_shape(rng, A):
    A = np.array(A)
    axis = rng.randint(A.ndim)
    how = rng.randint(3)
    if how == 0 and A.shape[axis] > 1:
        return np.take(A, range(A.shape[axis] - 1), axis=axis)
    if how == 1 and A.ndim > 1 and A.shape[0] != A.shape[-1]:
        return np.swapaxes(A, 0, -1).copy()
    return np.concatenate([A, np.take(A, [0], axis=axis)], axis=axis)


def factor_requests(rng, name, job):
    """(label, option overrides, argument overrides, extra keyword arguments)"""
    spec = M.SPECS[name]
    n = len(job.args['data'])
    out = []
    X = job.args['data'] if name != 'KAA' else job.args['data'][:, :3]
    for _ in range(4):
        s = spec.start(rng, X, job.k, job.options)
        key = gen.pick(rng, sorted(s))
        b = dict(s)
        b[key] = bad_shape(rng, s[key])
        out.append(('custom %s of wrong shape' % key, dict(init='custom'), b))
        key = gen.pick(rng, ['weights'] + (['dictionary'] if spec.archetypal else []) +
                       (['order_weights', 'transition_matrices'] if name == 'MTD' else []))
        b = dict(s)
        if key == 'order_weights':
            b[key] = s[key] * gen.pick(rng, [1.2, slightly(rng)])
        elif key == 'transition_matrices':
            T = np.array(s[key])
            i = rng.randint(len(T))
            if rng.rand() < 0.5 or job.k == 1:
                T[i] *= gen.pick(rng, [0.8, slightly(rng)])
            else:
                T[i] = gen.rows(rng, job.k, job.k, sparse=0)
                if np.allclose(T[i].sum(axis=0), 1, atol=1e-3):
                    T[i] *= 0.8
            b[key] = T
        else:
            b[key] = bad_rows(rng, s[key])
        out.append(('custom %s not summing to one' % key, dict(init='custom'), b))
    s = spec.start(rng, X, job.k, job.options)
    init = gen.pick(rng, [None, 'random', 'furthest_sum'])
    out.append(('fixed dictionary of wrong shape', dict(init=init), dict(update_dictionary=False, dictionary=bad_shape(rng, s['dictionary']))))
    out.append(('fixed weights of wrong shape', dict(init=init), dict(update_weights=False, weights=bad_shape(rng, s['weights']))))
    out.append(('fixed weights not summing to one', dict(init=init), dict(update_weights=False, weights=bad_rows(rng, s['weights']))))
    # factors that are needed and not given
    key = gen.pick(rng, ['weights', 'dictionary'])
    out.append(('custom start without %s' % key, dict(init='custom'), {q: None if q == key else v for q, v in s.items()}))
    out.append(('fixed dictionary not given', dict(init=init), dict(update_dictionary=False, dictionary=None)))
    out.append(('fixed weights not given', dict(init=init), dict(update_weights=False, weights=None)))
    if name == 'MTD':
        out.append(('fixed order weights of wrong shape', dict(init=init), dict(
            update_parameters=False, order_weights=bad_shape(rng, s['order_weights']), transition_matrices=s['transition_matrices'])))
        out.append(('fixed transitions of wrong shape', dict(init=init), dict(
            update_parameters=False, order_weights=s['order_weights'], transition_matrices=bad_shape(rng, s['transition_matrices']))))
    if spec.archetypal:
        out.append(('fixed dictionary not summing to one', dict(init=init), dict(update_dictionary=False, dictionary=bad_rows(rng, s['dictionary']))))
    if name == 'KAA':
        out.append(('non-square kernel', {}, dict(data=rng.randn(n, n + 1))))
        out.append(('non-square kernel', {}, dict(data=rng.randn(n, n - 1))))
    if name == 'AA':
        out.append(('non-square kernel function', dict(kernel_func=lambda Z: rng.randn(n, n + 2)), {}))
    for v in BAD_INIT:
        out.append(('init=%r' % (v,), dict(init=v), {}))
    out.append(('start index out of range', dict(init='furthest_sum'), dict(start_index=n + int(rng.randint(3)))))
    out.append(('start index excluded', dict(init='furthest_sum'), dict(start_index=1, exclude=[0, 1])))
    if job.k > 1:
        out.append(('too many excluded', dict(init='furthest_sum'), dict(start_index=0, exclude=list(range(job.k - 1, n)))))
    if spec.lagged:
        for v in ([0], [1, 0], [-1], [2, -2], [1.5], [1, 2.5], ['a']):
            out.append(('lags=%r' % (v,), dict(lags=v), {}))
    return out


def fem_requests(rng, name, job):
    out = []
    n = len(job.args['data'])
    f = job.features
    if name == 'FKM':
        W = gen.rows(rng, n, job.k)
        Theta = rng.randn(job.k, f)
        P = dict(parameters=Theta, weights=W)
        rowsn = n
        out.append(('custom centroids of wrong shape', dict(init='custom'), dict(P, parameters=bad_shape(rng, Theta))))
    else:
        mem = fem.memories(job.options['memory'], job.k)
        L = max(mem)
        W = gen.rows(rng, n - L, job.k)
        u = job.args.get('external_factors')
        par = dict(mu=rng.randn(job.k, f), A=rng.randn(job.k, L, f, f) if L else None,
                   B0=rng.randn(job.k, f, u.shape[1]) if u is not None else None)
        P = dict(parameters=par, weights=W)
        for key in par:
            if par[key] is not None:
                out.append(('custom %s of wrong shape' % key, dict(init='custom'), dict(P, parameters=dict(par, **{key: bad_shape(rng, par[key])}))))
        if u is not None:
            out.append(('missing external coefficients', dict(init='custom'), dict(P, parameters=dict(par, B0=None))))
            out.append(('external factors too short', {}, dict(external_factors=u[:-1])))
            out.append(('external factors too long', {}, dict(external_factors=np.vstack([u, u[:2]]))))
        else:
            out.append(('external coefficients without factors', dict(init='custom'), dict(P, parameters=dict(par, B0=rng.randn(job.k, f, 1)))))
            out.append(('external factors too short', {}, dict(external_factors=rng.randn(n - 2, 2))))
        for v in (-1, -3, 1.5, '2', [1] * (job.k + 1), [0] * job.k + [1], [0] * (job.k - 1) + [-1], [0.5] * job.k,
                  [[1] * job.k], dict(a=1)):
            out.append(('memory=%r' % (v,), dict(memory=v), {}))
    out.append(('custom weights of wrong shape', dict(init='custom'), dict(P, weights=bad_shape(rng, W))))
    out.append(('custom weights not summing to one', dict(init='custom'), dict(P, weights=bad_rows(rng, W))))
    return out


def use_requests(rng, name, job):
    """invalid calls of transform: (label, arguments)"""
    o = job.others[rng.randint(len(job.others))]
    X = o['data']
    f = X.shape[1]
    out = []
    if name == 'KAA':
        out.append(('transform of a smaller kernel', dict(data=X[:-1, :-1])))
        out.append(('transform of a non-square kernel', dict(data=X[:, :-1])))
    elif name == 'AA':
        out.append(('transform of fewer samples', dict(data=X[:-1])))
        out.append(('transform of more samples', dict(data=np.vstack([X, X]))))
    elif name in ('PW',):
        pass
    else:
        out.append(('transform of more features', dict(o, data=np.hstack([X, X]))))
        if f > 1:
            out.append(('transform of fewer features', dict(o, data=X[:, :-1])))
    if name == 'FVX':
        if 'external_factors' in o:
            out.append(('transform without external factors', dict(data=X)))
            out.append(('transform with short external factors', dict(data=X, external_factors=o['external_factors'][:-1])))
        else:
            out.append(('transform with unexpected external factors', dict(data=X, external_factors=rng.randn(len(X), 1))))
    if name == 'FVX':
        # the other models do not look at the values of their data
        for v in (np.nan, np.inf, -np.inf):
            Y = np.array(X, dtype=float)
            Y[rng.randint(len(Y)), rng.randint(Y.shape[1])] = v
            out.append(('transform of data with %r' % v, dict(o, data=Y)))
        L = max(fem.memories(job.options['memory'], job.k))
        if L > 1:
            n2 = rng.randint(1, L)
            out.append(('transform of a series shorter than the memory', dict(
                (q, v[:n2]) for q, v in o.items())))
    if name not in ('PW', 'KMC'):
        out.append(('transform of a vector', dict(o, data=X[0])))
    return out


def attempt(call):
    """How a call ended: 'rejected', 'accepted' or the unexpected exception."""
    try:
        call()
    except (ValueError, TypeError):
        return 'rejected'
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)
    return 'accepted'


def requests(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 3, 10])))
        seed = int(rng.randint(10 ** 6))
        if name in jobs.FACTOR:
            bad = factor_requests(rng, name, job)
        else:
            bad = fem_requests(rng, name, job)
        options = [('%s=%r' % (a, v), {a: v}, {}) for a, v in OPTIONS]
        pick = [bad[i] for i in rng.choice(len(bad), min(len(bad), 6), replace=False)] + \
               [options[i] for i in rng.choice(len(options), 4, replace=False)]

        # fresh models
        for label, opts, args in pick:
            def call():
                k = opts.get('n_components', job.k)
                j = jobs.Job(name, k, dict(job.options, **{a: v for a, v in opts.items() if a not in ('init', 'n_components')}),
                             None, [], job.features, opts.get('init', job.init))
                m = j.make(seed)
                a = dict(job.args)
                a.update(args)
                data = a.pop('data')
                m.fit_transform(data, **a)
            how = attempt(call)
            ctx.require(how == 'rejected', 'rejected', '%s: %s is %s' % (name, label, how))
            ctx.seen(name, label, 'fresh')

        # fitted models
        m, twin = job.make(np.random.RandomState(seed)), job.make(np.random.RandomState(seed))
        job.run(m)
        job.run(twin)
        before = snapshot(job.state(m))
        returned = []
        if name in jobs.FACTOR + ('FKM', 'FVX'):
            returned = [(m.Gamma if hasattr(m, 'Gamma') else m.S)]
        kept = [r.copy() for r in returned]
        calls = []
        for label, opts, args in pick:
            if any(a in opts for a in ('lags', 'memory', 'kernel_func')):
                continue
            calls.append((label, opts, args, 'fit'))
        for label, args in use_requests(rng, name, job):
            calls.append((label, {}, args, 'use'))
        order = rng.permutation(len(calls))[:rng.randint(1, 5)]
        done = []
        for i in order:
            label, opts, args, what = calls[i]

            def call():
                old = {a: getattr(m, a) for a in opts}
                for a, v in opts.items():
                    setattr(m, a, v)
                try:
                    a = dict(args) if what == 'use' else dict(job.args, **args)
                    data = a.pop('data')
                    if what == 'use':
                        m.transform(data, **a)
                    else:
                        m.fit_transform(data, **a)
                finally:
                    for a, v in old.items():
                        setattr(m, a, v)
            how = attempt(call)
            if label == 'transform of a vector' and how.startswith('IndexError'):
                how = 'rejected'
            done.append(label)
            ctx.require(how == 'rejected', 'rejected', '%s (fitted): %s is %s' % (name, label, how))
            if how != 'rejected':
                return
            d = differing(before, job.state(m))
            ctx.require(not d, 'results-intact', '%s: %r changed by rejected calls %r' % (name, d, done))
            for r, k in zip(returned, kept):
                ctx.require(np.array_equal(r, k), 'results-intact', '%s: returned weights changed by %r' % (name, done))
            ctx.seen(name, label, 'fitted')
        state = np.random.RandomState(seed + 1).get_state()
        for mm in (m, twin):
            mm.random_state.set_state(state)
        d = differing(job.use(twin), job.use(m))
        ctx.require(not d, 'transforms-intact', '%s: %r after rejected calls %r' % (name, d, done))
        for mm in (m, twin):
            mm.random_state.set_state(state)
        d = differing(job.run(twin), job.run(m))
        ctx.require(not d, 'refit-intact', '%s: %r after rejected calls %r' % (name, d, done))
        ctx.note(model=name, rejected=done)
    return run


def local(ctx):
    """the local VARX model"""
    rng = ctx.rng
    n, f = rng.randint(20, 40), rng.randint(1, 4)
    y = rng.randn(n, f)
    u = rng.randn(n, rng.randint(1, 3))
    L = repo.fembv_varx.FEMBVVARXLocalLinearModel
    cases = [('p=%r' % (v,), lambda v=v: L(y, p=v)) for v in (-1, 1.5, '1', None, [1])]
    cases += [('s=%r' % (v,), lambda v=v: L(y, p=1, u=u, s=v)) for v in (-1, 0.5, '1', None)]
    cases += [('external factors %d' % d, lambda d=d: L(y, p=1, u=rng.randn(n + d, 2))) for d in (-1, 1, 5)]
    for label, c in cases:
        how = attempt(c)
        ctx.require(how == 'rejected', 'local-model-rejects', '%s is %s' % (label, how))
    m = L(y, p=int(rng.randint(0, 3)), u=u if rng.rand() < 0.5 else None)
    m.fit()
    names = ('mu', 'A', 'B', 'B0', 'Sigma_u', 'residuals')
    before = {a: snapshot(getattr(m, a)) for a in names}
    for w in (np.ones(n - 1), np.ones(n + 1), np.ones((n, 1)), np.ones((1, n)), np.ones(n - 2)):
        how = attempt(lambda: m.fit(weights=w))
        ctx.require(how == 'rejected', 'local-model-rejects', 'weights of shape %r are %s' % (w.shape, how))
        d = differing(before, {a: getattr(m, a) for a in names})
        ctx.require(not d, 'results-intact', 'local model: %r' % d)
    ctx.seen('local', n, f)


def furthest(ctx):
    """FurthestSum requests that cannot be satisfied"""
    rng = ctx.rng
    n = rng.randint(3, 12)
    Z = rng.randn(n, 2)
    D = np.sqrt(((Z[:, None] - Z[None]) ** 2).sum(-1))
    F = repo.furthest_sum_module.furthest_sum
    s = int(rng.randint(n))
    ex = [int(i) for i in rng.permutation(n) if i != s][:rng.randint(0, n - 1)]
    cases = [('start beyond', lambda: F(D, 2, n)), ('start far beyond', lambda: F(D, 1, n + 5)),
             ('start excluded', lambda: F(D, 1, s, exclude=ex + [s])),
             ('too many components', lambda: F(D, n - len(ex) + 1, s, exclude=ex)),
             ('far too many components', lambda: F(D, n + 3, s)),
             ('not square', lambda: F(D[:, :-1], 1, 0)), ('not square', lambda: F(D[:-1], 1, 0))]
    for label, c in cases:
        how = attempt(c)
        ctx.require(how == 'rejected', 'furthest-sum-rejects', '%s is %s' % (label, how))
    ctx.seen('furthest', n, len(ex))


def others(ctx):
    """k-means Markov models and piecewise models"""
    rng = ctx.rng
    n, f = 30, rng.randint(1, 3)
    X = rng.randn(n, f)
    KMC = repo.crom.KMeansMarkovCROM
    PW = repo.pwvarx.ClusterPWVARX
    cases = [('clusters %r' % (v,), lambda v=v: KMC(v, n_init=1).fit(X)) for v in (0, -2, 1.5, '2', n + 1)]
    cases += [('sample weights %r' % d, lambda d=d: KMC(2, n_init=1).fit(X, sample_weight=np.ones(n + d))) for d in (-1, 2)]
    cases += [('components %r' % (v,), lambda v=v: PW(v, 1, random_state=0).fit(X)) for v in (0, -1, 1.5, '2')]
    cases += [('order %r' % (v,), lambda v=v: PW(2, v, random_state=0).fit(X)) for v in (-1, 1.5, '1', None)]
    cases += [('exogenous order %r' % (v,), lambda v=v: PW(2, 1, s=v, random_state=0).fit(X, exog=X)) for v in (-1, 0.5, '1')]
    cases += [('exogenous length %r' % d, lambda d=d: PW(2, 1, s=1, random_state=0).fit(X, exog=rng.randn(n + d, 1))) for d in (-1, 1)]
    for label, c in cases:
        how = attempt(c)
        ctx.require(how == 'rejected', 'rejected', '%s is %s' % (label, how))
        ctx.seen('others', label)
    m = KMC(2, n_init=1, random_state=0).fit(X)
    before = {a: snapshot(getattr(m, a)) for a in ('cluster_centers_', 'labels_', 'inertia_', 'transition_matrix_')}
    p = m.predict(X, horizon=2)
    for bad in (lambda: m.fit(X, sample_weight=np.ones(3)), lambda: m.fit(X[0]), lambda: m.predict(X[:, :0])):
        how = attempt(bad)
        ctx.require(how == 'rejected', 'rejected', 'k-means call is %s' % how)
        d = differing(before, {a: getattr(m, a) for a in before})
        ctx.require(not d, 'results-intact', 'k-means: %r' % d)
        ctx.require(np.array_equal(p, m.predict(X, horizon=2), equal_nan=True), 'transforms-intact', 'k-means predictions')


FAMILIES = [Family(nm, requests(nm), q) for nm, q in (('AA', 150), ('KAA', 120), ('GPNH', 150), ('CROM', 120), ('MTD', 180),
                                                      ('FKM', 100), ('FVX', 150))]
FAMILIES += [Family('local', local, 20), Family('furthest', furthest, 60), Family('others', others, 15)]
