"""C21: results do not depend on the storage of the data."""
import copy
import numpy as np
from vlib import repo, gen, jobs, oracles as O, models as M, fem
from vlib.recorders import differing
from vlib.core import Family, Skip

ID = 'C21'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('the same numbers as C-ordered doubles and as integers of several widths, Fortran-ordered, strided, reversed, transposed, '
        'read-only, nested lists, byte-swapped or memory-mapped-like arrays, for data, starting guesses, external factors and weights of all models; '
        'single precision compared by feasibility and objective; distinct = (model, init, storage)')
REQUIRED = {'same-fit': 1, 'same-use': 1, 'single-precision-feasible': 1, 'single-precision-close': 1, 'helpers-same': 1}
TECHNIQUE = 'metamorphic monitor over storage variants of the same numbers'
LEVEL_NOTE = 'Every observed pair is decided up to rounding after few iterations; sampled data.'


def fortran(a):
    return np.asfortranarray(a)


def strided(a):
    b = np.full(tuple(2 * s for s in a.shape), 7, dtype=a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def inner(a):
    b = np.full(tuple(s + 2 for s in a.shape), -3, dtype=a.dtype)
    v = b[tuple(slice(1, -1) for _ in a.shape)]
    v[...] = a
    return v


def reverse(a):
    return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]


def readonly(a):
    b = a.copy()
    b.setflags(write=False)
    return b


def readonly_fortran(a):
    b = np.asfortranarray(a.copy())
    b.setflags(write=False)
    return b


def integers(dtype):
    def conv(a):
        b = a.astype(dtype)
        return b if np.array_equal(b, a) else a
    conv.__name__ = str(np.dtype(dtype))
    return conv


def integers_layout(a):
    b = a.astype('i4')
    return readonly(strided(b)) if np.array_equal(b, a) else a


def lists(a):
    return a.tolist()


DOCUMENTED = ('data', 'weights', 'dictionary', 'exog', 'external_factors', 'sample_weight')     # array-likes


LAYOUTS = [lists, fortran, strided, inner, reverse, readonly, readonly_fortran]
INTEGERS = [integers('i8'), integers('i4'), integers('i2'), integers('i1'), integers('u1'), integers('u2'), integers('u8'),
            integers('?'), integers_layout]
ALL = LAYOUTS + INTEGERS


def integral(rng, job):
    """Replace data by integers (exact arithmetic, no ties)."""
    digits = 60 if rng.rand() < 0.7 or job.name == 'FVX' else 60 * 2 ** 22 + 1          # beyond single precision
    low = -digits
    if rng.rand() < 0.3:
        low, digits = gen.pick(rng, [(0, 255), (0, 255), (0, 65535), (0, 2 ** 30)])

    def fix(a):
        out = {}
        for key, v in a.items():
            if key in ('data', 'external_factors', 'exog'):
                out[key] = rng.randint(low, digits + 1, size=v.shape).astype(float)
            elif key == 'dictionary' and job.name in ('GPNH', 'CROM', 'MTD'):
                out[key] = rng.randint(low, digits + 1, size=v.shape).astype(float)
            elif key == 'parameters' and job.name == 'FKM':
                out[key] = rng.randint(low, digits + 1, size=v.shape).astype(float)
            elif key == 'parameters':
                out[key] = {q: None if x is None else rng.randint(-1, 2, size=x.shape).astype(float) for q, x in v.items()}
            elif key in ('weights', 'order_weights', 'transition_matrices', 'dictionary') and rng.rand() < 0.5:
                out[key] = vertices(rng, v, key)
            elif key == 'sample_weight':
                out[key] = rng.randint(1, 4, size=v.shape).astype(float)
            else:
                out[key] = v
        if job.name == 'KAA':
            Z = rng.randint(-11, 12, size=(len(a['data']), 4)).astype(float)
            out['data'] = Z.dot(Z.T)
        return out
    job.args = fix(job.args)
    job.others = [fix(o) for o in job.others]
    return job


def vertices(rng, v, key):
    w = np.zeros_like(v)
    if key == 'transition_matrices':
        for m in w:
            m[rng.randint(m.shape[0], size=m.shape[1]), np.arange(m.shape[1])] = 1
    elif v.ndim == 1:
        w[rng.randint(len(w))] = 1
    else:
        w[np.arange(len(w)), rng.randint(w.shape[1], size=len(w))] = 1
    return w


def close(ctx, a, b, kind, msg, rtol):
    ctx.require(set(a) == set(b), kind, msg + ': results %r and %r' % (sorted(a), sorted(b)))
    for q in sorted(set(a) & set(b)):
        x, y = a[q], b[q]
        if x is None or y is None:
            ctx.require(x is None and y is None, kind, '%s: %s' % (msg, q))
            continue
        x, y = np.asarray(x, float), np.asarray(y, float)
        scale = np.nanmax(np.abs(x)) if x.size and np.any(np.isfinite(x)) else 0.0
        if not ctx.close(y, x, kind, rtol=0, atol=rtol * (scale + 1e-12), msg='%s: %s' % (msg, q)):
            return


def as_lists(job, args):
    return {q: v.tolist() if q in DOCUMENTED and isinstance(v, np.ndarray) else v for q, v in args.items()}


def outcome(job, seed, conv, conv_use=None):
    try:
        m = job.make(seed)
        if conv is lists:
            listed = copy.copy(job)
            listed.args, listed.others = as_lists(job, job.args), [as_lists(job, o) for o in job.others]
            return listed.run(m), listed.use(m)
        r = job.run(m, conv=conv)
        u = job.use(m, conv=conv_use or conv)
        return r, u
    except ValueError as e:
        if job.name == 'PW' and 'class' in str(e):
            raise Skip()
        raise


def storage(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, kinds=('gauss', 'ar', 'offset'), limit=int(gen.pick(rng, [1, 2, 4])))
        if name in jobs.FACTOR:
            job.options['tolerance'] = 0
        ints = rng.rand() < 0.5
        if ints:
            job = integral(rng, job)
        pool = ALL if ints else LAYOUTS
        seed = int(rng.randint(10 ** 6))
        base, use = outcome(job, seed, jobs.ident)
        if not all(np.all(np.isfinite(np.asarray(v, float))) for q, v in base.items()
                   if v is not None and q not in ('transition_matrix_', 'Sigma_u')):
            raise Skip()
        for conv in [pool[i] for i in rng.choice(len(pool), 3, replace=False)]:
            got, gu = outcome(job, seed, conv)
            label = '%s (init %r, %d iterations) with %s data' % (name, job.init, job.options.get('max_iterations', 0), conv.__name__)
            # rounding differences are amplified by few iterations only
            rtol = 1e-5 if name in ('FKM', 'FVX') else 1e-6
            close(ctx, base, got, 'same-fit', label, rtol)
            close(ctx, use, gu, 'same-use', label, rtol)
            ctx.seen(name, job.init, conv.__name__, ints)
        ctx.note(model=name, init=job.init, integers=bool(ints))
    return run


def single(x):
    return x.astype('f4') if x.dtype.kind == 'f' else x


def single_precision(name):
    """single precision data"""
    def run(ctx):
        rng = ctx.rng
        spec = M.SPECS[name]
        X, k, o, kind = M.problem(rng, spec, kinds=('gauss', 'ar', 'clusters', 'simplex', 'dup', 'offset'))
        o.update(max_iterations=int(gen.pick(rng, [1, 3, 10, 60])))
        if rng.rand() < 0.5:
            o['tolerance'] = 0
        init = gen.pick(rng, ['random', 'furthest_sum', 'custom'])
        X = X.astype('f4').astype('f8')
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        seed = int(rng.randint(10 ** 6))
        K = spec.observed(X)
        m = spec.make(k, o, init=init, random_state=seed)
        s4 = {a: (v.astype('f4') if rng.rand() < 0.5 else v) for a, v in start.items()}
        W = m.fit_transform(K.astype('f4'), **s4)
        F = spec.factors(m, W)
        F = {a: (v if a == 'lags' else np.asarray(v, float)) for a, v in F.items()}
        label = '%s init %r kind %s, %d iterations' % (name, init, kind, o['max_iterations'])
        ctx.require(spec.shapes_ok(F, X.shape[0], X.shape[1], k), 'single-precision-feasible', label)
        d = spec.defects(F)
        ctx.require(max(d.values()) < 1e-4, 'single-precision-feasible', '%s: %r' % (label, d))
        # close to double precision: both descend from the same start
        m2 = spec.make(k, o, init=init, random_state=seed)
        F2 = spec.factors(m2, m2.fit_transform(K, **start))
        a, b = spec.objective(X, F, o), spec.objective(X, F2, o)
        scale = spec.cost_scale(X, o, F2)
        # cost reported in single precision
        ctx.require(abs(m.cost_ - a) <= 1e-4 * scale, 'single-precision-close',
                    '%s: reports %r for objective %r' % (label, float(m.cost_), a))
        if o['max_iterations'] <= 3 and init != 'furthest_sum' and abs(a - b) <= 2e-2 * scale:
            ctx.require(True, 'single-precision-close')
        elif o['max_iterations'] <= 3 and init != 'furthest_sum':
            # may the fit itself be sensitive to rounding of data and starts?
            probes = []
            for i in range(12):
                Y = X * (1 + 10.0 ** rng.uniform(-8, -6) * rng.randn(*X.shape))
                s2 = {q: v * (1 + 10.0 ** rng.uniform(-8, -6) * rng.randn(*np.shape(v))) if q in ('weights', 'dictionary') and np.size(v) else v
                      for q, v in start.items()}
                m3 = spec.make(k, o, init=init, random_state=seed)
                probes.append(spec.objective(X, spec.factors(m3, m3.fit_transform(spec.observed(Y), **s2)), o))
            spread = max(abs(c - b) for c in probes)
            ctx.require(abs(a - b) <= 2e-2 * scale + 30 * spread, 'single-precision-close',
                        '%s: objective %r, in double %r, of perturbed fits %r' % (label, a, b, probes))
            ctx.count('sensitive single precision fits')
        W = np.asarray(m.transform(K.astype('f4')), float)
        ctx.require(O.simplex_defect(W, 1) < 1e-4, 'single-precision-feasible', label + ' transform')
        ctx.seen('single', name, init, kind, o['max_iterations'])
    return run


def single_others(ctx):
    """single precision data in the other models"""
    rng = ctx.rng
    name = gen.pick(rng, ['FKM', 'FVX', 'PW', 'KMC'])
    job = jobs.build(rng, name, kinds=('gauss', 'ar'))
    if name in ('FKM', 'FVX'):
        job.options['max_iterations'] = 1
    job.args = jobs.convert(job.args, lambda v: v.astype('f4').astype('f8') if v.ndim > 1 and v.shape[-1] != job.k else v)
    seed = int(rng.randint(10 ** 6))
    a, u = outcome(job, seed, jobs.ident)
    b, v = outcome(job, seed, single)
    if name in ('FKM', 'FVX'):
        G = np.asarray(b['returned'], float)
        ctx.require(O.simplex_defect(G, 1) < 1e-4, 'single-precision-feasible', name)
        ctx.require(abs(a['cost_'] - b['cost_']) <= 1e-3 * (abs(a['cost_']) + np.sum(job.args['data'] ** 2)),
                    'single-precision-close', '%s cost %r vs %r' % (name, a['cost_'], b['cost_']))
        for q in ('Theta', 'mu', 'A', 'B0'):
            if a.get(q) is not None:
                ctx.close(b[q], a[q], 'single-precision-close', rtol=0, atol=1e-2 * (1 + np.abs(a[q]).max()), msg='%s %s' % (name, q))
    elif name == 'KMC':
        T = b['transition_matrix_']
        ok = np.isfinite(T).all(axis=0)
        ctx.require(np.allclose(T[:, ok].sum(axis=0), 1), 'single-precision-feasible', name)
    else:
        L = max(job.options['p'], job.options['s'])
        ctx.require(np.all((b['returned'] >= 0) & (b['returned'] < job.k)), 'single-precision-feasible', name)
        ctx.require(len(b['returned']) == len(job.args['data']) - L, 'single-precision-feasible', name)
    ctx.seen('single', name, job.init, job.k)


def helpers(ctx):
    """local models, projections and FurthestSum"""
    rng = ctx.rng
    which = gen.pick(rng, ['local', 'project', 'matrix', 'furthest', 'inverse'])
    conv = gen.pick(rng, ALL)
    kind = 'helpers-same'
    if which == 'local':
        n, f, p = rng.randint(25, 45), rng.randint(1, 3), int(rng.randint(0, 3))
        y = rng.randint(-40, 41, size=(n, f)).astype(float)
        if rng.rand() < 0.4:
            # digits that single precision does not hold
            conv = gen.pick(rng, ALL + INTEGERS)
            y = y * 2 ** 21 + rng.randint(-40, 41, size=(n, f))
        e = rng.randint(0, 3)
        u = rng.randint(-40, 41, size=(n, e)).astype(float) if e else None
        w = rng.randint(0, 4, size=n).astype(float) if rng.rand() < 0.6 else None
        s = int(rng.randint(0, 3)) if e else 0
        out = []
        for c in (jobs.ident, conv):
            m = repo.fembv_varx.FEMBVVARXLocalLinearModel(c(y), p=p, u=None if u is None else c(u), s=s)
            m.fit() if w is None else m.fit(weights=w if c is lists else c(w))
            out.append({a: getattr(m, a) for a in ('mu', 'A', 'B', 'B0', 'Sigma_u', 'residuals')})
        close(ctx, out[0], out[1], kind, 'local model with %s data' % conv.__name__, 2e-9)
    elif which == 'project':
        x = rng.randint(-5, 6, size=rng.randint(1, 9)).astype(float)
        a = repo.simplex_projection.simplex_project_vector(x)
        b = repo.simplex_projection.simplex_project_vector(conv(x))
        ctx.close(b, a, kind, atol=1e-12, msg='projection of a %s vector' % conv.__name__)
    elif which == 'matrix':
        A = rng.randn(rng.randint(1, 7), rng.randint(1, 7))
        c = gen.pick(rng, [fortran, strided, inner, reverse])
        for func in (repo.simplex_projection.simplex_project_rows, repo.simplex_projection.simplex_project_columns):
            P, Q = A.copy(), c(A.copy())
            func(P)
            func(Q)
            ctx.close(Q, P, kind, atol=1e-12, msg='in-place projection of a %s matrix' % c.__name__)
    elif which == 'furthest':
        n = rng.randint(4, 15)
        Z = rng.permutation(200)[:n].astype(float)
        if rng.rand() < 0.6:
            conv = gen.pick(rng, [integers('u1'), integers('u1'), integers('i2')])
            if conv.__name__ == 'int16':
                Z = Z * 160
        D = np.abs(Z[:, None] - Z[None])
        k, s, t = int(rng.randint(1, n)), int(rng.randint(n)), int(rng.randint(0, 5))
        a = repo.furthest_sum_module.furthest_sum(D, k, s, extra_steps=t)
        b = repo.furthest_sum_module.furthest_sum(conv(D), k, s, extra_steps=t)
        tot = lambda sel: D[np.ix_(sel, sel)].sum()
        ctx.require(list(a) == list(b), kind, 'FurthestSum of %s dissimilarities: %r %r' % (conv.__name__, a, b))
    else:
        name = gen.pick(rng, list(jobs.FACTOR))
        job = jobs.build(rng, name, limit=2)
        m = job.make(1)
        job.run(m)
        W = np.eye(job.k)[rng.randint(job.k, size=6)]
        ctx.close(m.inverse_transform(conv(W)), m.inverse_transform(W), kind, atol=1e-9 * (1 + np.abs(m.dictionary_).max()), msg=name)
    ctx.seen('helper', which, conv.__name__)


FAMILIES = [Family(nm, storage(nm), q) for nm, q in (('AA', 80), ('KAA', 60), ('GPNH', 80), ('CROM', 70), ('MTD', 80), ('FKM', 50),
                                                     ('FVX', 60), ('PW', 50), ('KMC', 40))]
FAMILIES += [Family('single_' + nm, single_precision(nm), q) for nm, q in (('AA', 60), ('KAA', 50), ('GPNH', 60), ('CROM', 50), ('MTD', 60))]
FAMILIES += [Family('single_others', single_others, 80), Family('helpers', helpers, 250)]
