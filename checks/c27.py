"""C27: fit and fit_transform agree; copies of models are equivalent and independent."""
import copy
import pickle
import numpy as np
from vlib import gen, jobs
from vlib.recorders import snapshot, same, differing
from vlib.core import Family, Skip

ID = 'C27'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('equally seeded fits through fit and fit_transform, and deep copies and pickles of models taken before the fit, after '
        'it and between transforms, compared bitwise in state and later use, while the original or the copy is refitted; '
        'distinct = (model, init, k, moment of copying, method)')
REQUIRED = {'fit-returns-model': 1, 'fit-equals-fit-transform': 1, 'copy-equals-original': 1, 'copy-behaves-as-original': 1,
            'copies-independent': 1, 'returned-values-consistent': 1}
TECHNIQUE = 'differential monitor (bitwise) over alternative calls and copied models'
LEVEL_NOTE = 'Every observed pair is decided bitwise; sampled models, data and histories.'


def fit_only(job, model):
    a = jobs.convert(job.args, jobs.ident)
    data = a.pop('data')
    return model.fit(data, **a)


def agree(name):
    def run(ctx):
        """fit, then state and uses, against fit_transform"""
        rng = ctx.rng
        job = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        a, b = job.make(seed), job.make(seed)
        try:
            if rng.rand() < 0.4:
                # objects that were fitted before, in either way
                for m in (a, b):
                    m.fit(job.args['data'][::-1].copy(), **{q: v for q, v in jobs.convert(job.args, jobs.ident).items() if q != 'data'})
                    if hasattr(m, 'random_state') and isinstance(m.random_state, np.random.RandomState):
                        m.random_state = np.random.RandomState(seed)
            ra = job.run(a)
            out = fit_only(job, b)
        except ValueError:
            if name == 'PW':
                raise Skip()        # a single class after clustering
            raise
        ctx.require(out is b, 'fit-returns-model', name)
        returned = ra.pop('returned', None)
        d = differing(ra, job.state(b))
        ctx.require(not d, 'fit-equals-fit-transform', '%s (init %r): %r differ' % (name, job.init, d))
        if name == 'KMC':
            # each of its ways to fit
            if 'sample_weight' in job.args and rng.rand() < 0.7:
                job.args['sample_weight'] = job.args['sample_weight'] ** 5
                b = job.make(seed)
                fit_only(job, b)
                a = job.make(seed)
                job.run(a)
            args = jobs.convert(job.args, jobs.ident)
            data = args.pop('data')
            for how in ('fit_predict', 'fit_transform'):
                c = job.make(seed)
                got = np.asarray(getattr(c, how)(data, **args))
                want = np.asarray(b.labels_ if how == 'fit_predict' else b.transform(data))
                ctx.require(same(got, want), 'fit-equals-fit-transform', '%s by %s: %r instead of %r' % (name, how, got, want))
                d = differing(job.state(c), job.state(b))
                ctx.require(not d, 'fit-equals-fit-transform', '%s by %s: %r differ' % (name, how, d))
        d = differing(job.use(a), job.use(b))
        ctx.require(not d, 'fit-equals-fit-transform', '%s (init %r): %r differ afterwards' % (name, job.init, d))
        if returned is not None and name in jobs.FACTOR:
            # the returned representation belongs to the fitted dictionary
            ctx.require(returned.shape == (len(job.args['data']), job.k), 'returned-values-consistent')
            R = np.asarray(a.inverse_transform(returned))
            D = np.asarray(a.dictionary_)
            ctx.close(R, returned.dot(D), 'returned-values-consistent', rtol=1e-12, atol=1e-12 * (1 + np.abs(D).max()))
        ctx.seen(name, job.init, job.k, 'agree')
        ctx.note(model=name, init=job.init, k=job.k)
    return run


def duplicate(rng, m):
    how = gen.pick(rng, ['deepcopy', 'pickle'])
    return how, (copy.deepcopy(m) if how == 'deepcopy' else pickle.loads(pickle.dumps(m)))


def copies(name):
    def run(ctx):
        """copies before and after fitting, used and refitted independently"""
        rng = ctx.rng
        job = jobs.build(rng, name)
        other = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        a = job.make(seed)
        when = gen.pick(rng, ['before', 'after', 'after', 'used'])
        try:
            if when == 'before':
                how, b = duplicate(rng, a)
                ra, rb = job.run(a), job.run(b)
                d = differing(ra, rb)
                ctx.require(not d, 'copy-behaves-as-original', '%s copied (%s) before its fit: %r differ' % (name, how, d))
            else:
                job.run(a)
                if when == 'used':
                    job.use(a, which=0)
                how, b = duplicate(rng, a)
        except ValueError:
            if name == 'PW':
                raise Skip()
            raise
        sa = snapshot(job.state(a))
        d = differing(sa, job.state(b))
        ctx.require(not d, 'copy-equals-original', '%s copied (%s, %s): %r differ' % (name, how, when, d))
        ua = job.use(a)
        ub = job.use(b)
        d = differing(ua, ub)
        ctx.require(not d, 'copy-behaves-as-original', '%s copied (%s, %s): %r differ' % (name, how, when, d))
        # refit one of them on other data: the other one keeps its state
        first, second = (a, b) if rng.rand() < 0.5 else (b, a)
        before = snapshot(job.state(second))
        args = dict(other.args)
        if name in jobs.FACTOR and job.init != 'custom':
            args = dict(data=other.args['data'])
        try:
            if name in jobs.FACTOR and job.init == 'custom':
                first.init = 'random'
                args = dict(data=other.args['data'])
            if rng.rand() < 0.5:        # other data of equal shape
                args = {q: v for q, v in job.args.items() if q in ('data', 'external_factors', 'exog', 'sample_weight')}
                X = np.array(args['data'], dtype=float)
                args['data'] = 1.5 * X if name == 'KAA' else X[rng.permutation(len(X))] + 0.1 * rng.randn(*X.shape)
            first.fit(args.pop('data'), **args)
        except (ValueError, TypeError, IndexError, AssertionError):
            ctx.count('refits rejected')
        for attr in ('dictionary_', 'Theta', 'mu', 'order_weights', 'transition_matrices', 'A', 'B', 'B0', 'Sigma_u', 'residuals', 'labels_', 'cluster_centers_',
                     'transition_matrix_'):
            v = getattr(first, attr, None)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 7.0
        d = differing(before, job.state(second))
        ctx.require(not d, 'copies-independent', '%s (%s): %r changed with the other copy' % (name, how, d))
        ctx.seen(name, job.init, job.k, when, how)
        ctx.note(model=name, copied=when, by=how)
    return run


FAMILIES = [Family('agree_' + nm, agree(nm), q) for nm, q in (
    ('AA', 100), ('KAA', 60), ('GPNH', 100), ('CROM', 80), ('MTD', 100), ('FKM', 60), ('FVX', 60), ('PW', 30), ('KMC', 50))]
FAMILIES += [Family('copies_' + nm, copies(nm), q) for nm, q in (
    ('AA', 80), ('KAA', 50), ('GPNH', 80), ('CROM', 60), ('MTD', 80), ('FKM', 50), ('FVX', 60), ('PW', 20), ('KMC', 40))]
