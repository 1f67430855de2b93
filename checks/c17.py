"""C17: caller arrays and earlier results are never modified."""
import numpy as np
from vlib import repo, gen, jobs, models as M, fem
from vlib.recorders import same, differing, snapshot
from vlib.core import Family, Skip

ID = 'C17'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('call sequences on one or two models of every kind with all arguments and all retained results compared bitwise after '
        'every call, and caller arrays overwritten after the fit; helper routines on random arguments; distinct = '
        '(model, init, sequence)')
REQUIRED = {'arguments-unmodified': 1, 'earlier-results-unmodified': 1, 'fitted-model-detached-from-arguments': 1,
            'helper-arguments-unmodified': 1, 'options-unmodified': 1}
TECHNIQUE = 'shadow-copy monitor over call sequences'
LEVEL_NOTE = 'Every argument and retained result of the observed sequences is decided bitwise after every call.'


class Shadow(object):
    def __init__(self, ctx, label):
        self.ctx, self.label, self.items = ctx, label, []

    def keep(self, kind, name, value):
        if isinstance(value, (np.ndarray, dict, list)):
            self.items.append((kind, name, value, snapshot(value)))
        return value

    def check(self, after):
        for kind, name, v, c in self.items:
            ok = same(snapshot(v), c)
            self.ctx.require(ok, kind, '%s: %s changed by %s' % (self.label, name, after))
            if not ok:
                return False
        return True


def live_results(job, m):
    names = dict(FKM=('Theta',), FVX=('mu', 'B0'), PW=('mu', 'A', 'B', 'Sigma_u', 'residuals'),
                 KMC=('cluster_centers_', 'labels_', 'transition_matrix_')).get(job.name, ('dictionary_',))
    return {n: getattr(m, n) for n in names}


def sequence(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name)
        twin = jobs.build(rng, name)
        sh = Shadow(ctx, '%s (init %r)' % (name, job.init))
        for j in (job, twin):
            for k, v in j.args.items():
                sh.keep('arguments-unmodified', 'argument ' + k, v)
            for i, o in enumerate(j.others):
                for k, v in o.items():
                    sh.keep('arguments-unmodified', 'argument %s of call %d' % (k, i), v)
            for k, v in j.options.items():
                sh.keep('options-unmodified', 'option ' + k, v)
        rs = int(rng.randint(10 ** 6))
        m, m2 = job.make(rs), twin.make(rs)
        seq = []

        def do(j, mm, what):
            if what == 'fit':
                a = dict(j.args)
                data = a.pop('data')
                if name == 'KMC':
                    mm.fit(data, **a)
                else:
                    r = mm.fit_transform(data, **a)
                    sh.keep('earlier-results-unmodified', 'result of fit_transform', r)
                for q, v in live_results(j, mm).items():
                    sh.keep('earlier-results-unmodified', q, v)
            else:
                o = dict(j.others[rng.randint(len(j.others))])
                data = o.pop('data')
                if what == 'transform':
                    r = mm.transform(data, **o)
                elif what == 'inverse':
                    W = gen.rows(rng, 4, j.k)
                    sh.keep('arguments-unmodified', 'weights', W)
                    r = mm.inverse_transform(W)
                else:
                    r = mm.predict(data, horizon=int(rng.randint(0, 4)))
                sh.keep('earlier-results-unmodified', 'result of ' + what, r)

        kinds = ['fit', 'transform', 'transform', 'fit']
        if name in ('CROM', 'MTD', 'KMC'):
            kinds.append('predict')
        if name in jobs.FACTOR:
            kinds.append('inverse')
        done = {0: False, 1: False}
        try:
            for step in range(rng.randint(3, 7)):
                i = 0 if rng.rand() < 0.7 else 1
                what = gen.pick(rng, kinds) if done[i] else 'fit'
                do((job, twin)[i], (m, m2)[i], what)
                done[i] = True
                seq.append('%s%d' % (what, i))
                if not sh.check(' then '.join(seq)):
                    return
        except ValueError:
            if name == 'PW':
                raise Skip()
            raise
        # arguments given to lags, memory and solver options
        ctx.seen(name, job.init, tuple(seq))
        ctx.note(model=name, init=job.init, calls=seq, arrays_watched=len(sh.items))
    return run


def detached(name):
    """overwriting the arguments after the fit changes nothing"""
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name)
        seed = int(rng.randint(10 ** 6))
        clone = lambda v: v.copy()
        args = jobs.convert(job.args, clone)
        others = [jobs.convert(o, clone) for o in job.others]
        try:
            ref = job.make(seed)
            want = job.run(ref)
            want.update(job.use(ref))
            lags = job.options.get('lags')
            opts = snapshot(job.options)
            for q in ('lags',):
                if opts.get(q) is not None and np.ndim(opts[q]) and rng.rand() < 0.7:
                    opts[q] = np.array(opts[q], dtype='i8')
            m = (lambda o: jobs.Job(name, job.k, o, args, others, job.features, job.init))(opts).make(seed)
            got = job.run(m, args=args)
        except ValueError:
            if name == 'PW':
                raise Skip()
            raise

        def spoil(a):
            for k, v in a.items():
                if isinstance(v, np.ndarray):
                    v[...] = (np.zeros_like(v) if v.dtype.kind in 'iu' else 1e3) if rng.rand() < 0.5 else v[::-1].copy() + 1
                elif isinstance(v, dict):
                    spoil(v)
                elif isinstance(v, list) and v and isinstance(v[0], (int, np.integer)):
                    for i in range(len(v)):
                        v[i] = v[i] + 1
        spoil(args)
        spoil(opts)
        after = job.state(m)
        d = differing({k: v for k, v in got.items() if k != 'returned'}, after)
        ctx.require(not d, 'fitted-model-detached-from-arguments', '%s (init %r): %r changed with the arguments' % (name, job.init, d))
        got.update(job.use(m))
        d = differing(want, got)
        ctx.require(not d, 'fitted-model-detached-from-arguments',
                    '%s (init %r): %r depend on arguments overwritten after the fit' % (name, job.init, d))
        ctx.seen('detached', name, job.init, job.k)
    return run


def helpers(ctx):
    """helper routines and the local models"""
    rng = ctx.rng
    sh = Shadow(ctx, 'helper')
    kind = 'helper-arguments-unmodified'
    which = gen.pick(rng, ['project', 'furthest', 'local', 'kernel', 'init', 'markov'])
    if which == 'project':
        x = sh.keep(kind, 'vector', rng.randn(rng.randint(1, 9)))
        repo.simplex_projection.simplex_project_vector(x)
        x = sh.keep(kind, 'vector', gen.rows(rng, 1, 5)[0])
        repo.simplex_projection.simplex_project_vector(x)
    elif which == 'furthest':
        n = rng.randint(6, 15)
        Z = rng.randn(n, 2)
        D = sh.keep(kind, 'dissimilarities', np.sqrt(((Z[:, None] - Z[None]) ** 2).sum(-1)))
        ex = sh.keep(kind, 'exclusions', rng.choice(np.arange(1, n), rng.randint(0, 3)) if rng.rand() < 0.5 else
                     [int(i) for i in rng.choice(np.arange(1, n), rng.randint(0, 3))][::-1])
        repo.furthest_sum_module.furthest_sum(D, int(rng.randint(1, 4)), 0, exclude=ex, extra_steps=int(rng.randint(0, 8)))
        sh.check(which)
        name = gen.pick(rng, ['KAA', 'AA', 'GPNH', 'CROM', 'MTD'])
        spec = M.SPECS[name]
        X = sh.keep(kind, 'data', spec.observed(Z))
        m = spec.make(2, init='furthest_sum', random_state=0, max_iterations=3)
        m.fit_transform(X, exclude=ex, start_index=0, n_extra_steps=3)
    elif which == 'local':
        n, f, p = 30, rng.randint(1, 3), int(rng.randint(0, 3))
        y = sh.keep(kind, 'series', rng.randn(n, f))
        u = sh.keep(kind, 'external', rng.randn(n, 2)) if rng.rand() < 0.5 else None
        w = sh.keep(kind, 'weights', rng.uniform(size=n))
        lm = repo.fembv_varx.FEMBVVARXLocalLinearModel(y, p=p, u=u, s=int(rng.randint(0, 3)) if u is not None else 0)
        kept = []
        for _ in range(3):
            lm.fit(weights=w) if rng.rand() < 0.5 else lm.fit()
            sh.check('local fit')
            for a in ('mu', 'A', 'B', 'B0', 'Sigma_u', 'Sigma_u_inv'):
                sh.keep('earlier-results-unmodified', a, getattr(lm, a))
            w = sh.keep(kind, 'weights', rng.uniform(size=n))
    elif which == 'kernel':
        X = sh.keep(kind, 'data', rng.randn(10, 2))
        K = sh.keep(kind, 'kernel', X.dot(X.T))
        aa = M.SPECS['AA'].make(3, kernel_func=lambda Z: K, random_state=0, max_iterations=5)
        aa.fit_transform(X)
        sh.check('fit with a kernel function')
        aa.transform(X)
    elif which == 'init':
        o = dict(solver='CLARABEL')
        sh.keep(kind, 'solver options', o)
        X = sh.keep(kind, 'data', rng.randn(12, 2))
        m = repo.fembv_kmeans.FEMBVKMeans(2, random_state=0, max_iterations=3, weights_solver_kwargs=o)
        m.fit(X)
        mem = sh.keep(kind, 'memory', [1, 2])
        v = repo.fembv_varx.FEMBVVARX(2, memory=mem, random_state=0, max_iterations=2)
        v.fit(sh.keep(kind, 'data', rng.randn(30, 1)))
    else:
        X = sh.keep(kind, 'data', rng.randn(20, 2))
        w = sh.keep(kind, 'weights', rng.uniform(0.1, 1, size=20))
        repo.crom.kmeans_markov_crom(X, n_clusters=2, sample_weight=w, random_state=0, n_init=1)
    sh.check(which)
    ctx.seen('helper', which, ctx.index % 50)


FAMILIES = [Family('sequence_' + nm, sequence(nm), q) for nm, q in (
    ('AA', 80), ('KAA', 60), ('GPNH', 80), ('CROM', 80), ('MTD', 80), ('FKM', 50), ('FVX', 50), ('PW', 40), ('KMC', 40))]
FAMILIES += [Family('detached_' + nm, detached(nm), q) for nm, q in (
    ('AA', 50), ('KAA', 50), ('GPNH', 50), ('CROM', 50), ('MTD', 50), ('FKM', 30), ('FVX', 40), ('PW', 30), ('KMC', 30))]
FAMILIES += [Family('helpers', helpers, 150)]
