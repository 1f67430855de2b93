"""C20: starting guesses are what the initialisation option says."""
import numpy as np
from vlib import repo, gen, jobs, oracles as O, models as M, fem
from vlib.recorders import same
from vlib.core import Family, Skip

ID = 'C20'
SCALE = 5                 # quick runs: this many times the cases below
RULE = ('the factors at the start of the optimisation are observed by fits whose line search cannot accept any step (sufficient '
        'decrease factor 1e12, so that the factors returned after one iteration are the starting ones) and by fits that update '
        'nothing; random stochastic matrices of all small shapes; distinct = (model, option, k, start index, steps, exclusions)')
REQUIRED = {'random-start-scale': 1, 'selected-by-furthest-sum': 1, 'distinct-samples': 1, 'excluded-not-selected': 1, 'custom-start-exact': 1,
            'random-start-feasible': 1, 'default-method': 1, 'stochastic-matrices': 1, 'fembv-custom-start-exact': 1}
TECHNIQUE = 'start-of-run probe compared with a reference FurthestSum and with the given factors'
LEVEL_NOTE = 'Every observed starting guess is decided (FurthestSum selections up to ties); sampled inputs.'

FREEZE = dict(gamma=1e12, max_iterations=1, tolerance=0)


def simulate(D, k, start, exclude, steps):
    """Reference FurthestSum; None if a choice is not clear-cut."""
    allowed = [i for i in range(len(D)) if i not in exclude]
    tol = 1e-7 * (1e-300 + np.abs(D).max())

    def best(others):
        s = np.array([sum(D[j, i] for i in others) if j not in others else -np.inf for j in range(len(D))])
        s[[j for j in range(len(D)) if j not in allowed]] = -np.inf
        order = np.argsort(s)
        if len(order) > 1 and s[order[-1]] - s[order[-2]] < tol:
            return None
        return int(order[-1])
    sel = [start]
    while len(sel) < k:
        b = best(sel)
        if b is None:
            return None
        sel.append(b)
    for s in range(steps):
        p = s % k
        if k == 1:
            return None          # every choice is tied: nothing else is selected
        b = best(sel[:p] + sel[p + 1:])
        if b is None:
            return None
        sel[p] = b
    return sel


def problem(rng, name):
    spec = M.SPECS[name]
    kinds = ('gauss', 'clusters', 'ar', 'offset', 'big', 'tiny', 'outlier', 'dup', 'simplex', 'grid')
    return (spec,) + M.problem(rng, spec, kinds=kinds, nmax=26)


def observed(spec, X, S, which):
    """Indices of the samples that make up a starting dictionary."""
    if spec.archetypal:
        idx = np.argmax(S, axis=1)
        E = np.zeros_like(S)
        E[np.arange(len(S)), idx] = 1
        return ([int(i) for i in idx], True) if np.abs(S - E).max() < 1e-8 else (None, False)
    tol = 1e-7 * (1 + np.abs(X).max())
    out = []
    for row in S:
        d = np.abs(X - row).max(axis=1)
        if d.min() > tol:
            return None, False
        out.append([int(i) for i in np.flatnonzero(d <= tol)])
    return out, True


def furthest(name):
    def run(ctx):
        rng = ctx.rng
        spec, X, k, o, kind = problem(rng, name)
        n, f = X.shape
        exclude = None
        if rng.rand() < 0.6:
            exclude = [int(i) for i in rng.permutation(n)[:rng.randint(0, n - k + 1)]]
        ex = exclude or []
        allowed = [i for i in range(n) if i not in ex]
        if len(allowed) < max(k, 1):
            raise Skip()
        start = int(gen.pick(rng, allowed)) if rng.rand() < 0.7 else None
        steps = int(gen.pick(rng, [0, 0, 1, 2, 3, 5, 10, 12])) if rng.rand() < 0.85 else None
        kw = {}
        if exclude is not None:
            kw['exclude'] = exclude if rng.rand() < 0.5 else np.array(exclude, dtype='i8')
        if start is not None:
            kw['start_index'] = start
        if steps is not None:
            kw['n_extra_steps'] = steps
        o.update(FREEZE)
        method = 'furthest_sum'
        if spec.archetypal and rng.rand() < 0.3:
            method = None
        m = spec.make(k, o, init=method, random_state=int(rng.randint(10 ** 6)))
        F = spec.fit(m, X, **kw)
        label = '%s init=%r k=%d start=%r steps=%r exclude=%r kind=%s' % (name, method, k, start, steps, exclude, kind)
        sel, ok = observed(spec, X, F['D'], None)
        ctx.require(ok, 'distinct-samples', '%s: starting dictionary does not consist of samples' % label, D=F['D'])
        if not ok:
            return
        if spec.archetypal:
            choices = [[i] for i in sel]
        else:
            choices = sel
        # an assignment of distinct, allowed samples to the rows
        uniq = all(len(c) == 1 for c in choices)
        rows = [[i for i in c if i not in ex] for c in choices]
        ctx.require(all(rows), 'excluded-not-selected', '%s: rows are samples %r' % (label, choices))
        if not all(rows):
            return
        ctx.require(matching(rows) == len(rows), 'distinct-samples', '%s: rows are samples %r' % (label, choices))
        ctx.close(F['W'].sum(axis=1), np.ones(n), 'random-start-feasible', atol=1e-9, msg=label)
        ctx.require(F['W'].min() >= 0, 'random-start-feasible', label)
        # the selection
        K = X.dot(X.T)
        D = np.sqrt(np.maximum(np.diag(K)[:, None] + np.diag(K)[None] - 2 * K, 0))
        D2 = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        if uniq and steps is not None:
            got = sorted(c[0] for c in choices)
            for dist in (D2,):
                sims = [simulate(dist, k, s, ex, steps) for s in ([start] if start is not None else allowed)]
                if any(s is None for s in sims) or np.abs(D - D2).max() > 1e-8 * max(D2.max(), 1e-300):
                    continue
                ctx.require(any(sorted(s) == got for s in sims), 'selected-by-furthest-sum',
                            '%s: selected %r, reference %r' % (label, got, sims[:3]), X=X)
                if start is not None and steps == 0:
                    ctx.count('selections from a given start')
        if steps == 0 and start is not None:
            ctx.require(any(start in c for c in choices), 'selected-by-furthest-sum', '%s: start not selected' % label)
        ctx.seen(name, method, k, start, steps, len(ex), kind)
        ctx.note(model=name, k=k, start=start, steps=steps, exclude=exclude, selected=choices)
    return run


def matching(rows):
    """Size of a maximum matching of rows to samples."""
    owner = {}

    def assign(r, seen):
        for i in rows[r]:
            if i not in seen:
                seen.add(i)
                if i not in owner or assign(owner[i], seen):
                    owner[i] = r
                    return True
        return False
    return sum(assign(r, set()) for r in range(len(rows)))


def kernels(ctx):
    """FurthestSum in the feature space of a custom kernel"""
    rng = ctx.rng
    n, k = rng.randint(5, 20), rng.randint(2, 5)
    X = rng.randn(n, 2)
    D2 = ((X[:, None] - X[None]) ** 2).sum(-1)
    h = rng.uniform(0.5, 4)
    K = gen.pick(rng, [np.exp(-D2 / h), (1 + X.dot(X.T)) ** 2, X.dot(X.T) * h + np.eye(n)])
    dist = np.sqrt(np.maximum(np.diag(K)[:, None] + np.diag(K)[None] - 2 * K, 0))
    start, steps = int(rng.randint(n)), int(rng.randint(0, 6))
    o = dict(FREEZE)
    if rng.rand() < 0.5:
        m = repo.aa.KernelAA(k, init='furthest_sum', random_state=1, **o)
        m.fit_transform(K, start_index=start, n_extra_steps=steps)
    else:
        m = repo.aa.ArchetypalAnalysis(k, kernel_func=lambda Z: K, init='furthest_sum', random_state=1, **o)
        m.fit_transform(X, start_index=start, n_extra_steps=steps)
    sim = simulate(dist, k, start, [], steps)
    if sim is None:
        raise Skip()
    C = m.dictionary_
    got = sorted(int(i) for i in np.argmax(C, axis=1))
    ctx.require(got == sorted(sim), 'selected-by-furthest-sum', 'kernel: selected %r, reference %r' % (got, sim), K=K)
    ctx.seen('kernel', n, k, steps)


def custom(name):
    """custom starts, observed exactly and through a frozen iteration"""
    def run(ctx):
        rng = ctx.rng
        spec, X, k, o, kind = problem(rng, name)
        start = spec.start(rng, X, k, o)
        given = {a: np.array(v) for a, v in start.items()}
        o.update(FREEZE)
        m = spec.make(k, o, init='custom', random_state=int(rng.randint(10 ** 6)))
        F = spec.fit(m, X, **start)
        ref = dict(W=given['weights'], D=given['dictionary'])
        if name == 'MTD':
            ref.update(w=given['order_weights'], T=given['transition_matrices'])
        scale = 1 + np.abs(X).max() ** 2
        for a, v in ref.items():
            ctx.close(F[a], v, 'custom-start-exact', rtol=0, atol=1e-8 * scale, msg='%s %s' % (name, a))
        # fits that update nothing return their starting factors
        kw = dict(start, update_dictionary=False, update_weights=False)
        if name == 'MTD':
            kw['update_parameters'] = False
        m = spec.make(k, dict(o, gamma=1e-4), init='custom', random_state=1)
        F = spec.fit(m, X, **kw)
        for a, v in ref.items():
            ctx.require(np.array_equal(F[a], v), 'custom-start-exact', '%s %s after no update' % (name, a))
        # one kind of factor fixed
        for fixed, a in (('weights', 'W'), ('dictionary', 'D')):
            m = spec.make(k, dict(o, gamma=1e-4, max_iterations=3), init='custom', random_state=1)
            F = spec.fit(m, X, **dict(start, **{'update_' + fixed: False}))
            ctx.require(np.array_equal(F[a], ref[a]), 'custom-start-exact', '%s fixed %s changed' % (name, fixed))
        ctx.seen('custom', name, k, kind, len(X))
    return run


def random_start(name):
    """random starts and the default method"""
    def run(ctx):
        rng = ctx.rng
        spec, X, k, o, kind = problem(rng, name)
        o.update(FREEZE)
        seed = int(rng.randint(10 ** 6))
        F = spec.fit(spec.make(k, o, init='random', random_state=seed), X)
        ctx.require(spec.shapes_ok(F, X.shape[0], X.shape[1], k), 'random-start-feasible', '%s shapes' % name)
        d = {a: v for a, v in spec.defects(F).items()}
        ctx.require(max(d.values()) < 1e-9, 'random-start-feasible', '%s %r' % (name, d))
        ctx.require(np.all(np.isfinite(F['D'])), 'random-start-feasible', '%s dictionary' % name)
        if k > 1 and len(X) > 3:
            distinct = len(set(map(tuple, np.round(F['W'], 9))))
            ctx.require(distinct > 1, 'random-start-varies', '%s: all weight rows equal' % name)
            ctx.require(len(set(map(tuple, np.round(F['D'], 12 if kind != 'tiny' else 15)))) == k, 'random-start-varies', '%s: dictionary rows equal' % name)
        G = spec.fit(spec.make(k, o, init=None, random_state=seed), X)
        default = 'furthest_sum' if spec.archetypal else 'random'
        H = spec.fit(spec.make(k, o, init=default, random_state=seed), X)
        ok = all(same(G[a], H[a]) for a in H)
        ctx.require(ok, 'default-method', '%s: no option differs from %r' % (name, default))
        o2 = dict(o)
        m = dict(AA=repo.aa.ArchetypalAnalysis, KAA=repo.aa.KernelAA, GPNH=repo.gpnh.GPNHConvexCoding,
                 CROM=repo.crom_gpnh.GPNHConvexCodingCROM, MTD=repo.mtd.MTDConvexCoding)[name](k, random_state=seed, **o2)
        G = spec.fit(m, X)
        ctx.require(all(same(G[a], H[a]) for a in H), 'default-method', '%s: option left out differs from %r' % (name, default))
        ctx.seen('random', name, k, kind, len(X))
    return run


def random_scale(ctx):
    """entries of random dictionaries are of the documented size"""
    rng = ctx.rng
    name = gen.pick(rng, ['GPNH', 'CROM', 'MTD'])
    spec = M.SPECS[name]
    n, f, k = rng.randint(4, 20), rng.randint(20, 60), rng.randint(1, 7)
    X = rng.uniform(0.2, 1.8, size=(n, f)) * 10.0 ** rng.randint(-4, 5)
    want = np.sqrt(X.mean() / k)
    D = []
    while sum(d.size for d in D) < 1500:
        m = spec.make(k, dict(spec.options(rng), **FREEZE), init=gen.pick(rng, ['random', None]), random_state=int(rng.randint(10 ** 6)))
        D.append(np.asarray(spec.fit(m, X)['D']).ravel())
    got = float(np.sqrt(np.mean(np.concatenate(D) ** 2)))
    ctx.require(0.85 * want < got < 1.15 * want, 'random-start-scale',
                '%s: random dictionaries of %d components for data of mean %r have entries of size %r, documented %r' % (
                    name, k, X.mean(), got, want))
    ctx.seen('scale', name, k, f)


def stochastic(ctx):
    """random stochastic matrices"""
    rng = ctx.rng
    shape = (int(rng.randint(1, 12)), int(rng.randint(1, 12)))
    R = repo.random_matrix
    seed = int(rng.randint(10 ** 6))
    for func, axis in ((R.left_stochastic_matrix, 0), (R.right_stochastic_matrix, 1)):
        A = func(shape, random_state=seed)
        ctx.require(A.shape == shape, 'stochastic-matrices', '%r instead of %r' % (A.shape, shape))
        ctx.require(O.simplex_defect(A, axis) < 1e-12, 'stochastic-matrices', 'sums along axis %d of %r' % (axis, shape), A=A)
        B = func(shape, random_state=np.random.RandomState(seed))
        ctx.require(np.array_equal(A, B), 'stochastic-matrices', 'seed and generator differ')
        g = np.random.RandomState(seed)
        B1, B2 = func(shape, random_state=g), func(shape, random_state=g)
        if shape[axis] > 1:
            ctx.require(not np.array_equal(B1, B2), 'stochastic-matrices', 'equal consecutive draws')
            ctx.require(A.std() > 0, 'stochastic-matrices', 'constant matrix')
    ctx.seen('stochastic', shape)


def fembv(name):
    """custom starts of FEM-BV models"""
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, init='custom')
        job.options['max_iterations'] = 1
        given = {a: (dict(v) if isinstance(v, dict) else np.array(v)) for a, v in job.args.items()}
        W0, P0 = given['weights'], given['parameters']
        m = job.make(int(rng.randint(10 ** 6)))
        G = m.fit_transform(**dict(job.args, update_weights=False, update_parameters=False))
        ctx.require(np.array_equal(G, W0), 'fembv-custom-start-exact', '%s affiliations' % name)

        def parameters(m):
            if name == 'FKM':
                return dict(Theta=np.array(m.Theta))
            s = job.state(m)
            return {a: s[a] for a in ('mu', 'A', 'B0')}
        if name == 'FKM':
            want = dict(Theta=P0)
        else:
            A = None
            if P0['A'] is not None:
                A = np.array(P0['A'])
                for i, p in enumerate(fem.memories(job.options['memory'], job.k)):
                    A[i, p:] = 0
            want = dict(mu=P0['mu'], A=A, B0=P0['B0'])
        got = parameters(m)
        for a in want:
            ctx.require(same(got[a], want[a]), 'fembv-custom-start-exact', '%s %s' % (name, a), got=got[a], want=want[a])
        # the affiliations found first belong to the given parameters
        m = job.make(1)
        m.fit_transform(**dict(job.args, update_parameters=False))
        got = parameters(m)
        for a in want:
            ctx.require(same(got[a], want[a]), 'fembv-custom-start-exact', '%s %s with fixed parameters' % (name, a))
        m = job.make(1)
        G = m.fit_transform(**dict(job.args, update_weights=False))
        ctx.require(np.array_equal(G, W0), 'fembv-custom-start-exact', '%s fixed affiliations' % name)
        if name == 'FKM':
            n = W0.sum(axis=0)
            ok = n > 1e-9
            mean = (W0.T.dot(given['data']) / np.where(ok, n, 1)[:, None])
            ctx.close(m.Theta[ok], mean[ok], 'fembv-custom-start-exact', rtol=1e-9, atol=1e-9 * (1 + np.abs(mean).max()),
                      msg='centroids of given affiliations')
        ctx.seen('fembv', name, job.k, len(W0))
    return run


FAMILIES = [Family('furthest_' + nm, furthest(nm), q) for nm, q in (('AA', 250), ('KAA', 200), ('GPNH', 250), ('CROM', 150), ('MTD', 250))]
FAMILIES += [Family('custom_' + nm, custom(nm), q) for nm, q in (('AA', 80), ('KAA', 60), ('GPNH', 80), ('CROM', 60), ('MTD', 80))]
FAMILIES += [Family('random_' + nm, random_start(nm), q) for nm, q in (('AA', 60), ('KAA', 40), ('GPNH', 60), ('CROM', 40), ('MTD', 60))]
FAMILIES += [Family('kernels', kernels, 150), Family('stochastic', stochastic, 200), Family('random_scale', random_scale, 30), Family('fembv_FKM', fembv('FKM'), 60),
             Family('fembv_FVX', fembv('FVX'), 60)]
