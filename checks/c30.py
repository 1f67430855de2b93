"""C30: progress reports state what happened."""
import contextlib
import io
import re
import time
import warnings
import numpy as np
from vlib import repo, gen, jobs, oracles as O, models as M, fem
from vlib.core import Family, Skip

ID = 'C30'
SCALE = 4                 # quick runs: this many times the cases below
RULE = ('fits and transforms with verbosity 0, 1 or more, tolerances from zero to large and limits of 1 to 12 iterations, with the '
        'standard output recorded and parsed; the cost after every iteration is known from silent runs stopped there; distinct = '
        '(model, start, verbosity, iterations, converged)')
REQUIRED = {'row-per-iteration': 1, 'row-cost': 1, 'row-change': 1, 'convergence-message': 1, 'silent-without-verbosity': 1,
            'lag-model-rows': 1, 'transform-report': 1}
TECHNIQUE = 'offline checker over recorded progress reports, against costs of silent runs stopped at every iteration'
LEVEL_NOTE = 'Every printed row of the observed calls is decided to the digits printed; sampled problems and options.'

ROW = re.compile(r'^\s*(\d+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*\|\s*(\S+)\s*$')
HEAD = re.compile(r'n_components\s*=\s*(\d+)')
DONE = re.compile(r'onverged at iteration\s*(\d+)')


def parse(text):
    """Sections (tables) of a report."""
    out = []
    for line in text.splitlines():
        h = HEAD.search(line)
        if h:
            out.append(dict(components=int(h.group(1)), title=line, rows=[], done=[]))
            continue
        if not out:
            continue
        r = ROW.match(line)
        if r:
            try:
                out[-1]['rows'].append((int(r.group(1)),) + tuple(float(r.group(i)) for i in (2, 3, 4)))
            except ValueError:
                pass
            continue
        d = DONE.search(line)
        if d:
            out[-1]['done'].append((int(d.group(1)), len(out[-1]['rows'])))
    return out


def recorded(call):
    buf = io.StringIO()
    t0 = time.perf_counter()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = call()
    return r, buf.getvalue(), time.perf_counter() - t0


def as_printed(v, shown, slack):
    return abs(v - shown) <= 6e-7 * abs(v) + slack + 1e-300


def judge(ctx, sec, label, k, costs, c0, tol, scale, wall, performed=None, kinds=('row-per-iteration', 'row-cost')):
    """costs: list or function giving the cost after iteration i + 1; c0: cost of the start, if known"""
    rows = sec['rows']
    ctx.require(sec['components'] == k, 'header', '%s: header %r, components %d' % (label, sec['title'], k))
    ctx.require([r[0] for r in rows] == list(range(1, len(rows) + 1)), kinds[0], '%s: rows numbered %r' % (label, [r[0] for r in rows]))
    if performed is not None:
        ctx.require(len(rows) == performed, kinds[0], '%s: %d rows, %d iterations performed' % (label, len(rows), performed))
    # of long tables, some rows
    pick = range(len(rows)) if len(rows) <= 40 else {0, 1, len(rows) - 2, len(rows) - 1, len(rows) // 2, len(rows) // 2 + 1}
    known = [costs(i) if i in pick else None for i in range(len(rows))]
    prev = c0
    for r, c in zip(rows, known):
        if c is None:
            prev = None
            continue
        ctx.require(as_printed(c, r[1], 1e-12 * scale), kinds[1], '%s: row %d shows cost %r, objective %r' % (label, r[0], r[1], c))
        if prev is not None:
            ctx.require(as_printed(c - prev, r[2], 1e-9 * scale if r[0] == 1 else 1e-14 * scale), 'row-change',
                        '%s: row %d shows change %r of the cost from %r to %r' % (label, r[0], r[2], prev, c))
        prev = c
    small = [abs(r[2]) < tol for r in rows]
    near = any(abs(abs(r[2]) - tol) <= 1e-5 * tol for r in rows)
    if not near:
        want = [(len(rows), len(rows))] if rows and small[-1] else []
        ctx.require(sec['done'] == want and not any(small[:-1]), 'convergence-message',
                    '%s: tolerance %r, changes %r, messages (iteration, rows before) %r' % (label, tol, [r[2] for r in rows], sec['done']))
    ctx.require(all(r[3] >= 0 for r in rows) and sum(r[3] for r in rows) <= wall + 1e-5, 'times',
                '%s: times %r in a call of %r s' % (label, [r[3] for r in rows], wall))
    ctx.count('rows showing a rise', sum(b - a > 1e-6 * scale for a, b in zip(known, known[1:]) if a is not None and b is not None))
    return bool(rows) and small[-1]


def choose_tol(rng, scale):
    return float(gen.pick(rng, [0, 0, 1e-12, scale * 10.0 ** -rng.randint(1, 9), scale]))


def factor_model(name):
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, kinds=gen.NICE + ('dup', 'lowrank', 'grid', 'outlier', 'zero'), nmax=18)
        if rng.rand() < 0.4:
            # the cost may then rise between iterations
            o.update(jobs.solver_options(rng))
        init = gen.pick(rng, ['custom', 'custom', 'random', 'furthest_sum'])
        start = spec.start(rng, X, k, o) if init == 'custom' else {}
        c0 = spec.objective(X, spec.start_factors(start, o), o) if init == 'custom' else None
        scale = spec.cost_scale(X, o) + (c0 or 0.0) + 1e-9
        seed = rng.randint(10 ** 6)
        tol, lim = choose_tol(rng, scale), int(rng.randint(1, 13))
        if rng.rand() < 0.04:
            tol, lim = 0, int(rng.randint(101, 320))
        level = gen.pick(rng, [1, 1, 2, True, 10])
        base = dict(init=init, random_state=seed)

        def fit(**kw):
            m = spec.make(k, o, **dict(base, **kw))
            spec.fit(m, X, **start)
            return m
        memo = {}

        def cost(i):
            if i not in memo:
                memo[i] = float(fit(max_iterations=i + 1, tolerance=0).cost_)
            return memo[i]
        m, text, wall = recorded(lambda: fit(max_iterations=lim, tolerance=tol, verbose=level))
        label = '%s (%s, init %r, verbosity %r)' % (name, kind, init, level)
        secs = parse(text)
        ctx.require(len(secs) == (2 if name == 'CROM' else 1), 'one-table-per-optimisation', '%s: %d tables' % (label, len(secs)))
        performed = int(m.n_iter_) + (1 if spec.archetypal else 0)
        done = judge(ctx, secs[0], label, k, cost, c0, tol, scale, wall, performed)
        if name == 'CROM':
            F = spec.factors(m, m.Gamma)
            last = O.lag_penalty(F['W'], F['lags'], F['w'], F['T'])
            ctx.require(secs[1]['components'] == k and [r[0] for r in secs[1]['rows']] == list(range(1, len(secs[1]['rows']) + 1)) and
                        as_printed(last, secs[1]['rows'][-1][1], 1e-12), 'lag-model-rows',
                        '%s: rows %r, final residual %r' % (label, secs[1]['rows'], last))
        _, silent, _ = recorded(lambda: fit(max_iterations=min(lim, 3), tolerance=tol))
        ctx.require(silent == '', 'silent-without-verbosity', '%s printed %r' % (label, silent[:200]))

        # transforms report on themselves
        Y = gen.data(rng, len(X) if spec.archetypal else rng.randint(spec.least(rng, o), 20), X.shape[1], 'gauss')
        D, par = np.array(m.dictionary_), None
        W, text, wall = recorded(lambda: np.array(m.transform(spec.observed(Y))))
        secs = parse(text)
        ctx.require(len(secs) == 1 and secs[0]['components'] == k, 'transform-report', '%s: %d tables for a transform' % (label, len(secs)))
        rows = secs[0]['rows']
        F = dict(W=W, D=D)
        if spec.lagged:
            F.update(w=np.array(m.order_weights), T=np.array(m.transition_matrices), lags=[int(l) for l in m.lags])
        final = spec.objective(Y, F, o)
        sc = spec.cost_scale(Y, o, F) + 1e-9
        if spec.archetypal:
            sc += float(np.sum(D.dot(Y) ** 2)) * k
        ctx.require([r[0] for r in rows] == list(range(1, len(rows) + 1)) and 1 <= len(rows) <= lim and
                    as_printed(final, rows[-1][1], 1e-9 * sc), 'transform-report',
                    '%s: rows %r, objective of the returned weights %r' % (label, rows[-2:], final))
        ctx.seen(name, init, level, performed, done)
        ctx.count('rows of fits', performed)
        ctx.note(model=name, init=init, verbosity=level, tolerance=tol, limit=lim, table=text.splitlines()[:5])
    return run


def lag_model(ctx):
    """second table of the CROM, coding held fixed"""
    rng = ctx.rng
    spec = M.SPECS['CROM']
    X, k, o, kind = M.problem(rng, spec, kinds=gen.NICE, nmax=25)
    if rng.rand() < 0.4:
        o.update(jobs.solver_options(rng))
    s = spec.start(rng, X, k, o)
    seed = rng.randint(10 ** 6)
    tol, lim = choose_tol(rng, 0.1), int(rng.randint(1, 13))

    def fit(**kw):
        m = spec.make(k, o, init='custom', random_state=seed, **kw)
        m.fit_transform(X, update_dictionary=False, update_weights=False, **s)
        return m

    def cost(i):
        m = fit(max_iterations=i + 1, tolerance=0)
        return O.lag_penalty(np.array(m.Gamma), [int(l) for l in m.lags], np.array(m.order_weights), np.array(m.transition_matrices))
    m, text, wall = recorded(lambda: fit(max_iterations=lim, tolerance=tol, verbose=1))
    secs = parse(text)
    label = 'CROM lag model (%s)' % kind
    if not ctx.require(len(secs) == 2, 'one-table-per-optimisation', '%s: %d tables' % (label, len(secs))):
        return
    done = judge(ctx, secs[1], label, k, cost, None, tol, 1.0, wall, None, ('lag-model-rows', 'lag-model-rows'))
    ctx.require(done or len(secs[1]['rows']) == lim, 'lag-model-rows', '%s: %d rows of %d' % (label, len(secs[1]['rows']), lim))
    ctx.seen('lag model', kind, k, len(secs[1]['rows']), done)


def fem_model(which):
    def run(ctx):
        rng = ctx.rng
        seed = rng.randint(10 ** 6)
        init = gen.pick(rng, ['custom', 'custom', 'random'])
        kw = {}
        if which == 'kmeans':
            X, k, o, kind = fem.kmeans_problem(rng, nmax=20)
            G0, P = gen.rows(rng, len(X), k), X[rng.randint(len(X), size=k)] + rng.randn(k, X.shape[1])
            c0 = float((G0 * fem.kmeans_distances(X, P)).sum())
            make = lambda **q: repo.fembv_kmeans.FEMBVKMeans(k, init=init, random_state=seed, **dict(o, **q))
        else:
            X, u, k, mem, o, kind = fem.varx_problem(rng, nmax=22)
            mems = fem.memories(mem, k)
            n, f = X.shape
            L = max(mems)
            G0 = gen.rows(rng, n - L, k)
            P = dict(mu=rng.randn(k, f), A=0.3 * rng.randn(k, max(L, 1), f, f) if L else None,
                     B0=rng.randn(k, f, u.shape[1]) if u is not None else None)
            c0 = float((G0 * fem.varx_distances(X, u, mems, P['mu'], P['A'], P['B0'])).sum())
            if u is not None:
                kw['external_factors'] = u
            make = lambda **q: repo.fembv_varx.FEMBVVARX(k, memory=mem, init=init, random_state=seed, **dict(o, **q))
        if init == 'custom':
            kw.update(weights=G0, parameters=P)
        else:
            c0 = None
        scale = gen.spd_scale(X) + (c0 or 0.0) + 1e-9
        tol, lim = choose_tol(rng, scale), int(rng.randint(1, 7))

        def fit(**q):
            m = make(**q)
            m.fit_transform(X, **kw)
            return m
        memo = {}

        def cost(i):
            if i not in memo:
                memo[i] = float(fit(max_iterations=i + 1, tolerance=0).cost_)
            return memo[i]
        m, text, wall = recorded(lambda: fit(max_iterations=lim, tolerance=tol, verbose=1))
        label = 'FEM-BV %s (%s, init %r, %r)' % (which, kind, init, o)
        secs = parse(text)
        if not ctx.require(len(secs) == 1, 'one-table-per-optimisation', '%s: %d tables' % (label, len(secs))):
            return
        done = judge(ctx, secs[0], label, k, cost, c0, tol, scale, wall, int(m.n_iter_))
        _, silent, _ = recorded(lambda: fit(max_iterations=1, tolerance=tol))
        ctx.require(silent == '', 'silent-without-verbosity', '%s printed %r' % (label, silent[:200]))
        ctx.seen(which, init, int(m.n_iter_), done)
    return run


FAMILIES = [Family(nm, factor_model(nm), q) for nm, q in (('AA', 100), ('KAA', 50), ('GPNH', 100), ('CROM', 80), ('MTD', 100))]
FAMILIES += [Family('lag_model', lag_model, 60), Family('fem_kmeans', fem_model('kmeans'), 50), Family('fem_varx', fem_model('varx'), 40)]
