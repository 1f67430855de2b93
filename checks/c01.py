"""C01: simplex projection."""
import numpy as np
from vlib import repo, gen, oracles as O
from vlib.core import Family

ID = 'C01'
SCALE = 5                 # quick runs: this many times the cases below
RULE = ('random vectors and matrices of 1..40 entries: Gaussian, heavy-tailed, tied, grid-valued, already feasible, '
        'vertices, permuted, scaled by 1e-8..1e8, shifted by up to 1e9, in contiguous, strided and Fortran layouts; '
        'distinct = (length, support size, kind) of the projection observed')
REQUIRED = {'is-nearest-point': 1, 'rows-projected-in-place': 1, 'columns-projected-in-place': 1, 'input-unmodified': 1}
TECHNIQUE = 'online postcondition monitor: KKT/threshold oracle in extended precision on recorded projections'
LEVEL_NOTE = ('Exact decision (up to rounding) on every recorded projection by an independent support-enumeration oracle; '
              'held on the generated executions only.')


def vector(rng, n):
    kind = gen.pick(rng, ['gauss', 'wide', 'ties', 'grid', 'feasible', 'vertex', 'const', 'negative', 'cauchy',
                          'mixed', 'nearfeasible', 'shifted', 'boundary', 'nearboundary', 'sparse'])
    if kind == 'gauss':
        x = rng.randn(n)
    elif kind == 'wide':
        x = rng.randn(n) * 10.0 ** rng.randint(-8, 9)
    elif kind == 'ties':
        x = rng.randn(max(1, n // 3))[rng.randint(max(1, n // 3), size=n)]
    elif kind == 'grid':
        x = rng.randint(-3, 4, size=n) / 4.0
    elif kind == 'feasible':
        x = gen.rows(rng, 1, n)[0]
    elif kind == 'vertex':
        x = np.zeros(n)
        x[rng.randint(n)] = 1.0
    elif kind == 'const':
        x = np.full(n, rng.randn())
    elif kind == 'negative':
        x = -np.abs(rng.randn(n)) * 10
    elif kind == 'cauchy':
        x = rng.standard_cauchy(n)
    elif kind == 'mixed':
        x = rng.randn(n) * 10.0 ** rng.randint(-4, 5, size=n)
    elif kind == 'nearfeasible':
        x = gen.rows(rng, 1, n)[0] + 1e-3 * rng.randn(n)
    elif kind == 'shifted':
        x = rng.randn(n) + rng.randn() * 10.0 ** rng.randint(0, 10)
    elif kind == 'boundary':
        # threshold coincides with an entry: support size ambiguous by design
        y = np.sort(rng.uniform(size=n))[::-1]
        m = rng.randint(1, n + 1)
        t = (y[:m].sum() - 1) / m
        x = y.copy()
        x[m:] = t
        rng.shuffle(x)
    elif kind == 'nearboundary':
        # an entry just above or below the threshold
        y = np.sort(rng.uniform(size=n))[::-1]
        m = rng.randint(1, n + 1)
        t = (y[:m].sum() - 1) / m
        x = y.copy()
        x[m:] = t - 1
        if m < n:
            x[m] = t + gen.pick(rng, [-1, 1, 1]) * 10.0 ** rng.uniform(-10, -2)
        rng.shuffle(x)
    else:
        x = rng.randn(n) * (rng.uniform(size=n) < 0.3)
    return kind, x


def judge(ctx, x, p, kind):
    ref = O.project_simplex(x)
    scale = max(1.0, float(np.abs(x - x.max()).max()) if len(x) else 1.0)
    # error is relative to the entries near the maximum, and to representability of x
    tol = 1e-13 * len(x) + 4 * np.finfo(float).eps * max(1.0, min(float(np.abs(x).max()), 1e300))
    p = np.asarray(p, dtype=float)
    ok = p.shape == ref.shape and bool(np.all(np.isfinite(p)))
    ctx.require(ok and p.min() >= 0, 'non-negative', 'kind %s' % kind, x=x, got=p)
    ctx.require(ok and abs(p.sum() - 1) <= 1e-11 * len(x) + tol, 'sums-to-one', 'kind %s sum %r' % (kind, p.sum()), x=x, got=p)
    ctx.require(ok and np.abs(p - ref).max() <= 1e-11 + tol, 'is-nearest-point',
                'kind %s: projection differs from nearest point' % kind, x=x, got=p, expected=ref)
    ctx.seen(kind, len(x), int((ref > 0).sum()))


def vectors(ctx):
    """single vectors"""
    rng = ctx.rng
    for rep in range(12):
        n = gen.pick(rng, [1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 40, 1, 2])
        if gen.wide(rng, 0.04):
            n = rng.randint(60, 1200)
        kind, x = vector(rng, n)
        keep = x.copy()
        if rng.rand() < 0.3:
            big = np.zeros(3 * n)
            big[1::3] = x
            view = big[1::3]
            p = repo.simplex_projection.simplex_project_vector(view)
            ctx.require(np.array_equal(view, keep), 'input-unmodified', x=keep, after=view)
        else:
            p = repo.simplex_projection.simplex_project_vector(x)
            ctx.require(np.array_equal(x, keep), 'input-unmodified', x=keep, after=x)
            if rng.rand() < 0.3:
                x.setflags(write=False)
                p2 = repo.simplex_projection.simplex_project_vector(x)
                ctx.require(np.array_equal(p, p2), 'repeatable', x=keep)
        judge(ctx, keep, p, kind)
        # projecting a projection changes nothing
        q = repo.simplex_projection.simplex_project_vector(np.array(p))
        ctx.require(np.abs(np.asarray(q) - p).max() <= 1e-11, 'idempotent', x=keep, once=p, twice=q)
    ctx.note(kind=kind, x=keep, projection=p)


def outputs(ctx):
    """projection into a given output, including the input itself"""
    rng = ctx.rng
    for rep in range(6):
        n = rng.randint(1, 12)
        kind, x = vector(rng, n)
        keep = x.copy()
        out = np.full(n, 7.0)
        repo.simplex_projection.simplex_project_vector(x, out=out)
        judge(ctx, keep, out, kind)
        ctx.require(np.array_equal(x, keep), 'input-unmodified', x=keep, after=x)
        repo.simplex_projection.simplex_project_vector(x, out=x)
        judge(ctx, keep, x, kind)


def matrices(ctx):
    """rows and columns in place, independently, in several layouts"""
    rng = ctx.rng
    for rep in range(4):
        n, m = rng.randint(1, 9), rng.randint(1, 9)
        if gen.wide(rng):
            n, m = [(rng.randint(1, 9), rng.randint(60, 300)), (rng.randint(60, 300), rng.randint(1, 9)),
                    (rng.randint(20, 80), rng.randint(20, 80))][rng.randint(3)]
        A = np.array([vector(rng, m)[1] for _ in range(n)])
        layout = gen.pick(rng, ['C', 'F', 'strided', 'transposed'])
        for axis in (1, 0):
            base = A.copy() if axis == 1 else np.array([vector(rng, n)[1] for _ in range(m)]).T.copy()
            keep = base.copy()
            holder = None
            if layout == 'F':
                B = np.asfortranarray(base)
            elif layout == 'strided':
                holder = np.full((2 * n, 2 * m), 5.0)
                holder[::2, ::2] = base
                B = holder[::2, ::2]
            elif layout == 'transposed':
                B = base.T.copy().T
            else:
                B = base
            if axis == 1:
                ret = repo.simplex_projection.simplex_project_rows(B)
            else:
                ret = repo.simplex_projection.simplex_project_columns(B)
            name = 'rows-projected-in-place' if axis == 1 else 'columns-projected-in-place'
            lines_in = keep if axis == 1 else keep.T
            lines_out = B if axis == 1 else B.T
            ok = True
            worst = 0.0
            for a, b in zip(lines_in, lines_out):
                ref = O.project_simplex(a)
                tol = 1e-11 + 4 * np.finfo(float).eps * max(1.0, float(np.abs(a).max()))
                ok = ok and bool(np.all(np.isfinite(b))) and bool(np.abs(b - ref).max() <= tol)
            ctx.require(ok, name, 'layout %s' % layout, before=keep, after=np.array(B))
            if holder is not None:
                mask = np.ones(holder.shape, bool)
                mask[::2, ::2] = False
                ctx.require(np.all(holder[mask] == 5.0), 'nothing-else-written', layout)
            ctx.seen('matrix', axis, n, m, layout)
    ctx.note(layout=layout, shape=[n, m])


FAMILIES = [Family('vectors', vectors, 1500), Family('outputs', outputs, 400), Family('matrices', matrices, 500)]
