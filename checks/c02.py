"""C02: FurthestSum."""
import numpy as np
from vlib import repo, gen
from vlib.core import Family

ID = 'C02'
SCALE = 6                 # quick runs: this many times the cases below
RULE = ('symmetric dissimilarities (Euclidean, squared, integer with ties, arbitrary symmetric, zero) of 1..20 samples with '
        'random starts, exclusions (lists and arrays, with repeats), components up to all allowed samples and 0..3k '
        'refinement steps; the history of selections is reconstructed from runs with 0,1,2,.. steps and 1,2,.. components; '
        'distinct = (samples, components, exclusions, steps, kind)')
REQUIRED = {'greedy-selection': 1, 'refinement-step': 1, 'distinct-allowed': 1, 'rejects': 1}
TECHNIQUE = 'offline trace checker: every greedy choice and replacement in the reconstructed selection history is judged'
LEVEL_NOTE = 'Each step of each recorded history is decided exactly (ties accept any maximiser); sampled inputs.'


def dissim(rng, n):
    kind = gen.pick(rng, ['euclid', 'sqeuclid', 'grid', 'symmetric', 'zero', 'clusters', 'line', 'bytes', 'shorts'])
    if kind in ('euclid', 'sqeuclid', 'clusters'):
        X = gen.data(rng, n, rng.randint(1, 4), 'clusters' if kind == 'clusters' else 'gauss')
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        if kind == 'sqeuclid':
            D = D ** 2
    elif kind == 'grid':
        X = rng.randint(0, 3, size=(n, 2)).astype(float)
        D = np.abs(X[:, None] - X[None]).sum(-1)
    elif kind == 'line':
        x = np.sort(rng.randn(n)) * 10
        D = np.abs(x[:, None] - x[None])
    elif kind in ('bytes', 'shorts'):
        # numbers whose sums do not fit into the integers that hold them
        A = rng.randint(1, 256 if kind == 'bytes' else 2 ** 15, size=(n, n))
        D = np.triu(A, 1)
        D = (D + D.T).astype(gen.pick(rng, ['u1'] if kind == 'bytes' else ['u2', 'i2']))
    elif kind == 'symmetric':
        A = rng.uniform(size=(n, n))
        D = A + A.T
        np.fill_diagonal(D, 0)
    else:
        D = np.zeros((n, n))
    return kind, D


def call(D, k, start, exclude, steps, rng=None):
    ex = exclude
    if rng is not None and exclude is not None:
        r = rng.randint(3)
        ex = list(exclude) if r == 0 else (np.array(exclude, dtype='i8') if r == 1 else tuple(exclude))
    res = repo.furthest_sum_module.furthest_sum(D, k, start, ex, steps)
    return [int(i) for i in np.asarray(res).ravel()]


def history(ctx):
    """greedy construction and refinement"""
    rng = ctx.rng
    n = rng.randint(1, 21)
    large = gen.wide(rng, 0.03)
    if large:
        n = int(gen.pick(rng, [50, 130, 200, 300]))
    kind, D = dissim(rng, n)
    keep = D.copy()
    given, D = D, D.astype(float)
    n_ex = rng.randint(0, n) if rng.rand() < 0.6 else 0
    perm = rng.permutation(n)
    exclude = [int(i) for i in perm[:n_ex]]
    allowed = [i for i in range(n) if i not in exclude]
    start = int(gen.pick(rng, allowed))
    k = rng.randint(1, min(len(allowed), 8 if large else n) + 1)
    arg = exclude
    if exclude and rng.rand() < 0.2:
        arg = exclude + [exclude[0]]
    if not exclude and rng.rand() < 0.5:
        arg = None
    tol = 1e-9 * (1 + np.abs(D).sum())

    def valid(sel, k, what):
        return ctx.require(len(sel) == k and len(set(sel)) == k and all(i in allowed for i in sel),
                           'distinct-allowed', '%s: %r (excluded %r, k=%d)' % (what, sel, exclude, k), D=D)

    # greedy phase, reconstructed for every prefix length
    prev = None
    sel = None
    for m in range(1, k + 1):
        sel = call(given, m, start, arg, 0, rng)
        if not valid(sel, m, 'construction'):
            return
        ctx.require(sel[0] == start, 'starts-at-start-index', '%r start %d' % (sel, start))
        if prev is not None:
            ctx.require(sel[:-1] == prev or kind in ('grid', 'zero'), 'construction-extends', '%r -> %r' % (prev, sel))
        base = sel[:-1]
        if base:
            score = {j: sum(D[j, i] for i in base) for j in allowed if j not in base}
            ctx.require(score[sel[-1]] >= max(score.values()) - tol, 'greedy-selection',
                        'selected %d after %r: total %r, best %r' % (sel[-1], base, score[sel[-1]], max(score.values())), D=D)
        prev = sel
    # refinement phase
    steps = rng.randint(1, 3 * k + 3)
    cur = sel
    for s in range(1, steps + 1):
        nxt = call(given, k, start, arg, s, rng)
        if not valid(nxt, k, 'refinement'):
            return
        p = (s - 1) % k
        others = [cur[i] for i in range(k) if i != p]
        ctx.require([nxt[i] for i in range(k) if i != p] == others, 'refines-one-position',
                    'step %d position %d: %r -> %r' % (s, p, cur, nxt), D=D)
        score = {j: sum(D[j, i] for i in others) for j in allowed if j not in others}
        ctx.require(nxt[p] in score and score[nxt[p]] >= max(score.values()) - tol, 'refinement-step',
                    'step %d position %d: %r -> %r best total %r' % (s, p, cur, nxt, max(score.values())), D=D)
        ctx.count('replacements changing the selection', nxt != cur)
        cur = nxt
    ctx.require(np.array_equal(given, keep), 'dissimilarities-unmodified')
    default = call(given, k, start, arg, 1)
    two = repo.furthest_sum_module.furthest_sum(given, k, start) if not exclude else None
    if two is not None:
        ctx.require([int(i) for i in two] == default, 'default-is-one-step', '%r vs %r' % (two, default))
    ctx.seen(n, k, len(exclude), steps, kind)
    ctx.note(n=n, k=k, start=start, exclude=exclude, steps=steps, kind=kind, selected=cur)


def rejects(ctx):
    """impossible requests raise"""
    rng = ctx.rng
    n = rng.randint(2, 12)
    kind, D = dissim(rng, n)

    def expect(what, *a, **kw):
        try:
            r = repo.furthest_sum_module.furthest_sum(*a, **kw)
        except (ValueError, IndexError, TypeError) as e:
            ctx.require(True, 'rejects', what)
        else:
            ctx.require(False, 'rejects', '%s accepted, returned %r' % (what, r))
        ctx.seen('rejects', what, n)

    expect('start out of range', D, 1, n + rng.randint(3))
    ex = [int(i) for i in rng.permutation(n)[:rng.randint(1, n + 1)]]
    expect('start excluded', D, 1, ex[rng.randint(len(ex))], ex)
    expect('more components than samples', D, n + 1 + rng.randint(3), 0)
    ex = [int(i) for i in rng.permutation(np.arange(1, n))[:rng.randint(1, n)]]
    expect('more components than allowed samples', D, n - len(ex) + 1, 0, ex)
    expect('not square', D[:, :-1], 1, 0)
    expect('not square', D[:-1], 1, 0)
    r = repo.furthest_sum_module.furthest_sum(D, 0, 0)
    ctx.require(len(r) == 0, 'zero-components-empty')


FAMILIES = [Family('history', history, 700), Family('rejects', rejects, 150)]
