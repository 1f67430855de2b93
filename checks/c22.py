"""C22: step-length rules stay within their safeguards."""
from fractions import Fraction
import numpy as np
from vlib import repo, gen, jobs, models as M
from vlib.core import Family, Skip

ID = 'C22'
SCALE = 5                 # quick runs: this many times the cases below
RULE = ('random and boundary step lengths, slopes, costs, safeguards, curvatures and bounds over many magnitudes, judged with '
        'exact rational arithmetic; plus the calls made during fits, recorded by wrapping the rules; distinct = '
        '(branch taken, magnitudes)')
REQUIRED = {'shrinks': 1, 'interpolates-or-halves': 1, 'spectral-step': 1, 'backtracking-ends': 1}
TECHNIQUE = 'exact-arithmetic oracle on recorded rule evaluations'
LEVEL_NOTE = 'Every observed evaluation is decided (values within rounding of a branch point accept either branch); sampled arguments.'

step_rule = repo.spg.get_next_spg_step_length
alpha_rule = repo.spg.get_next_spg_alpha


def judge_step(ctx, a, delta, f0, f1, s1, s2, r, what):
    """a: current step, r: returned step"""
    ctx.require(np.isfinite(r) and 0 < r < a, 'shrinks', '%s: step %r after %r (slope %r, costs %r %r)' % (what, r, a, delta, f0, f1))
    A, De, F0, F1 = (Fraction(float(v)) for v in (a, delta, f0, f1))
    den = F1 - F0 - A * De
    if den <= 0:
        return None
    exact = float(-A * A * De / (2 * den))
    # rounding in the denominator
    err = 4e-16 * (abs(f1) + abs(f0) + abs(a * delta)) / float(den) * exact + 1e-15 * exact
    half = 0.5 * a
    quad_ok = abs(r - exact) <= 2 * err + 1e-300
    half_ok = abs(r - half) <= 4e-16 * half
    inside = s1 <= exact <= s2 * a
    near = min(abs(exact - s1), abs(exact - s2 * a)) <= 2 * err + 1e-15 * max(s1, s2 * a)
    ok = (quad_ok if inside else half_ok) or (near and (quad_ok or half_ok))
    ctx.require(ok, 'interpolates-or-halves',
                '%s: step %r after %r; interpolation minimiser %r, safeguards %r and %r' % (what, r, a, exact, s1, s2 * a))
    return 'inside' if inside else ('below' if exact < s1 else 'above')


def steps(ctx):
    """evaluations of the step-length rule"""
    rng = ctx.rng
    for _ in range(30):
        a = float(gen.pick(rng, [1, 1.0, 0.5, 10 ** rng.uniform(-11, 0), rng.uniform(0.01, 1), 10 ** rng.uniform(0, 3)]))
        delta = -float(10 ** rng.uniform(-12, 8))
        f0 = float(gen.pick(rng, [0, rng.randn(), 10 ** rng.uniform(-8, 8)]))
        gamma = gen.pick(rng, [1e-4, 1e-4, 1e-2, 0.5])
        # costs that violate sufficient decrease
        over = float(gen.pick(rng, [0, 10 ** rng.uniform(-14, 3), rng.uniform(0, 10)]))
        f1 = f0 + gamma * a * delta + over * abs(a * delta)
        if not f1 > f0 + gamma * a * delta:
            f1 = f0
        if not (f1 > f0 + gamma * a * delta):
            continue
        s1 = float(gen.pick(rng, [0.1, 0.1, 0.3, 1e-3, 0]))
        s2 = float(gen.pick(rng, [0.9, 0.9, 0.5, 0.99]))
        typ = gen.pick(rng, [np.float64, np.float64, float])
        args = [typ(v) for v in (a, delta, f0, f1)]
        if rng.rand() < 0.5 and s1 == 0.1 and s2 == 0.9:
            r = step_rule(*args)
        else:
            r = step_rule(*args, sigma_one=s1, sigma_two=s2)
        if a == 1.0 and rng.rand() < 0.3:
            # integer step as used for the first trial
            ctx.require(step_rule(1, *args[1:], sigma_one=s1, sigma_two=s2) ==
                        step_rule(1.0, *args[1:], sigma_one=s1, sigma_two=s2), 'interpolates-or-halves', 'integer step')
        b = judge_step(ctx, a, delta, f0, f1, s1, s2, float(r), 'rule')
        if b:
            ctx.seen(b, int(np.log10(a)), s1, s2, int(np.log10(-delta)) // 3)
            ctx.count('interpolation ' + b)
    # costs for which the minimiser lies at a chosen position
    for _ in range(20):
        a = float(10 ** rng.uniform(-2, 0))
        s1, s2 = 0.1, 0.9
        delta = -float(10 ** rng.uniform(-4, 4))
        where = float(gen.pick(rng, [0.05, 0.0999, 0.1001, 0.3 * a, 0.7 * a, 0.8999 * a, 0.9001 * a, 0.5 * a, 0.95 * a]))
        f0 = 0.0 if rng.rand() < 0.5 else float(rng.randn() * abs(delta))
        f1 = f0 + a * delta - 0.5 * a * a * delta / where
        if not f1 > f0 + 1e-4 * a * delta:
            continue
        b = judge_step(ctx, a, delta, f0, f1, s1, s2, float(step_rule(a, np.float64(delta), np.float64(f0), np.float64(f1))), 'positioned')
        if b:
            ctx.count('interpolation ' + b)
            ctx.seen(b, 'positioned', round(where, 3))


def alphas(ctx):
    """evaluations of the spectral step size"""
    rng = ctx.rng
    for _ in range(40):
        lo = float(gen.pick(rng, [1e-3, 1e-10, 0.1, 1.0]))
        hi = float(gen.pick(rng, [1e3, 1e10, 10.0, 1.0 if lo <= 1 else lo]))
        sk = float(gen.pick(rng, [0.0, 10 ** rng.uniform(-20, 6), 1.0]))
        beta = float(gen.pick(rng, [0.0, -0.0, 10 ** rng.uniform(-20, 6), -10 ** rng.uniform(-20, 6), sk, sk / lo if lo else 1, sk / hi]))
        default = lo == 1e-3 and hi == 1e3
        t = gen.pick(rng, [float, np.float64])
        r = float(alpha_rule(t(beta), t(sk)) if default else alpha_rule(t(beta), t(sk), alpha_min=lo, alpha_max=hi))
        want = hi if beta <= 0 else min(hi, max(lo, sk / beta))
        ctx.require(abs(r - want) <= 1e-15 * abs(want), 'spectral-step', 'beta=%r sksk=%r bounds (%r, %r): %r instead of %r' % (beta, sk, lo, hi, r, want))
        b = 'not positive' if beta <= 0 else ('low' if sk / beta < lo else ('high' if sk / beta > hi else 'ratio'))
        ctx.seen('alpha', b, lo, hi)
        ctx.count('curvature ' + b)


def backtracking(ctx):
    """repeated backtracking on scalar functions reaches sufficient decrease"""
    rng = ctx.rng
    kind = gen.pick(rng, ['quadratic', 'quartic', 'wiggle', 'barrier'])
    c = 10 ** rng.uniform(-3, 6)
    g = -10 ** rng.uniform(-3, 3)
    fun = dict(quadratic=lambda t: g * t + c * t * t, quartic=lambda t: g * t + c * t ** 4,
               wiggle=lambda t: g * t + c * np.sin(3 * t) ** 2, barrier=lambda t: g * t + c * (t > 0.37))[kind]
    if kind == 'barrier':
        c = abs(g) + c
    f0, t, n = np.float64(0.0), 1.0, 0
    while fun(t) > f0 + 1e-4 * t * g and n < 400:
        r = step_rule(t, np.float64(g), f0, np.float64(fun(t)))
        ctx.require(0 < r < t, 'shrinks', '%s: %r after %r' % (kind, r, t))
        if not 0 < r < t:
            return
        t, n = r, n + 1
    ctx.require(n < 200, 'backtracking-ends', '%s: %d steps, length %r' % (kind, n, t))
    ctx.seen('backtracking', kind, n)


def in_fits(ctx):
    """the rules as used by fits"""
    rng = ctx.rng
    name = gen.pick(rng, list(jobs.FACTOR))
    job = jobs.build(rng, name, kinds=gen.NICE + ('big', 'outlier', 'grid', 'dup'), limit=int(gen.pick(rng, [5, 20, 40])))
    for q in ('gamma', 'sigma_one', 'sigma_two', 'alpha_min', 'alpha_max'):
        job.options.pop(q, None)
    sig = gen.pick(rng, [(0.1, 0.9), (0.1, 0.5), (0.01, 0.9)])
    bounds = gen.pick(rng, [(1e-3, 1e3), (1e-3, 1.0), (0.1, 10.0)])
    over = {}
    if rng.rand() < 0.5:
        over.update(sigma_one=sig[0], sigma_two=sig[1])
    else:
        sig = (0.1, 0.9)
    if rng.rand() < 0.5:
        over.update(alpha_min=bounds[0], alpha_max=bounds[1])
    else:
        bounds = (1e-3, 1e3)
    seen_steps, seen_alphas = [], []

    def rec_step(*a, **kw):
        r = step_rule(*a, **kw)
        seen_steps.append((a, kw, r))
        return r

    def rec_alpha(*a, **kw):
        r = alpha_rule(*a, **kw)
        seen_alphas.append((a, kw, r))
        return r
    mods = (repo.aa, repo.gpnh, repo.mtd, repo.crom_gpnh)
    old = []
    for m in mods:
        for attr, f in (('get_next_spg_step_length', rec_step), ('get_next_spg_alpha', rec_alpha)):
            if hasattr(m, attr):
                old.append((m, attr, getattr(m, attr)))
                setattr(m, attr, f)
    try:
        job.run(job.make(int(rng.randint(10 ** 6)), **over))
    finally:
        for m, attr, f in old:
            setattr(m, attr, f)
    ctx.count('recorded step rule calls', len(seen_steps))
    ctx.count('recorded spectral rule calls', len(seen_alphas))
    for a, kw, r in seen_steps:
        if len(a) != 4 or not set(kw) <= {'sigma_one', 'sigma_two'}:
            continue
        ctx.require((kw.get('sigma_one', 0.1), kw.get('sigma_two', 0.9)) == sig, 'options-passed-on', '%s: %r' % (name, kw))
        if a[1] < 0 and float(a[3]) - float(a[2]) - float(a[0]) * float(a[1]) > 1e-12 * (abs(a[2]) + abs(a[3])):
            judge_step(ctx, a[0], a[1], a[2], a[3], sig[0], sig[1], float(r), name)
    for a, kw, r in seen_alphas:
        ctx.require(bounds[0] <= r <= bounds[1], 'spectral-step', '%s: %r outside %r' % (name, float(r), bounds))
    ctx.seen('fit', name, len(seen_steps) > 0, tuple(sorted(over)))


FAMILIES = [Family('steps', steps, 150), Family('alphas', alphas, 80), Family('backtracking', backtracking, 200),
            Family('in_fits', in_fits, 150)]
