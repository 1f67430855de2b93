"""C31: every update is a spectral projected gradient step with the options given."""
import numpy as np
from vlib import repo, gen, oracles as O, models as M
from vlib.core import Family, Skip

ID = 'C31'
SCALE = 3                 # quick runs: this many times the cases below
RULE = ('histories of fits with line search options drawn at random (memory, sufficient decrease, bounds of the spectral step, '
        'safeguards, step size tolerance) and every combination of factors updated, reconstructed by stopping after 0, 1, 2, .. '
        'iterations; each update of each factor is compared with one step computed from the previous states; distinct = (model, '
        'factor, iteration, trial steps, spectral step inside or at a bound, options)')
REQUIRED = {'spectral-step': 1, 'backtracked updates': 1, 'updates above the current objective': 1, 'spectral steps at the upper bound': 1,
            'fails-iff-objective-rises': 1, 'updates after a hundred iterations': 1, 'option-has-no-other-effect': 1}
TECHNIQUE = 'offline trace checker: reconstructed factor histories against a specification of the method with the given options'
LEVEL_NOTE = ('Every update of the observed histories whose decisions do not hang on rounding is decided to about eight digits; '
              'sampled problems and options.')


# ------------------------------------------------------------- the problem --
class Problem(object):
    """Objective and gradients at a state (dict of factors)."""

    def __init__(self, name, X, k, o):
        self.name, self.X, self.k, self.o = name, X, k, o
        self.aa = name in ('AA', 'KAA')
        self.e1, self.e2 = o.get('epsilon_states', 0), o.get('epsilon_weights', 1.0 if name == 'CROM' else 0)
        self.lags = o.get('lags') or [1]
        if self.aa:
            self.K = X.dot(X.T)

    def value(self, s):
        if self.aa:
            return O.aa_objective(self.X, s['W'], s['D'])
        v = 0.0
        if self.name != 'CROM':
            v = O.mse(self.X, s['W'], s['D']) + self.e1 * O.pair_penalty(s['D'])
        if self.name in ('MTD', 'CROM'):
            v += self.e2 * O.lag_penalty(s['W'], self.lags, s['w'], s['T'])
        return v

    def noise(self, s):
        """Rounding error to be expected in the objective."""
        if self.aa:
            a = max(np.abs(s['W']).sum(axis=1).max() * np.abs(s['D']).sum(axis=1).max(), 1.0)
            return 3e-14 * float(np.trace(self.K)) * a ** 2 * self.k
        v = self.value(s)
        if self.name != 'CROM':
            v += self.e1 * self.k * float(np.sum(s['D'] ** 2)) / s['D'].size * 4
            v += float(np.sum(self.X ** 2) + np.sum(s['W'].dot(s['D']) ** 2)) / self.X.size * 0.1
        return 1e-14 * v + 1e-300

    def gradient(self, s, block):
        X, W, D = self.X, s['W'], s['D']
        if self.aa:
            CK = D.dot(self.K)
            if block == 'D':
                return [W.T.dot(W).dot(CK) * 2 - 2 * W.T.dot(self.K)]
            return [2 * W.dot(CK.dot(D.T)) - 2 * CK.T]
        R = W.dot(D) - X
        if block == 'D':
            g = 2.0 / X.size * W.T.dot(R)
            if self.k > 1:
                f, k = X.shape[1], self.k
                g = g + 4.0 * self.e1 / (f * k * (k - 1)) * (k * D - D.sum(axis=0))
            return [g]
        if block == 'W':
            g = 2.0 / X.size * R.dot(D.T)
            if self.name == 'MTD' and self.k > 1:
                L, n = max(self.lags), len(X)
                E = W[L:] - O.lag_prediction(W, self.lags, s['w'], s['T'])
                c = 2 * self.e2 / (self.k * max(n - L, 1))
                g[L:] += c * E
                for i, lag in enumerate(self.lags):
                    for t in range(L, n):
                        g[t - lag] -= c * s['w'][i] * s['T'][i].T.dot(E[t - L])
            return [g]
        L, n = max(self.lags), len(X)
        E = W[L:] - O.lag_prediction(W, self.lags, s['w'], s['T'])
        if self.k == 1:
            E = 0 * E
        c = 2 * self.e2 / (self.k * max(n - L, 1))
        gw, gT = np.zeros(len(self.lags)), np.zeros_like(s['T'])
        for i, lag in enumerate(self.lags):
            for t in range(L, n):
                gw[i] -= c * E[t - L].dot(s['T'][i].dot(W[t - lag]))
                gT[i] -= c * s['w'][i] * np.outer(E[t - L], W[t - lag])
        return [gw, gT]

    def gradient_noise(self, s, block):
        """Rounding error to be expected in the gradient (its terms may cancel)."""
        X, W, D = self.X, s['W'], s['D']
        if self.aa:
            CK = D.dot(self.K)
            a = [W.T.dot(W).dot(CK), W.T.dot(self.K)] if block == 'D' else [W.dot(CK.dot(D.T)), CK]
            v = 2 * sum(np.linalg.norm(x) for x in a)
        elif block == 'D':
            v = 2.0 / X.size * (np.linalg.norm(W.T.dot(X)) + np.linalg.norm(W.T.dot(W).dot(D)))
            v += 8.0 * self.e1 / X.shape[1] * np.linalg.norm(D)
        else:
            v = 4 * self.e2 / self.k * np.sqrt(self.k)
            if block == 'W':
                v += 2.0 / X.size * (np.linalg.norm(X.dot(D.T)) + np.linalg.norm(W.dot(D.dot(D.T))))
        return 1e-14 * v

    def get(self, s, block):
        return [s['w'], s['T']] if block == 'P' else [s[block]]

    def put(self, s, block, xs):
        s = dict(s)
        if block == 'P':
            s['w'], s['T'] = xs
        else:
            s[block] = xs[0]
        return s

    def project(self, block, xs):
        if block == 'W' or (block == 'D' and self.aa):
            return [O.project_rows(xs[0])]
        if block == 'D':
            return xs
        return [O.project_simplex(xs[0]), np.array([O.project_rows(np.ascontiguousarray(T.T)).T for T in xs[1]])]


def dot(a, b):
    return float(sum(np.sum(x * y) for x, y in zip(a, b)))


def norm(a):
    return np.sqrt(dot(a, a))


def defaults(ls):
    d = dict(line_search_memory=1, gamma=1e-4, alpha_min=1e-3, alpha_max=1e3, sigma_one=0.1, sigma_two=0.9, step_size_tolerance=1e-12)
    d.update({q: v for q, v in ls.items() if q in d})
    return d


class Sensitive(Exception):
    pass


def spectral_length(ls, s, y, gerr):
    """Ratio of step to gradient change, clipped; relative accuracy with which it is known."""
    ss, sy = dot(s, s), dot(s, y)
    err = gerr * np.sqrt(ss)
    if ss == 0:
        return ls['alpha_max'], 0.0, 'upper'
    if abs(sy) <= 1e6 * err:
        # sign or size of the curvature not known
        if sy > 0 and ss / (sy + err) >= ls['alpha_max'] and sy - err <= 0:
            return ls['alpha_max'], 0.0, 'upper'
        if sy > 0 and ss / (sy + err) >= ls['alpha_max']:
            return ls['alpha_max'], 0.0, 'upper'
        raise Sensitive()
    if sy <= 0:
        return ls['alpha_max'], 0.0, 'upper'
    a = ss / sy
    where = 'lower' if a < ls['alpha_min'] else 'upper' if a > ls['alpha_max'] else 'inside'
    return min(ls['alpha_max'], max(ls['alpha_min'], a)), err / sy if where == 'inside' else 0.0, where


def step(P, ls, state, block, alpha, memory):
    """One update; returns (new factor, trials, slope, direction, relative accuracy of the length)."""
    x, g = P.get(state, block), P.gradient(state, block)
    target = P.project(block, [a - alpha * b for a, b in zip(x, g)])
    d = [a - b for a, b in zip(target, x)]
    slope = dot(d, g)
    cur = P.value(state)
    top = max(memory)
    at = lambda t: P.put(state, block, [a + t * b for a, b in zip(x, d)])
    t, trials, acc = 1.0, 1, 0.0
    s = at(t)
    new = P.value(s)
    noise = P.noise(state) + P.noise(s) + 1e-14 * abs(top)
    while True:
        edge = new - (top + ls['gamma'] * slope * t)
        if abs(edge) <= 4 * noise + 1e-9 * abs(ls['gamma'] * slope * t):
            raise Sensitive()
        if edge < 0:
            break
        den = new - cur - t * slope
        if den <= 1e6 * noise:
            raise Sensitive()
        q = -0.5 * t * t * slope / den
        rel = 3 * noise / den + 1e-9
        if abs(q - ls['sigma_one']) <= rel * q or abs(q - ls['sigma_two'] * t) <= rel * q:
            raise Sensitive()
        if ls['sigma_one'] <= q <= ls['sigma_two'] * t:
            t = q
            acc = max(acc, rel)
        else:
            t = 0.5 * t
        s = at(t)
        new = P.value(s)
        trials += 1
        if t < ls['step_size_tolerance']:
            break
    return P.get(s, block), trials, slope, d, acc, cur, new


def options(rng):
    o = dict(line_search_memory=int(gen.pick(rng, [1, 1, 2, 3, 5])), gamma=float(gen.pick(rng, [1e-4, 1e-4, 1e-2, 0.3, 1e-6, 0.8])),
             alpha_min=float(gen.pick(rng, [1e-3, 1e-3, 1e-8, 0.5, 3.0])), alpha_max=float(gen.pick(rng, [1e3, 1e3, 10.0, 4.0, 1e6])),
             sigma_one=float(gen.pick(rng, [0.1, 0.1, 0.01, 0.4])), sigma_two=float(gen.pick(rng, [0.9, 0.9, 0.5, 0.7])),
             step_size_tolerance=float(gen.pick(rng, [1e-12, 1e-12, 1e-3, 0.2])))
    return {q: v for q, v in o.items() if rng.rand() < 0.5}


def snapshot(P, F):
    s = dict(W=F['W'], D=F['D'])
    if P.name in ('MTD', 'CROM'):
        s['w'], s['T'] = F['w'], F['T']
    return s


def model(name, late=False):
    """late: updates after many iterations instead of the first ones"""
    spec = M.SPECS[name]

    def run(ctx):
        rng = ctx.rng
        X, k, o, kind = M.problem(rng, spec, kinds=gen.NICE + ('dup', 'outlier', 'grid', 'offset', 'big'), nmax=14, wide=0.03)
        if rng.rand() < 0.5:
            X = X * 10.0 ** rng.uniform(-1, 1.5)
        start = spec.start(rng, X, k, o)
        ls = options(rng)
        blocks = {'AA': 'DW', 'KAA': 'DW', 'GPNH': 'DW', 'MTD': 'DWP', 'CROM': 'P'}[name]
        if name != 'CROM':
            keep = [b for b in blocks if rng.rand() < 0.7] or [gen.pick(rng, list(blocks))]
        else:
            keep = ['P']
        flags = dict(update_dictionary='D' in keep, update_weights='W' in keep)
        if name == 'MTD':
            flags['update_parameters'] = 'P' in keep
        seed = rng.randint(10 ** 6)
        P = Problem(name, X, k, o)

        def fit(m, **extra):
            q = dict(o, init='custom', tolerance=0, random_state=seed, max_iterations=m, **ls)
            q.update(extra)
            mod = spec.make(k, q)
            return spec.fit(mod, X, **dict(start, **flags))
        steps = int(rng.randint(2, 13 if name == 'CROM' else 8))
        offset = 0
        if late:
            offset = int(gen.pick(rng, [rng.randint(15, 100), rng.randint(100, 300), rng.randint(300, 700)]))
            steps = defaults(ls)['line_search_memory'] + int(rng.randint(2, 5))
            first = fit(offset, require_monotonic_cost_decrease=False)
        elif name == 'CROM':
            # no step can be accepted: the starting parameters
            first = fit(1, gamma=1e15, step_size_tolerance=1e-12, require_monotonic_cost_decrease=False)
        else:
            first = dict(W=np.array(start['weights'], float), D=np.array(start['dictionary'], float))
            if name == 'MTD':
                first.update(w=np.array(start['order_weights'], float), T=np.array(start['transition_matrices'], float))
        states = [snapshot(P, first)] + [snapshot(P, fit(m, require_monotonic_cost_decrease=False)) for m in range(offset + 1, offset + steps + 1)]
        full = defaults(ls)
        alpha = {b: None if late else (1.0, 0.0, 'first') for b in blocks}
        memory = {b: [] if late else [0.0] * full['line_search_memory'] for b in blocks}
        opening = name == 'CROM' and not late
        label = '%s (%s, k=%d, %r, updating %s, %r)' % (name, kind, k, o, ''.join(keep), ls)
        risen = []          # increases of the objective relative to the beginning of the iteration
        tiny = False
        for m in range(steps):
            cur = dict(states[m])
            base = P.value(cur)
            for b in blocks:
                if b not in keep:
                    continue
                memory[b] = (memory[b] + [P.value(cur)])[-full['line_search_memory']:]
                after = P.put(cur, b, P.get(states[m + 1], b))
                old, new = P.get(cur, b), P.get(after, b)
                moved = [y - x for x, y in zip(old, new)]
                try:
                    if alpha[b] is None or (opening and m == 0) or len(memory[b]) < full['line_search_memory']:
                        raise Sensitive()
                    a, rel, where = alpha[b]
                    want, trials, slope, d, acc, v0, v1 = step(P, full, cur, b, a, memory[b])
                    size = norm(d)
                    # the projection of x - a g is known up to rounding of its argument
                    gs = norm(P.gradient(cur, b))
                    tol = (1e-8 + 3 * acc + 3 * rel) * size + 1e-13 * (norm(old) + a * gs) + 3 * rel * a * gs + a * P.gradient_noise(cur, b) + 1e-13 * norm(P.get(states[0], b))
                    if tol > 1e-4 * size and (size > 1e-9 * norm(old) or a * P.gradient_noise(cur, b) > 1e-12 * norm(old)):
                        raise Sensitive()
                    err = norm([x - y for x, y in zip(want, new)])
                    ctx.require(err <= tol, 'spectral-step',
                                '%s: iteration %d, factor %s: moved by %.6g, expected move %.6g (spectral step %.6g %s, %d trial steps), '
                                'difference %.3g' % (label, offset + m + 1, b, norm(moved), norm([x - y for x, y in zip(want, old)]), a, where, trials, err))
                    ctx.count('backtracked updates', trials > 1)
                    ctx.count('updates above the current objective', v1 > v0 + 10 * P.noise(cur))
                    ctx.count('spectral steps at the upper bound', where == 'upper')
                    ctx.count('spectral steps at the lower bound', where == 'lower')
                    ctx.count('spectral steps inside the bounds', where == 'inside')
                    ctx.count('updates after a hundred iterations', offset >= 100)
                    ctx.seen(name, b, offset // 50, m, min(trials, 6), where, tuple(sorted(ls)))
                except Sensitive:
                    ctx.count('updates that hang on rounding, not judged')
                g0, g1 = P.gradient(cur, b), P.gradient(after, b)
                try:
                    # rounding of the factors limits the known accuracy of the step
                    if norm(moved) <= 1e-7 * norm(old):
                        alpha[b] = None
                        raise Sensitive()
                    if opening and m == 0:
                        if norm(moved) <= 1e-4:
                            raise Sensitive()
                    alpha[b] = spectral_length(full, moved, [y - x for x, y in zip(g0, g1)], P.gradient_noise(cur, b) + P.gradient_noise(after, b))
                    if opening and m == 0 and alpha[b][2] == 'inside':
                        alpha[b] = (alpha[b][0], alpha[b][1] + 1e-7, 'inside')
                except Sensitive:
                    alpha[b] = None
                cur = after
                risen.append((P.value(cur) - base) / max(abs(base), reference(P), 1e-300))
        # the monotonicity option
        up, down = max(risen) > 1e-7, max(risen) < 1e-12
        if (up or down) and not late:
            try:
                F = snapshot(P, fit(steps, require_monotonic_cost_decrease=True))
                failed = False
            except RuntimeError as e:
                failed = True
            ctx.require(failed == up, 'fails-iff-objective-rises', '%s: failed %r, largest relative rise %.3g' % (label, failed, max(risen)))
            if not failed:
                ctx.require(all(np.array_equal(F[q], states[-1][q]) for q in F), 'option-has-no-other-effect', label)
            ctx.count('fits that fail because the objective rises', failed)
            ctx.count('lag model fits that fail because the objective rises', failed and name == 'CROM')
        ctx.note(model=name, options=ls, updating=''.join(keep), objective=[P.value(s) for s in states])
    return run


def reference(P):
    """Scale relative to which increases are judged."""
    if P.name == 'CROM':
        return 1.0
    e = float(np.sum(P.X ** 2))
    if P.aa:
        return e
    return e / P.X.size + (P.e2 if P.name == 'MTD' else 0)


FAMILIES = [Family(nm, model(nm), q) for nm, q in (('AA', 700), ('KAA', 300), ('GPNH', 900), ('MTD', 900), ('CROM', 600))]
FAMILIES += [Family('late_' + nm, model(nm, late=True), q) for nm, q in (('AA', 40), ('GPNH', 50), ('MTD', 40), ('CROM', 25))]
