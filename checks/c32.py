"""C32: a call that ends early leaves nothing behind."""
import gc
import logging
import os
import sys
import warnings
import numpy as np
from vlib import repo, gen, jobs, models as M
from vlib.recorders import same, differing, snapshot, Injected
from vlib.core import Family, Skip

ID = 'C32'
SCALE = 2                 # quick runs: this many times the cases below
RULE = ('fits, transforms and forecasts ended by an exception (a user interrupt, memory or floating point error) raised at a random '
        'executed line of the package; afterwards the arrays of the caller, the process-wide settings, earlier results, the fitted model (for transforms and '
        'forecasts) and later uses and fits are compared bitwise with those of objects that never saw the call; distinct = (model, '
        'call, function interrupted)')
REQUIRED = {'exception-reaches-caller': 1, 'caller-arrays-intact': 1, 'process-settings-intact': 1, 'fitted-results-intact': 1,
            'later-use-equal': 1, 'refit-equal': 1, 'earlier-results-intact': 1}
TECHNIQUE = 'fault injection at executed lines with bitwise state comparison against an undisturbed twin'
LEVEL_NOTE = 'Every observed interruption is decided bitwise; the points of interruption and the models are sampled.'

ERRORS = (KeyboardInterrupt, MemoryError, FloatingPointError, RuntimeError)


def process_settings():
    s = np.random.get_state()
    return (np.geterr(), [repr(f) for f in warnings.filters], s[0], s[1].copy(), s[2:], sorted(np.get_printoptions().items(), key=str),
            dict(os.environ), gc.isenabled(), sys.getrecursionlimit(), sys.getswitchinterval(), logging.root.level)


def settings_equal(a, b):
    return a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and np.array_equal(a[3], b[3]) and a[4:] == b[4:]


def arrays_of(args, out=None, prefix=''):
    out = {} if out is None else out
    for q, v in args.items():
        if isinstance(v, np.ndarray):
            out[prefix + q] = v
        elif isinstance(v, dict):
            arrays_of(v, out, prefix + q + '.')
    return out


def call(job, m, what):
    if what == 'fit':
        return job.run(m)
    return job.use(m, which=0)


def again(m, seed):
    if isinstance(m.__dict__.get('random_state'), np.random.RandomState):
        m.random_state = np.random.RandomState(seed)


def interrupted(name):
    def run(ctx):
        rng = ctx.rng
        job = jobs.build(rng, name, limit=int(gen.pick(rng, [1, 2, 5, 20])), nmax=20 if name == 'FVX' else 14)
        if name == 'KMC':
            job.options['n_init'] = 1
        seed = int(rng.randint(10 ** 6))
        rs = (lambda: np.random.RandomState(seed)) if name not in ('PW', 'KMC') else (lambda: seed)
        what = gen.pick(rng, ['fit', 'use', 'use'])
        if name == 'PW':
            # components without enough samples are rejected; only fits that succeed are interrupted
            try:
                job.run(job.make(seed))
            except ValueError:
                raise Skip()
        probe = job.make(rs())
        state = None
        if what == 'use' or rng.rand() < 0.5:
            job.run(probe)
            state = True
        again(probe, seed + 1)
        p = Injected(0)
        e = p.run(lambda: call(job, probe, what))
        if e is not None or p.lines < 1:
            raise Skip()
        m, twin = job.make(rs()), job.make(rs())
        if state:
            job.run(m)
            job.run(twin)
        other = jobs.build(rng, gen.pick(rng, jobs.FACTOR), limit=2, nmax=10)
        om = other.make(np.random.RandomState(seed))
        ostate = snapshot(other.run(om))
        ouse = snapshot(other.use(om, which=0))
        again(m, seed + 1)
        before = snapshot({q: v for q, v in job.state(m).items()}) if state else None
        kept = {}
        if state and (hasattr(m, 'Gamma') or hasattr(m, 'S')):
            w = m.Gamma if hasattr(m, 'Gamma') else m.S
            if isinstance(w, np.ndarray):
                kept['weights'] = (w, w.copy())
        caller = arrays_of(job.args)
        for i, o in enumerate(job.others):
            arrays_of(o, caller, 'other%d.' % i)
        copies = {q: v.copy() for q, v in caller.items()}
        old = np.seterr(**gen.pick(rng, [{}, dict(under='warn'), dict(all='ignore'), dict(over='print', divide='ignore')]))
        settings = process_settings()
        error = ERRORS[rng.randint(len(ERRORS))]('injected')
        # early lines (validation, setting up) are as likely as late ones
        at = 1 + (rng.randint(min(p.lines, 60)) if rng.rand() < 0.4 else rng.randint(p.lines))
        inj = Injected(at, error)
        got = inj.run(lambda: call(job, m, what))
        after = process_settings()
        np.seterr(**old)
        label = '%s: %s in %s during %s' % (name, type(error).__name__, inj.where, what)
        ctx.note(model=name, init=job.init, call=what, where=inj.where, line=int(at), of=p.lines)
        ctx.require(got is error, 'exception-reaches-caller', '%s ended with %r' % (label, got))
        for q, v in caller.items():
            ctx.require(same(v, copies[q]), 'caller-arrays-intact', '%s: %s' % (label, q))
        ctx.require(settings_equal(settings, after), 'process-settings-intact', label)
        for q, (a, b) in kept.items():
            if what == 'use':
                ctx.require(np.array_equal(a, b, equal_nan=True), 'earlier-results-intact', '%s: %s' % (label, q))
        if what == 'use':
            d = differing(before, job.state(m))
            ctx.require(not d, 'fitted-results-intact', '%s: %r' % (label, d))
            again(m, seed + 2)
            again(twin, seed + 2)
            d = differing(job.use(twin), job.use(m))
            ctx.require(not d, 'later-use-equal', '%s: %r' % (label, d))
        # other objects do not notice
        d = differing({q: v for q, v in ostate.items() if q != 'returned'}, other.state(om))
        ctx.require(not d, 'earlier-results-intact', '%s: other model %r' % (label, d))
        again(om, seed)
        om2 = other.make(np.random.RandomState(seed))
        other.run(om2)
        again(om2, seed)
        d = differing(other.use(om2, which=0), other.use(om, which=0))
        ctx.require(not d, 'earlier-results-intact', '%s: later uses of another model: %r' % (label, d))
        # a later fit is that of a fresh object
        fresh = job.make(rs())
        again(fresh, seed + 3)
        again(m, seed + 3)
        d = differing(job.run(fresh), job.run(m))
        ctx.require(not d, 'refit-equal', '%s: %r' % (label, d))
        again(fresh, seed + 4)
        again(m, seed + 4)
        d = differing(job.use(fresh), job.use(m))
        ctx.require(not d, 'refit-equal', '%s then uses: %r' % (label, d))
        ctx.seen(name, what, inj.where)
        ctx.count('interrupted:%s' % inj.where)
    return run


FAMILIES = [Family(nm, interrupted(nm), q) for nm, q in (
    ('AA', 150), ('KAA', 100), ('GPNH', 150), ('CROM', 150), ('MTD', 200), ('FKM', 120), ('FVX', 200), ('PW', 60), ('KMC', 30))]
