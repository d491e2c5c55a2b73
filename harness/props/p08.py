"""P08: what an optimizer is told, request by request"""
import numpy as np
import monitors as M, reft
from vcommon import check, same, close
from world import World, Recorder
LEVEL = 'exploration'
CASES = dict(quick=3900, thorough=15000)
EVAL = 'requests_checked'
MINIMUM = dict(requests_checked=4000, gradients_checked=2500, objectives_checked=2500, requests_with_constraints=1500,
               requests_with_fixed=600, gradients_kept=2500)
DISTINCT = 2000
RULE = 'distinct (request kind, objective value) pairs compared with recomputation from scratch'
ASSUMPTIONS = ['models of zoo.py (smooth, gradient known in closed form)']


def watch(w, r, again=None):
    c = w.ctx
    fr = w._free(r)
    specs = [l.t[i] for l, i in fr]
    pos, o = [], 0
    for l in r.leaves():
        pos += [o + i for i in range(l.v.size) if not l.fx[i]]
        o += l.v.size
    base = r.vals().copy()
    pool, kept = [], []
    buf = [None]

    def model_values(x):
        v = base.copy()
        for p, s, xi in zip(pos, specs, x):
            v[p] = xi if s is None else float(reft.f(s, xi))
        return v

    last = []

    def ask(f_fp, f, fp, x, kind=None):
        v = model_values(x)
        eo = M.objective(r, v)
        eg = M.gradient(r, v)
        et = np.array([eg[p] * (1. if s is None else float(reft.dfdx_at(s, xi))) for p, s, xi in zip(pos, specs, x)])
        kind = kind or c.pick(['f', 'fp', 'f_fp'])
        last[:] = [(kind, x.copy())]
        arg = c.pick([x.copy(), x.copy(), x.tolist()]) if c.chance(.3) else x.copy()
        if c.chance(.4):
            # one array, which the optimizer changes in place between its requests
            if buf[0] is None:
                buf[0] = x.copy()
            buf[0][:] = x
            arg = buf[0]
        raw = np.array(arg, float).copy()
        if kind == 'f':
            fo, g = f(np.asarray(arg)), None
        elif kind == 'fp':
            fo, g = None, fp(np.asarray(arg))
        else:
            fo, g = f_fp(np.asarray(arg))
        check(same(np.asarray(arg, float), raw), 'request-changes-its-argument')
        if fo is not None:
            check(close(float(fo), eo, 1e-7, 1e-8), 'objective-wrong', lambda: '{}({}) = {} instead of {}'.format(kind, x, fo, eo))
            c.count('objectives_checked')
        if g is not None:
            kept.append((g, np.array(g, float), x.copy()))
            g = np.array(g, float)
            check(g.shape == et.shape, 'gradient-size', lambda: (g.shape, et.shape))
            check(close(g, et, 1e-6, 1e-7), 'gradient-wrong', lambda: '{}({}) = {} instead of {}, constraints {}'.format(kind, x.tolist(), g.tolist(), et.tolist(), specs))
            c.count('gradients_checked')
        # the model: at the requested vector, its own gradient with respect to the model values
        got = np.array(r.obj.param_array, float)
        check(close(got, v, 1e-7, 1e-9), 'model-not-at-requested-vector', lambda: (got, v))
        mg = np.array(r.obj.gradient, float).ravel()
        check(close(mg, eg, 1e-6, 1e-7), 'model-gradient-overwritten', lambda: 'after {}: {} instead of {}'.format(kind, mg.tolist(), eg.tolist()))
        c.count('requests_checked')
        if any(s is not None for s in specs):
            c.count('requests_with_constraints')
        if len(specs) < r.size:
            c.count('requests_with_fixed')
        c.seen(kind, round(eo, 7))

    def todo(o, x, f_fp, f, fp):
        check(close(x, r.opt(), 1e-7, 1e-8), 'start-vector', lambda: (x, r.opt()))
        if again is not None and again[1].shape == x.shape:
            # what was asked last in an earlier run, before something changed
            ask(f_fp, f, fp, again[1], again[0])
            c.count('asked_again_after_a_change')
            pool.append(again[1])
        for k in range(c.int(2, 6)):
            if pool and c.chance(.35):
                y = c.pick(pool)   # once more at an earlier vector
            else:
                y = np.array([float(reft.optval(s, w.rng)) for s in specs]) if c.chance(.5) else \
                    x + np.where([s == ('Square',) for s in specs], .1, 1.) * w.rng.normal(0, .5, x.shape)
                y = np.where([s == ('Square',) for s in specs], np.abs(y) + .05, y)
                pool.append(y)
            ask(f_fp, f, fp, y)
        o.x_opt = c.pick(pool).copy()
    w.ctx.step('{!r}: watched requests'.format(r))
    r.obj.optimize(Recorder(todo))
    w.after_free_change(r)
    # an optimizer compares the gradients of several points
    for g, was, x in kept:
        check(same(np.asarray(g, float), was), 'gradient-kept-by-the-optimizer-changed', lambda: 'that of {}: {} was {}'.format(x.tolist(), g, was))
        c.count('gradients_kept')
    # reading the gradient afterwards and directly
    check(close(np.asarray(r.obj.gradient).ravel(), M.gradient(r), 1e-6, 1e-7), 'model-gradient-overwritten')
    check(close(r.obj.objective_function(), M.objective(r), 1e-7, 1e-8), 'objective-wrong')
    return last[0]


def alter(w, r):
    """change something the optimizer vector does not show: fixed values, or what the vector means"""
    c = w.ctx
    l = c.pick(r.leaves())
    if l.fx.any():
        for i in np.flatnonzero(l.fx):
            l.v[i] = float(w.rng.normal(0, 1)) if l.t[i] is None else float(reft.interior(l.t[i], w.rng, ()))
        c.step('{!r}: fixed values set to {}'.format(l, l.v.round(3).tolist()))
        l.obj[...] = l.v.reshape(l.shape)
    else:
        s = c.pick([('Logexp',), ('NegativeLogexp',), ('Logistic', -2., 3.)])
        c.step('{!r} constrained to {}'.format(l, s))
        l.obj.constrain(reft.make(s))
        l.v[:] = np.ravel(reft.initialize(s, l.v.copy()))
        l.t = [s] * l.v.size
        w.approx([l], [l.v.copy()], 'constrained-values')
    c.count('altered_between_runs')


def run_case(ctx):
    w = World(ctx)
    for k in range(ctx.int(1, 3)):
        w.run(ctx.int(2, 9), dict(constrain=24, fix=14, calls=0, print=0, updates=0, checkgrad=0), [])
        r = w.any_root(model=True)
        if r is None or not w._free(r) or not w.is_on(r) or not w.moderate(r):
            continue
        last = watch(w, r)
        if ctx.chance(.6):
            alter(w, r)
            if w.moderate(r):
                watch(w, r, last)
    ctx.samples = ctx.history[-8:]
