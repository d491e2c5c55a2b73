"""P25: the options of an optimization decide when it ends, and its status says why"""
import numpy as np
from scipy import optimize as S
from paramz.optimization import optimization as O
from paramz.optimization.scg import SCG
import monitors as M, reft, zoo, standin
from vcommon import check, same, close, quiet, raises
from world import World, Recorder
from props.p17 import convex, QModel
LEVEL = 'exploration'
CASES = dict(quick=12000, thorough=100000)
EVAL = 'runs_judged'
MINIMUM = dict(runs_judged=2500, scg_runs=1500, wrapper_runs=800, prefixes=700, ended_objective=60, ended_stepsize=60, ended_gradient=60,
               ended_maxiter=150, scg_converged=200, options_given=600, limits=300, climin_runs=120)
DISTINCT = 800
RULE = 'distinct (problem, options, end) of runs whose whole record of evaluations was judged'
ASSUMPTIONS = ['objectives are finite everywhere', 'the scipy routines called directly with the same callables are the reference for their wrappers']


# ------------------------------------------------------------------ problems
def problem(c):
    """(name, f, gradient, dimension, minimum or None)"""
    k = c.int(0, 5)
    n = c.int(1, 6)
    rng = np.random.default_rng(c.int(0, 2 ** 31))
    if k <= 1:
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        ev = 10 ** rng.uniform(-1, 1.3, n)
        A = q.dot(np.diag(ev)).dot(q.T)
        t = rng.normal(size=n)
        return ('quadratic', lambda x: float(.5 * (x - t).dot(A).dot(x - t)), lambda x: A.dot(x - t), n, (0., ev.max()))
    if k == 2:
        n = max(n, 2)
        return ('rosenbrock', lambda x: float(S.rosen(x)), lambda x: np.atleast_1d(S.rosen_der(x)), n, None)
    if k == 3:
        t = rng.normal(size=n)
        w = 10 ** rng.uniform(-1, 1, n)
        return ('hyperbolic', lambda x: float(np.sum(w * (np.hypot(1, x - t) - 1))), lambda x: w * (x - t) / np.hypot(1, x - t), n, (0., w.max()))
    if k == 4:
        a = rng.uniform(.5, 3, n)
        return ('waves', lambda x: float(np.sum(.1 * x * x + np.sin(a * x))), lambda x: .2 * x + a * np.cos(a * x), n, None)
    t = rng.normal(size=n)
    return ('quartic', lambda x: float(np.sum((x - t) ** 4 + .1 * (x - t) ** 2)), lambda x: 4 * (x - t) ** 3 + .2 * (x - t), n, (0., 10.))


class Log(object):
    """every request in order"""
    def __init__(self, f, g, c, arg=None):
        self.events, self.f_, self.g_, self.arg = [], f, g, arg
        self.reuse = c.chance(.5)
        self.buffer = None

    def f(self, x, *a):
        assert a == (() if self.arg is None else (self.arg,)), a
        x = np.array(x, float)
        v = self.f_(x)
        self.events.append(('f', x, v))
        return v

    def g(self, x, *a):
        assert a == (() if self.arg is None else (self.arg,)), a
        x = np.array(x, float)
        v = np.asarray(self.g_(x), float)
        self.events.append(('g', x, v.copy()))
        return v


# ------------------------------------------------------------------ scg
def scg_run(c, pr, x0, opts, arg=None):
    name, f, g, n, best = pr
    log = Log(f, g, c, arg)
    kw = dict(opts)
    if arg is not None:
        kw['optargs'] = (arg,)
    start = x0.copy()
    x, flog, ne, status = SCG(log.f, log.g, x0, **kw)
    check(same(x0, start), 'start-overwritten')
    text = lambda: '{} n={} {}: {} after {} iterations'.format(name, n, opts, status, len(flog) - 1)
    fs = [(x_, v) for k, x_, v in log.events if k == 'f']
    gs = [(x_, v) for k, x_, v in log.events if k == 'g']
    iters = len(flog) - 1
    limit = opts.get('maxiters', 500)
    check(same(fs[0][0], x0) and flog[0] == fs[0][1], 'start-not-used', text)
    check(ne == len(log.events), 'evaluations-miscounted', lambda: '{}: reports {}, made {}'.format(text(), ne, len(log.events)))
    check(iters == len(fs) - 1, 'history-incomplete', lambda: (text(), len(fs)))
    check(iters <= limit, 'iteration-limit-ignored', text)
    # replay: a step is accepted, if it is not uphill
    xtol, ftol, gtol = [opts.get(k) if opts.get(k) is not None else d for k, d in (('xtol', 1e-6), ('ftol', 1e-6), ('gtol', 1e-5))]
    xa, fa = fs[0]
    end, why = None, []
    grad = dict((x_.tobytes(), v) for x_, v in gs)
    for i, (xi, fi) in enumerate(fs[1:]):
        if fi <= fa:
            df, dx = abs(fi - fa), np.max(np.abs(xi - xa))
            xa, fa = xi, fi
            w = []
            if df < ftol:
                w.append('objective')
            # the step itself is not seen, only where it leads (up to rounding)
            if dx < xtol * (1 - 1e-6) - 1e-15 * np.max(np.abs(xi)):
                w.append('stepsize')
            g_ = grad.get(xi.tobytes())
            gn = None if g_ is None else float(np.dot(g_, g_))
            if gn is not None and gn <= gtol:
                w.append('gradient')
            if w:
                end, why, last = i + 1, w, (df, dx, gn)
                check(i + 1 == iters, 'goes-on-after-convergence', lambda: '{}: step {} has {} of {}'.format(text(), i + 1, w, last))
            else:
                last = (df, dx, gn)
        check(flog[i + 1] == fa, 'history-wrong', lambda: '{}: {} instead of {} at {}'.format(text(), flog[i + 1], fa, i + 1))
    check(same(x, xa), 'solution-is-not-the-best-seen', text)
    check(flog[-1] == fa == min(v for _, v in fs), 'solution-is-not-the-best-seen', text)
    if status == 'maxiter exceeded':
        check(iters == limit, 'gave-up-early', text)
        check(not why, 'converged-but-reports-the-limit', lambda: (text(), why))
        c.count('ended_maxiter')
    elif 'objective' in status:
        check('objective' in why, 'wrong-reason', lambda: (text(), why, last))
        c.count('ended_objective')
    elif 'stepsize' in status:
        check(iters and last[1] <= xtol * (1 + 1e-6) + 1e-15 * np.max(np.abs(x)), 'wrong-reason', lambda: (text(), why, last))
        c.count('ended_stepsize')
    elif 'gradient' in status:
        g0 = float(np.dot(gs[0][1], gs[0][1]))
        check('gradient' in why or (not iters and g0 == 0), 'wrong-reason', lambda: (text(), why, g0))
        c.count('ended_gradient')
    else:
        check(False, 'unknown-status', text)
    c.count('scg_runs')
    c.count('runs_judged')
    c.seen(name, n, sorted(opts.items()), status, iters)
    return log, x, flog, status, ne


def tol(c):
    return c.pick([None, None, 1e-12, 1e-9, 1e-6, 1e-3, 1e-1, 10.])


def scg_case(c):
    pr = problem(c)
    name, f, g, n, best = pr
    x0 = c.rng.normal(0, 1.5, n)
    if c.chance(.03) and best is not None and name == 'quadratic':
        x0 = S.minimize(f, x0, jac=g).x
    opts = dict((k, tol(c)) for k in ('xtol', 'ftol', 'gtol') if c.chance(.6))
    opts['maxiters'] = c.pick([0, 1, 2, 3, 5, 10, 30, 200, 500])
    if c.chance(.2):
        del opts['maxiters']
    arg = 'extra' if c.chance(.2) else None
    c.step('scg {} n={} {}'.format(name, n, opts))
    log, x, flog, status, ne = scg_run(c, pr, x0, opts, arg)
    # tighter ends only prolong the run
    tight = dict(opts)
    for k in ('xtol', 'ftol', 'gtol'):
        if c.chance(.6):
            tight[k] = 1e-14
    if c.chance(.4):
        tight['maxiters'] = opts.get('maxiters', 500) + c.int(1, 20)
    log2, x2, flog2, status2, ne2 = scg_run(c, pr, x0, tight, arg)
    check(len(log2.events) >= len(log.events) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(log.events, log2.events)),
          'options-change-the-course', lambda: '{} {}: {} evaluations; {}: {}'.format(name, opts, len(log.events), tight, len(log2.events)))
    c.count('prefixes')
    if best is not None and n <= 4 and c.chance(.6):
        full = dict(xtol=1e-13, ftol=1e-13, gtol=1e-16, maxiters=3000)
        log3, x3, flog3, status3, _ = scg_run(c, pr, x0, full)
        check(flog3[-1] - best[0] <= 1e-4 * (1 + best[1]), 'convex-problem-not-solved', lambda: (name, n, flog3[-1], status3))
        c.count('scg_converged')


# ------------------------------------------------------------------ wrappers
def reference(name, opts, iters, f_fp, f, fp, x):
    """-> solution, number of evaluations reported, what ended it"""
    kw = {}
    x = x.copy()
    if name == 'lbfgsb':
        if 'gtol' in opts:
            kw['pgtol'] = opts['gtol']
        if 'bfgs_factor' in opts:
            kw['factr'] = opts['bfgs_factor']
        r = S.fmin_l_bfgs_b(f_fp, x, maxfun=iters, maxiter=iters, **kw)
        return r[0], r[2]['funcalls'], {0: 'converged', 1: 'limit', 2: 'error'}[r[2]['warnflag']]
    if name == 'fmin_tnc':
        for k, v in (('xtol', 'xtol'), ('ftol', 'ftol'), ('gtol', 'pgtol')):
            if k in opts:
                kw[v] = opts[k]
        r = S.fmin_tnc(f_fp, x, messages=0, maxfun=iters, **kw)
        return r[0], r[1], {0: 'local minimum', 1: 'converged', 2: 'xconverged', 3: 'limit', 4: 'line search', 5: 'constant', 6: 'progress'}[r[2]]
    if name == 'org-bfgs':
        if 'gtol' in opts:
            kw['gtol'] = opts['gtol']
        r = S.fmin_bfgs(f, x, fp, disp=False, maxiter=iters, full_output=True, **kw)
        return r[0], r[4], {0: 'converged', 1: 'limit', 2: 'error', 3: 'error'}[r[6]]
    if name == 'simplex':
        for k in ('xtol', 'ftol'):
            if k in opts:
                kw[k] = opts[k]
        r = S.fmin(f, x, (), disp=False, maxfun=iters, full_output=True, **kw)
        return r[0], r[3], {0: 'converged', 1: 'limit', 2: 'limit'}[r[4]]
    r = SCG(f, fp, x, maxiters=iters, **opts)
    return r[0], r[2], 'limit' if r[3] == 'maxiter exceeded' else 'converged'


def status_class(name, s):
    s = str(s).lower()
    if name == 'org-bfgs' and s == '':
        return 'converged'
    if name == 'fmin_tnc':
        for k in ('local minimum', 'line search', 'constant', 'progress', 'xconverged'):
            if k in s:
                return k
    if 'maximum number' in s or 'maxiter' in s:
        return 'limit'
    if 'converged' in s or 'local minimum' in s:
        return 'converged'
    if 'constant' in s:
        return 'constant'
    return 'error'


def wrapper_case(c):
    seed = c.int(0, 2 ** 31)
    name = c.pick(['lbfgsb', 'scg', 'fmin_tnc', 'org-bfgs', 'simplex'])
    known = {'lbfgsb': ['gtol', 'bfgs_factor'], 'fmin_tnc': ['xtol', 'ftol', 'gtol'], 'org-bfgs': ['gtol'], 'simplex': ['xtol', 'ftol'],
             'scg': ['xtol', 'ftol', 'gtol']}[name]
    opts = {}
    for k in known:
        if c.chance(.5):
            opts[k] = float(c.pick([1e1, 1e3, 1e7, 1e12, 1e14]) if k == 'bfgs_factor' else c.pick([0., 1e-10, 1e-6, 1e-3, .1, 3., 100.]))
    iters = c.pick([1, 2, 3, 5, 8, 20, 1000, 1500])
    others = {}
    if c.chance(.2):
        # options another method would use are ignored
        others = dict((k, 1e-3) for k in ('xtol', 'ftol', 'gtol') if k not in known)
    c.step('convex {} {} max_iters={} {} {}'.format(seed, name, iters, opts, others))
    m, r = convex(c, False, seed), convex(c, False, seed)
    got = []
    if c.chance(.15):
        # a wrong gradient, with which the search along a line fails
        s = c.rng.choice([-1., 1., .01, 50.], m.size)
        for x in (m, r):
            x.objective_function_gradients = lambda x=x: s * x.gradient
        c.step('with gradient times {}'.format(s.tolist()))
        c.count('wrong_gradients')

    def todo(o, x, f_fp, f, fp):
        got.append(reference(name, opts, iters, f_fp, f, fp, x))
        o.x_opt = np.array(got[0][0])
    r.optimize(Recorder(todo))
    x, ne, why = got[0]
    how = c.int(0, 3)
    with quiet():
        if how == 0:
            m.optimize(name, max_iters=iters, **dict(opts, **others))
        elif how == 1:
            m.optimize(O.get_optimizer(name)(max_iters=iters, **dict(opts, **others)))
        elif how == 2:
            m.preferred_optimizer = name
            m.optimize(max_iters=iters, **dict(opts, **others))
        else:
            m.optimize_restarts(1, optimizer=name, verbose=False, max_iters=iters, **dict(opts, **others))
    o = m.optimization_runs[-1]
    text = lambda: '{} max_iters={} {}: {} evaluations ({}), with these options {} ({})'.format(name, iters, opts, o.funct_eval, o.status, ne, why)
    check(type(o) is O.get_optimizer(name) and o.max_iters == iters, 'other-optimizer', text)
    check(int(o.funct_eval) == int(ne), 'options-not-used', text)
    check(same(np.asarray(o.x_opt), np.asarray(x)), 'options-not-used', lambda: '{}: {} instead of {}'.format(text(), o.x_opt, x))
    check(status_class(name, o.status) == why, 'wrong-reason', text)
    check(close(m.param_array, r.param_array, 1e-12, 1e-12), 'model-not-set-to-the-solution', text)
    rep = str(o)
    check(('%d' % o.funct_eval) in rep and ('%.3f' % o.f_opt) in rep and str(o.status) in rep and str(o.opt_name) in rep, 'report', lambda: rep)
    c.count('wrapper_runs')
    c.count('runs_judged')
    if opts:
        c.count('options_given')
    if why == 'limit':
        c.count('limits')
    c.seen(name, iters, sorted(opts.items()), why, int(ne))


def climin_case(c):
    """the optimizers taken from climin, with a stand-in for it"""
    m = convex(c, False, c.int(0, 2 ** 31))
    name = c.pick(['adadelta', 'rprop', 'adam'])
    known = dict(adadelta=dict(step_rate=.3, decay=.8, momentum=.2), rprop=dict(step_shrink=.4, step_grow=1.3, min_step=1e-5, max_step=2., changes_max=.3),
                 adam=dict(step_rate=.01, decay=.7, decay_mom1=.2, decay_mom2=.05, momentum=.3, offset=1e-6))[name]
    opts = dict((k, float(v * c.pick([.5, 1., .25]))) for k, v in sorted(known.items()) if c.chance(.5))
    iters = c.pick([1, 2, 3, 7, 20])
    how = c.int(0, 2)
    n = c.int(2, 3) if how == 2 else 1
    v0 = m.param_array.copy()
    c.step('{} max_iters={} {} how={}'.format(name, iters, opts, how))
    f0 = float(m.objective_function())
    with standin.installed() as made, quiet():
        if how == 0:
            o = m.optimize(name, max_iters=iters, **opts)
        elif how == 1:
            m.preferred_optimizer = name
            o = m.optimize(max_iters=iters, **opts)
        else:
            m.optimize_restarts(n, optimizer=name, verbose=c.chance(.5), max_iters=iters, **opts)
    check(len(made) == n and len(m.optimization_runs) == n, 'other-number-of-runs', lambda: (len(made), m.optimization_runs))
    fs = []
    for s, o in zip(made, m.optimization_runs):
        check(type(s).__name__.lower() == name, 'other-optimizer', lambda: type(s))
        for k in opts:
            check(s.kw.get(k) == opts[k], 'option-not-passed-on', lambda: '{} {}: {}'.format(name, k, s.kw))
        check(len(s.points) == iters and o.funct_eval == iters, 'iteration-limit', lambda: (len(s.points), o.funct_eval, iters))
        check(same(np.asarray(o.x_opt), s.wrt), 'solution-not-reported', lambda: (o.x_opt, s.wrt))
        m.optimizer_array = np.array(s.wrt)
        f = float(m.objective_function())
        check(close(o.f_opt, f), 'reported-objective', lambda: (o.f_opt, f))
        fs.append(f)
        rep = str(o)
        check(status_class(name, o.status) == 'limit' and ('%.3f' % f) in rep, 'report', lambda: rep)
        c.count('wrapper_runs')
        c.count('runs_judged')
        c.count('climin_runs')
    # every run on its own again: the model was left in the best solution
    with standin.installed() as made, quiet():
        m.param_array[:] = v0
        m.trigger_update()
        check(close(m.objective_function(), f0), 'objective-stale')
        if how == 2:
            m.optimization_runs = []
            m.optimize_restarts(n, optimizer=name, verbose=False, max_iters=iters, **opts)
            f = float(m.objective_function())
            best = min(float(o.f_opt) for o in m.optimization_runs)
            check(close(f, best), 'not-the-best-restart', lambda: (f, [o.f_opt for o in m.optimization_runs]))
    c.seen(name, sorted(opts), iters, how)


def missing_case(c):
    """optimizers whose package is missing are refused, the model stays usable"""
    try:
        import climin  # noqa
        return
    except ImportError:
        pass
    m = convex(c, True, c.int(0, 2 ** 31))
    v = m.param_array.copy()
    for name in ('adadelta', 'rprop', 'adam'):
        ok, e = raises(ImportError, m.optimize, name)
        check(ok and not m.optimization_runs and same(m.param_array, v), 'missing-package', name)
    m.optimize('scg', max_iters=3)
    check(len(m.optimization_runs) == 1, 'missing-package')
    c.count('missing_packages')


def run_case(ctx):
    k = ctx.case % 5
    if k in (0, 2, 4):
        scg_case(ctx)
        if k == 0:
            scg_case(ctx)
    elif k == 3 and ctx.chance(.25):
        climin_case(ctx)
    elif k == 1 or ctx.chance(.95):
        for _ in range(2):
            wrapper_case(ctx)
    else:
        missing_case(ctx)
    ctx.samples = ctx.history[:6]
