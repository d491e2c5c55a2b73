"""P18: failures of the model during an optimization"""
import itertools
import numpy as np
from numpy.linalg import LinAlgError
import scipy.linalg
from paramz.optimization import optimization as O
import monitors as M, reft, zoo
from vcommon import check, same, close
from world import World, Recorder
LEVEL = 'fault_enumeration'
CASES = dict(quick=4500, thorough=16000)
EVAL = 'requests_judged'
MINIMUM = dict(requests_judged=15000, failures_tolerated=5000, failures_raised=600, other_errors_raised=150, faults_update=1500,
               faults_objective=1500, faults_gradient=1500, persistent_gradient_faults=150, real_optimizer_runs=250, alive_afterwards=1200,
               patterns_enumerated=500, crash_points=200)
DISTINCT = 1000
RULE = 'distinct (allowed failures, pattern of failed requests, kinds of the requests) followed to their end'
ASSUMPTIONS = ['whether the count survives from one optimization to the next is left open: the first request of every run succeeds',
               'a failing model writes no nan into its gradients',
               'numerical failures are LinAlgError, ZeroDivisionError and ValueError with their subclasses']


class MyLin(LinAlgError):
    pass


class Other(Exception):
    pass


class OtherBase(BaseException):
    pass


def a_tolerated(c):
    return c.pick([LinAlgError('singular'), ZeroDivisionError('division by zero'), ValueError('math domain error'), MyLin('mine'),
                   scipy.linalg.LinAlgError('scipy'), UnicodeError('a value error')])


def a_other(c):
    return c.pick([Other('x'), RuntimeError('x'), KeyError('x'), TypeError('x'), IndexError('x'), MemoryError('x'), AssertionError('x'),
                   NotImplementedError('x'), OSError('x'), OtherBase('x'), KeyboardInterrupt('x'), StopIteration('x'), AttributeError('x')])


class Faults(object):
    """plan of one request; remembers what was raised"""
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.nodes = [n.obj for n in r.nodes()]
        self.raised = []

    def arm(self, plan):
        """plan None or (site, make, persistent, garbage)"""
        self.raised = []
        self.plan = plan
        self.left = None
        if plan is None:
            return
        site, make, persistent, garbage = plan
        target = self.c.pick(self.nodes)
        self.left = 10 ** 9 if persistent else 1
        exc = [None]

        def hit(obj):
            if self.left <= 0:
                return
            if site == 'update' and obj is not target:
                return
            self.left -= 1
            if garbage is not None and site == 'update':
                # into what this node computes
                for g in [p.gradient for p in obj.own()] if isinstance(obj, zoo._Z) else [obj.gradient]:
                    g[...] = garbage[:1] if g.size != len(garbage) else garbage.reshape(g.shape)
            exc[0] = make()
            self.raised.append(exc[0])
            raise exc[0]
        {'update': zoo.FAULT, 'objective': zoo.FAULT_O, 'gradient': zoo.FAULT_G}[site][0] = hit

    def off(self):
        zoo.FAULT[0] = zoo.FAULT_O[0] = zoo.FAULT_G[0] = None


class Judge(object):
    """automaton of the failure count; every answer passes through it"""
    def __init__(self, w, r, allowed):
        self.w, self.c, self.r, self.allowed = w, w.ctx, r, allowed
        self.fails = 0
        fr = w._free(r)
        self.specs = [l.t[i] for l, i in fr]
        self.pos, o = [], 0
        for l in r.leaves():
            self.pos += [o + i for i in range(l.v.size) if not l.fx[i]]
            o += l.v.size
        self.base = r.vals().copy()
        self.faults = Faults(self.c, r)
        self.trace = ''
        self.escaped = None
        self.nan = False     # scipy's truncated Newton asks for nan, after it was told infinite values

    def model_values(self, x):
        v = self.base.copy()
        for p, s, xi in zip(self.pos, self.specs, x):
            v[p] = xi if s is None else float(reft.f(s, xi))
        return v

    def ask(self, kind, fun, x, plan):
        """one request; returns the answer; raises what escapes (after judging it)"""
        c = self.c
        F = self.faults
        x = np.array(x, float)
        F.arm(plan)
        self.nan = self.nan or not np.all(np.isfinite(x))
        try:
            try:
                ans, err = fun(x.copy()), None
            except BaseException as e:
                if type(e).__name__ in ('Hang', 'StepLimit'):
                    raise
                ans, err = None, e
        finally:
            F.off()
        c.count('requests_judged')
        what = lambda: 'request {} of {!r} (allowed {}, pattern {}, plan {}): answer {}, error {!r}'.format(
            len(self.trace), kind, self.allowed, self.trace, plan and (plan[0], plan[2]), ans, err)
        if F.raised:
            c.count('faults_' + plan[0])
            if plan[0] == 'gradient' and plan[2]:
                c.count('persistent_gradient_faults')
        if not F.raised:
            check(err is None, 'error-without-failure', what)
            self.fails = 0
            self.trace += 'o'
            self.truth(kind, x, ans, what)
        elif not isinstance(F.raised[0], (LinAlgError, ZeroDivisionError, ValueError)):
            check(any(err is e for e in F.raised), 'other-error-does-not-reach-the-caller', what)
            c.count('other_errors_raised')
            self.trace += 'X'
        elif self.fails >= self.allowed:
            check(err is not None, 'failure-beyond-the-limit-tolerated', what)
            check(any(err is e for e in F.raised), 'not-the-original-error', what)
            c.count('failures_raised')
            self.trace += 'R'
        else:
            check(err is None, 'failure-within-the-limit-not-tolerated', what)
            self.fails += 1
            self.trace += kind[0] if kind != 'f_fp' else 'b'
            c.count('failures_tolerated')
            f, g = dict(f=lambda a: (a, None), fp=lambda a: (None, a), f_fp=lambda a: a)[kind](ans)
            if kind != 'fp':
                check(np.ndim(f) == 0 and float(f) == np.inf, 'failed-objective-is-not-infinite', what)
            if kind != 'f':
                g = np.asarray(g, float)
                check(g.shape == x.shape, 'gradient-size', what)
                check(self.nan or bool(np.all(np.isfinite(g)) and np.all(np.abs(g) <= 1e100)), 'failed-gradient-is-not-bounded', what)
        if err is not None:
            self.escaped = err
            c.seen(self.allowed, self.trace)
            raise err
        return ans

    def truth(self, kind, x, ans, what):
        if not np.all(np.isfinite(x)) or np.max(np.abs(x), initial=0.) > 30:
            return     # a step far away of an optimizer: judged by P08 and P04
        v = self.model_values(x)
        f, g = dict(f=lambda a: (a, None), fp=lambda a: (None, a), f_fp=lambda a: a)[kind](ans)
        if f is not None:
            check(close(float(f), M.objective(self.r, v), 1e-7, 1e-8), 'objective-wrong', what)
        if g is not None and np.max(np.abs(x), initial=0.) < 8 and not any(s == ('Square',) and xi <= 0 for s, xi in zip(self.specs, x)):
            eg = M.gradient(self.r, v)
            et = np.array([eg[p] * (1. if s is None else float(reft.dfdx_at(s, xi))) for p, s, xi in zip(self.pos, self.specs, x)])
            check(np.shape(g) == et.shape and close(g, et, 1e-6, 1e-7), 'gradient-wrong', what)
        check(close(np.array(self.r.obj.param_array, float), v, 1e-7, 1e-9), 'model-not-at-requested-vector', what)


def a_plan(c, fail, other=.0, clean=True):
    if not fail:
        return None
    make = (lambda: a_other(c)) if c.chance(other) else (lambda: a_tolerated(c))
    garbage = c.pick([None, None, np.array([1e200]), np.array([-1e200]), np.array([-np.inf]), np.array([np.inf]), np.array([1e30, -1e15, 3.])])
    if not clean and garbage is not None and not np.all(np.isfinite(garbage)):
        garbage = np.array([1e200])
    return c.pick(['update', 'objective', 'gradient']), make, c.chance(.5), garbage


def site_for(kind, plan):
    """make sure that the planned failure happens in a request of this kind"""
    if plan is None:
        return None
    if kind == 'f' and plan[0] == 'gradient' or kind == 'fp' and plan[0] == 'objective':
        return ('update' if kind == 'fp' else 'objective',) + plan[1:]
    return plan


class Stop(Exception):
    pass


def scripted(w, r, patterns):
    """patterns: list of strings over o (success) and f (failure), one run each"""
    c = w.ctx
    for allowed, pattern in patterns:
        j = Judge(w, r, allowed)
        if allowed is None:
            j.allowed = 10
            r.obj.__dict__.pop('_allowed_failures', None)
        else:
            r.obj._allowed_failures = allowed
        plain = not any(s is not None for s in j.specs)
        done = [False]

        def todo(o, x, f_fp, f, fp):
            pool = [x]
            funs = dict(f=f, fp=fp, f_fp=f_fp)
            first = c.pick(list(funs))
            j.ask(first, funs[first], x, None)
            for k, ch in enumerate(pattern):
                kind = c.pick(list(funs))
                if c.chance(.3):
                    y = c.pick(pool)
                else:
                    y = np.array([float(reft.optval(s, w.rng)) for s in j.specs])
                    pool.append(y)
                plan = site_for(kind, a_plan(c, ch in 'fX', 1. if ch == 'X' else 0., plain))
                j.ask(kind, funs[kind], y, plan)
            y = c.pick(pool)
            k = c.pick(list(funs))
            j.ask(k, funs[k], y, None)
            o.x_opt = np.array(y).copy()
            done[0] = True
        c.step('{!r}: requests {} with {} failures allowed'.format(r, pattern, allowed))
        err = None
        runs = len(r.obj.optimization_runs)
        try:
            r.obj.optimize(Recorder(todo))
        except BaseException as e:
            if e is not j.escaped:
                raise
            err = e
        c.seen(j.allowed, j.trace, err is None)
        check((err is None) == done[0], 'run-ends-without-its-error', lambda: (pattern, j.trace))
        check(len(r.obj.optimization_runs) == runs + (err is None), 'failed-run-recorded', lambda: (pattern, j.trace))
        # the expected end
        alive(w, r, err)


def alive(w, r, err):
    """after whatever failed: new values are accepted and the results are right"""
    c = w.ctx
    w.after_free_change(r)
    how = c.pick(['values', 'optimizer vector', 'parts', 'update', 'optimize'])
    if err is not None or c.chance(.5):
        if how == 'values':
            v = np.concatenate([reft_interior(w, l) for l in r.leaves()])
            r.obj[:] = v
        elif how == 'optimizer vector':
            j = Judge(w, r, 0)
            x = np.array([float(reft.optval(s, w.rng)) for s in j.specs])
            r.obj.update_model(True)
            r.obj.optimizer_array = x
            check(close(np.array(r.obj.param_array, float), j.model_values(x), 1e-7, 1e-9), 'values-not-accepted-after-a-failure')
        elif how == 'parts':
            for l in r.leaves():
                v = reft_interior(w, l).reshape(l.shape)
                l.obj[...] = v
                check(same(l.obj.values, v), 'values-not-accepted-after-a-failure', lambda: l)
            for n in r.nodes()[1:]:
                n.obj[:] = np.array(n.obj[:])
        elif how == 'update':
            r.obj.trigger_update()
        else:
            o = r.obj.optimize('lbfgsb', max_iters=3)
            if o is None:
                return
            r.obj.update_model(True)
        for l in r.leaves():
            l.v[:] = np.array(l.obj.values, float).ravel()
    check(r.obj.update_model() is True, 'updates-off-after-a-failure')
    if how in ('optimizer vector', 'optimize') and err is not None:
        # parts without free elements are left out by these
        r.obj.trigger_update()
    M.fresh_tree(w, r)
    M.values(w)
    M.optvec(w)
    M.gradients(w)
    c.count('alive_afterwards')


def reft_interior(w, l):
    return np.array([float(reft.interior(l.t[i], w.rng)) if not l.fx[i] else l.v[i] for i in range(l.v.size)])


def real(w, r):
    """failures at chosen requests of a provided optimizer"""
    c = w.ctx
    allowed = c.pick([0, 1, 2, 3, 10])
    r.obj._allowed_failures = allowed
    j = Judge(w, r, allowed)
    plain = not any(s is not None for s in j.specs)
    name = c.pick(['lbfgsb', 'scg', 'fmin_tnc', 'org-bfgs', 'simplex'])
    base = O.get_optimizer(name)
    mode = c.pick(['one', 'block', 'random', 'from'])
    at = c.int(1, c.pick([3, 10, 25]))
    rate = c.rng.uniform(.05, .8)
    other = c.pick([0., 0., 0., .2])
    n = [0]

    def plan(kind):
        k = n[0]
        n[0] += 1
        if k == 0:
            return None
        fail = dict(one=k == at, block=at <= k < at + allowed, random=c.chance(rate), **{'from': k >= at})[mode]
        return site_for(kind, a_plan(c, fail, other, plain))

    class Watched(base):
        def opt(self, x_init, f_fp=None, f=None, fp=None):
            w_ = lambda kind, fun: lambda x: j.ask(kind, fun, x, plan(kind))
            return super(Watched, self).opt(x_init, f_fp=w_('f_fp', f_fp), f=w_('f', f), fp=w_('fp', fp))
    c.step('{!r}.optimize({}) with {} failures allowed, fails {} {} {:.2f}'.format(r, name, allowed, mode, at, rate))
    err = None
    runs = len(r.obj.optimization_runs)
    try:
        o = r.obj.optimize(Watched(max_iters=c.pick([5, 20, 60])))
    except BaseException as e:
        if e is not j.escaped:
            raise
        err = e
    check(err is j.escaped, 'run-ends-without-its-error', lambda: (name, j.trace))
    check(len(r.obj.optimization_runs) == runs + (err is None), 'failed-run-recorded', lambda: (name, j.trace))
    c.seen(name, allowed, j.trace[:40])
    c.count('real_optimizer_runs')
    if j.nan or (err is None and not np.all(np.isfinite(o.x_opt))):
        # the model still is usable
        c.count('runs_ending_at_nan')
        r.obj[:] = np.concatenate([reft_interior(w, l) for l in r.leaves()])
    alive(w, r, err)


def crash(w, r):
    """an update that raises at any part of the model, in an assignment of any kind"""
    c = w.ctx
    F = Faults(c, r)
    make = (lambda: a_other(c)) if c.chance(.5) else (lambda: a_tolerated(c))
    ls = r.leaves()
    free = w._free(r)
    how = c.pick(['leaf', 'slice', 'node', 'optimizer', 'updates', 'trigger', 'inplace', 'randomize', 'observer'])
    F.arm(('update', make, c.chance(.5), None))
    obs = None
    before = dict((id(l), l.v.copy()) for l in ls)
    l = c.pick(ls)
    v = reft_interior(w, l).reshape(l.shape)
    err = None
    c.step('crash in an update of {!r} caused by {}'.format(r, how))
    try:
        try:
            if how == 'leaf':
                l.obj[...] = v
            elif how == 'slice':
                l.obj[:1] = v[:1]
            elif how == 'inplace':
                a = l.obj
                a += 0.
            elif how == 'node':
                c.pick([n for n in r.nodes() if n.size]).obj[:] = 1.5
            elif how == 'optimizer':
                r.obj.optimizer_array = np.array([float(reft.optval(x.t[i], w.rng)) for x, i in free])
            elif how == 'updates':
                F.off()
                r.obj.update_model(False)
                l.obj[...] = v
                F.arm(('update', make, c.chance(.5), None))
                r.obj.update_model(True)
            elif how == 'trigger':
                c.pick(list(r.pre())).obj.trigger_update()
            elif how == 'randomize':
                r.obj.randomize()
            else:
                F.off()
                obs = object()
                e = make()

                def shout(me, which):
                    raise e
                F.raised.append(e)
                r.obj.add_observer(r.obj, shout, priority=c.pick([-10, 0, 10]))
                l.obj[...] = v
        except BaseException as e:
            if not any(e is x for x in F.raised):
                raise
            err = e
    finally:
        F.off()
        if obs is not None:
            r.obj.remove_observer(r.obj, shout)
    check(err is not None or not F.raised, 'error-of-an-update-swallowed', lambda: (how, F.raised))
    if F.raised:
        c.count('crash_points')
    # whatever was set is set; nothing else changed
    touched = set()
    if how in ('leaf', 'slice', 'inplace', 'updates', 'observer'):
        touched = {id(l)}
    elif how in ('node', 'optimizer', 'randomize'):
        touched = set(before)
    for x in ls:
        got = np.array(x.obj.values, float).ravel()
        if id(x) not in touched:
            check(same(got, before[id(x)]), 'failed-update-changes-other-values', lambda: (how, x))
        x.v[:] = got
    c.seen('crash', how, type(err).__name__, len(r.nodes()))
    if how == 'updates':
        r.obj.update_model(True)
    check(r.obj.update_model() is True, 'updates-off-after-a-failure', lambda: how)
    # from here on all is as ever
    r.obj[:] = np.concatenate([reft_interior(w, x) for x in ls])
    for x in ls:
        x.v[:] = np.array(x.obj.values, float).ravel()
    M.fresh_tree(w, r)
    M.values(w)
    M.optvec(w)
    M.gradients(w)
    M.constraints(w)
    c.count('alive_afterwards')


ENUM = [(a, ''.join(p)) for a in (0, 1, 2, 3) for n in (8,) for p in itertools.product('of', repeat=n)]


def run_case(ctx):
    w = World(ctx)
    mode = ctx.case % 3
    w.run(ctx.int(1, 8), dict(constrain=24, fix=12, calls=0, print=0, updates=0, checkgrad=0, copy=3, pickle=2), [])
    r = w.any_root(model=True)
    if r is None or not w._free(r) or not w.is_on(r) or not w.moderate(r) or not np.all(np.isfinite(r.opt())):
        w = World(ctx)
        r = w.main
        if not w._free(r) or not np.all(np.isfinite(r.opt())):
            return
    if mode == 0:
        # the exhaustive part: patterns of eight requests
        per = 4
        k0 = (ctx.case // 3) * per
        for k in range(k0, k0 + per):
            a, p = ENUM[k % len(ENUM)]
            scripted(w, r, [(a, p)])
            ctx.count('patterns_enumerated')
    elif mode == 1:
        for _ in range(2):
            a = ctx.pick([0, 1, 2, 3, 5, 10, None])
            rate = ctx.rng.uniform(.2, .95)
            n = ctx.int(5, 30)
            p = ''.join('f' if ctx.chance(rate) else 'o' for _ in range(n))
            if ctx.chance(.4):
                k = ctx.int(1, n)
                p = p[:k] + 'X'
            scripted(w, r, [(a, p)])
        if ctx.chance(.5):
            crash(w, r)
    else:
        real(w, r)
        if w._free(r) and np.all(np.isfinite(r.opt())) and w.moderate(r):
            if ctx.chance(.5):
                real(w, r)
        crash(w, r)
    ctx.samples = ctx.history[-6:]
