"""P17: what an optimization reports and where it leaves the model"""
import math, pickle
import numpy as np
from paramz import Model, Param, Parameterized
from paramz.optimization import optimization as O
import monitors as M, reft, zoo
from vcommon import check, same, close, raises
from world import World, RLeaf, RNode
LEVEL = 'exploration'
CASES = dict(quick=3000, thorough=12000)
EVAL = 'runs_judged'
MINIMUM = dict(runs_judged=900, convex_solved=80, traces_compared=200, nothing_free=60, started_elsewhere=100, evaluations_traced=20000,
               refused_names=20, after_copy=40)
DISTINCT = 500
RULE = 'distinct (optimizer, number of free elements, constraints, status, number of evaluations) judged'
ASSUMPTIONS = ['smooth objectives which do not fail; start with finite optimizer values',
               'a convex problem: every coordinate monotone in its own quadratic, minimum inside the domain, moderate start']
NAMES = ['lbfgsb', 'scg', 'fmin_tnc', 'org-bfgs', 'simplex']
CLASSES = {'lbfgsb': 'opt_lbfgsb', 'scg': 'opt_SCG', 'fmin_tnc': 'opt_tnc', 'org-bfgs': 'opt_bfgs', 'simplex': 'opt_simplex'}


class Quad(Parameterized):
    def __init__(self, name, leaves):
        super(Quad, self).__init__(name)
        self.link_parameters(*leaves)


class QModel(Model):
    """sum of a (v - t)^2 / 2 over all elements, summed exactly"""
    def __init__(self, name, parts):
        super(QModel, self).__init__(name)
        self.link_parameters(*parts)
        self.peek = False

    def leaves(self):
        out = []
        self.traverse(lambda p: out.append(p) if isinstance(p, Param) else None)
        return out

    def parameters_changed(self):
        super(QModel, self).parameters_changed()
        if getattr(self, 'peek', False):
            self.optimizer_array
            self.unfixed_param_array
        terms = []
        for p in self.leaves():
            d = np.asarray(p.values) - p.t
            terms += (p.a * d * d / 2.).ravel().tolist()
            p.gradient[...] = p.a * d
        self.obj = math.fsum(terms)
        if zoo.RECORD[0]:
            zoo.EVENTS.append(np.concatenate([p.values.ravel()[p.mine] for p in self.leaves()]))

    def objective_function(self):
        return self.obj


SPECS = [None, None, ('Logexp',), ('NegativeLogexp',), ('Exponent',), ('Logistic', -1., 2.), ('Logistic', 2., 10.)]


def convex(ctx, extra, seed):
    """a convex problem; with `extra` also elements without influence, which are fixed"""
    rng = np.random.default_rng(seed)
    ex = ctx.rng
    parts, group = [], []
    at_optimum = rng.random() < .08
    wide = rng.random() < .5
    for k in range(int(rng.integers(1, 4))):
        n = int(rng.integers(1, 4))
        spec = SPECS[int(rng.integers(len(SPECS)))]
        t = reft.interior(spec, rng, n)
        v = reft.interior(spec, rng, n)
        if spec and spec[0] == 'Logistic':
            lo, up = spec[1:]
            t, v = [lo + (up - lo) * rng.uniform(.25, .75, n) for _ in range(2)]
        if at_optimum:
            v = t.copy()
        a = rng.uniform(.5, 2., n) if spec or not wide else 10 ** rng.uniform(-.5, 1.5, n)
        mine = np.ones(n, bool)
        if extra:
            for _ in range(ctx.int(0, 2)):
                i = ctx.int(0, len(t))
                t, v = np.insert(t, i, 1.25), np.insert(v, i, 1.25)
                a = np.insert(a, i, 1.)
                mine = np.insert(mine, i, False)
        p = Param('p%d' % k, v.copy())
        p.t, p.a, p.mine, p.spec = t, a, mine, spec
        group.append(p)
        if rng.random() < .4:
            if extra and ex.random() < .5:
                group.append(useless(ctx, len(parts)))
            parts.append(Quad('n%d' % k, group))
            group = []
    parts += group
    if extra:
        for _ in range(ctx.int(1, 2)):
            parts.insert(ctx.int(0, len(parts)), useless(ctx, 10 + len(parts)))
    m = QModel('m', parts)
    for p in m.leaves():
        if p.spec is not None:
            (p if p.mine.all() else p[p.mine]).constrain(reft.make(p.spec), warning=False)
        if not p.mine.all():
            (p[~p.mine] if p.mine.any() else p).fix(warning=False)
    return m


def useless(ctx, k):
    n = ctx.int(1, 3)
    p = Param('u%d' % k, np.full(n, 1.25))
    p.t, p.a, p.mine, p.spec = np.full(n, 1.25), np.ones(n), np.zeros(n, bool), None
    return p


def run(ctx, m, name, **kw):
    del zoo.EVENTS[:]
    zoo.RECORD[0] = True
    try:
        o = m.optimize(name, **kw)
    finally:
        zoo.RECORD[0] = False
    tr = [np.asarray(e[1] if isinstance(e, tuple) else e) for e in zoo.EVENTS]
    del zoo.EVENTS[:]
    ctx.count('evaluations_traced', len(tr))
    return o, tr


def judge(ctx, m, o, x0, f0, runs0, spec, name, tr):
    """report and state of a finished run"""
    check(len(m.optimization_runs) == runs0 + 1 and m.optimization_runs[-1] is o, 'run-not-recorded-once',
          lambda: (runs0, len(m.optimization_runs)))
    x = np.array(o.x_opt, float)
    check(x.shape == x0.shape, 'solution-size')
    f = float(m.objective_function())
    check(np.isfinite(f) and close(float(o.f_opt), f, 1e-9, 1e-12), 'reported-objective', lambda: '{}: {} but {}'.format(name, o.f_opt, f))
    check(f <= f0 + 1e-9 * max(1., abs(f0)), 'worse-than-the-start', lambda: '{}: {} after {}'.format(name, f, f0))
    check(o.status is not None and o.funct_eval is not None and 1 <= o.funct_eval <= 2 * len(tr) + 2, 'report-incomplete',
          lambda: (o.status, o.funct_eval, len(tr)))
    check(all(np.all(np.isfinite(t)) for t in tr), 'evaluated-at-no-finite-point', lambda: '{}: {}'.format(name, [t for t in tr if not np.all(np.isfinite(t))][0]))
    str(o)
    ctx.count('runs_judged')
    ctx.seen(name, x.size, spec, str(o.status)[:20], len(tr))


def convex_case(ctx):
    seed = ctx.int(0, 2 ** 31)
    m = convex(ctx, False, seed)
    name = ctx.pick(NAMES)
    n = m.optimizer_array.size
    iters = ctx.pick([0, 1, 2, 5, 17, 1000, 1000, 1000]) if name != 'simplex' else ctx.pick([1, 7, 4000, 4000])
    if name in ('fmin_tnc', 'org-bfgs') and iters == 0:
        iters = 1
    kw = dict(max_iters=iters)
    if name == 'simplex' and iters == 4000:
        kw.update(xtol=1e-6, ftol=1e-8)
    if name == 'scg' and iters == 1000:
        kw.update(ftol=1e-12, gtol=1e-12, xtol=1e-12)
    start = None
    if ctx.chance(.25):
        start = m.optimizer_array + ctx.rng.normal(0, .3, n)
        kw['start'] = start.copy()
        ctx.count('started_elsewhere')
    ctx.step('convex {} {} {}'.format(seed, name, kw))
    x0 = np.array(m.optimizer_array) if start is None else start
    if start is None:
        f0 = float(m.objective_function())
    else:
        q = m.copy()
        q.optimizer_array = start
        f0 = float(q.objective_function())
    fs = 0.
    specs = str([p.spec for p in m.leaves()])
    v0 = m.param_array.copy()
    o, tr = run(ctx, m, name, **kw)
    judge(ctx, m, o, x0, f0, 0, specs, name, tr)
    # every evaluation sets the model once (that of the gradient alone as well); before and afterwards it is set, too
    check(o.funct_eval <= len(tr) and (isinstance(o, O.opt_bfgs) or len(tr) <= o.funct_eval + 4), 'number-of-evaluations',
          lambda: '{}: {} reported, the model was set {} times'.format(name, o.funct_eval, len(tr)))
    # the model is set to the solution
    k, ls = 0, m.leaves()
    for p in ls:
        e = o.x_opt[k:k + p.size]
        e = e if p.spec is None else reft.f(p.spec, e)
        check(close(p.values.ravel(), e, 1e-9, 1e-12), 'model-not-set-to-the-solution', lambda: (name, p.values, e))
        k += p.size
    if start is not None:
        k, e = 0, []
        for p in ls:
            e.append(start[k:k + p.size] if p.spec is None else reft.f(p.spec, start[k:k + p.size]))
            k += p.size
        check(any(close(t, np.concatenate(e), 1e-9, 1e-12) for t in tr[:2]), 'start-not-used', lambda: (tr[0], e))
    limit = 30 * iters + 12 * (n + 3)
    check(len(tr) <= limit, 'iteration-limit-ignored', lambda: '{}: {} evaluations with max_iters={}'.format(name, len(tr), iters))
    if iters >= 1000 and (name not in ('simplex', 'fmin_tnc') or ((n <= 4 or name != 'simplex') and not any(p.spec for p in ls))):
        f = float(m.objective_function())
        # bounded on both sides the problem is not convex for the optimizer: scg can need more than these iterations
        slow = name == 'scg' and o.status == 'maxiter exceeded' and any(p.spec and p.spec[0] == 'Logistic' for p in ls)
        ctx.count('slow_runs', int(slow))
        check(slow or f - fs <= 2e-3 + 1e-3 * f0, 'convex-problem-not-solved', lambda: '{} ({}): {} from {}; {}'.format(name, o.status, f, f0, specs))
        ctx.count('convex_solved')
    # looking at the model while it is optimized
    m3 = convex(ctx, False, seed)
    m3.peek = True
    if start is not None:
        kw['start'] = start.copy()
    o3, tr3 = run(ctx, m3, name, **kw)
    check(len(tr) == len(tr3) and all(same(a, b) for a, b in zip(tr, tr3)) and same(o.x_opt, o3.x_opt), 'reading-the-model-changes-the-course',
          lambda: '{}: {} and {} evaluations, {} and {}'.format(name, len(tr), len(tr3), o.x_opt, o3.x_opt))
    ctx.count('traces_compared')
    # the same problem among fixed elements
    m2 = convex(ctx, True, seed)
    m2.peek = ctx.chance(.4)
    if ctx.chance(.3):
        ex = pickle.loads(pickle.dumps(m2)) if ctx.chance(.5) else m2.copy()
        for p, q in zip(m2.leaves(), ex.leaves()):
            check(same(p.values, q.values), 'copy-values')
        m2 = ex
        ctx.count('after_copy')
    if start is not None:
        kw['start'] = start.copy()
    v2 = m2.param_array.copy()
    o2, tr2 = run(ctx, m2, name, **kw)
    check(same(m2.param_array[~masks(m2)], v2[~masks(m2)]), 'fixed-element-changed', lambda: (m2.param_array, v2))
    n_ = min(len(tr), len(tr2))
    for i in range(n_):
        check(same(tr[i], tr2[i]), 'fixed-elements-change-the-course', lambda: '{}: evaluation {} at {} instead of {}'.format(name, i, tr2[i], tr[i]))
    check(len(tr) == len(tr2) and same(o.x_opt, o2.x_opt), 'fixed-elements-change-the-course', lambda: (name, len(tr), len(tr2), o.x_opt, o2.x_opt))
    ctx.count('traces_compared')


def masks(m):
    return np.concatenate([p.mine for p in m.leaves()])


def history_case(ctx):
    w = World(ctx)
    for _ in range(ctx.int(2, 4)):
        w.run(ctx.int(2, 10), dict(optimize=0, restarts=0, calls=0, checkgrad=0, fix=10, copy=3, pickle=3, updates=1))
        r = w.any_root(model=True)
        if r is None:
            return
        m = r.obj
        fr = w._free(r)
        if not np.all(np.isfinite(r.opt())) or np.any(np.abs(r.opt()) > 12):
            continue
        before = list(m.optimization_runs)
        name = ctx.pick(NAMES + [None])
        arg = name
        if name is not None and ctx.chance(.25):
            arg = O.get_optimizer(name)(max_iters=9)
        elif name is not None and ctx.chance(.2):
            arg = {'lbfgsb': 'lbfgs', 'scg': 'SCG', 'fmin_tnc': 'tnc', 'org-bfgs': 'org', 'simplex': 'simpl'}[name]
        kw = dict(max_iters=ctx.pick([1, 2, 3, 8, 25]), messages=ctx.chance(.15))
        ctx.step('{!r}.optimize({!r}, {})'.format(r, arg, kw))
        if ctx.chance(.1):
            v = r.vals()
            ok, e = raises(KeyError, m.optimize, 'no such optimizer') if fr else (True, None)
            check(ok and len(m.optimization_runs) == len(before) and same(np.ravel(m.param_array), v), 'unknown-optimizer')
            ctx.count('refused_names')
        if fr and not w.is_on(r):
            m.update_model(True)
            w.off.discard(id(r))
            if ctx.chance(.7):      # optimize has to do it by itself
                m.update_model(False)
        x0 = r.opt()
        f0 = M.objective(r)
        v0 = r.vals()
        o, tr = run(ctx, m, arg, **kw)
        if not fr:
            check(o is None and m.optimization_runs == before and not tr and same(np.ravel(m.param_array), v0), 'nothing-free-but-changed',
                  lambda: (o, len(tr)))
            ctx.count('nothing_free')
            continue
        check(m.optimization_runs[:-1] == before, 'earlier-records-lost')
        check(m.update_model(), 'updates-still-off')
        judge(ctx, m, o, x0, f0, len(before), str(sorted(set(map(str, r.specs())))), name, tr)
        check(type(o) is getattr(O, CLASSES[name or 'lbfgsb']), 'other-optimizer', lambda: (name, arg, type(o)))
        exp = w._expect_opt(r, np.array(o.x_opt, float), 'model-not-set-to-the-solution')
        M.values(w)
        M.fresh(w)
        M.optvec_one(w, r)
        # copies have their own list of records
        if ctx.chance(.2):
            n = m.copy()
            k = len(m.optimization_runs)
            v = r.vals()
            n.optimize('scg', max_iters=2)
            check(len(m.optimization_runs) == k and len(n.optimization_runs) == k + 1, 'copies-share-records')
            check(same(np.ravel(m.param_array), v), 'copies-share-values')
            ctx.count('after_copy')


def run_case(ctx):
    if ctx.case % 2:
        convex_case(ctx)
    else:
        history_case(ctx)
    ctx.samples = ctx.history[:12]
