"""P23: the progress display is only a display; the example model is right"""
import builtins, io, re, sys, time, warnings
import numpy as np
from numpy.linalg import LinAlgError
from paramz import ObsAr
from paramz.examples import ridge_regression as R
from paramz.optimization import optimization as O
import monitors as M, reft, zoo
from vcommon import check, same, close, raises, Violation
from world import World
LEVEL = 'exploration'
CASES = dict(quick=2400, thorough=6000)
EVAL = 'comparisons'
MINIMUM = dict(comparisons=1500, runs_watched=400, evaluations_traced=5000, ended_by_error=60, tolerated_failures=40, notebook=60,
               ridge_states=1500, ridge_solved=30, predictions=300, lines_shown=1000, rows_checked=4000,
               runtimes_shown=400, statuses_shown=400)
DISTINCT = 500
RULE = 'distinct (optimizer, way to end, number of evaluations) of watched runs and distinct states of the example model'
ASSUMPTIONS = ['failures depend on the point of evaluation, not on how often the model is asked',
               'the example: one column of outputs, bases without parameters of their own']
NAMES = ['lbfgsb', 'scg', 'fmin_tnc', 'org-bfgs', 'simplex']


# ---------------------------------------------------------------- watching
class Interrupt(BaseException):
    pass


class Clock(object):
    """time as seen by the display"""
    def __init__(self, ctx, seed):
        self.rng, self.t = np.random.default_rng(seed), 1e9
        self.scale = ctx.pick([1e-5, 1e-2, .3, 2., 50., 4000., 1e5])
        self.told = []

    def __call__(self):
        self.t += self.rng.exponential(self.scale)
        self.told.append(self.t)
        return self.t


def point(m):
    """a number in (0, 1), which depends on the values of the model only"""
    v = np.asarray(m.param_array, float).ravel()
    s = float(np.sum(np.sin(v * 7919. + np.arange(v.size)))) * 104729. if v.size else 0.
    return abs(s) % 1. if np.isfinite(s) else .5


class Plan(object):
    """failures of a model: where (update, objective, gradient), at which points, from which evaluation on"""
    def __init__(self, ctx):
        self.kind = ctx.wpick([('none', 6), ('points', 4), ('persistent', 2), ('error', 4)])
        self.where = ctx.pick(['update', 'update', 'objective', 'gradient', 'mixed'])
        self.p = ctx.rng.uniform(.05, .4)
        self.exc = ctx.pick([ValueError, ZeroDivisionError, LinAlgError])
        self.fatal = ctx.pick([RuntimeError, Interrupt, KeyboardInterrupt, KeyError])
        self.at = ctx.int(1, 12)
        if self.fatal in (Interrupt, KeyboardInterrupt) and self.kind == 'error':
            self.where = 'update' # somebody stops the process

    def __str__(self):
        return '{} in {} p={:.2f} {} {} at {}'.format(self.kind, self.where, self.p, self.exc.__name__, self.fatal.__name__, self.at)

    def install(self, m, log):
        """log: list of evaluated points (one entry per update of the root)"""
        def fail(o, where):
            if o is not m or self.kind == 'none' or self.where not in (where, 'mixed'):
                return
            n = len(log)
            if self.kind == 'points':
                x = point(m)
                if x < self.p and (self.where != 'mixed' or int(x * 1e6) % 3 == ('update', 'objective', 'gradient').index(where)):
                    raise self.exc('at this point')
            elif self.kind == 'persistent' and n > self.at:
                raise self.exc('persistent')
            elif self.kind == 'error' and n > self.at:
                raise self.fatal('broken')

        def update(o):
            if o is m:
                log.append(np.array(m.param_array, float))
            fail(o, 'update')
        zoo.FAULT[0] = update
        zoo.FAULT_O[0] = lambda o: fail(o, 'objective')
        zoo.FAULT_G[0] = lambda o: fail(o, 'gradient')


def uninstall():
    zoo.FAULT[0] = zoo.FAULT_O[0] = zoo.FAULT_G[0] = None


def census(m):
    """who observes what in the hierarchy"""
    parts = []
    m.traverse(parts.append)
    num = dict((id(p), i) for i, p in enumerate(parts))
    return [[(p, num.get(id(o), type(o).__name__)) for p, o, _ in x.observers] for x in parts]


class Watcher(object):
    def __init__(self, m=None):
        self.n, self.m, self.values = 0, m, []

    def told(self, me, which=None):
        self.n += 1
        if self.m is not None:
            self.values.append(objective(self.m))


def objective(m):
    try:
        return float(m.objective_function())
    except Exception:
        return np.nan # shown like this


ROW = re.compile(r'^ *((?:\d+[dhms])+\d+) +(\d+) +(\S+) +(\S+) *$')
UNITS = dict(d=86400, h=3600, m=60, s=1)


def duration(text):
    """(shortest, longest) time in seconds a text like 01m05s12 stands for: the last digits have the next unit"""
    parts = re.findall(r'(\d+)([dhms]?)', text)
    last = [u for _, u in parts if u][-1]
    step = dict(d=3600, h=60, m=1, s=.01)[last]
    total = sum(int(n) * (UNITS[u] if u else step) for n, u in parts)
    return total, total + step


def shown(c, text, clock, opt, first, values):
    """what the display says about the run, against what was recorded"""
    lines = text.replace('\r', '\n').split('\n')
    rows = [x.groups() for x in map(ROW.match, lines) if x]
    for x in [l for l in lines if l.startswith('Optimization status')]:
        c.count('statuses_shown')
        if opt is not None:
            check(x == 'Optimization status: {}'.format(opt.status), 'display-shows-another-status', lambda: (x, opt.status))
    t = clock.told
    def is_a_time(x):
        lo, hi = duration(x)
        return any(lo - 1e-5 <= b - a < hi + 1e-5 for a in t[:2] for b in t)
    for x in [l for l in lines if l.startswith('Runtime: ')]:
        c.count('runtimes_shown')
        if t:
            lo, hi = duration(x.split()[1])
            check(any(lo - 1e-5 <= b - a < hi + 1e-5 for a in t[:2] for b in t[-2:]), 'display-shows-another-runtime', lambda: (x, t[0], t[-1]))
    seen = [first] + values
    def is_value(x, v):
        x = float(x)
        return np.isnan(x) and np.isnan(v) or x == v or abs(x - v) <= 2e-6 * abs(v)
    number = -1
    for k, (time_, i, f, g) in enumerate(rows):
        c.count('rows_checked')
        if t:
            check(is_a_time(time_), 'display-shows-another-runtime', lambda: (time_, t[0], t[-1]))
        check(int(i) >= number, 'display-counts-backwards', lambda: (i, number))
        number = int(i)
    # a row shows the objective of the change with its number, the last one that of the last change of the run;
    # the first changes may have been made before the run
    def agree(skip):
        for k, (_, i, f, _) in enumerate(rows):
            n = int(i) + skip + (k < len(rows) - 1)
            if n >= len(seen) or not is_value(f, seen[n]):
                return False
        return True
    check(any(agree(k) for k in range(3)), 'display-shows-another-objective', lambda: (seen, [x[1:3] for x in rows]))


def run(m, plan, log, name, kw):
    plan.install(m, log)
    old = sys.stdout
    sys.stdout = out = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                return m.optimize(name() if callable(name) else name, **kw), None, out
            except (Exception, Interrupt, KeyboardInterrupt) as e:
                if isinstance(e, Violation):
                    raise
                return None, e, out
    finally:
        sys.stdout = old
        uninstall()


class Broken(O.Optimizer):
    """an optimizer, which breaks after a few evaluations"""
    def __init__(self, *a, **k):
        super(Broken, self).__init__(*a, **k)
        self.opt_name = 'broken'

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        for i in range(4):
            f_fp(x_init + .01 * i)
        raise RuntimeError('the optimizer breaks')


class Walk(O.Optimizer):
    """an optimizer, which asks in any order"""
    def __init__(self, *a, **k):
        super(Walk, self).__init__(*a, **k)
        self.opt_name = 'walk'

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        best = np.inf
        self.x_opt = x_init.copy()
        for i in range(8):
            x = x_init + .05 * np.sin(np.arange(x_init.size) + i)
            how = i % 3
            v = f(x) if how == 0 else f_fp(x)[0] if how == 1 else best
            if how == 2:
                fp(x)
            if v < best:
                best, self.x_opt = v, x
        self.f_opt, self.funct_eval, self.status = best, 8, 'walked'


def watch(c):
    w = World(c)
    w.run(c.int(1, 12), dict(optimize=0, restarts=0, checkgrad=0, updates=0, copy=0, pickle=0))
    r = w.any_root(model=True)
    if r is None or not w._free(r) or not w.is_on(r):
        return
    if not np.all(np.isfinite(r.opt())) or np.any(np.abs(r.opt()) > 12):
        return
    a, b = r.obj.copy(), r.obj.copy()
    hidden = Watcher(), Watcher()
    record = Watcher(), Watcher(b) # called just before the display
    prio = c.pick([0, 5, -10, -200])
    for m, h in zip((a, b), hidden):
        m.add_observer(h, h.told, prio)
    for m, h in zip((a, b), record):
        m.add_observer(h, h.told)
    for k in range(c.int(1, 3)):
        plan = Plan(c)
        name = c.wpick([(n, 3) for n in NAMES] + [(Broken, 1), (Walk, 2)])
        kw = dict(max_iters=c.pick([1, 2, 5, 20, 20, 60, 1000]))
        if isinstance(name, str) and name == 'simplex':
            kw['max_iters'] = min(kw['max_iters'], 60)
        if c.chance(.2):
            kw['start'] = np.array(a.optimizer_array) + c.rng.normal(0, .2, a.optimizer_array.size)
        if c.chance(.1):
            for m in (a, b):
                m.update_model(False)
        book = c.chance(.25)
        clear = c.chance(.3)
        c.step('{} {} {} notebook={} clear={}'.format(name, kw, plan, book, clear))
        before = [census(m) for m in (a, b)]
        check(before[0] == before[1], 'observers-of-copies-differ')
        logs = [], []
        told = [h.n for h in hidden]
        del record[1].values[:]
        first = objective(b)
        oa, ea, outa = run(a, plan, logs[0], name, dict(kw, messages=False))
        clock, real = Clock(c, c.int(0, 10 ** 6)), time.time
        time.time = clock
        if book:
            builtins.get_ipython = lambda: None
            c.count('notebook')
        try:
            ob, eb, outb = run(b, plan, logs[1], name, dict(kw, messages=True, ipython_notebook=book, clear_after_finish=clear))
        finally:
            time.time = real
            if book:
                del builtins.get_ipython
        c.count('runs_watched')
        c.count('evaluations_traced', len(logs[1]))
        c.count('lines_shown', len(outb.getvalue().replace('\r', '\n').split('\n')))
        shown(c, outb.getvalue(), clock, ob, first, record[1].values)
        # the course
        check(type(ea) is type(eb) and str(ea) == str(eb), 'display-changes-the-end', lambda: '{!r} instead of {!r}'.format(eb, ea))
        n = min(len(logs[0]), len(logs[1]))
        for i in range(n):
            check(same(logs[0][i], logs[1][i]), 'display-changes-the-course', lambda: 'evaluation {}: {} instead of {}'.format(i, logs[1][i], logs[0][i]))
        check(len(logs[0]) == len(logs[1]), 'display-changes-the-course', lambda: '{} evaluations instead of {}'.format(len(logs[1]), len(logs[0])))
        check(hidden[0].n - told[0] == hidden[1].n - told[1], 'display-changes-notifications', lambda: [h.n - t for h, t in zip(hidden, told)])
        # the result
        if oa is not None:
            check(same(oa.x_opt, ob.x_opt) and same(float(oa.f_opt), float(ob.f_opt)), 'display-changes-the-result', lambda: (oa.x_opt, ob.x_opt))
            check(oa.status == ob.status and oa.funct_eval == ob.funct_eval, 'display-changes-the-report',
                  lambda: ((oa.status, oa.funct_eval), (ob.status, ob.funct_eval)))
        check(same(a.param_array, b.param_array), 'display-changes-the-values', lambda: (a.param_array, b.param_array))
        if plan.kind == 'none' and ea is None:
            check(same(a.gradient, b.gradient) and same(a.objective_function(), b.objective_function()), 'display-changes-the-state')
        check(len(a.optimization_runs) == len(b.optimization_runs), 'display-changes-the-records')
        check(a.update_model() is b.update_model() is True, 'update-switch')
        # nothing left behind
        for m, x, t in zip((a, b), before, ('quiet', 'shown')):
            check(census(m) == x, 'observer-left-behind', lambda: '{}: {} instead of {}'.format(t, census(m), x))
        check(outa.getvalue() == '' or 'updates were off' in outa.getvalue(), 'prints-without-display', lambda: outa.getvalue()[:200])
        old = sys.stdout
        sys.stdout = out = io.StringIO()
        try:
            x = np.array(a.optimizer_array)
            for m in (a, b):
                m.optimizer_array = x
        finally:
            sys.stdout = old
        check(out.getvalue() == '', 'display-goes-on-after-the-end', lambda: out.getvalue())
        c.count('ended_by_error', ea is not None)
        c.count('tolerated_failures', plan.kind == 'points' and ea is None)
        c.count('comparisons')
        c.seen(str(name), plan.kind, plan.where, type(ea).__name__, len(logs[1]))
        if not np.all(np.isfinite(a.optimizer_array)):
            return


# ---------------------------------------------------------------- the example
class Waves(R.Basis):
    def basis(self, X, i):
        return np.cos(i * np.asarray(X))


class Ref(object):
    """the definition of the example"""
    def __init__(self, X, Y, kind, lam, basis):
        self.X, self.Y, self.kind, self.lam, self.basis = X, Y, kind, lam, basis

    def phi(self, X, i):
        X = np.asarray(X, float)
        return X ** i if self.basis == 'Polynomial' else np.cos(i * X)

    def predict(self, X, W):
        return sum(self.phi(X, i).dot(W[i])[:, None] for i in range(len(W)))

    def objective(self, W):
        pen = np.sum(W ** 2) if self.kind == 'Ridge' else np.sum(np.abs(W))
        return float(np.sum((self.Y - self.predict(self.X, W)) ** 2) + self.lam * pen)

    def gradient(self, W):
        r = self.Y - self.predict(self.X, W)
        G = np.array([-2 * (r * self.phi(self.X, i)).sum(0) for i in range(len(W))])
        return G + self.lam * (2 * W if self.kind == 'Ridge' else np.sign(W))

    def solution(self, shape):
        A = np.hstack([self.phi(self.X, i) for i in range(shape[0])])
        return np.linalg.solve(A.T.dot(A) + self.lam * np.eye(A.shape[1]), A.T.dot(self.Y)).reshape(shape)


def ridge(c):
    n, dim, deg = c.int(2, 15), c.int(1, 4), c.int(0, 4)
    X = c.rng.uniform(-1.5, 1.5, (n, dim))
    if c.chance(.15):
        X = np.rint(X * 2).astype(int)
    if c.chance(.1):
        X = np.asfortranarray(X)
    Y = c.rng.normal(0, 2, (n, 1))
    kind = c.pick(['Ridge', 'Ridge', 'Lasso'])
    lam = c.pick([0., .01, 1., c.rng.uniform(.1, 5)])
    basis = c.pick(['Polynomial', 'Polynomial', 'Waves'])
    ref = Ref(np.array(X, float), Y.copy(), kind, lam, basis)
    kw = dict(regularizer=getattr(R, kind)(lam), basis=(R.Polynomial if basis == 'Polynomial' else Waves)(deg, name='basis'))
    if kind == 'Ridge' and lam == 1. and c.chance(.5):
        del kw['regularizer']
    if basis == 'Polynomial' and deg == 1 and c.chance(.5):
        del kw['basis']
    late = c.chance(.2)
    m = R.RidgeRegression(X, Y, **dict(kw, **(dict(initialize=False) if late else {})))
    c.step('{} {} {} {} degree {} {}'.format(X.shape, X.dtype, kind, lam, deg, basis))
    if late:
        m.initialize_parameter()
    scale = 1. + float(np.sum(Y ** 2)) + float(max(np.abs(ref.phi(ref.X, i)).max() for i in range(deg + 1))) ** 2 * n * dim

    def state(m, key):
        W = np.array(m.weights.values, float)
        big = scale * (1. + float(np.sum(W ** 2)))
        check(W.shape == (deg + 1, dim) and m.degree == deg, 'weights-shape')
        check(close(m.objective_function(), ref.objective(W), 1e-9, 1e-10 * big), 'example-objective',
              lambda: '{}: {} instead of {}'.format(key, m.objective_function(), ref.objective(W)))
        G = ref.gradient(W)
        check(close(m.weights.gradient, G, 1e-9, 1e-10 * big), 'example-gradient', lambda: '{}: {} instead of {}'.format(key, m.weights.gradient, G))
        check(close(np.ravel(m.gradient), G.ravel(), 1e-9, 1e-10 * big), 'example-gradient-of-the-model')
        if c.chance(.4):
            Z = c.rng.uniform(-2, 2, (c.int(1, 5), dim))
            Z = ObsAr(Z) if c.chance(.3) else Z
            check(close(np.asarray(m.predict(Z)), ref.predict(Z, W), 1e-9, 1e-9 * big), 'example-prediction', lambda: key)
            ds = None if c.chance(.5) else np.array([c.int(0, deg) for _ in range(c.int(1, 3))])
            P = np.asarray(m.phi(Z, ds))
            E = np.array([ref.phi(Z, i) * W[i] for i in (range(deg + 1) if ds is None else ds)])
            check(P.shape == E.shape and close(P, E, 1e-9, 1e-9 * big), 'example-design', lambda: '{}: {} instead of {} for {}'.format(key, P, E, ds))
            c.count('predictions')
        c.count('ridge_states')
        c.count('comparisons')
        c.seen(kind, deg, dim, basis, np.round(W, 3).tolist())

    state(m, 'new')
    models = [m]
    for _ in range(c.int(3, 14)):
        m = c.pick(models)
        W = m.weights
        free = int(m.optimizer_array.size)
        cons = [t for t in W.constraints.properties() if t != 'fixed']
        op = c.pick(['all', 'element', 'row', 'mask', 'iadd', 'opt', 'opt', 'optimize', 'optimize', 'fix', 'unfix', 'off', 'constrain', 'unconstrain',
                     'randomize', 'copy', 'data', 'trigger', 'node', 'checkgrad', 'solve', 'predict', 'reuse'])
        c.step(op)
        if op == 'all':
            W[...] = c.rng.normal(0, 1, W.shape)
        elif op == 'element':
            W[c.int(0, deg), c.int(0, dim - 1)] = c.rng.normal()
        elif op == 'row':
            W[c.int(0, deg)] = c.rng.normal(size=dim)
        elif op == 'mask':
            W[c.rng.random(W.shape) < .5] = c.rng.normal()
        elif op == 'iadd':
            W[:] += c.rng.normal(0, .2)
        elif op == 'node':
            m[:] = c.rng.normal(0, 1, m.size)
        elif op == 'opt' and free:
            m.optimizer_array = c.rng.normal(0, 1, free)
        elif op == 'optimize' and free and np.all(np.isfinite(m.optimizer_array)):
            m.optimize(c.pick(NAMES), max_iters=c.pick([1, 3, 10, 50]), messages=c.chance(.3))
        elif op == 'fix':
            k = c.int(0, 3)
            mask = c.rng.random(W.shape) < .4
            mask.flat[c.int(0, mask.size - 1)] = True
            (W if k == 0 else W[c.int(0, deg)] if k == 1 else W[mask] if k == 2 else m.regularizer).fix(warning=False)
        elif op == 'unfix':
            c.pick([W, m, m.regularizer]).unfix()
        elif op == 'off':
            m.update_model(False)
            for _ in range(c.int(0, 2)):
                W[c.int(0, deg)] = c.rng.normal(size=dim)
            m.update_model(True)
        elif op == 'constrain':
            c.pick([W, W[c.int(0, deg)]]).constrain(reft.make(c.pick([('Logexp',), ('Logistic', -3., 3.), ('Exponent',)])), warning=False)
        elif op == 'unconstrain':
            W.unconstrain()
        elif op == 'randomize':
            m.randomize(c.rng.normal, 0, 1)
        elif op == 'copy' and len(models) < 3:
            models.append(m.copy())
        elif op == 'data':
            # new data, announced by updating the model
            if c.chance(.5):
                i, j, v = c.int(0, n - 1), c.int(0, dim - 1), c.rng.uniform(-1.5, 1.5)
                for x in models:
                    x.X[i, j] = v
                ref.X[i, j] = v
            else:
                i, v = c.int(0, n - 1), c.rng.normal()
                for x in models:
                    x.Y[i] = v
                ref.Y[i] = v
            for x in models:
                x.trigger_update()
        elif op == 'trigger':
            c.pick([m, W, m.regularizer]).trigger_update()
        elif op == 'checkgrad' and free and kind == 'Ridge' and not cons:
            check(bool(m.checkgrad(verbose=c.chance(.5))), 'example-checkgrad')
        elif op == 'solve' and kind == 'Ridge' and lam >= .01:
            W.unfix(), W.unconstrain()
            m.optimize(c.pick(['lbfgsb', 'lbfgsb', 'org-bfgs', 'fmin_tnc']), max_iters=3000)
            best = ref.objective(ref.solution((deg + 1, dim)))
            f = m.objective_function()
            check(best - 1e-9 * (1 + best) <= f <= best + 1e-3 * (1. + best), 'ridge-not-solved', lambda: '{} instead of {} ({})'.format(f, best, m.optimization_runs[-1].status))
            c.count('ridge_solved')
        elif op == 'reuse':
            # a regularizer belongs to one regression
            ok, e = raises(RuntimeError, R.RidgeRegression, X, Y, m.regularizer, m.basis)
            check(ok, 'regularizer-used-twice')
            c.count('reuse_refused')
        elif op == 'predict':
            m.predict(np.asarray(m.X))
            m.predict(m.X)
        for x in models:
            state(x, op)


def run_case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if ctx.case % 2:
            ridge(ctx)
        else:
            watch(ctx)
    ctx.samples = ctx.history[-4:]
