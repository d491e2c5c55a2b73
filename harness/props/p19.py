"""P19: randomizing and restarts"""
import io, os, re, sys, zlib
import numpy as np
from numpy.linalg import LinAlgError
import monitors as M, reft, zoo
from vcommon import check, same, close
from world import World, Recorder
LEVEL = 'fault_enumeration'
CASES = dict(quick=2700, thorough=12000)
EVAL = 'restarts_judged'
MINIMUM = dict(restarts_judged=1500, all_failed=36, errors_reached_caller=100, best_kept=300, best_is_not_last=100, diverging=90,
               earlier_run_was_better=30, randomized=1500, randomized_with_updates_off=150, generators_failed=60, parallel=15,
               nothing_free=20, reports_read=800)
DISTINCT = 500
RULE = 'distinct (number of restarts, tolerance, outcome of every restart) judged, and states after randomizing'
ASSUMPTIONS = ['every restart uses an optimizer of its own (no optimizer instance is handed to all restarts)',
               'starting values strictly inside the domains',
               'in parallel restarts the jobs fail in the worker, not while they are sent there']


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


REPORT = re.compile(r'.*restart (\d+)/(\d+)(?: failed|, f = (\S+))')


def an_error(c, base=False):
    if base and c.chance(.15):
        return c.pick([BaseBoom('b'), KeyboardInterrupt('k')])
    return c.pick([Boom('x'), LinAlgError('x'), ValueError('x'), KeyError('x'), RuntimeError('x'), ZeroDivisionError('x'), TypeError('x'),
                   MemoryError('x'), AssertionError('x')])


OUT = [('real', 5), ('scripted', 8), ('raise', 4), ('during', 4), ('nan', 3), ('inf', 2), ('late', 2)]


def disarm():
    zoo.OPTIMIZE[0] = zoo.VALUE[0] = zoo.FAULT[0] = zoo.FAULT_O[0] = zoo.FAULT_G[0] = None


def image(w, r, base, x):
    fr = w._free(r)
    pos, o = [], 0
    for l in r.leaves():
        pos += [o + i for i in range(l.v.size) if not l.fx[i]]
        o += l.v.size
    v = base.copy()
    for p, (l, i), xi in zip(pos, fr, x):
        v[p] = xi if l.t[i] is None else float(reft.f(l.t[i], xi))
    return v


def restarts(w, r):
    c = w.ctx
    fr = w._free(r)
    obj = r.obj
    specs = [l.t[i] for l, i in fr]
    draw = lambda: np.array([float(reft.optval(s, w.rng)) for s in specs])
    earlier = c.chance(.4)
    if earlier and fr:
        # an earlier run, with a reported value far below everything
        def todo(o, x, f_fp, f, fp):
            o.x_opt = draw()
        o = Recorder(todo)
        obj.optimize(o)
        o.f_opt = c.pick([-1e9, o.f_opt, np.nan, -np.inf])
        w.after_free_change(r)
    old = list(obj.optimization_runs)
    base = np.array(obj.param_array, float)
    x0 = np.array(obj.optimizer_array, float)
    n = c.pick([0, 1, 1, 2, 2, 3, 3, 4, 5, 7])
    robust = c.chance(.65)
    mode = c.pick(['mixed', 'mixed', 'mixed', 'fail', 'good', 'diverge'])
    table = dict(mixed=OUT, fail=[('raise', 1), ('during', 1), ('late', 1)], good=[('real', 1), ('scripted', 3)],
                 diverge=[('nan', 2), ('inf', 1), ('raise', 1), ('scripted', 1)])[mode]
    plans = [c.wpick(table) for _ in range(n)]
    log = []        # (outcome, run or error, start)

    def around(model, orig, a, k):
        check(model is obj, 'restart-of-another-model')
        i = len(log)
        check(i < n, 'too-many-restarts', lambda: (n, i))
        plan = plans[i]
        start = np.array(model.optimizer_array, float)
        vals = np.array(model.param_array, float)
        log.append([plan, None, start, vals])
        err = [None]
        try:
            if plan == 'raise':
                err[0] = an_error(c, True)
                raise err[0]
            k = dict(k)
            if plan == 'real':
                zoo_plan = None
            elif plan in ('during', 'late'):
                # the n-th evaluation fails, no failure allowed; `late`: failures are tolerated, but one of another kind comes
                left = [c.int(0, 6)]
                kind = c.pick(['update', 'objective'])
                e = an_error(c, plan == 'during') if plan == 'during' else c.pick([Boom('late'), KeyError('late')])
                model._allowed_failures = 0 if plan == 'during' else 10

                def hit(o):
                    if kind == 'objective' or o is model:
                        left[0] -= 1
                        if left[0] < 0:
                            err[0] = e
                            raise e
                (zoo.FAULT if kind == 'update' else zoo.FAULT_O)[0] = hit
            else:
                def todo(o, x, f_fp, f, fp):
                    for _ in range(c.int(0, 2)):
                        f(draw())
                    o.x_opt = draw()
                o = Recorder(todo)
                val = dict(scripted=None, nan=np.nan, inf=np.inf)[plan]
                k['optimizer'] = o
                run = orig(*a, **k)
                if run is not None and val is not None:
                    run.f_opt = val
                log[i][1] = run
                return run
            run = orig(*a, **k)
            log[i][1] = run
            return run
        except BaseException as e:
            if e is not err[0]:
                raise
            log[i][1] = e
            raise
        finally:
            zoo.FAULT[0] = zoo.FAULT_O[0] = None
            model.__dict__.pop('_allowed_failures', None)
    name = c.pick(['lbfgsb', 'scg', 'org-bfgs', 'simplex', None])
    kw = dict(max_iters=c.pick([2, 5, 20]))
    if name:
        kw['optimizer'] = name
    c.step('{!r}.optimize_restarts({}, robust={}, {}) with {}{}'.format(r, n, robust, kw, plans, ', after another run' if old else ''))
    zoo.OPTIMIZE[0] = around
    err, ret = None, None
    verbose = c.chance(.5)
    shown, stdout = io.StringIO(), sys.stdout
    sys.stdout = shown
    try:
        ret = obj.optimize_restarts(n, robust=robust, verbose=verbose, **kw)
    except BaseException as e:
        if not any(e is l[1] for l in log):
            raise
        err = e
    finally:
        sys.stdout = stdout
        disarm()
    what = lambda: 'plans {} robust {}: {} -> error {!r}'.format(plans, robust, [(l[0], l[1] if isinstance(l[1], BaseException) else
                                                                                 l[1] and (l[1].f_opt,)) for l in log], err)
    c.seen(n, robust, tuple((l[0], isinstance(l[1], BaseException)) for l in log), err is None)
    failed = [l for l in log if isinstance(l[1], BaseException)]
    runs = [l[1] for l in log if l[1] is not None and not isinstance(l[1], BaseException)]
    c.count('restarts_judged', max(len(log), 1))
    if not fr:
        c.count('nothing_free')
    # which restarts ran, and what happens to errors
    if err is None:
        check(len(log) == n, 'restarts-left-out', what)
        check(robust or not failed, 'error-does-not-reach-the-caller', what)
        check(not any(not isinstance(l[1], Exception) for l in failed), 'error-does-not-reach-the-caller', what)
    else:
        check(err is log[-1][1] and len(failed) == 1 or robust and not isinstance(err, Exception) and err is log[-1][1],
              'failed-restart-not-skipped' if robust else 'error-too-late', what)
        check(not robust or not isinstance(err, Exception), 'failed-restart-not-skipped', what)
        c.count('errors_reached_caller')
    # what is said about them
    said = [x.groups() for x in map(REPORT.match, shown.getvalue().split('\n')) if x]
    want = []
    for i, l in enumerate(log):
        bad = isinstance(l[1], BaseException)
        if l is log[-1] and err is not None:
            continue
        if bad or verbose and l[1] is not None:
            want.append((i + 1, None if bad else float(l[1].f_opt)))
    if want and (verbose or said):
        check(len(said) == len(want) and all(int(i) == j and int(of) == n and (f is None) == (g is None) and
                                             (f is None or same(float(f), g) or abs(float(f) - g) <= 1e-6 * abs(g))
                                             for (i, of, f), (j, g) in zip(said, want)), 'restart-reported-as-another',
              lambda: '{}: {} instead of {}'.format(what(), said, want))
        c.count('reports_read', len(said))
    # starting points
    if log:
        check(close(log[0][2], x0, 1e-9, 1e-9), 'first-restart-starts-elsewhere', what)
    if fr:
        for a in range(1, len(log)):
            for b in range(a):
                check(not np.any(log[a][2] == log[b][2]), 'restart-without-randomizing', what)
    fx = r.fixed()
    for l in log:
        check(same(l[3][fx], base[fx]), 'fixed-element-changed', what)
    # the record
    got = list(obj.optimization_runs)
    check(len(got) == len(old) + len(runs) and all(a is b for a, b in zip(got, old + runs)), 'recorded-runs', what)
    if err is None:
        check(list(ret) == got, 'returned-runs', what)
    # where the model is
    now = np.array(obj.param_array, float)
    check(same(now[fx], base[fx]), 'fixed-element-changed', what)
    if err is None:
        if not runs:
            check(close(now, base, 1e-7, 1e-9), 'initial-values-not-restored', lambda: '{}: {} instead of {}'.format(what(), now, base))
            if n and fr:
                c.count('all_failed')
        else:
            fs = [np.inf if np.isnan(o.f_opt) else float(o.f_opt) for o in runs]
            best = min(fs)
            if any(f == np.inf for f in fs):
                c.count('diverging')
            ok = [image(w, r, base, np.array(o.x_opt, float)) for o, f in zip(runs, fs) if f == best]
            check(any(close(now, v, 1e-7, 1e-8) for v in ok), 'not-the-best-solution',
                  lambda: '{}: at {}, best {}'.format(what(), now, ok))
            c.count('best_kept')
            if fs[-1] > best:
                c.count('best_is_not_last')
            if old and any(o.f_opt < best for o in old):
                c.count('earlier_run_was_better')
    for l in r.leaves():
        l.v[:] = np.array(l.obj.values, float).ravel()
    if err is not None:
        obj.trigger_update()
    check(obj.update_model() is True, 'updates-off-after-restarts', what)
    M.fresh_tree(w, r)
    M.domains(w)
    M.optvec(w)
    M.constraints(w)


def parallel(w, r):
    c = w.ctx
    fr = w._free(r)
    obj = r.obj
    base = np.array(obj.param_array, float)
    n = c.int(1, 3)
    robust = c.chance(.7)
    rate = c.pick([0., .4, 1.])
    old = list(obj.optimization_runs)
    first = b'%08x' % zlib.crc32(np.array(obj.optimizer_array, float).tobytes())
    rd, wr = os.pipe()
    me = os.getpid()

    def around(model, orig, a, k):
        assert os.getpid() != me
        x = np.array(model.optimizer_array, float)
        u = (abs(float(np.sum(x))) * 1e4) % 1.
        if u < rate or rate == 1.:
            os.write(wr, b'f%08x' % zlib.crc32(x.tobytes()))
            raise Boom('in the worker')
        run = orig(*a, **k)
        os.write(wr, (b'o' if run is not None else b'n') + b'%08x' % zlib.crc32(x.tobytes()))
        return run
    zoo.OPTIMIZE[0] = around
    c.step('{!r}.optimize_restarts({}, robust={}, parallel=True), failure rate {}'.format(r, n, robust, rate))
    err, ret = None, None
    try:
        ret = obj.optimize_restarts(n, robust=robust, parallel=True, num_processes=2, verbose=c.chance(.5), max_iters=5)
    except Boom as e:
        err = e
    finally:
        disarm()
        os.close(wr)
        outcome = b''
        while True:
            s = os.read(rd, 100)
            if not s:
                break
            outcome += s
        os.close(rd)
    starts = [outcome[i + 1:i + 9] for i in range(0, len(outcome), 9)]
    outcome = outcome[::9]
    what = lambda: 'parallel, {} robust {} outcomes {} error {!r}'.format(n, robust, outcome, err)
    good, failed = outcome.count(b'o'), outcome.count(b'f')
    c.count('parallel')
    c.seen('parallel', n, robust, outcome, err is None)
    got = list(obj.optimization_runs)
    check((err is not None) == (failed > 0 and not robust), 'parallel-error' if err is None else 'failed-restart-not-skipped', what)
    now = np.array(obj.param_array, float)
    check(same(now[r.fixed()], base[r.fixed()]), 'fixed-element-changed', what)
    if err is None:
        check(len(outcome) == n, 'restarts-left-out', what)
        if fr:
            check(len(set(starts)) == n, 'restarts-from-the-same-values', what)
            check(first in starts, 'no-restart-from-the-current-values', what)
        check(len(got) == len(old) + good and got[:len(old)] == old and all(o is not None for o in got), 'recorded-runs', what)
        new = got[len(old):]
        if not new:
            check(close(now, base, 1e-7, 1e-9), 'initial-values-not-restored', what)
        else:
            fs = [np.inf if np.isnan(o.f_opt) else float(o.f_opt) for o in new]
            ok = [image(w, r, base, np.array(o.x_opt, float)) for o, f in zip(new, fs) if f == min(fs)]
            check(any(close(now, v, 1e-7, 1e-8) for v in ok), 'not-the-best-solution', what)
    for l in r.leaves():
        l.v[:] = np.array(l.obj.values, float).ravel()
    M.fresh_tree(w, r)
    M.domains(w)


def generators(w):
    """all ways to give a generator"""
    c = w.ctx
    h = w.any_handle()
    if h is None:
        return
    fr = w._free(h)
    on = h.obj.update_model()
    seed = c.int(0, 2 ** 31)
    square = any(l.t[i] == ('Square',) for l, i in fr)
    kind = c.pick(['uniform', 'uniform-args', 'gamma', 'raises'] if square else
                  ['normal', 'default', 'default-kw', 'normal-args', 'uniform', 'uniform-args', 'gamma', 'state', 'raises'])
    before = h.vals().copy()
    c.step('{!r}.randomize: {}, updates {}'.format(h, kind, 'on' if on else 'off'))
    n = len(fr)
    if kind == 'raises':
        e = an_error(c)

        def gen(**k):
            raise e
        try:
            h.obj.randomize(gen)
            check(False, 'error-of-the-generator-swallowed')
        except Exception as x:
            if x is not e:
                raise
        check(h.obj.update_model() == on, 'randomize-changes-update-switch')
        check(same(np.array(h.obj.param_array, float).ravel(), before), 'failed-randomize-changes-values')
        c.count('generators_failed')
        return
    if kind in ('default', 'default-kw'):
        kw = {} if kind == 'default' else dict(loc=.3, scale=.4)
        np.random.seed(seed)
        h.obj.randomize(**kw)
        np.random.seed(seed)
        x = np.random.normal(size=n, **kw)
    elif kind == 'state':
        a, b = np.random.RandomState(seed), np.random.RandomState(seed)
        h.obj.randomize(a.standard_normal)
        x = b.standard_normal(n)
    else:
        a, b = np.random.default_rng(seed), np.random.default_rng(seed)
        name, args, kw = dict(normal=('normal', (), dict(scale=.5)), uniform=('uniform', (), dict(low=.2, high=1.5)),
                              gamma=('gamma', (2.,), dict(scale=.5)))[kind.split('-')[0]]
        if kind == 'normal-args':
            args, kw = (.5, .25), {}
        elif kind == 'uniform-args':
            args, kw = (.1, .9), {}
        h.obj.randomize(getattr(a, name), *args, **kw)
        x = getattr(b, name)(*args, size=n, **kw)
        check(a.bit_generator.state == b.bit_generator.state, 'randomize-draws')
    check(h.obj.update_model() == on, 'randomize-changes-update-switch')
    w._expect_opt(h, x, 'randomize-values')
    c.count('randomized')
    if not on:
        c.count('randomized_with_updates_off')
    c.seen('randomized', np.round(x, 4).tolist())


MON = [M.values, M.fresh, M.fixed, M.domains, M.optvec]


def run_case(ctx):
    disarm()
    w = World(ctx)
    if ctx.case % 2:
        for k in range(4):
            w.run(ctx.int(1, 5), dict(constrain=24, fix=14, randomize=10, updates=8, calls=0, print=0, checkgrad=0, restarts=0), [])
            for _ in range(2):
                generators(w)
                for m in MON:
                    m(w)
        return
    for k in range(3):
        w.run(ctx.int(1, 6), dict(constrain=20, fix=12, calls=0, print=0, updates=0, checkgrad=0, restarts=0), [])
        if ctx.chance(.05):
            w.main.obj.fix(warning=False)
            for l in w.main.leaves():
                l.fx[:] = True
        r = w.any_root(model=True)
        if r is None or not w.is_on(r) or not np.all(np.isfinite(r.opt())) or not w.moderate(r):
            continue
        if any(l.t[i] == ('Square',) for l, i in w._free(r)):
            continue
        if ctx.chance(.06):
            parallel(w, r)
        else:
            restarts(w, r)
    ctx.samples = ctx.history[-6:]
