"""P12: cached functions against direct calls and a reference cache"""
import gc, pickle, weakref
import numpy as np
from paramz import ObsAr, Param, Parameterized, Model
from paramz.caching import Cacher, Cache_this, FunctionCache
from vcommon import check, same, raises
LEVEL = 'exploration'
CASES = dict(quick=14400, thorough=100000)
EVAL = 'results_compared'
MINIMUM = dict(results_compared=40000, hits_required=5000, failures=1000, evictions=3000, changes=8000, changes_through_views=1500,
               resets=400, switched_off=300, forced=300, uncacheable=1000, temporaries=2000, method_calls=8000, model_changes=2000, plain_host_calls=15000, switched_early=200, not_forced=300, recursive_calls=3000, created_off_calls=1500)
DISTINCT = 1000
RULE = 'distinct (kind of call, answered from the cache or not, state of the entry before, cache size) and argument patterns judged'
ASSUMPTIONS = ['the function depends on its arguments only (not on the ignored ones) and does not change them',
               'arguments are changed by notifying operations, while updates are on',
               'the cached function is not called by an observer of an argument while the others are still being told']


class Fail(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


def digest(x):
    if x is None:
        return [0.5]
    if isinstance(x, str):
        return [float(sum(map(ord, x))), len(x)]
    if isinstance(x, np.ndarray):
        return [float(np.sum(np.asarray(x) * np.cos(np.arange(x.size).reshape(x.shape)))), x.size, x.shape[0]]
    return [3. * float(x)]


def value(args, kw):
    out = [float(len(args))]
    for i, a in enumerate(args):
        out += [v * (i + 1.) for v in digest(a)]
    for k in sorted(kw):
        out += [v + sum(map(ord, k)) for v in digest(kw[k])]
    return np.array(out)


class RefCache(object):
    """what a cache has to know: the last `limit` distinct calls"""
    def __init__(self, ctx, limit):
        self.ctx, self.limit = ctx, limit
        self.order = []          # keys, oldest first
        self.dirty = {}
        self.recent = []         # keys by last use
        self.keep = {}           # key -> arguments
        self.history = []

    def required(self, key):
        return (key in self.order and not self.dirty[key] and key in self.recent[-self.limit:])

    def state(self, key):
        return 'unknown' if key not in self.order else 'changed' if self.dirty[key] else 'known'

    def used(self, key, args):
        if key in self.recent:
            self.recent.remove(key)
        self.recent.append(key)
        if key not in self.order:
            if len(self.order) == self.limit:
                k = self.order.pop(0)
                del self.dirty[k], self.keep[k]
                self.ctx.count('evictions')
            self.order.append(key)
            self.keep[key] = args
        self.dirty[key] = False

    def reset(self):
        self.order, self.dirty, self.recent, self.keep = [], {}, [], {}

    def changed(self, arr):
        for k, args in self.keep.items():
            for a in args:
                if a is arr or (isinstance(a, np.ndarray) and isinstance(arr, np.ndarray) and np.may_share_memory(a, arr)):
                    self.dirty[k] = True


def make_pool(ctx):
    rng = ctx.rng
    pool = [ObsAr(rng.normal(size=(3, 2))), ObsAr(rng.normal(size=4)), Param('p', rng.normal(size=3))]
    pool += [pool[0][1:], pool[0][:, :1], pool[1][::2], pool[2][1:]]
    pool += [1, 2.5, -3.25, 'a', 'bc', None, None, True, 10 ** 9]
    return pool


def change(ctx, pool, caches, c=None):
    rng = ctx.rng
    arrs = [a for a in pool if isinstance(a, ObsAr)]
    a = ctx.pick(arrs)
    k = ctx.int(0, 6)
    if k == 0:
        a[...] = rng.normal()
    elif k == 1:
        a[ctx.int(0, a.shape[0] - 1)] = rng.normal()
    elif k == 2:
        a += rng.normal()
    elif k == 3:
        a[:] = rng.normal(size=a.shape)
    elif k == 4:
        a *= .7
    elif k == 5:
        b = a[:1]
        b[...] = rng.normal()
        ctx.count('changes_through_views')
    else:
        b = a[::-1]
        b -= rng.normal()
        ctx.count('changes_through_views')
    ctx.count('changes')
    ctx.step('change {} of {}'.format(k, [i for i, x in enumerate(pool) if x is a]))
    for r in caches:
        r.changed(a)


def plain(ctx):
    """Cacher over a function"""
    rng = ctx.rng
    pool = make_pool(ctx)
    limit = ctx.int(1, 5)
    ignore = ctx.pick([(), (), (0,), (1,)])
    force = ctx.pick([(), (), ('zz',)])
    calls = []
    fail = [None]
    alive = []

    def f(*args, **kw):
        calls.append(1)
        if fail[0] is not None:
            raise fail[0]
        r = value([None if i in ignore else a for i, a in enumerate(args)], kw)
        alive.append(weakref.ref(r))
        return r
    host = None
    if ctx.chance(.2):
        class Host(object):
            def f(self, *a, **k):
                return f(*a, **k)
        host = Host()
        cf = Cacher(host.f, limit, ignore, force)
        check(host.cache[host.f] is cf, 'cacher-not-registered')
    else:
        cf = Cacher(f, limit, ignore, force)
    # a second cacher over the same arguments must not be disturbed
    other_calls = []

    def g(x):
        other_calls.append(1)
        return value((x,), {})
    cg = Cacher(g, ctx.int(1, 2))
    ref, refg = RefCache(ctx, limit), RefCache(ctx, cg.limit)
    on = True
    ctx.step('Cacher limit={} ignore={} force={}'.format(limit, ignore, force))
    for step in range(ctx.int(15, 45)):
        w = ctx.wpick([('call', 12), ('again', 8), ('change', 7), ('fail', 2), ('reset', .5), ('switch', .7), ('temp', 3), ('other', 2),
                       ('uncacheable', 1.5), ('force', 1 if force else 0), ('recreate', .3)])
        if w == 'change':
            change(ctx, pool, [ref, refg])
        elif w == 'reset':
            ctx.step('reset')
            ctx.count('resets')
            (host.cache if host is not None and ctx.chance(.5) else cf).reset()
            ref.reset()
            live(ctx, alive, 0)
            if not refg.order:
                for i, a in enumerate(pool):
                    if isinstance(a, ObsAr):
                        check(len(a.observers) == 0, 'observer-left-behind', lambda: (i, str(a.observers)))
                ctx.count('observer_censuses')
        elif w == 'switch':
            on = not on
            ctx.step('caching {}'.format(on))
            h = host is not None and ctx.chance(.5)
            if on:
                host.cache.enable_caching() if h else cf.enable_cacher()
            else:
                host.cache.disable_caching() if h else cf.disable_cacher()
            ref.reset()
            if not on:
                live(ctx, alive, 0)
        elif w == 'recreate':
            # e.g. an argument is replaced; the old one may die
            i = ctx.int(0, 2)
            pool[i] = [ObsAr(rng.normal(size=(3, 2))), ObsAr(rng.normal(size=4)), Param('p', rng.normal(size=3))][i]
            if i == 0:
                pool[3:5] = [pool[0][1:], pool[0][:, :1]]
            elif i == 1:
                pool[5] = pool[1][::2]
            else:
                pool[6] = pool[2][1:]
            gc.collect() if ctx.chance(.1) else None
        elif w == 'other':
            x = ctx.pick(pool[:9])
            key = (id(x),)
            n = len(other_calls)
            req = refg.required(key)
            r = cg(x)
            check(same(r, value((x,), {})), 'stale-result', lambda: 'second cacher')
            check(not req or len(other_calls) == n, 'called-again', lambda: 'second cacher')
            refg.used(key, (x,))
            ctx.count('results_compared')
        else:
            one_call(ctx, w, cf, pool, ref, calls, fail, alive, ignore, on, bool(force))


def live(ctx, alive, limit):
    n = [r for r in alive if r() is not None]
    if len(n) > limit:
        gc.collect()
        n = [r for r in alive if r() is not None]
    check(len(n) <= limit, 'holds-more-results-than-its-size', lambda: '{} of {}'.format(len(n), limit))
    alive[:] = n


def one_call(ctx, w, cf, pool, ref, calls, fail, alive, ignore, on, force=False):
    rng = ctx.rng
    if w == 'again' and ref.history:
        args, kw = ctx.pick(ref.history[-6:])
        if ctx.chance(.3):
            kw = dict(sorted(kw.items(), reverse=True))
    else:
        args = tuple(ctx.pick(pool) for _ in range(ctx.int(max(1, len(ignore)), 3)))
        names = [n for n in ('a', 'b', 'xy') if ctx.chance(.25)]
        kw = {n: ctx.pick(pool) for n in names}
        if ignore == (1,) and len(args) < 2:
            args = args + (1,)
        if force and w != 'force' and ctx.chance(.2):
            kw['zz'] = None    # given, but not forced
            ctx.count('not_forced')
    if w == 'temp':
        args = (ObsAr(rng.normal(size=3)),) + args[1:] if ignore != (0,) else args[:1] + (float(rng.normal()),)
        ctx.count('temporaries')
    direct = not on
    if w == 'uncacheable':
        bad = ctx.pick([np.arange(3.), [1, 2]])
        if ctx.chance(.5):
            args = args + (bad if isinstance(bad, np.ndarray) else np.array(bad),)
        else:
            kw = dict(kw, b=np.arange(2.))
        direct = True
        ctx.count('uncacheable')
    if w == 'force':
        kw = dict(kw, zz=ctx.pick([1, 2.5, 'a', 0, False, '', 0., np.zeros(1)]))
        direct = True
        ctx.count('forced')
    if w == 'fail':
        fail[0] = ctx.pick([Fail(), Fail(), Interrupt(), ValueError('x')])
    key = (tuple(id(a) for i, a in enumerate(args) if i not in ignore), tuple((n, id(kw[n])) for n in sorted(kw)))
    ctx.step('{} {} {}'.format(w, [tname(pool, a) for a in args], {n: tname(pool, v) for n, v in kw.items()}))
    n = len(calls)
    st = ref.state(key)
    req = ref.required(key) and not direct
    try:
        try:
            r = cf(*args, **kw)
        finally:
            err = fail[0]
            fail[0] = None
    except (Fail, Interrupt, ValueError) as e:
        check(e is err, 'other-error-than-raised', lambda: repr(e))
        check(not req, 'called-again', lambda: (args, kw))
        ctx.count('failures')
        if direct:
            return    # nothing is known about the cache
        # a call that raises leaves no entry; the others may go, too
        keep = [k for k in ref.order if k != key]
        ref.recent = [k for k in ref.recent if k != key]
        ref.reset()
        r = None
        e.__traceback__ = None
        del e
        n = len(calls)
        r = cf(*args, **kw)
        check(len(calls) == n + 1, 'failed-call-left-an-entry', lambda: (args, kw))
        st = 'failed'
    else:
        if err is not None:
            check(len(calls) == n, 'error-swallowed')
    vargs = [None if i in ignore else a for i, a in enumerate(args)]
    exp = value(vargs, kw)
    check(same(r, exp), 'stale-result', lambda: '{}: {} instead of {} (entry {})'.format(ctx.history[-1], r, exp, st))
    check(len(calls) <= n + 1, 'called-more-than-once')
    if direct:
        check(len(calls) == n + 1, 'not-called-though-uncacheable-or-forced', lambda: ctx.history[-1])
    elif req:
        check(len(calls) == n, 'called-again', lambda: '{} is one of the last {} distinct calls'.format(ctx.history[-1], ref.limit))
        ctx.count('hits_required')
    ctx.count('results_compared')
    ctx.seen(w, st, len(calls) - n, ref.limit, [tname(pool, a) for a in args][:3], sorted(kw))
    if not direct:
        ref.used(key, tuple(a for i, a in enumerate(args) if i not in ignore) + tuple(kw.values()))
        ref.history.append((args, kw))
        del ref.history[:-6]
    del r
    if on and w != 'temp':
        live(ctx, alive, ref.limit)
    if not on:
        ctx.count('switched_off')
        live(ctx, alive, 0)


def tname(pool, a):
    for i, x in enumerate(pool):
        if x is a:
            return i
    return type(a).__name__


# -------------------------------------------------------- methods of a model
COUNT = {}


def counted(self, name):
    COUNT[(id(self), name)] = COUNT.get((id(self), name), 0) + 1
    if FAIL[0] is not None:
        e, FAIL[0] = FAIL[0], None
        raise e


FAIL = [None]


class Part(Parameterized):
    def __init__(self, name, v):
        super(Part, self).__init__(name)
        self.v = Param('v', np.array(v, float))
        self.w = Param('w', 1.5)
        self.link_parameters(self.v, self.w)

    @Cache_this(limit=3)
    def stat(self, x, k=2, s='a'):
        counted(self, 'stat')
        return self.pure(x, k, s)

    def pure(self, x, k=2, s='a'):
        return value((self.v.values, self.w.values, x, k, s), {})

    @Cache_this(limit=2, ignore_args=(0,))
    def free(self, x, y=None):
        """depends on the arguments only"""
        counted(self, 'free')
        return value((x, y), {})

    @Cache_this(limit=2, force_kwargs=('force',))
    def maybe(self, x, force=None):
        counted(self, 'maybe')
        return value((self.v.values, x), {})

    @Cache_this(limit=3)
    def nested(self, x):
        counted(self, 'nested')
        return self.stat(x) * 2 + self.free(x)[0]

    def parameters_changed(self):
        self.fresh = self.stat(1)


class Whole(Model):
    def __init__(self, name, parts):
        super(Whole, self).__init__(name)
        self.link_parameters(*parts)

    def parameters_changed(self):
        self.total = sum(float(p.stat(1)[1]) for p in self.parameters)

    def objective_function(self):
        return self.total


def methods(ctx):
    rng = ctx.rng
    COUNT.clear()
    FAIL[0] = None
    m = Whole('m', [Part('a', rng.normal(size=2)), Part('b', rng.normal(size=(2, 2)))])
    models = [m]
    pool = make_pool(ctx)
    on = {}
    memo = {}      # (part, method, args) just answered and nothing changed since
    once_forced = None
    for step in range(ctx.int(15, 40)):
        m = ctx.pick(models)
        p = ctx.pick(m.parameters)
        k = ctx.wpick([('call', 14), ('again', 6), ('param', 6), ('arg', 4), ('node', 3), ('opt', 2), ('switch', 1.5), ('reset', 1), ('fail', 1.5),
                       ('copy', .6), ('pickle', .6), ('fix', 1)])
        if k in ('param', 'node', 'opt', 'fix'):
            ctx.step('{} {}'.format(k, p.hierarchy_name()))
            if k == 'param':
                q = ctx.pick([p.v, p.w])
                j = ctx.int(0, 2)
                if j == 0:
                    q[...] = rng.normal()
                elif j == 1:
                    q[:1] = rng.normal()
                else:
                    setattr(p, q.name, rng.normal())
            elif k == 'node':
                h = ctx.pick([m, p])
                h[:] = rng.normal(size=h.size)
            elif k == 'opt':
                h = ctx.pick([m, p])
                h.optimizer_array = rng.normal(size=h.optimizer_array.size)
            else:
                q = ctx.pick([p, p.v])
                (q.fix if ctx.chance(.6) else q.unfix)(**({}))
            ctx.count('model_changes')
            memo.clear()
        elif k == 'arg':
            change(ctx, pool, [])
            memo.clear()
        elif k == 'switch':
            h = ctx.pick([m, p])
            flag = not on.get(id(p), True)
            ctx.step('caching of {} {}'.format(h.name, flag))
            (h.enable_caching if flag else h.disable_caching)()
            for q in (m.parameters if h is m else [p]):
                on[id(q)] = flag
            memo.clear()
        elif k == 'reset':
            p.cache.reset()
            memo.clear()
            ctx.count('resets')
        elif k in ('copy', 'pickle') and len(models) < 3:
            ctx.step(k)
            n = m.copy() if k == 'copy' else pickle.loads(pickle.dumps(m))
            models.append(n)
        else:
            if k == 'again' and once_forced and ctx.chance(.3):
                p, name, args, kw = once_forced
            elif k == 'again' and memo:
                p, name, args, kw = ctx.pick(list(memo.values()))
            else:
                name = ctx.pick(['stat', 'stat', 'free', 'maybe', 'nested'])
                x = ctx.pick(pool)
                args, kw = (x,), {}
                if name == 'stat' and ctx.chance(.4):
                    args = (x, ctx.pick(pool[7:]))
                    kw = ctx.pick([{}, dict(s='bc')])
                elif name == 'stat' and ctx.chance(.4):
                    kw = dict(s='bc', k=ctx.pick(pool[7:]))
                elif name == 'free' and ctx.chance(.5):
                    args, kw = ctx.pick([((x, ctx.pick(pool)), {}), ((x,), dict(y=ctx.pick(pool)))])
                elif name == 'maybe' and ctx.chance(.4):
                    args, kw = ctx.pick([((x, 1), {}), ((x,), dict(force=ctx.pick([2.5, 0, False, 0., '']))), ((x, 0), {}), ((x, None), {}), ((x,), dict(force=None))])
            full = args + tuple(kw.values())
            forced = name == 'maybe' and (args[1:] and args[1] is not None or kw.get('force') is not None)
            once_forced = (p, name, args, kw) if forced else once_forced
            cacheable = on.get(id(p), True) and not forced
            ctx.step('{}.{}({}, {})'.format(p.hierarchy_name(), name, [tname(pool, a) for a in args], sorted(kw)))
            if k == 'fail':
                FAIL[0] = ctx.pick([Fail(), Interrupt()])
            n0 = COUNT.get((id(p), name), 0)
            try:
                try:
                    r = getattr(p, name)(*args, **kw)
                finally:
                    FAIL[0] = None
            except (Fail, Interrupt):
                ctx.count('failures')
                memo.clear()
                r = getattr(p, name)(*args, **kw)
                n0 = None
            if name == 'stat':
                exp = p.pure(*args, **kw)
            elif name == 'free':
                exp = value(args + ((kw['y'],) if 'y' in kw else () if len(args) > 1 else (None,)), {})
            elif name == 'maybe':
                exp = value((p.v.values, args[0]), {})
            else:
                exp = p.pure(args[0]) * 2 + value((args[0], None), {})[0]
            check(same(r, exp), 'stale-result', lambda: '{}: {} instead of {}'.format(ctx.history[-1], r, exp))
            n1 = COUNT.get((id(p), name), 0)
            key = (id(p), name, tuple(map(id, args)), tuple((q, id(kw[q])) for q in sorted(kw)))
            if n0 is not None:
                if forced or not on.get(id(p), True):
                    check(n1 == n0 + 1, 'not-called-though-switched-off-or-forced', lambda: ctx.history[-1])
                    ctx.count('forced' if forced else 'switched_off')
                elif key in memo and cacheable:
                    check(n1 == n0, 'called-again', lambda: ctx.history[-1])
                    ctx.count('hits_required')
            ctx.seen(name, forced, on.get(id(p), True), [tname(pool, a) for a in full][:3], k)
            # the last call of every method of every part has to be known (nested ones call others)
            for q in [q for q in memo if q[:2] == key[:2] or name == 'nested' and q[0] == key[0] and q[1] in ('stat', 'free')]:
                del memo[q]
            if cacheable:
                memo[key] = (p, name, args, kw)
            ctx.count('method_calls')
            ctx.count('results_compared')
        for q in m.parameters:
            exp = q.pure(1)
            check(same(q.fresh, exp), 'stale-result', lambda: 'in the update of {}: {} instead of {}'.format(q.hierarchy_name(), q.fresh, exp))
        check(m.total == sum(float(q.pure(1)[1]) for q in m.parameters), 'stale-result', lambda: 'in the update of the model')


class Lazy(Parameterized):
    """caches nothing while it is constructed"""
    def __init__(self, name):
        super(Lazy, self).__init__(name)
        self.v = Param('v', [1., 2.])
        self.link_parameter(self.v)

    @Cache_this(limit=3)
    def one(self, x):
        counted(self, 'one')
        return self.right('one', x)

    @Cache_this(limit=3)
    def two(self, x):
        counted(self, 'two')
        return self.right('two', x)

    def right(self, name, x):
        return value((self.v.values, name, x), {})


def first_calls(ctx):
    """caching switched around the very first calls"""
    COUNT.clear()
    FAIL[0] = None
    objs = [Lazy('l{}'.format(i)) for i in range(2)]
    m = objs[0]
    if ctx.chance(.5):
        m = Model('m')
        m.link_parameters(*objs)
    pool = make_pool(ctx)
    on = dict((id(h), True) for h in objs)
    for step in range(ctx.int(4, 14)):
        h = ctx.pick(objs)
        k = ctx.wpick([('switch', 2), ('call', 3), ('reset', .4)])
        if k == 'reset':
            ctx.step('reset {}'.format(h.name))
            h.cache.reset()
            continue
        if k == 'switch':
            flag = ctx.chance(.5)
            g = ctx.pick([h, m])
            ctx.step('caching of {} {}'.format(g.name, flag))
            (g.enable_caching if flag else g.disable_caching)()
            for o in (objs if g is m and m not in objs else [g]):
                on[id(o)] = flag
            ctx.count('switched_early')
            continue
        name = ctx.pick(['one', 'two'])
        x = ctx.pick(pool)
        ctx.step('{}.{}({}) twice'.format(h.name, name, tname(pool, x)))
        a = getattr(h, name)(x)
        n0 = COUNT.get((id(h), name), 0)
        b = getattr(h, name)(x)
        n1 = COUNT.get((id(h), name), 0)
        check(same(a, h.right(name, x)) and same(b, h.right(name, x)), 'stale-result', lambda: ctx.history[-1])
        check(n1 == n0 + (0 if on[id(h)] else 1), 'called-again' if on[id(h)] else 'not-called-though-switched-off', lambda: (ctx.history, n0, n1))
        ctx.count('hits_required' if on[id(h)] else 'switched_off')
        ctx.count('results_compared', 2)
        ctx.seen('first', name, on[id(h)], step, m in objs)


class Host(object):
    """an object, which knows nothing of paramz"""
    def __init__(self, tag):
        self.tag = tag

    @Cache_this(limit=2, ignore_args=(0,))
    def two(self, x, y=None):
        """documentation of two"""
        counted(self, 'two')
        return self.right('two', x, y)

    @Cache_this(limit=4, ignore_args=(0,))
    def four(self, x, y=None):
        counted(self, 'four')
        return self.right('four', x, y)

    @Cache_this(limit=3)
    def never(self, x, y=None):
        """self is nothing which can be observed, and is not ignored"""
        counted(self, 'never')
        return self.right('never', x, y)

    @Cache_this(limit=3, ignore_args=(0, 2))
    def part(self, x, y=None):
        counted(self, 'part')
        return self.right('part', x, None)

    def right(self, name, x, y):
        return value((self.tag, name, x, y), {})


def hosts(ctx):
    """methods of plain objects: every object has its own results, of every method its own"""
    COUNT.clear()
    FAIL[0] = None
    check(Host.two.__name__ == 'two' and Host.two.__doc__ == 'documentation of two', 'decorated-name-or-documentation')
    hs = [Host(float(i)) for i in range(3)]
    pool = make_pool(ctx)
    limit = dict(two=2, four=4, never=0, part=3)
    refs = dict(((id(h), n), RefCache(ctx, l)) for h in hs for n, l in limit.items())
    on = dict((id(h), True) for h in hs)
    last = None
    for step in range(ctx.int(20, 50)):
        k = ctx.wpick([('call', 20), ('again', 10), ('change', 6), ('reset', .7), ('switch', 1), ('fail', 1)])
        if k == 'change':
            change(ctx, pool, list(refs.values()))
            continue
        h = ctx.pick(hs)
        if k in ('reset', 'switch'):
            if not hasattr(h, 'cache'):
                continue
            ctx.step('{} {}'.format(k, h.tag))
            if k == 'reset':
                h.cache.reset()
                ctx.count('resets')
            elif on[id(h)]:
                h.cache.disable_caching()
                on[id(h)] = False
            else:
                h.cache.enable_caching()
                on[id(h)] = True
            if not (k == 'switch' and on[id(h)]):
                for n in limit:
                    refs[id(h), n].reset()
            continue
        if k == 'again' and last is not None:
            h, name, args, kw = last
        else:
            name = ctx.pick(['two', 'two', 'four', 'four', 'part', 'never'])
            args = (ctx.pick(pool[:9]), ) + ((ctx.pick(pool[:9]),) if ctx.chance(.5) else ())
            kw = {}
            if len(args) == 1 and ctx.chance(.4):
                kw = dict(y=ctx.pick(pool[:9]))
        last = (h, name, args, kw)
        y = args[1] if len(args) > 1 else kw.get('y')
        ref = refs[id(h), name]
        # the default is filled in, whether given by position, name or not at all
        key = (id(args[0]), None if name == 'part' else id(y))
        must = ref.required(key) and on[id(h)] and name != 'never'
        ctx.step('{}.{}({}, {})'.format(h.tag, name, [tname(pool, a) for a in args], sorted(kw)))
        n0 = COUNT.get((id(h), name), 0)
        if k == 'fail':
            FAIL[0] = Fail()
        try:
            try:
                r = getattr(h, name)(*args, **kw)
            finally:
                FAIL[0] = None
        except Fail:
            check(not must, 'called-again', lambda: ctx.history[-1])
            ctx.count('failures')
            ref.reset()
            last = None
            continue
        n1 = COUNT.get((id(h), name), 0)
        check(same(r, h.right(name, args[0], None if name == 'part' else y)), 'stale-result', lambda: '{}: {} instead of {}'.format(
            ctx.history[-1], r, h.right(name, args[0], None if name == 'part' else y)))
        if must:
            check(n1 == n0, 'called-again', lambda: ctx.history[-1])
            ctx.count('hits_required')
        elif name == 'never' or not on[id(h)]:
            check(n1 == n0 + 1, 'not-called-though-it-cannot-be-cached', lambda: ctx.history[-1])
        if name != 'never' and on[id(h)]:
            ref.used(key, tuple(a for a in ((args[0],) if name == 'part' else (args[0], y))))
        ctx.count('plain_host_calls')
        ctx.count('results_compared')
        ctx.seen('host', name, must, len(args), sorted(kw), on[id(h)])


class Recursive(Parameterized):
    """a method, which calls itself"""
    def __init__(self, plan, log):
        super(Recursive, self).__init__('recursive')
        self.p = Param('p', np.array([.5, -1.]))
        self.link_parameter(self.p)
        self.plan, self.log = plan, log


def recursive_class(limit):
    class R(Recursive):
        @Cache_this(limit=limit)
        def f(self, x, k):
            return body(self, x, k, self.f)
    return R


def body(o, x, k, f):
    o.log.append((id(x), k))
    r = np.array([digest(x)[0] + k])
    if hasattr(o, 'p'):
        r = r + o.p.values.sum()
    if k in o.plan['raises'] and digest(x)[0] > 0:
        raise Fail('{}'.format(k))
    for j, caught in o.plan['calls'][k]:
        if caught:
            try:
                r = r + 2. * f(x, j)
            except Fail:
                r = r - 7.
        else:
            r = r + .5 * f(x, j)
    return r


def recursive(ctx):
    """cached functions, which call themselves with other arguments"""
    rng = ctx.rng
    depth, limit = ctx.int(2, 5), ctx.int(1, 5)
    xs = [ObsAr(rng.normal(size=2)) for _ in range(ctx.int(1, 3))]
    plan = dict(xs=xs, raises=[k for k in range(depth) if ctx.chance(.15)],
                calls=[[(ctx.int(0, k - 1), ctx.chance(.6)) for _ in range(ctx.int(0, 2)) if k]
                       for k in range(depth + 1)])
    log, silent = [], []

    class O(object):
        pass
    method = ctx.chance(.5)
    if method:
        o = recursive_class(limit)(plan, log)
        c = o.f
        truth_of = O()
        truth_of.p = o.p
    else:
        o, truth_of = O(), O()
        o.plan, o.log = plan, log
        c = Cacher(lambda x, k: body(o, x, k, lambda y, j: c(y, j)), limit)
    truth_of.plan, truth_of.log = plan, silent

    def truth(x, k):
        return body(truth_of, x, k, truth)
    alive = []
    last = None
    ctx.step('recursive {} limit={} calls={} raises={}'.format('method' if method else 'function', limit, plan['calls'], plan['raises']))
    for _ in range(ctx.int(8, 25)):
        k = ctx.wpick([('call', 12), ('again', 3), ('change', 7), ('param', 3 if method else 0), ('reset', .4)])
        if k in ('call', 'again'):
            if k == 'again' and last is None:
                continue
            i, n = last if k == 'again' else (ctx.int(0, len(xs) - 1), ctx.int(0, depth))
            ctx.step('{} {} {}'.format(k, i, n))
            try:
                exp = truth(xs[i], n)
            except Fail as e:
                exp = str(e)
            del log[:]
            try:
                r = c(xs[i], n)
            except Fail as e:
                r = str(e)
            check(type(r) is type(exp) and (r == exp if isinstance(r, str) else same(r, exp)), 'stale-result', lambda: 'recursive: {} instead of {}'.format(r, exp))
            ctx.count('results_compared')
            ctx.count('recursive_calls')
            if k == 'again':
                check(not log, 'called-again', lambda: 'recursive: {}'.format(log))
                ctx.count('hits_required')
            last = None if isinstance(r, str) else (i, n)
            if not isinstance(r, str) and not any(a() is r for a in alive):
                alive.append(weakref.ref(r))
            ctx.seen('recursive', limit, n, len(log), isinstance(r, str))
            del r
            live(ctx, alive, limit)
        else:
            last = None
            ctx.step(k)
            if k == 'change':
                xs[ctx.int(0, len(xs) - 1)][...] = rng.normal(size=2)
                ctx.count('changes')
            elif k == 'param':
                o.p[0] = rng.normal()
            else:
                (o.cache if method else c).reset() if not method or hasattr(o, 'cache') else None
                live(ctx, alive, 0)
                check(all(len(x.observers) == 0 for x in xs), 'observer-left-behind', 'recursive')


class Switched(object):
    n = 0

    def f(self, x):
        self.n += 1
        return np.array(digest(x))


def created_off(ctx):
    """cachers which are switched off when they are created, by themselves or by the object of their method"""
    s = Switched()
    x = ObsAr(ctx.rng.normal(size=3))
    own, of_object, bound = ctx.chance(.6), ctx.pick([None, True, False]), ctx.chance(.7)
    if of_object is not None:
        s.cache = FunctionCache()
        if not of_object:
            s.cache.disable_caching()
    op = s.f if bound else lambda x: s.f(x)
    c = Cacher(op, ctx.int(1, 3), **({} if own else dict(cacher_enabled=False)))
    on = own and not (bound and of_object is False)
    ctx.step('created off: own {} object {} bound {}'.format(own, of_object, bound))
    for k in range(ctx.int(4, 10)):
        w = ctx.pick(['call', 'call', 'call', 'change', 'switch', 'object'])
        ctx.step(w)
        if w == 'change':
            x[ctx.int(0, 2)] = ctx.rng.normal()
        elif w == 'switch':
            on = not on
            (c.enable_cacher if on else c.disable_cacher)()
        elif w == 'object' and bound and hasattr(s, 'cache'):
            on = not on
            (s.cache.enable_caching if on else s.cache.disable_caching)()
        if not on:
            check(len(x.observers) == 0, 'observer-left-behind', 'switched off')
        for j in range(2):
            n0 = s.n
            r = c(x)
            check(same(r, np.array(digest(x))), 'stale-result', lambda: (r, x))
            if not on:
                check(s.n == n0 + 1, 'cached-though-switched-off', lambda: str(ctx.history))
            elif j:
                check(s.n == n0, 'called-again', lambda: str(ctx.history))
            ctx.count('results_compared')
            ctx.count('created_off_calls')
    ctx.seen('created off', own, of_object, bound, on)


def run_case(ctx):
    if ctx.chance(.05):
        created_off(ctx)
    if ctx.chance(.15):
        recursive(ctx)
    if ctx.chance(.15):
        first_calls(ctx)
    if ctx.case % 5 < 3 and ctx.case % 3 == 0:
        hosts(ctx)
    elif ctx.case % 5 < 3:
        plain(ctx)
    else:
        methods(ctx)
    ctx.samples = ctx.history[:12]
