"""P24: observable arrays are numpy arrays, which announce in-place changes"""
import array, copy, operator as op_, pickle, io, warnings
import numpy as np
from paramz import ObsAr, Param, Parameterized
from vcommon import check, same, close
LEVEL = 'exploration'
CASES = dict(quick=15000, thorough=80000)
EVAL = 'events_judged'
MINIMUM = dict(events_judged=54000, expressions=24000, in_place=12000, through_views=3000, notifications=30000, same_errors=2000, copies=3000,
               pickled=800, linked=2000, observers_changed=2500, other_dtypes=1000)
DISTINCT = 5000
RULE = 'distinct (operation, operand kinds, shapes, index) combinations'
ASSUMPTIONS = ['item assignment and the in-place operators; other mutators of numpy (fill, sort, out=...) do not announce anything',
               'a += b can bind the name to a plain view; the announcement counts']
BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'matmul']
INPLACE = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'imatmul', 'iadd', 'isub', 'imul', 'ilshift', 'irshift', 'iand', 'ior', 'ixor']
UN = [op_.neg, op_.pos, abs, np.exp, np.sin, np.sqrt, np.square, np.sign, np.isnan, np.tanh, np.floor, np.log1p, np.conj, np.logical_not]
BINU = [np.add, np.maximum, np.minimum, np.hypot, np.multiply, np.logaddexp, np.arctan2, np.subtract, np.greater, np.logical_and, np.fmod, np.copysign]
RED = ['sum', 'mean', 'max', 'min', 'prod', 'std', 'var', 'argmax', 'argmin', 'any', 'all', 'cumsum', 'cumprod', 'ptp']
# (numpy functions, which fill a new array of the same class, announce that one: not judged)
FUN = [lambda a: np.dot(a, a.T), lambda a: np.concatenate([a, a]), lambda a: np.where(a > 0, a, -a), lambda a: np.clip(a, -.5, .5), lambda a: np.linalg.norm(a),
       lambda a: np.einsum('...i->...', a), lambda a: np.outer(a, a), lambda a: np.median(a), lambda a: np.vstack([a, a]), lambda a: np.diff(a),
       lambda a: np.tile(a, 2), lambda a: np.allclose(a, a), lambda a: np.argsort(a, axis=None), lambda a: np.cumsum(a), lambda a: np.unique(a),
       lambda a: a.tolist(), lambda a: a.shape, lambda a: a.dtype, lambda a: len(a), lambda a: [x for x in a.flat], lambda a: a.astype(int) * 2,
       lambda a: np.isclose(a, 0), lambda a: a.dot(np.ones(a.shape[-1])), lambda a: a.round(1), lambda a: a.clip(-1, 1), lambda a: a.T.shape,
       lambda a: np.asarray(a), lambda a: np.array(a), lambda a: a.reshape(-1), lambda a: a.ravel(), lambda a: a.flatten(), lambda a: a[None].sum(),
       lambda a: bool((a == a).all()), lambda a: divmod(a, 2.)[0], lambda a: divmod(a, 2.)[1], lambda a: a.nonzero()[0], lambda a: np.percentile(a, 30),
       lambda a: np.copy(a), lambda a: copy.copy(a), lambda a: np.roll(a,1), lambda a: np.flip(a), lambda a: np.pad(a,1), lambda a: np.repeat(a,2),
       lambda a: np.nan_to_num(a), lambda a: np.nanmean(a), lambda a: np.apply_along_axis(sum,0,a),
       lambda a: np.searchsorted(np.arange(3.),a), lambda a: np.rot90(a), lambda a: np.delete(a,0,0), lambda a: np.insert(a,0,1.),
       lambda a: np.append(a,2.), lambda a: np.meshgrid(a,a)[0], lambda a: np.trapz(a), lambda a: np.gradient(a)[0],
       lambda a: np.interp(a,[0,1],[1,2]), 
       lambda a: np.trace(a), lambda a: np.diag(a), lambda a: np.tril(a),
       lambda a: a.take([0,1]), lambda a: a.compress([True,False],0), lambda a: np.choose([0,1],a), lambda a: np.squeeze(a[None]),
       lambda a: np.swapaxes(a,0,1), lambda a: np.stack([a,a]), lambda a: np.split(a,2)[0], lambda a: np.kron(a,a), lambda a: np.tensordot(a,a),
       lambda a: np.multiply.outer(a,a), lambda a: np.add.reduce(a), lambda a: np.add.accumulate(a), lambda a: np.add.reduceat(a,[0,1]),
       lambda a: a.flat[2], lambda a: a.item(1), lambda a: [r.sum() for r in a], lambda a: np.vectorize(lambda x:x+1)(a), lambda a: a.view(float),
       lambda a: np.full_like(a,2), lambda a: np.zeros_like(a), lambda a: np.broadcast_to(a,(3,2,2)), lambda a: np.atleast_3d(a),
       lambda a: np.array_split(a,2)[1], lambda a: np.cross(a,a), lambda a: np.polyval(a,2.), lambda a: np.lexsort(a),
       lambda a: np.unique(a,axis=0), lambda a: np.intersect1d(a,a), lambda a: np.isin(a,[1.]), lambda a: np.quantile(a,.2),
       lambda a: np.average(a,weights=a), lambda a: np.fft.fft(a), lambda a: float(a[0,0]), lambda a: a[np.ix_([0,1],[1])],
       lambda a: np.block([[a,a],[a,a]]), lambda a: np.digitize(a,[0.,1.]), lambda a: np.argwhere(a>0), lambda a: np.ravel(a,'F'),
       lambda a: a.reshape(4)[1], lambda a: a.ravel()[1:3], lambda a: a.T[0], lambda a: a.swapaxes(0,1)[:,1], lambda a: sorted(a[0]),
       lambda a: max(a[0]), lambda a: sum(a)]


class Log(object):
    def __init__(self, world, tag, prio):
        self.w, self.tag, self.prio = world, tag, prio

    def told(self, me, which=None):
        self.w.log.append((self.tag, me, which, np.array(self.w.a.values)))


class W(object):
    """one array with its shadow; views of both"""
    def __init__(self, c):
        self.c, self.log, self.watch, self.tags = c, [], [], 0
        shape = c.pick([(), (1,), (2,), (3,), (5,), (2, 2), (2, 3), (1, 4), (3, 1), (2, 2, 2), (2, 1, 3), (4, 4)])
        v = c.rng.normal(0, 2, shape)
        kind = c.pick(['float', 'float', 'float', 'int', 'special', 'list', 'f32', 'fortran', 'bool', 'strided', 'readonly', 'spread', 'swapped', 'nested', 'array'])
        if kind == 'int':
            v = np.rint(v).astype(int)
        elif kind == 'bool':
            v = v > 0
        elif kind == 'special' and v.size:
            v = np.array(v)
            v.flat[c.int(0, v.size - 1)] = c.pick([np.nan, np.inf, -np.inf, 0., -0., 1e308, 5e-324])
        elif kind == 'f32':
            v = np.asarray(v, np.float32)
        elif kind == 'fortran':
            v = np.asfortranarray(v)
        elif kind == 'strided' and len(shape):
            v = np.repeat(v, 2, axis=0)[::2]
        elif kind == 'readonly':
            v = np.array(v)
            v.setflags(write=False)
        elif kind == 'spread':
            v = np.broadcast_to(v[:1] if v.ndim else v, v.shape)
        elif kind == 'swapped':
            v = np.asarray(v).astype('>f8')
        elif kind == 'array':
            v = array.array('d', np.ravel(v))
        inp = v.tolist() if kind == 'list' else [tuple(i) for i in v] if kind == 'nested' and np.ndim(v) > 1 else v
        self.s = np.atleast_1d(np.array(v, dtype=float, order='C'))
        self.param = c.chance(.4)
        self.parent = None
        if self.param:
            self.a = Param('p', inp)
            if c.chance(.6):
                self.parent = Parent()
                self.parent.link_parameter(self.a)
                if c.chance(.5):
                    self.parent.link_parameter(Param('q', np.ones(2)))
        else:
            self.a = ObsAr(inp)
        c.step('{} of {} {} {}'.format('Param' if self.param else 'ObsAr', kind, self.s.shape, 'linked' if self.parent is not None else ''))
        check(type(self.a) is (Param if self.param else ObsAr), 'class-of-the-array')
        self.views = [(self.a, self.s, 'a')]
        for _ in range(c.int(1, 3)):
            self.observe()

    def observe(self):
        self.tags += 1
        l = Log(self, self.tags, self.c.pick([-5, 0, 0, 3]))
        self.a.add_observer(l, l.told, l.prio)
        self.watch.append(l)
        self.watch.sort(key=lambda x: -x.prio)      # stable: later ones behind earlier ones of the same priority

    def view(self):
        """pick the array or a view of it (and what the shadow has for it)"""
        c = self.c
        if c.chance(.55):
            return self.views[0]
        return c.pick(self.views)

    def index(self, shape, views_only=False):
        c = self.c
        k = c.int(0, 7)
        nd = len(shape)
        if views_only:
            k = k % 4
        if k == 0:
            return Ellipsis
        if k == 1:
            return slice(*sorted(c.rng.integers(-1, shape[0] + 2, 2).tolist()))
        if k == 2:
            out = []
            for n in shape[:c.int(1, nd)]:
                out.append(slice(None, None, c.pick([1, 2, -1])) if c.chance(.5) else slice(c.int(0, n), None))
            return tuple(out)
        if k == 3:
            return (Ellipsis, slice(0, c.int(0, shape[-1]))) if nd > 1 or not self.param else slice(0, c.int(0, shape[0]))
        if k == 4:
            return c.rng.random(shape) < .5
        if k == 5:
            return c.rng.integers(-shape[0], shape[0], c.int(1, 3)) if shape[0] else Ellipsis
        if k == 6 and all(shape):
            return tuple(c.int(-n, n - 1) for n in shape)
        return c.int(-shape[0], shape[0]) if shape[0] else Ellipsis      # now and then out of bounds

    def operand(self, shape, plain=False):
        """(for paramz, for numpy, kind)"""
        c = self.c
        k = c.pick(['scalar', 'scalar', 'int', 'array', 'array', 'row', 'obsar', 'self', 'wrong', 'npscalar', 'list', 'param'])
        if k == 'scalar':
            x = c.pick([0., 1., -1.5, 2., .5, np.nan, c.rng.normal()])
            return x, x, k
        if k == 'int':
            x = c.int(-3, 3)
            return x, x, k
        if k == 'npscalar':
            x = np.float64(c.rng.normal())
            return x, x, k
        if k == 'row':
            x = c.rng.normal(size=shape[-1:])
            return x, x.copy(), k
        if k == 'self':
            v, s, n = c.pick(self.views)
            return v, s, k
        x = np.round(c.rng.normal(0, 2, shape), c.pick([0, 1, 12]))
        if k == 'wrong':
            x = np.ones(tuple(shape) + (7,)) if c.chance(.5) else np.ones(5)
        if k == 'list':
            return x.tolist(), x.tolist(), k
        if k == 'obsar':
            return ObsAr(x.copy()) if x.ndim else x, x, k
        if k == 'param':
            return Param('o', x.copy()) if x.ndim else x, x, k
        return x, x.copy(), k


class Parent(Parameterized):
    def __init__(self):
        super(Parent, self).__init__('parent')
        self.n = 0

    def parameters_changed(self):
        self.n = self.__dict__.get('n', 0) + 1


def attempt(f):
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return f(), None
    except (Exception, RecursionError) as e:
        return None, e


def eq(a, b):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))
    if isinstance(b, (tuple, np.dtype, bool)) or b is None:
        return type(a) is type(b) and (a == b or str(a) == str(b))
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and same(a, b)


def plain(x):
    return type(x) is np.ndarray or not isinstance(x, np.ndarray)


def brief(i):
    return str(i).replace('\n', '')


def expression(c, w):
    v, s, n = w.view()
    k = c.int(0, 7)
    strict = True
    if k <= 1:
        o, os_, kind = w.operand(s.shape)
        f = getattr(op_, c.pick(BIN))
        if c.chance(.5):
            r, e, name = lambda: f(v, o), lambda: f(s, os_), '{}(a, {})'.format(f.__name__, kind)
        else:
            r, e, name = lambda: f(o, v), lambda: f(os_, s), '{}({}, a)'.format(f.__name__, kind)
        strict = f is not op_.matmul or True
    elif k == 2:
        f = c.pick(UN)
        r, e, name = lambda: f(v), lambda: f(s), f.__name__
    elif k == 3:
        o, os_, kind = w.operand(s.shape)
        f = c.pick(BINU)
        r, e, name = lambda: f(v, o), lambda: f(s, os_), '{}(a, {})'.format(f.__name__, kind)
    elif k == 4:
        f, ax = c.pick(RED), c.pick([None, None, 0, -1, 5])
        kw = dict(axis=ax) if ax is not None else {}
        if f in ('sum', 'mean', 'max', 'std') and c.chance(.3):
            kw['keepdims'] = True
        r, e, name = lambda: getattr(v, f)(**kw), lambda: getattr(s, f)(**kw), '{}({})'.format(f, kw)
        strict = False
        if c.chance(.3):
            g = getattr(np, f)
            r, e, name = lambda: g(v, **kw), lambda: g(s, **kw), 'np.{}({})'.format(f, kw)
    elif k == 5:
        i = w.index(s.shape)
        r, e, name = lambda: v[i], lambda: s[i], 'a[{}]'.format(brief(i))
        strict = False
    else:
        i = c.int(0, len(FUN) - 1)
        f = FUN[i]
        r, e, name = lambda: f(v), lambda: f(s), 'function {}'.format(i)
        strict = False
    before = len(w.log)
    (y, yerr), (x, xerr) = attempt(r), attempt(e)
    judge(c, w, n, name, y, yerr, x, xerr)
    if xerr is None:
        check(not strict or plain(y), 'result-is-observable', lambda: '{} on {} gives {}'.format(name, n, type(y)))
    check(len(w.log) == before or k >= 6, 'expression-notifies', lambda: '{} on {}'.format(name, n))
    c.count('expressions')
    c.seen('expr', name[:30], s.shape, w.param)


def judge(c, w, n, name, y, yerr, x, xerr):
    if xerr is not None:
        check(yerr is not None, 'no-error-where-numpy-has-one', lambda: '{} on {}: {!r}'.format(name, n, xerr))
        check(isinstance(yerr, type(xerr)) or isinstance(xerr, type(yerr)), 'other-error', lambda: '{} on {}: {!r} instead of {!r}'.format(name, n, yerr, xerr))
        c.count('same_errors')
    else:
        check(yerr is None, 'unexpected-error', lambda: '{} on {}: {!r}'.format(name, n, yerr))
        check(eq(y, x), 'value-differs-from-numpy', lambda: '{} on {}: {} instead of {}'.format(name, n, y, x))
    c.count('events_judged')


def inplace(c, w):
    v, s, n = w.view()
    sc = np.array(w.s)
    k = c.int(0, 2)
    if k == 2:
        o, os_, kind = w.operand(s.shape)
        f = getattr(op_, c.pick(INPLACE))
        if kind == 'self' and np.may_share_memory(os_, s):
            os_ = os_.copy() if c.chance(0) else os_
        name = '{}(a, {})'.format(f.__name__, kind)
        do = lambda: f(v, o)
        ref = lambda: f(s, os_)
    else:
        i = w.index(s.shape)
        tgt, err = attempt(lambda: s[i].shape)
        o, os_, kind = w.operand(tgt if tgt is not None else (1,))
        if kind == 'self' and c.chance(.5):
            os_ = os_
        name = 'a[{}] = {}'.format(brief(i), kind)

        def do():
            v[i] = o

        def ref():
            s[i] = os_
    before, told = len(w.log), (w.parent.n if w.parent is not None else 0)
    x, xerr = attempt(ref)
    want = np.array(w.s)
    y, yerr = attempt(do)
    c.step('{}: {}'.format(n, name))
    judge(c, w, n, name, None, yerr, None, xerr)
    check(same(w.a.values, want), 'in-place-value-differs-from-numpy', lambda: '{} on {}: {} instead of {} (from {})'.format(name, n, w.a.values, want, sc))
    new = w.log[before:]
    if xerr is not None:
        check(not new, 'failed-operation-notifies', lambda: '{} on {}: {}'.format(name, n, [t[0] for t in new]))
        return
    check([t[0] for t in new] == [l.tag for l in w.watch], 'not-notified-once-each-in-order',
          lambda: '{} on {}: {} instead of {}'.format(name, n, [t[0] for t in new], [l.tag for l in w.watch]))
    for t in new:
        check(same(t[3], want), 'notified-before-the-change', lambda: '{} on {}: {} instead of {}'.format(name, n, t[3], want))
        check(isinstance(t[1], ObsAr) and np.shares_memory(t[1], w.a) or not w.s.size or not s.size, 'notified-with-another-object')
        check(t[2] is t[1], 'notified-with-another-origin')
    if w.parent is not None:
        check(w.parent.n == told + 1, 'parent-not-updated-once', lambda: '{} on {}: {}'.format(name, n, w.parent.n - told))
        check(same(w.parent.param_array[:w.s.size], want.ravel()), 'parent-values')
        c.count('linked')
    if k == 2:
        check(np.shares_memory(y, w.a) or not s.size, 'in-place-result-elsewhere')
    c.count('in_place')
    c.count('notifications', len(new))
    c.count('through_views', n != 'a')
    c.seen('in', name[:30], s.shape, w.param, n != 'a')


def newview(c, w):
    if len(w.views) > 5:
        del w.views[c.int(1, 5)]
    multi = not w.param                      # parameters are indexed in one go
    v, s, n = c.pick(w.views) if multi else w.views[0]
    k = c.int(0, 3)
    if k == 0 and not w.param:
        r, e, name = v.T, s.T, '.T'
    elif k == 1 and not w.param and s.flags['C_CONTIGUOUS']:
        r, e, name = v.reshape(-1), s.reshape(-1), '.reshape(-1)'
    elif k == 2 and not w.param:
        r, e, name = v[None], s[None], '[None]'
    else:
        i = w.index(s.shape, True)
        (r, rerr), (e, eerr) = attempt(lambda: v[i]), attempt(lambda: s[i])
        if eerr is not None or not isinstance(e, np.ndarray) or not e.ndim or not e.size:
            return
        name = '[{}]'.format(brief(i))
    check(isinstance(r, ObsAr), 'view-not-observable', lambda: n + name)
    check(same(np.asarray(r), e), 'view-value', lambda: n + name)
    check(np.shares_memory(r, w.a) or not e.size, 'view-without-the-memory', lambda: n + name)
    w.views.append((r, e, n + name))
    c.count('events_judged')


def observers(c, w):
    k = c.pick(['add', 'remove', 'priority', 'off', 'view'])
    c.step('observers {}'.format(k))
    if k == 'add':
        w.observe()
    elif k == 'remove' and w.watch:
        l = c.pick(w.watch)
        w.a.remove_observer(l, l.told) if c.chance(.5) else w.a.remove_observer(l)
        w.watch.remove(l)
    elif k == 'priority' and w.watch:
        l = c.pick(w.watch)
        l.prio = c.pick([-7, 0, 2, 9])
        w.a.change_priority(l, l.told, l.prio)
        w.watch.remove(l)
        w.watch.append(l)
        w.watch.sort(key=lambda x: -x.prio)
    elif k == 'view' and len(w.views) > 1:
        # observing a view is observing the array
        w.tags += 1
        l = Log(w, w.tags, 0)
        w.views[-1][0].add_observer(l, l.told)
        w.watch.append(l)
        w.watch.sort(key=lambda x: -x.prio)
    elif k == 'off' and w.parent is None:
        w.a.set_updates(False)
        before = len(w.log)
        i = w.index(w.s.shape)
        x, e = attempt(lambda: w.s.__setitem__(i, 1.25))
        y, e2 = attempt(lambda: w.a.__setitem__(i, 1.25))
        judge(c, w, 'a', 'assignment while off', None, e2, None, e)
        w.a.set_updates(True)
        check(len(w.log) == before, 'notified-while-off')
        check(same(w.a.values, w.s), 'value-while-off')
    c.count('observers_changed')
    c.count('events_judged')


def duplicate(c, w):
    v, s, n = w.views[0] if w.param else w.view()
    how = c.pick(['copy', 'copy', 'deepcopy', 'pickle', 'pickle', 'np.array', 'values'])
    c.step('{} of {}'.format(how, n))
    before, told = len(w.log), (w.parent.n if w.parent is not None else 0)
    if how == 'values':
        r = v.values
        check(type(r) is np.ndarray and same(r, s) and (np.shares_memory(r, w.a) or not s.size), 'values', lambda: n)
        c.count('events_judged')
        return
    if how == 'deepcopy' and w.parent is not None:
        how = 'copy'
    if how == 'pickle' and w.parent is not None:
        how = 'copy'
    if how == 'copy':
        r = v.copy()
    elif how == 'deepcopy':
        r = copy.deepcopy(v)
    elif how == 'np.array':
        r = np.array(v)
        check(type(r) is np.ndarray and same(r, s) and not np.shares_memory(r, w.a), 'plain-copy', lambda: n)
    else:
        proto = c.int(0, pickle.HIGHEST_PROTOCOL)
        if c.chance(.5):
            r = pickle.loads(pickle.dumps(v, proto))
        else:
            f = io.BytesIO()
            v.pickle(f, proto)
            f.seek(0)
            r = pickle.load(f)
        c.count('pickled')
    check(len(w.log) == before, 'copying-notifies', lambda: how)
    if w.parent is not None:
        check(w.parent.n == told, 'copying-updates-the-parent')
    if how != 'np.array':
        check(type(r) is type(w.a), 'class-of-the-copy', lambda: '{}: {}'.format(how, type(r)))
        check(r.dtype == s.dtype and same(np.asarray(r), s), 'copy-value', lambda: '{} of {}: {} instead of {}'.format(how, n, np.asarray(r), s))
        check(not s.size or not np.shares_memory(r, w.a), 'copy-shares-memory', lambda: how)
        check(len(list(r.observers)) == 0, 'copy-with-observers', lambda: '{}: {}'.format(how, list(r.observers)))
        got = []

        class T(object):
            def told(self, me, which=None):
                got.append(np.array(r.values))
        t = T()
        r.add_observer(t, t.told)
    if s.size:
        r[...] = 17.5
        check(same(w.a.values, w.s), 'copy-changes-the-original', lambda: how)
        check(len(w.log) == before, 'copy-notifies-the-observers-of-the-original', lambda: how)
        if how != 'np.array':
            check(len(got) == 1 and np.all(got[0] == 17.5), 'copy-does-not-notify', lambda: (how, got))
            w.a[...] = w.s
            check(len(got) == 1 and np.all(np.asarray(r) == 17.5), 'original-changes-the-copy', lambda: how)
    c.count('copies')
    c.count('events_judged')


def other_dtypes(c):
    """arrays of text and objects; of integers and truth values (converted by astype)"""
    shape = c.pick([(1,), (3,), (2, 2), (4,), (2, 3)])
    n = int(np.prod(shape))
    kind = c.pick(['text', 'object', 'int', 'bool', 'int'])
    if kind == 'text':
        base = np.array([c.pick(['ab', 'c', 'x y', 'ü']) for _ in range(n)]).reshape(shape)
        a = ObsAr(base.tolist() if c.chance(.5) else base)
    elif kind == 'object':
        base = np.empty(n, object)
        for i in range(n):
            base[i] = c.pick(['t', 2, None, (1, 2), 1.5])
        base[c.int(0, n - 1)] = 'text'
        base = base.reshape(shape)
        a = ObsAr(base)
    else:
        base = c.rng.integers(-9, 10, shape) if kind == 'int' else c.rng.random(shape) < .5
        a = ObsAr(base).astype(base.dtype)
    s = base.copy()
    c.step('{} {}'.format(kind, shape))
    check(type(a) is ObsAr and a.shape == s.shape and a.dtype == s.dtype and bool(np.all(a.values == s)), 'data-of-the-new-array',
          lambda: '{}: {!r} instead of {!r}'.format(kind, a.values, s))
    got = []

    class T(object):
        def told(self, me, which=None):
            got.append((me, np.array(me.values)))
    t = T()
    a.add_observer(t, t.told)
    for _ in range(c.int(2, 8)):
        del got[:]
        i = c.pick([Ellipsis, 0, -1, slice(0, 1), tuple([0] * len(shape))])
        if kind in ('int', 'bool') and c.chance(.7):
            o = c.pick(['iand', 'ior', 'ixor'] + (['ilshift', 'irshift', 'iadd', 'isub', 'imul', 'ifloordiv', 'imod'] if kind == 'int' else []))
            x = c.rng.integers(1, 5, shape) if kind == 'int' else c.rng.random(shape) < .5
            if c.chance(.3):
                x = x.ravel()[0]
            f = getattr(op_, o)
            s = f(s, x)
            y, err = attempt(lambda: f(a, x))
            name = o
            check(err is None and np.shares_memory(y, a), 'in-place-result-elsewhere', lambda: (o, err))
        else:
            x = {'text': 'c', 'object': c.pick(['y', 'z', 'w z']), 'int': 3, 'bool': True}[kind]
            s[i] = x
            y, err = attempt(lambda: a.__setitem__(i, x))
            name = 'a[{}]'.format(i)
            check(err is None, 'unexpected-error', lambda: '{} {}: {!r}'.format(kind, name, err))
        check(a.dtype == s.dtype and bool(np.all(a.values == s)), 'in-place-value-differs-from-numpy', lambda: '{} {}: {} instead of {}'.format(kind, name, a.values, s))
        check(len(got) == 1, 'not-notified-once-each-in-order', lambda: '{} {}: {} times'.format(kind, name, len(got)))
        check(np.shares_memory(got[0][0], a) and bool(np.all(got[0][1] == s)), 'notified-before-the-change', lambda: '{} {}'.format(kind, name))
        c.count('other_dtypes')
        c.count('events_judged')
        c.seen('other', kind, name, shape)
    for how in ('copy', 'pickle'):
        r = a.copy() if how == 'copy' else pickle.loads(pickle.dumps(a, c.int(0, pickle.HIGHEST_PROTOCOL)))
        del got[:]
        # (what can be converted becomes float in a copy, as in every new array)
        check(type(r) is ObsAr and (r.dtype == s.dtype or how == 'copy' and kind != 'text') and bool(np.all(r.values == s)), 'copy-value', lambda: '{} of {}: {!r}'.format(how, kind, r))
        r[...] = {'text': 'q', 'object': 'q'}.get(kind, 1)
        check(not got and bool(np.all(a.values == s)), 'copy-changes-the-original', lambda: how)


def run_case(c):
    if c.chance(.1):
        return other_dtypes(c)
    w = W(c)
    check(same(w.a.values, w.s) and w.a.dtype == float, 'data-of-the-new-array')
    for _ in range(c.int(10, 45)):
        k = c.wpick([('expr', 10), ('in', 8), ('view', 3), ('obs', 1), ('dup', 2)])
        dict(expr=expression, view=newview, obs=observers, dup=duplicate)[k](c, w) if k != 'in' else inplace(c, w)
        check(same(w.a.values, w.s), 'array-changed', lambda: k)
        for v, s, n in w.views:
            check(same(np.asarray(v), s), 'view-changed', lambda: n)
    c.samples = c.history[:8]
