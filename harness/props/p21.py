"""P21: deferred initialisation and the loading recipe"""
import io, warnings
import numpy as np
from paramz import Param, examples
from paramz.transformations import __fixed__
import monitors as M, reft, zoo
from vcommon import check, same, close, raises
LEVEL = 'exploration'
CASES = dict(quick=4500, thorough=20000)
EVAL = 'states_compared'
MINIMUM = dict(states_compared=3000, deferred_models=500, nested_deferred=80, refused=150, loaded=250, quiet_initialisations=70,
               later_operations=1500, examples=60, constrained_before_initialisation=300, checkgrad_refused=70, initialised_from_below=100)
DISTINCT = 1000
RULE = 'distinct states in which a deferred and an immediate construction were compared'
ASSUMPTIONS = ['between construction and initialisation: constraints at any level, values of leaves, names, links, unlinks and the update switch',
               'the loading recipe is run with the same constructor, as documented']
NAMES = ['a', 'b', 'kern', 'lik', 'x_1', 'a b', 'w']


# ---------------------------------------------------------------- a model as data
class Spec(object):
    def __init__(self, c):
        self.c, self.zk, self.tag = c, 0, 0
        self.style = c.pick(['Z', 'Z', 'R'])
        # clashing names are resolved when they meet, which is later in a deferred construction:
        # what refers to names before is left out then
        self.clash = c.chance(.2)
        self.fresh = ['f%d' % i for i in range(30)]

    def new_name(self):
        return self.c.pick(NAMES) if self.clash else self.fresh.pop()

    def leaf(self, name):
        c = self.c
        self.zk += 1
        shape = c.pick([(1,), (2,), (3,), (2, 2), (1, 3), (2, 3)])
        con = c.pick(reft.ALL) if c.chance(.15) else None
        return dict(leaf=True, name=name, value=c.rng.normal(0, 1.5, shape), zk=self.zk, con=con)

    def node(self, depth, name, top=False):
        c = self.c
        self.tag += 1
        names = list(c.rng.permutation(NAMES))
        if self.clash and c.chance(.5):
            names[1] = names[0]
        kids = [self.node(depth - 1, names[i]) if depth > 1 and c.chance(.5) else self.leaf(names[i]) for i in range(c.int(1, 3))]
        d = dict(leaf=False, top=top, name=name, tag=self.tag, kids=kids, inside=c.pick([len(kids), len(kids), 0, c.int(0, len(kids))]),
                 deferred=top or c.chance(.5))
        d['ops'] = [self.op(d) for _ in range(c.int(0, 2))] if c.chance(.5) else []
        d['later'] = [self.op(d) for _ in range(c.int(0, 2))] if c.chance(.3) else []
        return d

    def paths(self, d, pre=()):
        yield pre, d
        for i, k in enumerate(() if d['leaf'] else d['kids']):
            for p in self.paths(k, pre + (i,)):
                yield p

    def op(self, d, extra=()):
        """an operation on some part of d, as data"""
        c = self.c
        ps = list(self.paths(d))
        path, x = c.pick(ps)
        if not x['leaf'] and c.chance(.5):
            path, x = c.pick([p for p in ps if p[1]['leaf']] or ps)
        kind = c.wpick([('constrain', 8), ('fix', 5), ('unfix', 2), ('unconstrain', 3), ('regex', 0 if self.clash else 3)] + list(extra))
        idx = None
        if x['leaf'] and c.chance(.4):
            idx = tuple(slice(*sorted(c.rng.integers(0, n + 1, 2).tolist())) if c.chance(.6) else slice(None) for n in x['value'].shape)
        seed = int(c.rng.integers(2 ** 31))
        return dict(kind=kind, path=path, idx=idx, spec=c.pick(reft.ALL), seed=seed, node=not x['leaf'])


def at(obj, path):
    for i in path:
        obj = obj.parameters[i]
    return obj


def apply(obj, op):
    """one operation; what it does depends on the data and on obj only"""
    o = at(obj, op['path'])
    if op['idx'] is not None:
        if o[op['idx']].size == 0:
            return
        o = o[op['idx']]
    k = op['kind']
    if k == 'regex':
        tops = sorted(set(p.name.replace(' ', '_') for p in obj.flattened_parameters))
        pat = '.*' + tops[op['seed'] % len(tops)]
        sel = obj[pat]
        [lambda: sel.constrain(reft.make(op['spec']), warning=False), lambda: sel.fix(warning=False), lambda: sel.unconstrain(),
         lambda: sel.unfix()][op['seed'] // 7 % 4]()
    elif k == 'constrain':
        o.constrain(reft.make(op['spec']), warning=False)
    elif k == 'fix':
        o.fix(warning=False)
    elif k == 'unfix':
        o.unfix()
    elif k == 'unconstrain':
        o.unconstrain()
    else:
        raise KeyError(k)


def build(d, style, deferred, sub=True):
    if d['leaf']:
        return zoo.leaf(d['name'], d['value'].copy(), d['zk'], reft.make(d['con']) if d['con'] else None)
    kids = [build(k, style, deferred, sub) for k in d['kids']]

    def inner(obj):
        for k in kids[:d['inside']]:
            obj.link_parameter(k)
        for op in d['ops']:
            if reachable(obj, op):
                apply(obj, op)
    cls = (zoo.ZModel if d['top'] else zoo.ZNode) if style == 'Z' else (zoo.RModel if d['top'] else zoo.PlainNode)
    kw = dict(initialize=False) if deferred and (d['top'] or (sub and d['deferred'])) else {}
    obj = cls(d['name'], d['tag'], inner, **kw)
    obj.is_deferred = bool(kw)
    for k in kids[d['inside']:]:
        obj.link_parameter(k)
    for op in d['later']:
        apply(obj, op)
    return obj


def reachable(obj, op):
    try:
        at(obj, op['path'])
    except IndexError:
        return False
    return op['kind'] != 'regex' or obj.size > 0


# ---------------------------------------------------------------- what is compared
def parts(m):
    out = []
    m.traverse(out.append)
    return out


def state(m, text=True):
    out = []
    for o in parts(m):
        d = dict(name=o.name, cls=type(o).__name__, size=o.size, values=np.array(o.param_array, float).ravel(),
                 con=M.shown_constraints(o), names=[str(x) for x in o.parameter_names_flat(include_fixed=True)],
                 free=[str(x) for x in o.parameter_names_flat()], update=o.update_model(), grad=np.array(o.gradient, float).ravel(),
                 opt=np.array(o.optimizer_array, float), fixed=bool(o.is_fixed), path=o.hierarchy_name(), slot=[k is o for k in o._parent_.parameters].index(True) if o.has_parent() else None)
        if not isinstance(o, Param):
            d['kids'] = [k.name for k in o.parameters]
            d['order'] = [str(x) for x in o.parameter_names(add_self=False, adjust_for_printing=True, recursive=True)]
            if text and o.update_model() and o.size:
                d['text'] = '\n'.join(' '.join(sorted(x.split())) for x in str(o).split('\n')) # constraints in any order
            if hasattr(o, 'stat'):
                d['stat'] = np.array([o.stat], float)
        out.append(d)
    if m.update_model():
        out.append(dict(objective=np.array([m.objective_function()], float)))
    return out


def compare(c, a, b, key, text=True, skip=()):
    x, y = state(a, text), state(b, text)
    check(len(x) == len(y), key + '-structure', lambda: (len(x), len(y)))
    for p, q in zip(x, y):
        for k in p:
            if k in skip:
                continue
            if isinstance(p[k], np.ndarray):
                ok = k in q and close(p[k], q[k], 1e-12, 1e-12) if k != 'values' else same(p[k], q[k])
            else:
                ok = p[k] == q.get(k)
            check(ok, '{}-{}'.format(key, k), lambda: '{}: {} instead of {}'.format(p.get('name'), q.get(k), p[k]))
    c.count('states_compared')
    c.seen(key, [np.round(p['values'], 5).tolist() for p in x[:1] if 'values' in p], x[0].get('con') and str(sorted(x[0]['con'].items(), key=str)))


def truth(c, m):
    """objective and gradients from scratch"""
    ls = [o for o in parts(m) if isinstance(o, Param)]
    if isinstance(m, zoo.RModel):
        e = zoo.own_stat([(l.zk, l.values) for l in ls])[0]
    elif isinstance(m, zoo.ZModel):
        e = sum(zoo.own_stat([(l.zk, l.values) for l in n.own()])[0] for n in parts(m) if not isinstance(n, Param))
    else:
        return
    check(close(m.objective_function(), e), 'objective-stale', lambda: (m.objective_function(), e))


def after(c, sp, d, a, b, key):
    """the same operations on both"""
    for _ in range(c.int(1, 5)):
        op = sp.op(d, [('opt', 5), ('set', 5), ('node', 3), ('random', 3), ('optimize', 2), ('updates', 1), ('flat', 3)])
        k = op['kind']
        c.step('both: {} {} {}'.format(k, op['path'], op['idx']))
        for m in (a, b):
            rng = np.random.default_rng(op['seed'])
            if not len(m.parameters):
                continue
            try:
                o = at(m, op['path'])
            except IndexError:
                continue
            if k == 'opt':
                n = m.optimizer_array.size
                m.optimizer_array = rng.uniform(.3, 2, n)
            elif k == 'set':
                o[...] = rng.uniform(.2, .8) if isinstance(o, Param) else None
                if not isinstance(o, Param):
                    o[:] = rng.uniform(.2, .8, o.size)
            elif k == 'flat':
                i = int(rng.integers(m.size)) if m.size else 0
                if m.size:
                    m[i] = rng.uniform(.2, .8)
            elif k == 'node':
                m[:] = rng.uniform(.2, .8, m.size)
            elif k == 'random':
                m.randomize(rng.uniform, .2, .8)
            elif k == 'optimize':
                if np.all(np.isfinite(m.optimizer_array)) and not any(s == ('Square',) for s in M.shown_constraints(m)):
                    m.optimize('lbfgsb', max_iters=4)
            elif k == 'updates':
                m.update_model(False)
                m[:] = rng.uniform(.2, .8, m.size)
                m.update_model(True)
            elif reachable(m, op):
                apply(m, op)
        c.count('later_operations')
        compare(c, a, b, key + '-afterwards', skip=('text',) if k == 'optimize' else ())
        truth(c, b)


# ---------------------------------------------------------------- the cases
def refuse(c, m, key):
    """assignments through a node, which is not initialised"""
    if not m.size:
        return
    before = [p.values.copy() for p in m.flattened_parameters]
    v = np.full(m.size, 9.25)

    def regex(x):
        m['.*'] = 9.25
    how = c.pick(['slice', 'int', 'regex', 'array', 'mask', 'name'])

    def do():
        if how == 'slice':
            m[:] = v
        elif how == 'int':
            m[0] = 9.25
        elif how == 'regex':
            m['.*'] = 9.25
        elif how == 'array':
            m[np.arange(m.size)] = v
        elif how == 'mask':
            m[np.ones(m.size, bool)] = v
        else:
            m['.*' + m.flattened_parameters[0].name.replace(' ', '_')] = 9.25
    r, e = raises(AttributeError, do)
    check(r, 'assignment-before-initialisation-not-refused', how)
    check(all(same(p.values, b) for p, b in zip(m.flattened_parameters, before)), 'refused-assignment-changes-values', how)
    c.count('refused')


def deferred(c):
    sp = Spec(c)
    d = sp.node(c.int(1, 3), c.pick(['m', 'model', 'a b']), True)
    sub = c.chance(.5)
    c.step('construction {}'.format(brief(d)))
    a = build(d, sp.style, False)
    b = build(d, sp.style, True, sub)
    c.count('deferred_models')
    late = [o for o in parts(b) if getattr(o, 'is_deferred', False)]
    if len(late) > 1:
        c.count('nested_deferred')
    early = lambda: [(o, o.__dict__.get('n_updates', 0)) for o in late]
    structure = named = False
    off = False
    quiet = None
    for _ in range(c.int(0, 5)):
        kind = c.pick(['op', 'op', 'op', 'set', 'refuse', 'link', 'unlink', 'rename', 'off', 'checkgrad', 'read'])
        if kind == 'op':
            op = sp.op(d)
            if structure or not reachable(b, op):
                continue
            c.step('before: {} {} {} {}'.format(op['kind'], op['path'], op['idx'], op['spec']))
            for m in (a, b):
                apply(m, op)
            c.count('constrained_before_initialisation')
        elif kind == 'set':
            ls = b.flattened_parameters
            if not ls:
                continue
            i = c.int(0, len(ls) - 1)
            v = c.rng.uniform(.2, .8, ls[i].shape)
            how = c.pick(['direct', 'slice', 'attribute'])
            c.step('before: value of {} ({})'.format(ls[i].name, how))
            for m in (a, b):
                p = m.flattened_parameters[i]
                if how == 'attribute' and not sp.clash:
                    setattr(p._parent_, p.name.replace(' ', '_'), v)
                elif how == 'slice':
                    p[:1] = v[:1]
                else:
                    p[...] = v
        elif kind == 'refuse':
            if not structure and not named:
                refuse(c, b, 'before')
        elif kind == 'link':
            l = sp.leaf(sp.new_name())
            nodes = [i for i, o in enumerate(parts(b)) if not isinstance(o, Param)]
            k = c.pick(nodes)
            idx = c.pick([None, 0, 1])
            c.step('before: link {} into {} at {}'.format(l['name'], k, idx))
            for m in (a, b):
                n = parts(m)[k]
                n.link_parameter(build(l, sp.style, False), idx if idx is None or idx <= len(n.parameters) else None)
            structure = True
        elif kind == 'unlink':
            nodes = [i for i, o in enumerate(parts(b)) if o.has_parent() and len(o._parent_.parameters) > 1]
            if not nodes or sp.clash:
                continue
            k = c.pick(nodes)
            c.step('before: unlink {}'.format(k))
            for m in (a, b):
                o = parts(m)[k]
                o._parent_.unlink_parameter(o)
            structure = True
        elif kind == 'rename':
            k = c.int(0, len(parts(b)) - 1)
            if sp.clash:
                continue
            n = sp.new_name()
            named = True
            c.step('before: rename {} to {}'.format(k, n))
            for m in (a, b):
                parts(m)[k].name = n
        elif kind == 'off':
            off = not off
            c.step('before: update_model({})'.format(not off))
            for m in (a, b):
                m.update_model(not off)
            quiet = early() if off else None
        elif kind == 'checkgrad' and not structure and not named:
            v = [p.values.copy() for p in b.flattened_parameters]
            check(b.checkgrad() is False, 'checkgrad-before-initialisation')
            check(all(same(p.values, x) for p, x in zip(b.flattened_parameters, v)), 'checkgrad-before-initialisation-changes-values')
            c.count('checkgrad_refused')
        elif kind == 'read':
            b.parameter_names_flat(), b.parameter_names(), str(b['.*']) if b.size else None
        for p, q in zip(parts(a), parts(b)):
            if isinstance(p, Param):
                check(same(p.values, q.values), 'values-before-initialisation-differ', lambda: '{}: {} instead of {}'.format(p.name, q.values.tolist(), p.values.tolist()))
            check(M.shown_constraints(p) == M.shown_constraints(q), 'constraints-before-initialisation-differ', lambda: p.name)
    below = c.chance(.25)
    if below:
        # from any part of it
        k = c.int(0, len(parts(b)) - 1)
        c.step('initialise from part {}'.format(k))
        parts(b)[k].initialize_parameter()
        c.count('initialised_from_below')
    else:
        c.step('initialise')
        b.initialize_parameter()
    if off:
        check(all(o.__dict__.get('n_updates', 0) == k for o, k in quiet), 'recomputed-while-updates-off')
        check(b.update_model() is False, 'initialisation-switches-updates-on')
        c.count('quiet_initialisations')
        if c.chance(.5):
            v = c.rng.uniform(.2, .8, b.size)
            for m in (a, b):
                m[:] = v
        for m in (a, b):
            m.update_model(True)
    else:
        a.trigger_update()
        if below:
            b.trigger_update()
    if below and b.size and c.chance(.8):
        # the whole of it is
        v = c.rng.uniform(.2, .8, b.size)
        for m in (a, b):
            m[:] = v
    compare(c, a, b, 'deferred')
    truth(c, b)
    if c.chance(.2):
        b.initialize_parameter()
        compare(c, a, b, 'initialised-twice')
    if not structure:
        after(c, sp, d, a, b, 'deferred')
        if c.chance(.2):
            c1 = b.copy()
            compare(c, b, c1, 'deferred-copied')


def loading(c):
    sp = Spec(c)
    d = sp.node(c.int(1, 3), c.pick(['m', 'model']), True)
    c.step('construction {}'.format(brief(d)))
    a = build(d, sp.style, False)
    for _ in range(c.int(1, 4)):
        how = c.pick(['opt', 'set', 'optimize', 'random', 'leaf'])
        if not a.size:
            break
        square = any(s == ('Square',) for s in M.shown_constraints(a))
        if how == 'opt':
            a.optimizer_array = c.rng.uniform(.3, 2, a.optimizer_array.size)
        elif how == 'set':
            a[:] = c.rng.normal(0, 2, a.size)
        elif how == 'leaf':
            a.flattened_parameters[0][...] = c.rng.normal()
        elif how == 'random':
            a.randomize(c.rng.uniform, .2, .8)
        elif np.all(np.isfinite(a.optimizer_array)) and not square:
            a.optimize(max_iters=5)
    a.trigger_update()
    f = io.BytesIO()
    np.save(f, a.param_array)
    f.seek(0)
    saved = np.load(f)
    b = build(d, sp.style, True, c.chance(.5))
    late = [o for o in parts(b) if getattr(o, 'is_deferred', False)]
    b.update_model(False)
    count = [o.__dict__.get('n_updates', 0) for o in late]
    if c.chance(.3):
        refuse(c, b, 'loading')
    b.initialize_parameter()
    how = c.pick(['slice', 'array', 'regex', 'two'])
    if how == 'slice' or not b.size:
        b[:] = saved
    elif how == 'array':
        b[np.arange(b.size)] = saved
    elif how == 'two':
        k = c.int(0, b.size)
        b[:k] = saved[:k]
        b[k:] = saved[k:]
    else:
        b['.*'] = saved if len(parts(b)) > 2 else saved.reshape(b.flattened_parameters[0].shape)
    check(all(o.__dict__.get('n_updates', 0) == k for o, k in zip(late, count)), 'recomputed-while-updates-off', how)
    b.update_model(True)
    check(all(o.n_updates == k + 1 for o, k in zip(late, count)), 'loading-computes-not-once',
          lambda: [o.__dict__.get('n_updates', 0) - k for o, k in zip(late, count)])
    c.step('loaded by {}'.format(how))
    compare(c, a, b, 'loaded')
    truth(c, b)
    c.count('loaded')
    after(c, sp, d, a, b, 'loaded')


def example(c):
    """the recipe of the documentation, with its model"""
    R = examples.ridge_regression
    n, dim, deg = c.int(4, 12), c.int(1, 3), c.int(1, 3)
    X, Y = c.rng.normal(size=(n, dim)), c.rng.normal(size=(n, 1))
    lam = c.rng.uniform(.1, 3)
    reg = c.pick(['Ridge', 'Lasso', None])

    def make(**kw):
        return R.RidgeRegression(X, Y, regularizer=getattr(R, reg)(lam) if reg else None, basis=R.Polynomial(deg) if reg else None, **kw)
    m = make()
    if c.chance(.5):
        m.randomize(c.rng.normal)
    else:
        m.optimize(max_iters=c.int(1, 30))
    f = io.BytesIO()
    np.save(f, m.param_array)
    f.seek(0)
    b = make(initialize=False)
    c.step('example {} degree {} dimensions {}'.format(reg, deg, dim))
    if c.chance(.7):
        b.update_model(False)
    if c.chance(.3):
        refuse(c, b, 'example')
    b.initialize_parameter()
    b[:] = np.load(f)
    b.update_model(True)
    compare(c, m, b, 'example')
    x = c.rng.normal(size=(3, dim))
    check(same(m.predict(x), b.predict(x)), 'example-predictions')
    for k in (m, b):
        k.weights.fix(warning=False) if c.case % 2 else k.optimize(max_iters=5)
    compare(c, m, b, 'example-afterwards', text=False)
    c.count('examples')


def brief(d):
    if d['leaf']:
        return '{}{}{}'.format(d['name'], d['value'].shape, d['con'] or '')
    ops = ['{} {} {} {}'.format(o['kind'], o['path'], o['idx'], o['spec']) for o in d['ops'] + d['later']]
    return '{}{}[{}]{}{}'.format(d['name'], '*' if d['deferred'] else '', ', '.join(brief(k) for k in d['kids']), d['inside'], ops or '')


def run_case(ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        k = ctx.case % 10
        if k < 6:
            deferred(ctx)
        elif k < 9:
            loading(ctx)
        else:
            example(ctx)
    ctx.samples = ctx.history[-6:]
