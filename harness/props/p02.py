"""P02: structure operations against a reference tree"""
import numpy as np
from paramz import Model, Param, Parameterized
import monitors as M, reft
from vcommon import check, same, raises
from world import World
LEVEL = 'exploration'
CASES = dict(quick=1560, thorough=10000)
EVAL = 'nodes_compared'
MINIMUM = dict(nodes_compared=5000, op_link=300, op_move=150, op_unlink=150, illegal_refused=100, names_refused=100, building_steps=800)
DISTINCT = 300
RULE = 'distinct forests (shapes of all trees of a history) compared node by node, and kinds of refused requests'
ASSUMPTIONS = ['trees of depth at most 4 at construction (deeper by linking), leaves of at most 8 elements']


def refused(w, op=None):
    """after a refused request everything is as before"""
    if op in ('illegal', 'badname'):
        M.values(w)
        M.constraints(w)
        M.names(w)
        w.ctx.count('states_after_refusal')


refused.always = True


class Built(Parameterized):
    """runs a script of structure operations while it is constructed, when nothing is connected yet"""
    def __init__(self, script, name, **kw):
        super(Built, self).__init__(name)
        script(self)


class BuiltModel(Model):
    def __init__(self, script, name, **kw):
        super(BuiltModel, self).__init__(name)
        script(self)


class Leaf(object):
    def __init__(self, c, k):
        shape = c.pick([(1,), (2,), (3,), (2, 2), (1, 3)])
        self.v = c.rng.uniform(.5, 3., int(np.prod(shape)))
        self.t, self.fx = [None] * self.v.size, [False] * self.v.size
        # namesakes are allowed, as long as nothing is connected
        self.obj = Param(c.pick(['p%d' % k, 'p', 'q']), self.v.reshape(shape).copy())
        self.size = self.v.size

    def leaves(self):
        return [self]


class Node(object):
    def __init__(self):
        self.kids, self.obj = [], None

    def leaves(self):
        return [l for k in self.kids for l in k.leaves()]

    @property
    def size(self):
        return sum(k.size for k in self.kids)


POSITIVE = [('Logexp',), ('Exponent',), ('Logistic', 0., 5.), ('Logistic', .25, 4.)]


def building_case(c):
    """hierarchies built by scripts, before and after they are initialised"""
    count = [0]

    def judge(n, key):
        o = n.obj
        ks = o.parameters
        check(len(ks) == len(n.kids) and all(a is b.obj for a, b in zip(ks, n.kids)), 'children', lambda: '{}: {} instead of {}'.format(key, [k.name for k in ks], [k.obj.name for k in n.kids]))
        check(o.size == n.size, 'size', lambda: '{}: {} instead of {}'.format(key, o.size, n.size))
        ls = n.leaves()
        check(len(o.flattened_parameters) == len(ls) and all(a is b.obj for a, b in zip(o.flattened_parameters, ls)), 'flattened', lambda: key)
        for x in [n] + ls:
            names = {}
            i = 0
            for l in x.leaves():
                for t, f in zip(l.t, l.fx):
                    if t is not None:
                        names.setdefault(t, []).append(i)
                    if f:
                        names.setdefault('fixed', []).append(i)
                    i += 1
            got = dict((str(reft.spec_of(k)) if k != 'fixed' else k, np.asarray(v).tolist()) for k, v in x.obj.constraints.items())
            names = dict((str(k), v) for k, v in names.items())
            check(got == names, 'constraints', lambda: '{} at {}: {} instead of {}'.format(key, x.obj.name, got, names))
        for l in ls:
            check(same(l.obj.values.ravel(), l.v), 'values-of-the-leaf', lambda: '{} {}: {} instead of {}'.format(key, l.obj.name, l.obj.values, l.v))
        c.count('nodes_compared')

    def whole(n, key):
        """additionally, as soon as everything is connected"""
        judge(n, key)
        v = np.concatenate([l.v for l in n.leaves()]) if n.kids else np.empty(0)
        check(same(np.ravel(n.obj.param_array), v), 'values', lambda: '{}: {} instead of {}'.format(key, n.obj.param_array, v))
        for k in n.kids:
            check(k.obj.has_parent() and getattr(n.obj, k.obj.name) is k.obj, 'attribute', lambda: key)
            if isinstance(k, Node):
                whole(k, key)

    def script(n, depth, steps, connected=False):
        def do(obj):
            n.obj = obj
            pool = []
            for _ in range(steps):
                k = len(n.kids)
                op = c.pick(['link', 'link', 'link', 'insert', 'insert', 'move', 'unlink', 'relink', 'node', 'constrain', 'fix', 'unfix', 'unconstrain', 'set', 'stranger'])
                if op in ('link', 'insert', 'node', 'relink'):
                    if op == 'relink':
                        if not pool:
                            continue
                        x = pool.pop(c.int(0, len(pool) - 1))
                    elif op == 'node':
                        if depth > 1:
                            continue
                        x = Node()
                        count[0] += 1
                        Built(script(x, depth + 1, c.int(1, 6)), 'n%d' % count[0])
                        if not x.kids:
                            continue
                    else:
                        count[0] += 1
                        x = Leaf(c, count[0])
                    if op == 'link' or op != 'insert' and c.chance(.4):
                        c.step('link {}'.format(x.obj.name))
                        obj.link_parameter(x.obj)
                        n.kids.append(x)
                    else:
                        i = c.int(-k - 2, k + 2)
                        c.step('link {} at {}'.format(x.obj.name, i))
                        obj.link_parameter(x.obj, i)
                        n.kids.insert(i, x)
                elif op == 'move' and k:
                    x, i = c.pick(n.kids), c.int(-k - 2, k + 2)
                    c.step('move {} to {}'.format(x.obj.name, i))
                    obj.link_parameter(x.obj, i)
                    n.kids.remove(x)
                    n.kids.insert(i, x)
                elif op == 'unlink' and k > 1:
                    x = c.pick(n.kids)
                    c.step('unlink {}'.format(x.obj.name))
                    obj.unlink_parameter(x.obj)
                    check(not x.obj.has_parent(), 'unlinked-with-parent')
                    n.kids.remove(x)
                    pool.append(x)
                elif op == 'stranger' and pool:
                    from paramz.core import HierarchyError
                    x = c.pick(pool)
                    ok, e = raises(HierarchyError, obj.unlink_parameter, x.obj)
                    check(ok, 'unlinked-twice')
                    c.count('illegal_refused')
                elif op in ('constrain', 'fix', 'unfix', 'unconstrain', 'set') and k:
                    x = c.pick(n.kids + n.leaves() + ([n] if connected or c.chance(.3) else []))
                    c.step('{} {}'.format(op, x.obj.name))
                    if op == 'constrain':
                        spec = c.pick(POSITIVE)
                        x.obj.constrain(reft.make(spec), warning=False)
                        for l in x.leaves():
                            l.t = [spec] * l.size
                            l.fx = [False] * l.size
                    elif op == 'fix':
                        x.obj.fix(warning=False)
                        for l in x.leaves():
                            l.fx = [True] * l.size
                    elif op == 'unfix':
                        x.obj.unfix()
                        for l in x.leaves():
                            l.fx = [False] * l.size
                    elif op == 'unconstrain':
                        x.obj.unconstrain()
                        for l in x.leaves():
                            l.t, l.fx = [None] * l.size, [False] * l.size
                    elif isinstance(x, Leaf):
                        x.v = c.rng.uniform(.5, 3., x.size)
                        x.obj[...] = x.v.reshape(x.obj.shape)
                if connected:
                    whole(n, op)
                else:
                    judge(n, op)
                c.count('building_steps')
        return do
    n = Node()
    late = c.chance(.3)
    obj = (BuiltModel if c.chance(.4) else Built)(script(n, 0, c.int(3, 14)), 'root', **(dict(initialize=False) if late else {}))
    c.step('constructed')
    if late:
        judge(n, 'not initialised')
        obj.initialize_parameter()
    if n.kids:
        whole(n, 'constructed')
        script(n, 0, c.int(1, 6), True)(obj)
    c.seen('built', [l.obj.shape for l in n.leaves()])


def run_case(ctx):
    if ctx.chance(.25):
        return building_case(ctx)
    w = World(ctx)
    w.run(ctx.int(20, 40), dict(set=12, inplace=2, optset=4, link=22, move=12, unlink=16, illegal=10, badname=4, rename=3,
                                copy=2, pickle=2, constrain=6, fix=4, unfix=2, unconstrain=2, updates=1),
          [M.structure, refused])
    ctx.samples = ctx.history[:12]
