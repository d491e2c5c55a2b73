"""
Models for the workloads.  Every leaf carries a key `zk`, which (with the element
index) gives the coefficients of its objective, so that the objective follows the
parameter wherever it is moved.  All functions are smooth and bounded in slope.
"""
import numpy as np
from paramz import Model, Parameterized, Param, ObsAr

EVENTS = []        # update events (tag of node, snapshot of its values)
RECORD = [False]
FAULT = [None]     # callable(node), may raise
FAULT_O = [None]   # the same for the objective function of a model
FAULT_G = [None]   # and for its gradients
OPTIMIZE = [None]  # callable(model, original optimize, arguments), around every optimization
VALUE = [None]     # callable(model, objective) -> objective


def coefs(zk, n):
    i = np.arange(n)
    a = 0.6 + 0.35 * np.cos(1.3 * zk + 0.7 * i)
    c = 1.1 * np.sin(2.1 * zk + 1.9 * i)
    w = 0.5 + 0.4 * np.sin(0.9 * zk + 2.3 * i)
    return a, c, w


def leaf_obj(zk, v):
    v = np.asarray(v, float).ravel()
    a, c, w = coefs(zk, v.size)
    return float(np.sum(a * (np.hypot(1., v - c) - 1.)))


def leaf_grad(zk, v):
    v = np.asarray(v, float).ravel()
    a, c, w = coefs(zk, v.size)
    return a * (v - c) / np.hypot(1., v - c)


def coupling(parts):
    """parts: [(zk, values)] -> objective and gradients of the coupling"""
    s = sum(float(np.sum(coefs(zk, np.size(v))[2] * np.ravel(v))) for zk, v in parts)
    h = np.hypot(1., s)
    return 0.3 * (h - 1.), [0.3 * s / h * coefs(zk, np.size(v))[2] for zk, v in parts]


def own_stat(parts):
    """objective of a node's own leaves and their gradients"""
    o, g = coupling(parts)
    for zk, v in parts:
        o += leaf_obj(zk, v)
    return o, [gi + leaf_grad(zk, v) for gi, (zk, v) in zip(g, parts)]


def leaf(name, value, zk, constraint=None):
    p = Param(name, np.array(value, float), constraint)
    p.zk = zk
    belongings(p, zk)
    return p


class Sealed(object):
    """an object, which describes its state by new arrays, lists and dicts (as random number generators do)"""
    def __init__(self, k):
        self.k = [float(k)] * (k % 4 + 1)

    def __getstate__(self):
        return dict((i, [np.array(x)]) for i, x in enumerate(self.k))

    def __setstate__(self, s):
        self.k = [float(s[i][0]) for i in range(len(s))]

    def __eq__(self, other):
        return type(other) is Sealed and self.k == other.k


def belongings(o, k):
    """attributes as a user sets them on models"""
    o.u_none = None
    o.u_text = 'text {}'.format(k)
    o.u_array = np.arange(3.) + k
    o.u_dict = {'k': [k, None], (1, 2): {k}, 'f': np.float64(k)}
    o.u_flag = bool(k % 2)
    o.u_state = Sealed(k)
    o.u_obs = ObsAr(np.arange(2.) - k)
    o.u_same = [o.u_obs]
    o._u_cache = {'k': [k]}   # names which resemble those of the library
    o._u_array_ = (k, 'private')


class _Z(object):
    def own(self):
        return [p for p in self.parameters if isinstance(p, Param)]

    def parameters_changed(self):
        if RECORD[0]:
            EVENTS.append((getattr(self, 'tag', None), self.param_array.copy() if self.size else np.empty(0)))
        if FAULT[0] is not None:
            FAULT[0](self)
        self.n_updates = self.__dict__.get('n_updates', 0) + 1
        own = self.own()
        o, gs = own_stat([(p.zk, p.values) for p in own])
        for p, g in zip(own, gs):
            p.gradient[...] = g.reshape(p.shape) * self.__dict__.get('zscale', 1.) + getattr(p, 'zbad', 0.)
        self.stat = o * self.__dict__.get('zscale', 1.)


class ZNode(_Z, Parameterized):
    def __init__(self, name='node', tag=None, build=None, parameters=None):
        self.__dict__['u_first'] = Sealed(tag or 0)
        super(ZNode, self).__init__(name, *(() if parameters is None else (parameters,)))
        self.tag = tag
        belongings(self, tag or 0)
        self.stat = 0.
        if build is not None:
            build(self)


class _Hooked(object):
    def optimize(self, *a, **k):
        if OPTIMIZE[0] is not None:
            return OPTIMIZE[0](self, super(_Hooked, self).optimize, a, k)
        return super(_Hooked, self).optimize(*a, **k)

    def objective_function(self):
        if FAULT_O[0] is not None:
            FAULT_O[0](self)
        if VALUE[0] is not None:
            return VALUE[0](self, self.obj)
        return self.obj

    def objective_function_gradients(self):
        if FAULT_G[0] is not None:
            FAULT_G[0](self)
        return self.gradient


class ZModel(_Hooked, _Z, Model):
    def __init__(self, name='model', tag=None, build=None):
        self.__dict__["u_first"] = Sealed(tag or 0)
        super(ZModel, self).__init__(name=name)
        self.tag = tag
        belongings(self, tag or 0)
        self.stat = 0.
        if build is not None:
            build(self)

    def parameters_changed(self):
        super(ZModel, self).parameters_changed()
        tot = self.stat
        todo = [p for p in self.parameters if not isinstance(p, Param)]
        while todo:
            n = todo.pop()
            tot += n.stat
            todo.extend(p for p in n.parameters if not isinstance(p, Param))
        self.obj = tot


class RModel(_Hooked, Model):
    """everything is computed at the root, which writes the whole gradient"""
    def __init__(self, name='model', tag=None, build=None):
        super(RModel, self).__init__(name=name)
        self.tag = tag
        belongings(self, tag or 0)
        if build is not None:
            build(self)

    def leaves(self):
        out = []
        self.traverse(lambda p: out.append(p) if isinstance(p, Param) else None)
        return out

    def parameters_changed(self):
        if RECORD[0]:
            EVENTS.append((getattr(self, 'tag', None), self.param_array.copy() if self.size else np.empty(0)))
        if FAULT[0] is not None:
            FAULT[0](self)
        self.n_updates = self.__dict__.get('n_updates', 0) + 1
        ls = self.leaves()
        self.obj, gs = own_stat([(p.zk, p.values) for p in ls])
        if ls:
            self.gradient[:] = np.concatenate([g + np.ravel(getattr(p, 'zbad', 0.)) for p, g in zip(ls, gs)])


class PlainNode(Parameterized):
    """a node without any function, for root-computed models"""
    def __init__(self, name='node', tag=None, build=None, parameters=None):
        super(PlainNode, self).__init__(name=name, **({} if parameters is None else dict(parameters=parameters)))
        self.tag = tag
        belongings(self, tag or 0)
        if build is not None:
            build(self)

    def parameters_changed(self):
        if RECORD[0]:
            EVENTS.append((getattr(self, 'tag', None), self.param_array.copy() if self.size else np.empty(0)))
        if FAULT[0] is not None:
            FAULT[0](self)
        self.n_updates = self.__dict__.get('n_updates', 0) + 1
