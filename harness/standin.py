"""A stand-in for the package climin (not installed here): steps of plain descent, which record how they were asked for."""
import sys, types
import numpy as np


class Base(object):
    made = []

    def start(self, wrt, fprime, **kw):
        self.wrt, self.fprime, self.kw = wrt, fprime, kw
        self.points = []
        Base.made.append(self)

    def __iter__(self):
        k = 0
        while k < 5000:
            g = np.array(self.fprime(self.wrt.copy()), float)
            self.points.append(self.wrt.copy())
            self.wrt -= .05 * g / (1. + np.abs(g).max())
            k += 1
            yield dict(n_iter=k, gradient=g, step=None)


class Adadelta(Base):
    def __init__(self, wrt, fprime, step_rate=1, decay=0.9, momentum=0, offset=1e-4, args=None):
        self.start(wrt, fprime, step_rate=step_rate, decay=decay, momentum=momentum, offset=offset)


class Rprop(Base):
    def __init__(self, wrt, fprime, step_shrink=0.5, step_grow=1.2, min_step=1e-6, max_step=1, changes_max=0.1, args=None):
        self.start(wrt, fprime, step_shrink=step_shrink, step_grow=step_grow, min_step=min_step, max_step=max_step, changes_max=changes_max)


class Adam(Base):
    def __init__(self, wrt, fprime, step_rate=.0002, decay=None, decay_mom1=0.1, decay_mom2=0.001, momentum=0, offset=1e-8, args=None):
        self.start(wrt, fprime, step_rate=step_rate, decay=decay, decay_mom1=decay_mom1, decay_mom2=decay_mom2, momentum=momentum, offset=offset)


class installed(object):
    """with installed(): the stand-in is what `import climin` finds"""
    def __enter__(self):
        self.before = sys.modules.get('climin')
        m = types.ModuleType('climin')
        for name, cls in (('adadelta', Adadelta), ('rprop', Rprop), ('adam', Adam)):
            sub = types.ModuleType('climin.' + name)
            setattr(sub, cls.__name__, cls)
            setattr(m, name, sub)
            setattr(m, cls.__name__, cls)
        sys.modules['climin'] = m
        Base.made = []
        return Base.made

    def __exit__(self, *a):
        if self.before is None:
            sys.modules.pop('climin', None)
        else:
            sys.modules['climin'] = self.before
