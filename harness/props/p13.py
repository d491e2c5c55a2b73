"""P13: copies"""
import copy as cp
import numpy as np
import monitors as M, twin
from vcommon import check, same
from world import World, RLeaf, RNode
LEVEL = 'exploration'
CASES = dict(quick=780, thorough=5000)
EVAL = 'twin_elements_compared'
MINIMUM = dict(twin_elements_compared=900, twin_objectives=100, copies=500, states_compared=1500, sides_watched=3000)
DISTINCT = 200
RULE = 'distinct (structure, constraints, update switch) copied'
ASSUMPTIONS = ['copies by the method copy() of models, nodes and parameters']


class W(World):
    def op_copy(self):
        hs = [x for r in self.roots for x in r.pre() if x.size]
        before = [twin.state(self, r, False) for r in self.roots]
        r = super(W, self).op_copy()
        for a, q in zip(before, list(self.last)):
            d = twin.equal(a, twin.state(self, q, False))
            check(d is None, 'copy-changes-original', lambda: d)
            self.ctx.count('states_compared')
        return r

    def any_handle(self, *a, **k):
        self.last = list(self.roots)
        return super(W, self).any_handle(*a, **k)

    def copied(self, h, n):
        twin.copied(self, h, n, 'copy')
        self.pairs.append((h, n))


def both(w, op=None):
    """nothing done to one side is visible in the other: every side is compared with its own shadow"""
    M.values(w)
    M.constraints(w)
    if op not in ('set', 'inplace'):
        M.structure(w)
        M.names(w)
    M.fresh(w)
    for h, n in w.pairs[-3:]:
        w.ctx.count('sides_watched')


def run_case(ctx):
    w = W(ctx)
    w.pairs = []
    w.run(ctx.int(12, 30), dict(copy=20, pickle=0, updates=1, link=8, unlink=6, restarts=1), [both])
    ctx.samples = ctx.history[:12]
