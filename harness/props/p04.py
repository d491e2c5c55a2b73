"""P04: domains of constrained parameters"""
import numpy as np
import monitors as M, reft
from vcommon import check, same
from world import World
LEVEL = 'exploration'
CASES = dict(quick=1200, thorough=6000)
EVAL = 'domain_checks'
MINIMUM = dict(domain_checks=20000, constrains=1000, extreme_values=500, optimizer_sets=500, far_values=180)
DISTINCT = 300
RULE = 'distinct (constraint, rounded value) seen on a constrained element, and (constraint, sign, magnitude) of extreme optimizer values'
ASSUMPTIONS = ['a value exactly at a bound, up to rounding, counts as inside']


class W(World):
    def op_far(self):
        """values far away, then constrained at once"""
        c = self.ctx
        r = c.pick(self.roots)
        ls = [l for l in r.leaves() if l.v.size and not any(t is not None for t in l.t)]
        if not ls:
            return 'skip'
        l = c.pick(ls)
        v = self.rng.normal(size=l.shape)
        far = self.rng.random(l.shape) < .5
        v[far] *= 10. ** self.rng.integers(2, 9, size=l.shape)[far]
        c.step('{!r} = {}'.format(l, v.ravel().tolist()))
        l.obj[...] = v
        l.v[:] = v.ravel()
        spec = c.pick(reft.ALL)
        c.step('{!r}.constrain({})'.format(l, spec))
        l.obj.constrain(reft.make(spec), warning=False)
        got = np.array(l.obj.values, float).ravel()
        ok = reft.strictly(spec, l.v)
        check(bool(np.all(reft.inside(spec, got))), 'constrained-value-outside-domain', lambda: (spec, l.v.tolist(), got.tolist()))
        check(same(got[ok], l.v[ok]), 'value-inside-domain-not-kept', lambda: (spec, l.v.tolist(), got.tolist()))
        l.v[:] = got
        for k in range(l.v.size):
            l.t[k] = spec
            l.fx[k] = False
        c.count('far_values', int(far.sum()))
        M.domains(self)
        # back to usual values
        l.obj.unconstrain()
        l.t[:] = [None] * l.v.size
        v = self.rng.normal(size=l.shape)
        l.obj[...] = v
        l.v[:] = v.ravel()


def run_case(ctx):
    w = W(ctx)
    w.run(ctx.int(15, 40), dict(set=8, inplace=2, optset=12, randomize=4, constrain=24, fix=6, unfix=6, extreme=10,
                                unconstrain=8, far=4, optimize=2, restarts=1, updates=1), [M.domains])
    ctx.samples = ctx.history[:12]
