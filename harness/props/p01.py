"""P01: one shared storage"""
import numpy as np
import monitors as M
from vcommon import check, same
from world import World, RLeaf
LEVEL = 'exploration'
CASES = dict(quick=2400, thorough=10000)
EVAL = 'handles_compared'
MINIMUM = dict(handles_compared=10000, probes=2000, op_set=1000, links=300, unlinks=200, copies=50, pickles=50, gradients_kept=300, gradients_set=180)
DISTINCT = 1000
RULE = 'distinct vectors of values of all hierarchies of a history, as compared through every handle'
ASSUMPTIONS = ['slices held by the user across structure changes are not looked at']


class W(World):
    def about_to_change(self, *refs):
        """marks every element of the gradients involved"""
        if self.ctx.chance(.5):
            return None
        out, done = [], []
        for r in refs:
            if r is None or any(r.root is d for d in done):
                continue
            done.append(r.root)
            for l in r.root.leaves():
                g = 1e3 + self.rng.random(l.shape)
                l.obj.gradient[...] = g
                out.append((l, g))
        return out

    def op_gradset(self):
        """gradients assigned through any handle"""
        c = self.ctx
        r = c.pick(self.roots)
        hs = [x for x in r.pre() if x.size]
        if not hs or isinstance(r, RLeaf):
            return 'skip'
        h = c.pick(hs)
        full = np.array(r.obj.gradient, float)
        how = c.pick(['array', 'scalar', 'inplace', 'item', 'row'])
        g = 1e4 + self.rng.random(h.shape if isinstance(h, RLeaf) else (h.size,))
        o = M.offset(h)
        c.step('{!r}.gradient set ({})'.format(h, how))
        if how == 'array':
            h.obj.gradient = g
        elif how == 'scalar':
            g[...] = 7.5
            h.obj.gradient = 7.5
        elif how == 'row':
            # numbers of another shape are broadcast, lists taken as arrays
            row = g[..., :] if g.ndim < 2 else g[(0,) * (g.ndim - 1)]
            g = np.broadcast_to(row, g.shape).copy()
            h.obj.gradient = row.tolist() if c.chance(.5) else row
            c.count('gradients_broadcast', int(g.ndim > 1))
        elif how == 'inplace':
            h.obj.gradient += g
            g = full[o:o + h.size].reshape(g.shape) + g
        else:
            k = c.int(0, h.size - 1)
            new = full[o:o + h.size].reshape(g.shape).copy()
            new.flat[k] = -5.
            h.obj.gradient[np.unravel_index(k, g.shape)] = -5.
            g = new
        exp = full.copy()
        exp[o:o + h.size] = g.ravel()
        for x in r.pre():
            got = np.asarray(x.obj.gradient)
            q = M.offset(x)
            check(same(got.ravel(), exp[q:q + x.size]), 'gradient-not-shared', lambda: 'set by {!r}, {!r} shows {} instead of {}'.format(
                h, x, got.ravel().tolist(), exp[q:q + x.size].tolist()))
            check(same(np.ravel(x.obj.gradient_full), exp[q:q + x.size]), 'gradient-not-shared', lambda: (h, x))
        c.count('gradients_set')
        r.obj.trigger_update()

    def just_changed(self, before):
        for l, g in before or ():
            check(same(np.asarray(l.obj.gradient), g), 'gradient-lost',
                  lambda: '{!r}: {} instead of {}'.format(l, np.asarray(l.obj.gradient).tolist(), g.tolist()))
            self.ctx.count('gradients_kept')


def run_case(ctx):
    w = W(ctx)
    M.values(w)
    M.gradients(w)
    w.run(ctx.int(15, 40), dict(updates=1, link=12, unlink=9, move=5, set=22, gradset=3), [M.values, M.gradients, M.probe])
    ctx.samples = ctx.history[:12]
