"""P09: verdict of the gradient check and its traces"""
import re
import numpy as np
from paramz.core import HierarchyError
import monitors as M, reft, twin
from vcommon import check, same, close, quiet, raises
from world import World, RLeaf, RNode, Sel, adj
LEVEL = 'exploration'
CASES = dict(quick=2100, thorough=8000)
EVAL = 'verdicts_checked'
MINIMUM = dict(verdicts_checked=2000, right_gradients=720, wrong_gradients=700, wrong_outside_selection=150, wrong_but_fixed=50,
               names_checked=500, nothing_free=20, summarised=1000, per_element=1000, states_compared=2000, tolerances=50, rows_marked=1500, scaled_verdicts=120, without_influence=300)
DISTINCT = 1000
RULE = 'distinct (selection kind, mode, verdict expected, number of selected free elements, what is wrong where) judged'
ASSUMPTIONS = ['a wrong component is off by at least a fifth of the sum of the selected absolute components',
               'free values at moderate optimizer values']


def transformed(r):
    """true gradient in the optimizer space and slopes, per (leaf, element)"""
    g = M.gradient(r)
    out, o = {}, 0
    for l in r.leaves():
        for i in range(l.v.size):
            s = l.t[i]
            d = 1. if s is None else float(reft.dfdx(s, l.v[i]))
            out[(id(l), i)] = (g[o] * d, d)
            o += 1
    return out


def lowest_slope(g):
    """the least slope along any direction of which each component is a step up or down"""
    g = np.abs(np.array(g, float))
    if g.size > 12:
        return 2 * g.max() - g.sum()
    s = np.array([0.])
    for x in g:
        s = np.concatenate([s + x, s - x])
    return np.abs(s).min()


def trial(w, r):
    c = w.ctx
    kind = c.pick(['root', 'node', 'leaf', 'slice', 'adv', 'regex', 'regex'])
    if kind in ('root', 'node', 'leaf'):
        h = r if kind == 'root' else w.any_handle(r, leaf=(kind == 'leaf'), node=(kind == 'node'))
        if h is None:
            return
        sel = Sel(kind, h.obj, [(l, np.arange(l.v.size)) for l in h.leaves()], repr(h))
    elif kind in ('slice', 'adv'):
        sel = w.leaf_sel(r, (kind,))
    else:
        sel = w.regex_sel(r)
    if sel is None:
        return
    chosen = [(l, int(i)) for l, ii in sel.els for i in ii]
    free = [(l, i) for l, i in chosen if not l.fx[i]]
    outside = [(l, i) for l in r.leaves() for i in range(l.v.size)
               if not l.fx[i] and not any(l is a and i == b for a, b in chosen)]
    fixed = [(l, i) for l in r.leaves() for i in range(l.v.size) if l.fx[i]]
    t = transformed(r)
    tot = sum(abs(t[(id(l), i)][0]) for l, i in free)
    bad, expect, where = None, True, 'nowhere'
    k = c.int(0, 6)
    if k <= 1 and free:
        l, i = c.pick(free)
        g, d = t[(id(l), i)]
        if abs(d) > 1e-3:
            e = (.2 * tot + .2) * c.pick([1., 3., 30.]) * c.pick([1, -1])
            bad, expect, where = (l, i, e / d), False, 'inside'
    elif k == 2 and free and tot > .1:
        # no gradient at all (set for everything selected)
        bad, expect, where = 'zero', False, 'zero'
        if max(abs(t[(id(l), i)][0]) for l, i in free) < .02 or abs(sum(t[(id(l), i)][0] for l, i in free)) < .02:
            bad, expect, where = None, True, 'nowhere'
    elif k == 3 and outside:
        l, i = c.pick(outside)
        bad, where = (l, i, c.pick([1., -50.])), 'outside'
    elif k == 4 and fixed:
        l, i = c.pick(fixed)
        bad, where = (l, i, c.pick([5., -50.])), 'fixed'
    elif k == 5 and free and tot > .1 and max(abs(t[(id(l), i)][0]) for l, i in free) > .02:
        # everything selected has the wrong sign
        bad, expect, where = 'sign', False, 'sign'
    verbose = c.chance(.5)
    if where in ('zero', 'sign') and not verbose:
        # the summary judges along a random direction: the true slope along it may vanish for several elements
        if lowest_slope([t[(id(l), i)][0] for l, i in free]) < .02:
            bad, expect, where = None, True, 'nowhere'
    model = r.obj

    def plant(on):
        for l in r.leaves():
            z = np.zeros(l.shape)
            l.obj.zbad = z
        if on and bad is not None and bad not in ('zero', 'sign'):
            bad[0].obj.zbad.flat[bad[1]] = bad[2]
        if on and bad in ('zero', 'sign'):
            for l, i in free:
                l.obj.zbad.flat[i] = -(1 if bad == 'zero' else 2) * t[(id(l), i)][0] / t[(id(l), i)][1] if t[(id(l), i)][1] else 0.
        model.trigger_update()
    # a zero gradient is planted as minus the gradient at this point: it is one at all points nearby
    plant(True)
    before = twin.state(w, r, False)
    grad = np.array(model.gradient, float).copy()
    obj = float(model.objective_function())
    kw = {}
    if c.chance(.2):
        kw = dict(step=1e-5)
    c.step('{}.checkgrad(verbose={}) with {} wrong {}'.format(sel.text, verbose, where, kw))
    with quiet() as out:
        res = sel.real.checkgrad(verbose=verbose, **kw)
    text = out.getvalue()
    msg = lambda: '{}: verdict {} (verbose {}), wrong: {} {}; free selected {}; {}'.format(
        sel.text, res, verbose, where, bad, len(free), text[-800:])
    check(bool(res) == expect, 'correct-gradient-rejected' if expect else 'wrong-gradient-accepted', msg)
    after = twin.state(w, r, False)
    d = twin.equal(before, after, skip=('values', 'values_nd', 'gradient'))
    check(d is None, 'leaves-a-trace', lambda: (sel.text, d))
    vals = r.vals()
    got = np.array(model.param_array, float)
    check(close(got, vals, 1e-9, 1e-10), 'changes-values', lambda: (sel.text, got, vals))
    check(same(got[r.fixed()], vals[r.fixed()]), 'fixed-element-changed', lambda: (sel.text, got, vals))
    check(close(np.array(model.gradient, float), grad, 1e-6, 1e-7), 'changes-gradient', lambda: (sel.text, np.array(model.gradient), grad))
    check(close(float(model.objective_function()), obj, 1e-8, 1e-9), 'changes-objective', lambda: (sel.text, model.objective_function(), obj))
    for l in r.leaves():
        l.v[:] = np.array(l.obj.values, float).ravel()
    c.count('states_compared')
    if verbose and free:
        full = {}
        names = list(r.obj.parameter_names_flat(include_fixed=True))
        o = 0
        for l in r.leaves():
            for i in range(l.v.size):
                full[(id(l), i)] = names[o]
                o += 1
        exp = sorted(full[(id(l), i)] for l, i in free)
        rows = [re.sub('\x1b\\[[0-9;]*m', '', x) for x in text.split('\n') if '\x1b[' in x and '|' in x]
        shown = sorted(x.split('|')[0].strip() for x in rows)
        check(shown == exp, 'other-elements-checked', lambda: '{}: {} instead of {}'.format(sel.text, shown, exp))
        # reported numbers
        order = [x.split('|')[0].strip() for x in rows]
        ana = dict((nm, float(x.split('|')[3])) for nm, x in zip(order, rows))
        num = dict((nm, float(x.split('|')[4])) for nm, x in zip(order, rows))
        for l, i in free:
            nm = full[(id(l), i)]
            g = t[(id(l), i)][0]
            check(abs(num[nm] - g) <= 1e-4 + 1e-4 * abs(g), 'numerical-gradient-wrong', lambda: (sel.text, nm, num[nm], g))
            if where in ('nowhere', 'outside', 'fixed'):
                check(abs(ana[nm] - g) <= 1e-5 + 1e-5 * abs(g), 'analytical-gradient-wrong', lambda: (sel.text, nm, ana[nm], g))
        marks(c, text, full[(id(bad[0]), bad[1])] if where == 'inside' else None if where not in ('zero', 'sign') else False, sel.text)
        c.count('names_checked')
    if not free:
        check(bool(res), 'nothing-to-check-rejected', msg)
        c.count('nothing_free')
    plant(False)
    c.count('verdicts_checked')
    c.count('per_element' if verbose else 'summarised')
    c.count({'nowhere': 'right_gradients', 'inside': 'wrong_gradients', 'zero': 'wrong_gradients', 'sign': 'wrong_gradients', 'outside': 'wrong_outside_selection',
             'fixed': 'wrong_but_fixed'}[where])
    c.seen(kind, verbose, expect, len(free), where, len(outside), len(fixed))


def marks(c, text, wrong, what):
    """every row shows ratio and difference of its two gradients, and is marked as right or wrong"""
    for x in text.split('\n'):
        if '\x1b[' not in x or '|' not in x:
            continue
        cell = [y.strip() for y in re.sub('\x1b\\[[0-9;]*m', '', x).split('|')]
        name, ratio, diff, ana, num, df = cell[0], float(cell[1]), float(cell[2]), float(cell[3]), float(cell[4]), float(cell[5])
        check(abs(diff - abs(ana - num)) <= 2.1e-6 + 1e-9 * abs(ana), 'difference-of-gradients', lambda: (what, x))
        if abs(ana) > .05:
            check(abs(ratio - num / ana) <= 1e-4 * (1 + abs(ratio)), 'ratio-of-gradients', lambda: (what, x))
        if df < 2e-12 or wrong is False:
            continue
        good = '\x1b[92m' in x
        check(good == (name != wrong) and ('\x1b[91m' in x) == (name == wrong), 'row-marked-wrongly', lambda: (what, wrong, x))
        c.count('rows_marked')


def scaled(w, r):
    """large gradients: relative errors decide, and slopes much larger than the tolerance are no excuse"""
    c = w.ctx
    if not isinstance(r.obj, M.zoo.ZModel) or any(not isinstance(n.obj, (M.zoo.ZNode, M.zoo.ZModel)) for n in r.nodes()):
        return
    t = transformed(r)
    if any(abs(g) < .02 for (g, d) in t.values()):
        # only selections of elements with a slope worth the name
        cand = [l for l in r.leaves() if not l.fx.all() and all(abs(t[(id(l), i)][0]) >= .02 for i in range(l.v.size) if not l.fx[i])]
    else:
        cand = [n for n in r.pre() if n.size and not n.fixed().all()]
    if not cand:
        return
    S = float(c.pick([1e3, 1e5, 1e8]))
    for n in r.nodes():
        n.obj.zscale = S
    for l in r.leaves():
        l.obj.zbad = np.zeros(l.shape)
    h = c.pick(cand)
    free = [(l, i) for l in h.leaves() for i in range(l.v.size) if not l.fx[i]]
    tot = sum(abs(t[(id(l), i)][0]) for l, i in free)
    wrong = c.chance(.5)
    l, i = c.pick(free)
    g, d = t[(id(l), i)]
    if wrong and abs(d) > 1e-3:
        l.obj.zbad.flat[i] = S * (.2 * tot + .2) * c.pick([1, -1]) / d
    else:
        wrong = False
    r.obj.trigger_update()
    verbose = c.chance(.6)
    c.step('{!r}.checkgrad(verbose={}) with objective times {} wrong {}'.format(h, verbose, S, wrong))
    with quiet() as out:
        res = h.obj.checkgrad(verbose=verbose)
    text = out.getvalue()
    # along a random direction the slopes may cancel
    if verbose or wrong or len(free) == 1:
        check(bool(res) == (not wrong), 'wrong-gradient-accepted' if wrong else 'correct-gradient-rejected',
              lambda: '{!r}: {} (verbose {}) scale {} {}'.format(h, res, verbose, S, text[-600:]))
        c.count('scaled_verdicts')
    if verbose:
        names = list(r.obj.parameter_names_flat(include_fixed=True))
        pos = M.offset(l) + i
        marks(c, text, names[pos] if wrong else None, repr(h))
    l.obj.zbad = np.zeros(l.shape)
    for n in r.nodes():
        n.obj.zscale = 1.
    r.obj.trigger_update()
    for x in r.leaves():
        x.v[:] = np.array(x.obj.values, float).ravel()


def tolerance(w, r):
    """the tolerance given decides about small relative errors"""
    c = w.ctx
    t = transformed(r)
    cand = [(l, i) for l in r.leaves() for i in range(l.v.size) if not l.fx[i] and abs(t[(id(l), i)][0]) > .25]
    if not cand:
        return
    l, i = c.pick(cand)
    g, d = t[(id(l), i)]
    rel = c.pick([.01, .03, 1e-3, 2e-4])
    for x in r.leaves():
        x.obj.zbad = np.zeros(x.shape)
    l.obj.zbad.flat[i] = rel * g / d
    r.obj.trigger_update()
    for tol in (rel / 5, rel * 5):
        with quiet():
            res = l.obj.checkgrad(verbose=True, tolerance=tol)
        exp = tol > rel
        check(bool(res) == exp, 'tolerance-ignored', lambda: (repr(l), i, rel, tol, res))
        c.count('tolerances')
    l.obj.zbad = np.zeros(l.shape)
    r.obj.trigger_update()
    for x in r.leaves():
        x.v[:] = np.array(x.obj.values, float).ravel()


class Flat(M.zoo.Model):
    """objective, on which some elements have no influence at all"""
    def __init__(self, n, slope, level=0.):
        super(Flat, self).__init__('flat')
        self.level = level
        self.a = M.zoo.Param('a', np.arange(n) + 1.)
        self.b = M.zoo.Param('b', np.arange(n) - .5)
        self.link_parameters(self.a, self.b)
        self.slope = slope
        self.wrong = np.zeros(2 * n)
        self.trigger_update()

    def parameters_changed(self):
        if not hasattr(self, 'wrong'):
            return
        n = self.a.size
        self.a.gradient[:] = self.slope * np.cos(self.a.values) + self.wrong[:n]
        self.b.gradient[:] = self.wrong[n:]

    def objective_function(self):
        return self.level + self.slope * float(np.sin(self.a.values).sum())


def influence(c):
    n = c.int(1, 3)
    m = Flat(n, c.pick([0., 1., 30.]), c.pick([0., 0., 1e3, -1e5]))
    for k in range(3):
        h = c.pick([m.b, m.b, m])
        verbose = c.chance(.5)
        # along a random direction several slopes may cancel each other
        alone = h is m.b or not m.slope
        bad = c.chance(.6) and (verbose or alone)
        m.wrong[:] = 0
        i = c.int(0, n - 1)
        size = float(c.pick([.05, .3, .9, 1.1, 40.]) * c.pick([1, -1]))
        if bad:
            m.wrong[n + i] = size
        m.trigger_update()
        c.step('gradient {} without influence, {}.checkgrad(verbose={})'.format(size if bad else 0., h.name, verbose))
        if not bad and not verbose and h is m and m.slope:
            continue
        with quiet() as out:
            res = h.checkgrad(verbose=verbose)
        check(bool(res) == (not bad), 'wrong-gradient-accepted' if bad else 'correct-gradient-rejected',
              lambda: (c.history[-1], res, m.slope, out.getvalue()[-500:]))
        c.count('without_influence')
        c.count('verdicts_checked')
        c.seen('flat', h is m, verbose, bad, size, m.slope, n)


def run_case(ctx):
    if ctx.chance(.3):
        influence(ctx)
    w = World(ctx)
    for k in range(ctx.int(1, 3)):
        w.run(ctx.int(1, 8), dict(constrain=20, fix=20, calls=0, print=0, updates=0, checkgrad=0, optimize=0, link=5, unlink=3), [])
        r = w.any_root(model=True)
        if r is None or not w.moderate(r) or not r.size:
            continue
        if w.moderate(r) and w._free(r):
            for j in range(4):
                trial(w, r)
            if ctx.chance(.4):
                tolerance(w, r)
            if ctx.chance(.6):
                scaled(w, r)
        others = [q for q in w.roots if isinstance(q, RNode) and not isinstance(q.obj, M.zoo.Model) and q.size]
        if others:
            q = ctx.pick(others)
            ok, e = raises(HierarchyError, q.obj.checkgrad)
            check(ok, 'no-model-checked', lambda: q)
    ctx.samples = ctx.history[-8:]
