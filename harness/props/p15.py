"""P15: indices and selections"""
import re
import numpy as np
import paramz
from paramz import Param
import monitors as M, reft
from vcommon import check, same, close, raises
from world import World, RLeaf, RNode, Sel, itext, adj
LEVEL = 'exploration'
CASES = dict(quick=1200, thorough=7000)
EVAL = 'selections_checked'
MINIMUM = dict(selections_checked=8000, leaf_reads=4000, node_reads=1500, regex_reads=1500, nothing_matched=400,
               held_uses=400, concatenations=500, constrains=400, fixes=250, unsorted_positions=40, concatenation_inplace=120)
DISTINCT = 1500
RULE = 'distinct (shape, index), (names, pattern) and (sizes, index of a concatenation) compared with numpy on the shadow arrays'
ASSUMPTIONS = ['one level of indexing', 'patterns are matched from the start of the full name below the root']
STRUCT = ('link', 'move', 'unlink', 'pickle')


class W(World):
    held = None
    set_by = World.set_by + ['concat'] * 7
    inplace_by = ['leaf', 'concat']

    def any_sel(self, root=None, kinds=('leaf', 'slice', 'adv', 'node', 'regex', 'part')):
        if root is None and self.held and self.ctx.chance(.35):
            self.ctx.count('held_uses')
            s = self.ctx.pick(self.held)
            return Sel(s.kind, s.real, s.els, 'held ' + s.text, s.shape)
        s = super(W, self).any_sel(root, kinds)
        if s is not None and self.ctx.chance(.3):
            self.held = (self.held or [])[-4:] + [s]
        return s


def reads(w, op=None):
    c = w.ctx
    if op in STRUCT:
        w.held = []
    rs = [r for r in w.roots if r.size]
    for k in range(3):
        r = c.pick(rs)
        leaf(w, r)
    node(w, r)
    regex(w, r)
    held(w)


reads.always = True


def leaf(w, r):
    c = w.ctx
    l = c.pick(r.leaves())
    arr = l.v.reshape(l.shape)
    k = c.int(0, 3)
    if k == 0:
        idx = tuple(c.int(-n, n - 1) for n in l.shape)
    elif k == 1:
        idx = w.basic_index(l.shape)
    elif k == 2:
        idx = w.adv_index(l.shape, repeats=True)
    else:   # mixtures
        parts = []
        m = c.int(1, 3)
        for n in l.shape:
            q = c.int(0, 3)
            parts.append([slice(None), c.int(-n, n - 1), w.rng.integers(-n, n, m), slice(c.int(0, n - 1), None)][q])
        idx = tuple(parts)
    exp = arr[idx]
    got = l.obj[idx]
    text = lambda: '{!r}[{}]: {} instead of {}'.format(l, itext(idx), np.asarray(got).tolist(), exp.tolist())
    check(np.shape(got) == np.shape(exp) and same(np.asarray(got, float), exp), 'read-by-index', text)
    if np.ndim(exp) and exp.size:
        check(isinstance(got, Param), 'read-by-index-type', text)
        g = np.asarray(l.obj.gradient)[idx]
        check(same(np.asarray(got.gradient), g), 'gradient-by-index', lambda: (l, itext(idx)))
        # which elements it stands for shows in what it says about itself
        pos = np.arange(arr.size).reshape(arr.shape)[idx].ravel()
        if not (isinstance(idx, np.ndarray) and idx.ndim > 1 and idx.dtype != bool):
            fx = l.fx[pos]
            if len(set(pos.tolist())) == len(pos):
                s = re.sub('\x1b\[[0-9;]*m', '', str(got))
                rows = [x for x in s.split('\n')[1:]]
                if len(rows) == len(pos):   # beyond the threshold of printing only a part is shown
                    for row, p in zip(rows, pos):
                        cell = row.split('|')
                        sp = l.t[p]
                        e = ([] if sp is None else [str(reft.make(sp))]) + (['fixed'] if l.fx[p] else [])
                        shown = cell[2].strip()
                        check(all(q in shown for q in e) and (bool(e) or shown == ''), 'constraint-of-selection',
                              lambda: '{!r}[{}] shows {!r} instead of {} for element {}'.format(l, itext(idx), shown, e, p))
                        shown = cell[0].strip().replace(' ', '')
                        e = '[' + ''.join(str(q) for q in np.unravel_index(p, l.shape)) + ']'
                        check(shown == e, 'index-of-selection', lambda: '{!r}[{}] shows {!r} instead of {}'.format(l, itext(idx), shown, e))
                    c.count('selection_rows')
    c.seen('leaf', l.shape, itext(idx))
    c.count('leaf_reads')
    c.count('selections_checked')


def node(w, r):
    c = w.ctx
    ns = [n for n in r.pre() if isinstance(n, RNode) and n.size]
    if not ns:
        return
    n = c.pick(ns)
    v = n.vals()
    k = c.int(0, 4)
    idx = [c.int(-n.size, n.size - 1), w.basic_index((n.size,), False), w.rng.random(n.size) < .5,
           w.rng.choice(n.size, c.int(1, n.size)), slice(None)][k]
    got = n.obj[idx]
    check(same(np.asarray(got, float), v[idx]), 'read-node-by-index', lambda: '{!r}[{}]: {} instead of {}'.format(n, itext(idx), got, v[idx]))
    c.seen('node', n.size, itext(idx))
    c.count('node_reads')
    c.count('selections_checked')


def regex(w, r):
    c = w.ctx
    ns = [n for n in r.pre() if isinstance(n, RNode) and n.size]
    if not ns:
        return
    n = c.pick(ns)
    pat = w.pattern(n)
    if pat is None:
        return
    if c.chance(.3):
        # none of it
        bad = c.pick(['zzz', 'zzz.*', '^q$', '.*nothere$', re.compile('zzz')])
        f = c.pick([lambda: n.obj[bad], lambda: n.obj.__setitem__(bad, 1.)])
        ok, e = raises(AttributeError, f)
        check(ok, 'no-match-accepted', lambda: bad)
        check(n.obj.grep_param_names(bad) == [], 'no-match-accepted', lambda: bad)
        c.count('nothing_matched')
    hit = [x for x in n.pre()[1:] if re.compile(pat).match(x.path())]
    found = n.obj.grep_param_names(pat)
    check(len(found) == len(hit) and all(a is b.obj for a, b in zip(found, hit)), 'matches',
          lambda: '{!r} {!r}: {} instead of {}'.format(n, pat, [f.hierarchy_name() for f in found], hit))
    c.seen('regex', [x.path() for x in n.pre()[1:]], str(pat))
    c.count('regex_reads')
    c.count('selections_checked')
    if not hit:
        return
    got = n.obj[pat]
    if len(hit) == 1:
        check(got is hit[0].obj, 'single-match', lambda: (n, pat))
        return
    ls = []
    for x in hit:
        for l in x.leaves():
            if not any(l is q for q in ls):
                ls.append(l)
    if not ls:
        return
    concat(w, got, [(l, np.arange(l.v.size)) for l in ls], '{!r}[{!r}]'.format(n, pat))


def concat(w, real, els, text, deep=True):
    c = w.ctx
    v = np.concatenate([l.v[i] for l, i in els])
    check(same(np.asarray(real.values(), float), v), 'concatenated-values', lambda: '{}: {} instead of {}'.format(text, real.values(), v))
    t = float(c.pick(v.tolist()))
    for name, a, b in (('<', real < t, v < t), ('<=', real <= t, v <= t), ('==', real == t, v == t), ('!=', real != t, v != t),
                       ('>', real > t, v > t), ('>=', real >= t, v >= t)):
        check(same(np.asarray(a), b), 'concatenated-comparison', lambda: (text, name))
    t = v.copy()
    t[w.rng.random(v.size) < .3] += .5
    t[w.rng.random(v.size) < .3] = c.pick([np.nan, np.inf, -np.inf])
    with np.errstate(invalid='ignore'):
        for name, a, b in (('<', real < t, v < t), ('<=', real <= t, v <= t), ('==', real == t, v == t), ('!=', real != t, v != t),
                           ('>', real > t, v > t), ('>=', real >= t, v >= t)):
            check(same(np.asarray(a), b), 'concatenated-comparison', lambda: (text, name, t))
    str(real)
    c.count('concatenations')
    c.count('selections_checked')
    n = v.size
    if not deep or n < 2:
        return
    sel = Sel('concat', real, els, text, (n,))
    part, idx, mask = w.concat_part(sel)
    got = part.real
    pv = v[mask]
    c.seen('concat', [len(i) for _, i in els], itext(idx))
    if len(part.els) == 1:
        check(same(np.ravel(np.asarray(got, float)), pv), 'part-of-concatenation', lambda: '{}: {} instead of {}'.format(part.text, got, pv))
    else:
        concat(w, got, part.els, part.text, False)
    check(same(np.asarray(real.values(), float), v), 'concatenated-values', 'after selecting from it')


def held(w):
    """selections made earlier still show what they select"""
    c = w.ctx
    for s in w.held or []:
        v = np.concatenate([l.v[i] for l, i in s.els])
        if s.kind == 'concat' and ' held' not in s.text and '][' not in s.text:
            check(same(np.asarray(s.real.values(), float), v), 'held-selection-stale', lambda: (s.text, s.real.values(), v))
            c.count('held_reads')
        elif s.kind in ('leaf', 'slice'):
            check(same(np.ravel(np.asarray(s.real, float)), v), 'held-selection-stale', lambda: (s.text, np.ravel(s.real), v))
            c.count('held_reads')


def run_case(ctx):
    w = W(ctx)
    w.held = []
    reads(w)
    w.run(ctx.int(12, 30), dict(set=24, inplace=6, optset=2, constrain=18, fix=12, unfix=8, unconstrain=10, link=3, move=2,
                                unlink=2, illegal=0, rename=2, checkgrad=1, optimize=0, calls=0), [reads, M.values, M.constraints])
    ctx.samples = ctx.history[:12]
