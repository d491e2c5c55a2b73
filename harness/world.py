"""
Random histories over parameter hierarchies, mirrored in a reference model.

The reference keeps, per element: its value, its constraint (spec or None) and
whether it is fixed; and per node the ordered list of its children.  Operations
go through the public interface of paramz only.
"""
import io, os, re, pickle, tempfile
import numpy as np
import paramz
from paramz import Param, Parameterized, Model
from paramz.core import HierarchyError
from paramz.core.nameable import adjust_name_for_printing as _adj
from paramz.optimization import optimization as _opt
import reft, zoo
from vcommon import check, same, close, Violation, raises, quiet

NAMES = ['a', 'b', 'c', 'kern', 'lik', 'noise var', 'x-y', 'a_1', 'len.scale', 'gp(2)', 'beta',
         # different names, which read the same once printed, and names like those made up after clashes
         'noise_var', 'x_m_y', 'len_scale', 'a_2', 'b_1', 'noise var_1', 'a_10', 'a_9', 'c ', ' a']


def adj(name):
    """printable form of a name, from its documentation"""
    for a, b in ((" ", "_"), (".", "_"), ("-", "_m_"), ("+", "_p_"), ("!", "_I_"), ("**", "_xx_"), ("*", "_x_"),
                 ("/", "_l_"), ("@", "_at_"), ("(", "_of_"), (")", "")):
        name = name.replace(a, b)
    return name


class Ref(object):
    parent = None

    @property
    def root(self):
        r = self
        while r.parent is not None:
            r = r.parent
        return r

    @property
    def size(self):
        return sum(l.v.size for l in self.leaves())

    @property
    def name(self):
        return self.obj.name

    def path(self):
        p, r = [], self
        while r.parent is not None:
            p.append(adj(r.name))
            r = r.parent
        return '.'.join(reversed(p))

    def vals(self):
        ls = self.leaves()
        return np.concatenate([l.v for l in ls]) if ls else np.empty(0)

    def specs(self):
        return [s for l in self.leaves() for s in l.t]

    def fixed(self):
        ls = self.leaves()
        return np.concatenate([l.fx for l in ls]) if ls else np.empty(0, bool)

    def opt(self):
        v, s, fx = self.vals(), self.specs(), self.fixed()
        return np.array([v[i] if s[i] is None else float(reft.finv(s[i], v[i])) for i in range(v.size) if not fx[i]])

    def nodes(self):
        return [x for x in self.pre() if isinstance(x, RNode)]


class RLeaf(Ref):
    def __init__(self, obj, zk):
        self.obj, self.zk = obj, zk
        self.shape = obj.shape
        self.v = np.array(obj.values, float).ravel()
        self.t = [None] * self.v.size
        self.fx = np.zeros(self.v.size, bool)

    def leaves(self):
        return [self]

    def pre(self):
        return [self]

    def __repr__(self):
        return 'leaf:{}{}'.format(self.path() or self.name, self.shape)


class RNode(Ref):
    def __init__(self, obj, kids=()):
        self.obj = obj
        self.kids = list(kids)
        for k in self.kids:
            k.parent = self

    def leaves(self):
        return [l for k in self.kids for l in k.leaves()]

    def pre(self):
        return [self] + [x for k in self.kids for x in k.pre()]

    def __repr__(self):
        return 'node:{}'.format(self.path() or self.name)


class Sel(object):
    """a selection: the real handle and the elements it has to address, in order"""
    def __init__(self, kind, real, els, text, shape=None):
        self.kind, self.real, self.els, self.text, self.shape = kind, real, els, text, shape

    @property
    def n(self):
        return sum(len(i) for _, i in self.els)

    def split(self, flat):
        out, o = [], 0
        for l, i in self.els:
            out.append((l, i, np.asarray(flat)[o:o + len(i)]))
            o += len(i)
        return out


class Recorder(_opt.Optimizer):
    """an optimizer, which hands its callables to a function of the harness"""
    def __init__(self, todo):
        super(Recorder, self).__init__()
        self.opt_name = 'recorder'
        self.todo = todo
        self.status = 'converged'

    def __getstate__(self):
        return dict((k, v) for k, v in self.__dict__.items() if k != 'todo')

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.x_opt = np.array(x_init, float).copy()
        self.todo(self, self.x_opt.copy(), f_fp, f, fp)
        self.f_opt = float(f(self.x_opt))
        self.funct_eval = 1


class World(object):
    def __init__(self, ctx, style=None, max_leaf=4, updates_ops=True):
        self.ctx, self.rng = ctx, ctx.rng
        self.style = style or ctx.pick(['Z', 'Z', 'R'])
        self.roots, self.off = [], set()
        self.zk = 0
        self.tag = 0
        self.frozen = {}     # id(root) -> number of updates of each node, when updates went off
        self.held = []
        self.main = self.add_root(self.new_tree(model=True, depth=ctx.int(1, 3)))

    # ------------------------------------------------------------------ build
    def add_root(self, r):
        self.roots.append(r)
        return r

    def is_on(self, ref):
        return id(ref.root) not in self.off

    make_leaf = staticmethod(zoo.leaf)

    def new_leaf(self, name=None):
        c = self.ctx
        self.zk += 1
        shape = c.pick([(1,), (2,), (3,), (5,), (2, 2), (3, 2), (1, 3), (2, 1), (2, 3), (2, 2, 2), (1, 1), (2, 3, 2), (1, 2, 3),
                        (3, 1, 2), (4, 2), (2, 1, 3, 2), (1, 2, 2, 3)])
        v = self.rng.normal(0, 1.5, shape)
        spec = c.pick(reft.ALL) if c.chance(.12) else None
        if spec is not None:
            v = reft.interior(spec, self.rng, shape) if c.chance(.5) else v
        dtype = None
        if c.chance(.1):
            v = np.round(v * 3).astype(int) + 1
            spec = None
        if c.chance(.15) and len(shape) > 1:
            v = np.asfortranarray(v)
        if c.chance(.06):
            v = np.array(v)
            v.setflags(write=False)
        fixed = spec is None and c.chance(.03)
        obj = self.make_leaf(name or c.pick(NAMES), v, self.zk, reft.make(spec) if spec else 'fixed' if fixed else None)
        r = RLeaf(obj, self.zk)
        if fixed:
            r.fx[:] = True
        if spec is not None:
            exp = reft.initialize(spec, np.asarray(v, float)).ravel()
            check(close(r.v, exp), 'default-constraint-initial-value', lambda: (spec, v, r.v))
            r.t = [spec] * r.v.size
        c.step('new {!r} values={} constraint={}'.format(r, np.round(r.v, 3).tolist(), spec))
        return r

    def node_class(self, model=False):
        if self.style == 'Z':
            return zoo.ZModel if model else zoo.ZNode
        return zoo.RModel if model else zoo.PlainNode

    def new_tree(self, model=False, depth=2, name=None):
        """builds bottom up, top down (uninitialised children first) or with links after initialisation"""
        c = self.ctx
        how = c.pick(['inside', 'after', 'mixed'])
        used = []

        def kids(d):
            out = []
            for i in range(c.int(1, 3)):
                nm = c.pick([n for n in NAMES if n not in used] or NAMES)
                if d > 1 and c.chance(.55):
                    out.append(self.new_tree(False, d - 1, nm))
                else:
                    out.append(self.new_leaf(nm))
            return out
        ks = kids(depth)
        self.tag += 1
        k = 0 if how == 'after' else len(ks) if how == 'inside' else c.int(0, len(ks))

        kw = {}
        g = c.int(0, k) if not model and c.chance(.3) else 0
        if g:
            kw['parameters'] = [x.obj for x in ks[:g]]

        def link(obj, xs):
            if len(xs) > 1 and c.chance(.3):
                obj.link_parameters(*[x.obj for x in xs])
            else:
                for x in xs:
                    obj.link_parameter(x.obj)

        def build(obj):
            link(obj, ks[g:k])
        late = c.chance(.15)
        if late:
            kw['initialize'] = False
        obj = self.node_class(model)(name or c.pick(NAMES), self.tag, build, **kw)
        z = c.int(k, len(ks)) if late else k
        link(obj, ks[k:z])
        if late:
            obj.initialize_parameter()
        link(obj, ks[z:])
        n = RNode(obj, ks)
        if c.chance(.5):
            obj.u_alias = c.pick(n.pre()[1:]).obj   # users keep shortcuts
        c.step('new {} {!r} of {} ({}{}{})'.format(type(obj).__name__, n, ks, how, ' late' if late else '', ' given' if g else ''))
        obj.trigger_update()
        return n

    # -------------------------------------------------------------- selection
    def any_root(self, model=False):
        rs = [r for r in self.roots if isinstance(r, RNode) and r.size > 0 and (not model or isinstance(r.obj, Model))]
        if self.main in rs and self.ctx.chance(.6):
            return self.main
        return self.ctx.pick(rs) if rs else None

    def any_handle(self, root=None, leaf=True, node=True, empty=False):
        if root is None:
            root = self.ctx.pick(self.roots) if self.ctx.chance(.5) else self.main
        hs = [x for x in root.pre() if (empty or x.size) and ((leaf and isinstance(x, RLeaf)) or (node and isinstance(x, RNode)))]
        return self.ctx.pick(hs) if hs else None

    def basic_index(self, shape, ints=True):
        c = self.ctx
        idx = []
        for n in shape:
            k = c.int(0, 5)
            if k == 0:
                idx.append(slice(None))
            elif k == 1 and ints:
                idx.append(c.int(-n, n - 1))
            elif k == 2:
                a = c.int(0, n - 1)
                idx.append(slice(a, c.int(a + 1, n)))
            elif k == 3:
                idx.append(slice(None, None, -1))
            elif k == 4:
                idx.append(slice(c.int(0, n - 1), None, c.int(1, 2)))
            else:
                idx.append(slice(-c.int(1, n), None))
        cut = c.int(1, len(idx))
        idx = idx[:cut]
        if c.chance(.15):
            idx = [Ellipsis] + idx[-1:] if (c.chance(.5) and cut == len(shape)) else idx[:1] + [Ellipsis]
        if len(idx) == 1 and c.chance(.7):
            return idx[0]
        return tuple(idx)

    def adv_index(self, shape, repeats=False):
        c = self.ctx
        k = c.int(0, 4)
        n = shape[0]
        if k == 0:
            m = self.rng.random(shape) < .5
            m.flat[c.int(0, m.size - 1)] = True
            return m
        if k == 1:
            m = self.rng.random(n) < .5
            m[c.int(0, n - 1)] = True
            return m
        if k == 2:
            m = c.int(1, n)
            arr = self.rng.choice(n, m, replace=repeats)
            return arr if c.chance(.5) else [int(i) for i in arr]
        if k == 3 and len(shape) > 1:
            full = int(np.prod(shape))
            m = c.int(1, min(full, 4))
            return np.unravel_index(self.rng.choice(full, m, replace=repeats), shape)
        if k == 4 and len(shape) > 1:
            arr = self.rng.choice(shape[-1], c.int(1, shape[-1]), replace=False)
            return (slice(None),) * (len(shape) - 1) + (arr,)
        return np.arange(n)[::-1].copy()

    def leaf_sel(self, root=None, kinds=('leaf', 'slice', 'adv'), repeats=False):
        leaf = self.any_handle(root, node=False)
        if leaf is None:
            return None
        kind = self.ctx.pick(kinds)
        base = np.arange(leaf.v.size).reshape(leaf.shape)
        if kind == 'leaf':
            return Sel('leaf', leaf.obj, [(leaf, base.ravel())], repr(leaf), leaf.shape)
        idx = self.basic_index(leaf.shape) if kind == 'slice' else self.adv_index(leaf.shape, repeats)
        got = base[idx]
        if np.ndim(got) == 0 or got.size == 0:
            return None
        return Sel(kind, leaf.obj[idx], [(leaf, got.ravel())], '{!r}[{}]'.format(leaf, itext(idx)), got.shape)

    def pattern(self, node):
        c = self.ctx
        below = node.pre()[1:]
        if not below:
            return None
        k = c.int(0, 6)
        x = c.pick(below)
        y = c.pick(below)
        if k == 0:
            return ''
        if k == 1:
            return '.*'
        if k == 2:
            return re.escape(x.path()) + '$'
        if k == 3:
            return re.escape(x.path())
        if k == 4:
            return '.*' + re.escape(adj(x.name)) + '$'
        if k == 5:
            return '({}|{})$'.format(re.escape(x.path()), re.escape(y.path()))
        return re.compile('.*' + re.escape(adj(x.name)[0]))

    def regex_sel(self, root=None):
        node = self.any_handle(root, leaf=False)
        if node is None:
            return None
        pat = self.pattern(node)
        if pat is None:
            return None
        hit = [x for x in node.pre()[1:] if re.compile(pat).match(x.path())]
        if not hit or sum(x.size for x in hit) == 0:
            return None
        real = node.obj[pat]
        text = '{!r}[{!r}]'.format(node, pat)
        if len(hit) == 1:
            x = hit[0]
            return Sel('leaf' if isinstance(x, RLeaf) else 'node', real, [(l, np.arange(l.v.size)) for l in x.leaves()], text,
                       x.shape if isinstance(x, RLeaf) else (x.size,))
        leaves = []
        for x in hit:
            for l in x.leaves():
                if not any(l is k for k in leaves):
                    leaves.append(l)
        return Sel('concat', real, [(l, np.arange(l.v.size)) for l in leaves], text, (sum(l.v.size for l in leaves),))

    def concat_part(self, sel):
        """sel[idx] of a concatenation"""
        n = sel.n
        c = self.ctx
        k = c.int(0, 3)
        if k == 0:
            a = c.int(0, n - 1)
            idx = slice(a, c.int(a + 1, n))
        elif k == 1:
            idx = self.rng.random(n) < .5
            idx[c.int(0, n - 1)] = True
        elif k == 2:
            idx = np.sort(self.rng.choice(n, c.int(1, n), replace=False))
        else:
            idx = c.int(0, n - 1)
        mask = np.zeros(n, bool)
        mask[idx] = True
        els, o = [], 0
        for l, i in sel.els:
            part = i[mask[o:o + len(i)]]
            if len(part):
                els.append((l, part))
            o += len(i)
        return Sel('concat' if len(els) > 1 else 'adv', sel.real[idx], els, '{}[{}]'.format(sel.text, itext(idx)),
                   (int(mask.sum()),)), idx, mask

    def any_sel(self, root=None, kinds=('leaf', 'slice', 'adv', 'node', 'regex', 'part')):
        for _ in range(8):
            k = self.ctx.pick(kinds)
            if k in ('leaf', 'slice', 'adv'):
                s = self.leaf_sel(root, (k,))
            elif k == 'node':
                n = self.any_handle(root, leaf=False)
                s = n and Sel('node', n.obj, [(l, np.arange(l.v.size)) for l in n.leaves()], repr(n), (n.size,))
            else:
                s = self.regex_sel(root)
                if s is not None and k == 'part':
                    if s.kind != 'concat':
                        continue
                    s = self.concat_part(s)[0]
            if s is not None:
                return s
        return None

    def newvals(self, sel):
        return np.array([float(reft.interior(l.t[i], self.rng)) for l, ii in sel.els for i in ii])

    def write(self, sel, flat):
        for l, i, v in sel.split(flat):
            l.v[i] = v

    def approx(self, leaves, expected, key, rtol=1e-7, atol=1e-9):
        """expected values up to rounding; afterwards the real ones are the reference"""
        for l, e in zip(leaves, expected):
            got = np.array(l.obj.values, float).ravel()
            check(close(got, e, rtol, atol), key, lambda: '{!r}: {} instead of {}'.format(l, got.tolist(), e.tolist()))
            l.v[:] = got

    # ------------------------------------------------------------- operations
    set_by = ['index', 'index', 'whole', 'attr', 'node', 'node', 'regex', 'concat', 'raw', 'view', 'scalar']

    def op_set(self):
        c = self.ctx
        how = c.pick(self.set_by)
        if how in ('index', 'whole', 'view', 'scalar'):
            leaf = self.any_handle(node=False)
            if leaf is None:
                return 'skip'
            base = np.arange(leaf.v.size).reshape(leaf.shape)
            if how == 'whole':
                idx = c.pick([slice(None), Ellipsis, ()])
            else:
                idx = self.basic_index(leaf.shape) if (how == 'view' or c.chance(.6)) else self.adv_index(leaf.shape)
            got = base[idx]
            sel = Sel('x', None, [(leaf, np.ravel(got))], '')
            if sel.n == 0:
                return 'skip'
            new = self.newvals(sel)
            if how == 'scalar':
                s = set(leaf.t[i] for i in np.ravel(got))
                if len(s) > 1:
                    return 'skip'
                new = np.full(sel.n, float(reft.interior(s.pop(), self.rng)))
            val = new.reshape(np.shape(got)) if np.ndim(got) else new[0]
            c.step('set {} {!r}[{}] = {}'.format(how, leaf, itext(idx), np.round(val, 4).tolist()))
            if how == 'scalar':
                leaf.obj[idx] = float(new[0])
            elif how == 'view' and np.ndim(got):
                h = leaf.obj[idx]
                h[:] = val
            else:
                leaf.obj[idx] = val
            self.write(sel, new)
            return
        if how == 'attr':
            node = self.any_handle(leaf=False)
            if node is None:
                return 'skip'
            k = c.pick(node.kids)
            if not k.size:
                return 'skip'
            sel = Sel('x', None, [(l, np.arange(l.v.size)) for l in k.leaves()], '')
            new = self.newvals(sel)
            c.step('set attribute {!r}.{} = {}'.format(node, adj(k.name), np.round(new, 4).tolist()))
            setattr(node.obj, adj(k.name), new.reshape(k.shape) if isinstance(k, RLeaf) else new)
            self.write(sel, new)
            return
        if how in ('node', 'raw'):
            node = self.any_handle(leaf=(how == 'raw'))
            if node is None:
                return 'skip'
            n = node.size
            if isinstance(node, RLeaf):
                idx = self.basic_index(node.shape)
                flat = np.arange(n).reshape(node.shape)[idx]
            else:
                k = c.int(0, 4)
                idx = [slice(None), c.int(-n, n - 1), self.basic_index((n,), False), self.rng.random(n) < .6,
                       self.rng.choice(n, c.int(1, n), replace=False)][k]
                flat = np.arange(n)[idx]
            own = [(l, i) for l in node.leaves() for i in range(l.v.size)]
            pos = np.ravel(flat)
            if pos.size == 0:
                return 'skip'
            new = np.array([float(reft.interior(own[p][0].t[own[p][1]], self.rng)) for p in pos])
            val = new.reshape(np.shape(flat)) if np.ndim(flat) else float(new[0])
            c.step('set {} {!r}[{}] = {}'.format(how, node, itext(idx), np.round(val, 4).tolist()))
            if how == 'node':
                node.obj[idx] = val
            else:
                node.obj.param_array[idx] = val
                node.obj.trigger_update()
            for p, v in zip(pos, new):
                own[p][0].v[own[p][1]] = v
            return
        sel = self.regex_sel()
        for _ in range(3):
            if how == 'concat' and (sel is None or sel.kind != 'concat'):
                sel = self.regex_sel()
        if sel is None:
            return 'skip'
        if how == 'regex':
            new = self.newvals(sel)
            c.step('set {} = {}'.format(sel.text, np.round(new, 4).tolist()))
            sel.real[:] = new.reshape(sel.shape)
            self.write(sel, new)
            return
        if sel.kind != 'concat':
            return 'skip'
        part, idx, mask = self.concat_part(sel)
        new = self.newvals(part)
        c.step('set {} = {}'.format(part.text, np.round(new, 4).tolist()))
        before = sel.real
        vals = new
        if isinstance(idx, np.ndarray) and idx.dtype != bool and c.chance(.6):
            # positions in any order, counted from either end
            q = self.rng.permutation(len(idx))
            idx, vals = idx[q], new[q]
            if c.chance(.5):
                idx = np.where(self.rng.random(len(idx)) < .5, idx, idx - sel.n)
            idx = idx.tolist() if c.chance(.5) else idx
            c.step('by {}'.format(itext(idx)))
            c.count('unsorted_positions')
        elif isinstance(idx, slice) and c.chance(.3):
            idx, vals = slice(idx.stop - 1, idx.start - 1 if idx.start else None, -1), new[::-1]
            c.step('by {}'.format(itext(idx)))
        sel.real[idx] = vals if np.ndim(idx) or isinstance(idx, slice) else new[0]
        check(sel.real is before, 'concat-object')
        self.write(part, new)

    def concat_inplace(self):
        """in-place operations on several parameters at once"""
        c = self.ctx
        sel = None
        for _ in range(5):
            if sel is None or sel.kind != 'concat':
                sel = self.regex_sel()
        if sel is None or sel.kind != 'concat':
            return 'skip'
        obj, whole, idx = sel.real, sel, None
        if c.chance(.4) and sel.n > 1:
            sel, idx, _ = self.concat_part(sel)
        for _ in range(c.int(1, 2)):
            old = np.concatenate([l.v[i] for l, i in sel.els])
            new = self.newvals(sel)
            op = c.pick(['+', '-', '*', '/', '**', '//', '%'])
            if op in '*/' and np.any(old == 0):
                return 'skip'
            with np.errstate(all='ignore'):
                if op in ('**', '//', '%'):
                    # only where the result stays in the domain
                    d = {'**': 1.5, '//': .05, '%': 100.}[op]
                    exp = {'**': old ** d, '//': old // d, '%': old % d}[op]
                    if not np.all(np.isfinite(exp)) or not all(
                            l.t[k] is None or (reft.inside(l.t[k], e) and np.isfinite(reft.finv(l.t[k], e)))
                            for (l, k), e in zip([(l, k) for l, i in sel.els for k in i], exp)) or np.any(np.abs(exp) > 1e3):
                        continue
                else:
                    d = {'+': new - old, '-': old - new, '*': new / old, '/': old / new}[op]
                    exp = {'+': old + d, '-': old - d, '*': old * d, '/': old / d}[op]
            c.step('{} {}= {}'.format(sel.text, op, np.round(d, 4).tolist()))
            if idx is not None and np.ndim(idx) == 0 and not isinstance(idx, slice):
                d = d[0] if np.ndim(d) else d
            if idx is None and op == '+':
                obj += d
            elif idx is None and op == '-':
                obj -= d
            elif idx is None and op == '*':
                obj *= d
            elif idx is None and op == '/':
                obj /= d
            elif idx is None and op == '**':
                obj **= d
            elif idx is None and op == '//':
                obj //= d
            elif idx is None and op == '%':
                obj %= d
            elif op == '+':
                obj[idx] += d
            elif op == '-':
                obj[idx] -= d
            elif op == '*':
                obj[idx] *= d
            elif op == '/':
                obj[idx] /= d
            elif op == '**':
                obj[idx] **= d
            elif op == '//':
                obj[idx] //= d
            else:
                obj[idx] %= d
            check(obj is whole.real, 'concatenation-lost', lambda: '{} {}=: {!r}'.format(sel.text, op, type(obj)))
            self.write(sel, exp)
            got = np.asarray(obj.values(), float)
            exp = np.concatenate([l.v[i] for l, i in whole.els])
            check(same(got, exp), 'inplace-on-concatenation', lambda: '{} {}= {}: {} instead of {}'.format(sel.text, op, d, got, exp))
            c.count('concatenation_inplace')
        node = self.any_handle(leaf=False)
        pat = node and self.pattern(node)
        if pat is None:
            return
        hit = [x for x in node.pre()[1:] if re.compile(pat).match(x.path())]
        ls = []
        for x in hit:
            ls.extend(l for l in x.leaves() if not any(l is k for k in ls))
        if len(hit) < 2 or not ls:
            return
        old = np.concatenate([l.v for l in ls])
        new = self.newvals(Sel('x', None, [(l, np.arange(l.v.size)) for l in ls], ''))
        d = new - old
        c.step('{!r}[{!r}] += {}'.format(node, pat, np.round(d, 4).tolist()))
        node.obj[pat] += d
        o = 0
        for l in ls:
            l.v[:] = l.v + d[o:o + l.v.size]
            o += l.v.size
        c.count('concatenation_inplace')

    inplace_by = ['leaf'] * 6 + ['concat']

    def op_inplace(self):
        c = self.ctx
        if c.pick(self.inplace_by) == 'concat':
            return self.concat_inplace()
        leaf = self.any_handle(node=False)
        if leaf is None:
            return 'skip'
        op = c.pick(['+', '-', '*', '/'])
        how = c.pick(['whole', 'index', 'attr'])
        base = np.arange(leaf.v.size).reshape(leaf.shape)
        idx = Ellipsis if how != 'index' else self.basic_index(leaf.shape)
        pos = base[idx]
        if pos.size == 0:
            return 'skip'
        old = leaf.v[np.ravel(pos)].reshape(np.shape(pos))
        new = self.newvals(Sel('x', None, [(leaf, np.ravel(pos))], '')).reshape(np.shape(pos))
        if op in '*/' and np.any(old == 0):
            return 'skip'
        with np.errstate(all='ignore'):
            d = {'+': new - old, '-': old - new, '*': new / old, '/': old / new}[op]
            exp = {'+': old + d, '-': old - d, '*': old * d, '/': old / d}[op]
        if how == 'attr' and leaf.parent is None:
            return 'skip'
        c.step('inplace {} {!r}[{}] {}= {}'.format(how, leaf, itext(idx), op, np.round(d, 4).tolist()))
        o = leaf.obj
        if how == 'whole':
            p = o
            if op == '+':
                p += d
            elif op == '-':
                p -= d
            elif op == '*':
                p *= d
            else:
                p /= d
        elif how == 'index':
            if op == '+':
                o[idx] += d
            elif op == '-':
                o[idx] -= d
            elif op == '*':
                o[idx] *= d
            else:
                o[idx] /= d
        else:
            par, nm = leaf.parent.obj, adj(leaf.name)
            q = getattr(par, nm)
            if op == '+':
                q += d
            elif op == '-':
                q -= d
            elif op == '*':
                q *= d
            else:
                q /= d
            setattr(par, nm, q)
        leaf.v[np.ravel(pos)] = np.ravel(exp)

    def _free(self, h):
        """[(leaf, i)] of the free elements below h"""
        return [(l, i) for l in h.leaves() for i in range(l.v.size) if not l.fx[i]]

    def _expect_opt(self, h, x, key):
        fr = self._free(h)
        exp = {}
        for l in h.leaves():
            exp[id(l)] = l.v.copy()
        for (l, i), xi in zip(fr, x):
            exp[id(l)][i] = xi if l.t[i] is None else float(reft.f(l.t[i], xi))
        for l in h.leaves():
            got = np.array(l.obj.values, float).ravel()
            check(same(got[l.fx], l.v[l.fx]), 'fixed-element-changed',
                  lambda: '{!r}: {} was {}'.format(l, got[l.fx].tolist(), l.v[l.fx].tolist()))
        self.approx(h.leaves(), [exp[id(l)] for l in h.leaves()], key)

    def op_optset(self):
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        fr = self._free(h)
        x = np.array([float(reft.optval(l.t[i], self.rng)) for l, i in fr])
        c.step('{!r}.optimizer_array = {}'.format(h, np.round(x, 4).tolist()))
        h.obj.optimizer_array = x
        c.count('optimizer_sets')
        self._expect_opt(h, x, 'optimizer-vector-not-set')

    def op_optback(self):
        h = self.any_handle()
        if h is None:
            return 'skip'
        self.ctx.step('{!r}.optimizer_array = itself'.format(h))
        x = np.array(h.obj.optimizer_array, float).copy()
        check(x.shape == (len(self._free(h)),), 'optimizer-vector-size', lambda: (x, self._free(h)))
        h.obj.optimizer_array = x
        self.ctx.count('optimizer_sets')
        self._expect_opt(h, x, 'optimizer-vector-not-set')

    def op_randomize(self):
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        fr = self._free(h)
        draws = []
        on = h.obj.update_model()
        if c.chance(.4) and not any(l.t[i] == ('Square',) for l, i in fr):
            c.step('{!r}.randomize()'.format(h))
            st = np.random.get_state()
            h.obj.randomize()
            end = np.random.get_state()
            np.random.set_state(st)
            draws.append(np.random.normal(size=len(fr)))
            np.random.set_state(end)
        else:
            off = float(self.rng.uniform(.6, 1.2))

            def gen(size=None, scale=1.):
                x = self.rng.uniform(.1, .9, size) * scale + off
                draws.append(x.copy())
                return x
            c.step('{!r}.randomize(gen, scale=.5)'.format(h))
            h.obj.randomize(gen, scale=.5)
        check(len(draws) == 1 and draws[0].shape == (len(fr),), 'randomize-draws',
              lambda: 'drew {} for {} free elements'.format([d.shape for d in draws], len(fr)))
        check(h.obj.update_model() == on, 'randomize-changes-update-switch')
        c.count('randomizes')
        self._expect_opt(h, draws[0], 'randomize-values')

    def op_constrain(self):
        c = self.ctx
        sel = self.any_sel()
        if sel is None:
            return 'skip'
        how = c.pick(['constrain', 'constrain', 'positive', 'negative', 'bounded'])
        if how == 'constrain':
            spec = c.pick(reft.ALL)
            c.step('{}.constrain({})'.format(sel.text, spec))
            sel.real.constrain(reft.make(spec), warning=False)
        elif how == 'positive':
            spec = ('Logexp',)
            c.step('{}.constrain_positive()'.format(sel.text))
            sel.real.constrain_positive(warning=False)
        elif how == 'negative':
            spec = ('NegativeLogexp',)
            c.step('{}.constrain_negative()'.format(sel.text))
            sel.real.constrain_negative(warning=False)
        else:
            spec = ('Logistic',) + c.pick(reft.BOUNDS)
            c.step('{}.constrain_bounded{}'.format(sel.text, spec[1:]))
            sel.real.constrain_bounded(*spec[1:], warning=False)
        exp = {}
        for l, i in sel.els:
            e = exp.setdefault(id(l), (l, l.v.copy()))[1]
            e[i] = reft.initialize(spec, e[i])
            for k in i:
                l.t[k] = spec
                l.fx[k] = False
        for l, e in exp.values():
            got = np.array(l.obj.values, float).ravel()
            touched = np.zeros(l.v.size, bool)
            for m, i in sel.els:
                if m is l:
                    touched[i] = True
            check(same(got[~touched], l.v[~touched]), 'constrain-changes-other-values', lambda: (l, got, l.v))
            check(np.all(reft.inside(spec, got[touched])), 'constrained-value-outside-domain',
                  lambda: '{!r} {} {}'.format(l, spec, got[touched].tolist()))
            keep = touched & reft.strictly(spec, l.v)
            check(same(got[keep], l.v[keep]), 'value-inside-domain-not-kept', lambda: (l, got, l.v))
            if spec[0] != 'Logistic':
                check(same(got, e), 'constrain-initial-value', lambda: (l, got, e))
            l.v[:] = got
        c.count('constrains')
        # values at the very bound (an exact zero) have no finite optimizer value
        for l, e in exp.values():
            for k in range(l.v.size):
                if l.t[k] is not None and not reft.inside(l.t[k], l.v[k]):
                    raise Violation('constrained-value-outside-domain', (l, k, l.v[k]))

    def op_fix(self):
        c = self.ctx
        sel = self.any_sel()
        if sel is None:
            return 'skip'
        val = None
        if c.chance(.12):
            # the same, spelled as a constraint
            c.step('{}.constrain(fixed)'.format(sel.text))
            sel.real.constrain('fixed' if c.chance(.5) else paramz.transformations.__fixed__, warning=False)
            for l, i in sel.els:
                l.fx[i] = True
            c.count('fixes')
            return
        if c.chance(.3):
            s = set(l.t[i] for l, ii in sel.els for i in ii)
            if len(s) == 1:
                val = float(reft.interior(s.pop(), self.rng))
        meth = c.pick(['fix', 'constrain_fixed'])
        c.step('{}.{}({})'.format(sel.text, meth, val))
        getattr(sel.real, meth)(*(() if val is None else (val,)), warning=False)
        for l, i in sel.els:
            l.fx[i] = True
            if val is not None:
                l.v[i] = val
        c.count('fixes')

    def op_unfix(self):
        c = self.ctx
        sel = self.any_sel()
        if sel is None:
            return 'skip'
        meth = c.pick(['unfix', 'unconstrain_fixed'])
        c.step('{}.{}()'.format(sel.text, meth))
        getattr(sel.real, meth)()
        for l, i in sel.els:
            l.fx[i] = False
        c.count('unfixes')

    def op_unconstrain(self):
        c = self.ctx
        sel = self.any_sel()
        if sel is None:
            return 'skip'
        there = sorted(set(l.t[i] for l, ii in sel.els for i in ii if l.t[i] is not None))
        how = c.pick(['all', 'given', 'given', 'positive', 'negative', 'bounded'])
        if how == 'all':
            c.step('{}.unconstrain()'.format(sel.text))
            sel.real.unconstrain()
            for l, i in sel.els:
                l.fx[i] = False
                for k in i:
                    l.t[k] = None
            c.count('unconstrains')
            return
        if how == 'given':
            ss = [c.pick(there)] if there and c.chance(.8) else [c.pick(reft.ALL)]
            if there and c.chance(.2):
                ss = sorted(set(ss + [c.pick(there)]))
            c.step('{}.unconstrain({})'.format(sel.text, ss))
            sel.real.unconstrain(*[reft.make(s) for s in ss])
        elif how == 'positive':
            ss = [('Logexp',)]
            c.step('{}.unconstrain_positive()'.format(sel.text))
            sel.real.unconstrain_positive()
        elif how == 'negative':
            ss = [('NegativeLogexp',)]
            c.step('{}.unconstrain_negative()'.format(sel.text))
            sel.real.unconstrain_negative()
        else:
            bs = [s for s in there if s[0] == 'Logistic']
            ss = [c.pick(bs)] if bs else [('Logistic',) + c.pick(reft.BOUNDS)]
            c.step('{}.unconstrain_bounded{}'.format(sel.text, ss[0][1:]))
            sel.real.unconstrain_bounded(*ss[0][1:])
        for l, i in sel.els:
            for k in i:
                if l.t[k] in ss:
                    l.t[k] = None
        c.count('unconstrains')

    def op_badconstraint(self):
        """what is no constraint is refused: nothing changes"""
        c = self.ctx
        sel = self.any_sel()
        if sel is None:
            return 'skip'
        what = c.pick(['positive', object(), 3, None, 'constrain', 2.5, dict])
        c.step('{}.constrain({!r}): refused'.format(sel.text, what))
        try:
            sel.real.constrain(what, warning=False)
        except Exception:
            c.count('constraints_refused')
        else:
            check(False, 'no-constraint-accepted', lambda: (sel.text, what))

    # structure ---------------------------------------------------------------
    def _on_roots(self):
        return [r for r in self.roots if id(r) not in self.off]

    def _settle(self, *refs):
        """linking does not recompute: the user asks for it"""
        done = []
        for r in refs:
            n = r
            while n is not None:   # shortcuts to parts, which are no longer below, are given up
                t = n.obj.__dict__.get('u_alias')
                if t is not None and not any(x.obj is t for x in n.pre()):
                    del n.obj.u_alias
                n = n.parent
            r = r.root
            if not any(r is d for d in done):
                done.append(r)
                r.obj.trigger_update()

    def about_to_change(self, *refs):
        """hook of checks: around structural operations"""

    def just_changed(self, before):
        """hook of checks"""

    def op_link(self):
        c = self.ctx
        rs = [r for r in self._on_roots() if isinstance(r, RNode)]
        if not rs:
            return 'skip'
        main = self.main if self.main in rs and c.chance(.7) else c.pick(rs)
        node = c.pick(main.nodes())
        if main.size > 60 or len(node.kids) > 7:
            return 'skip'
        k = c.int(0, 3)
        others = [r for r in self._on_roots() if r is not main and not isinstance(r.obj, Model)]
        old = None
        if k == 0 or not others:
            x = self.new_leaf()
        elif k == 1:
            x = self.new_tree(False, c.int(1, 2))
        elif k == 2:
            x = c.pick(others)
        else:
            # takes it out of another hierarchy directly
            r = c.pick(others)
            x = c.pick(r.pre())
            old = x.parent
        n = len(node.kids)
        index = None if c.chance(.5) else c.int(-n - 2, n + 2) if c.chance(.3) else c.int(-n, n)      # as for list.insert
        c.step('{!r}.link_parameter({!r}, {})'.format(node, x, index))
        names = [(q, q.obj.name) for q in node.kids + [x]]
        if old is not None:
            old.kids.remove(x)
        if any(r is x for r in self.roots):
            self.roots = [r for r in self.roots if r is not x]
        before = self.about_to_change(main, x, old)
        node.obj.link_parameter(x.obj, index)
        self.just_changed(before)
        x.parent = node
        if index is None:
            node.kids.append(x)
        else:
            node.kids.insert(index, x)
        if len(set(adj(nm) for _, nm in names)) == len(names):
            for q, nm in names:
                check(q.obj.name == nm, 'name-changed-without-clash', lambda: (nm, q.obj.name))
        self._settle(node, *( [old] if old is not None else []))
        c.count('links')

    def op_move(self):
        c = self.ctx
        rs = [r for r in self._on_roots() if isinstance(r, RNode)]
        ns = [n for r in rs for n in r.nodes() if len(n.kids) > 1]
        if not ns:
            return 'skip'
        node = c.pick(ns)
        x = c.pick(node.kids)
        n = len(node.kids)
        index = c.int(-n - 2, n + 2) if c.chance(.3) else c.int(-(n - 1), n - 1)
        c.step('{!r}.link_parameter({!r}, {}) (move)'.format(node, x, index))
        names = [q.obj.name for q in node.kids]
        kids = list(node.kids)
        before = self.about_to_change(node)
        node.obj.link_parameter(x.obj, index)
        self.just_changed(before)
        node.kids.remove(x)
        node.kids.insert(index, x)
        check([q.obj.name for q in kids] == names, 'name-changed-without-clash', lambda: (names, [q.obj.name for q in kids]))
        self._settle(node)
        c.count('moves')

    def op_unlink(self):
        c = self.ctx
        rs = [r for r in self._on_roots() if isinstance(r, RNode)]
        ns = [n for r in rs for n in r.nodes() if n.kids and (len(n.kids) > 1 or n.parent is not None)]
        if not ns:
            return 'skip'
        node = c.pick(ns)
        x = c.pick(node.kids)
        if node.root.size == x.size:
            return 'skip'
        c.step('{!r}.unlink_parameter({!r})'.format(node, x))
        before = self.about_to_change(node)
        node.obj.unlink_parameter(x.obj)
        self.just_changed(before)
        node.kids.remove(x)
        x.parent = None
        self.roots.append(x)
        self._settle(node, x)
        c.count('unlinks')
        self.prune()

    def prune(self, limit=5):
        while len(self.roots) > limit:
            i = self.ctx.int(0, len(self.roots) - 1)
            if self.roots[i] is not self.main:
                self.off.discard(id(self.roots[i]))
                del self.roots[i]

    def op_illegal(self):
        c = self.ctx
        rs = [r for r in self._on_roots() if isinstance(r, RNode)]
        if not rs:
            return 'skip'
        node = c.pick(c.pick(rs).nodes())
        k = c.int(0, 5)
        if k == 0 and node.kids:
            x = c.pick(node.kids)
            what, f = 'link of a child again', lambda: node.obj.link_parameter(x.obj)
        elif k == 1:
            up, x = [node], node
            while x.parent is not None:
                x = x.parent
                up.append(x)
            x = c.pick(up)
            idx = c.pick([None, 0])
            what, f = 'link of itself or an ancestor', lambda: node.obj.link_parameter(x.obj, idx)
        elif k == 2:
            elsewhere = [x for x in node.root.pre()[1:] if x.parent is not node and not any(y is node for y in x.pre())]
            if not elsewhere:
                return 'skip'
            x = c.pick(elsewhere)
            idx = c.pick([None, 0])
            what, f = 'link of an element of the same hierarchy', lambda: node.obj.link_parameter(x.obj, idx)
        elif k == 3:
            cand = [x for r in self.roots for x in r.pre() if x.parent is not node]
            x = c.pick(cand)
            what, f = 'unlink of a stranger', lambda: node.obj.unlink_parameter(x.obj)
        elif k == 4:
            x = 'something'
            what, f = 'unlink of no parameter', lambda: node.obj.unlink_parameter('something')
        else:
            if node.parent is None:
                return 'skip'
            x = node
            # the same element twice into one hierarchy, from its own child's point of view
            what, f = 'link of the root into a child', lambda: node.obj.link_parameter(node.root.obj)
        c.step('illegal: {} {!r} {!r}'.format(what, node, x))
        ok, e = raises(HierarchyError, f)
        check(ok, 'illegal-structure-operation-accepted', lambda: what)
        c.count('illegal_refused')
        c.seen('illegal', what)

    def op_rename(self):
        c = self.ctx
        xs = [x for r in self.roots for x in r.pre()]
        x = c.pick(xs)
        new = c.pick(NAMES)
        old = x.obj.name
        sib = [y for y in (x.parent.kids if x.parent is not None else []) if y is not x]
        names = [y.obj.name for y in sib]
        c.step('rename {!r} to {!r}'.format(x, new))
        x.obj.name = new
        if adj(new) not in [adj(n) for n in names]:
            check(x.obj.name == new, 'rename-without-clash', lambda: (new, x.obj.name))
            check([y.obj.name for y in sib] == names, 'rename-changes-siblings', lambda: (names, [y.obj.name for y in sib]))
        c.count('renames')
        return old

    BAD = ['3x', 'a$b', '\xe4', 'x:y', 'a,b', 'a[0]', 'x=1', '', '%s', 'a&b', "it's", '{0}', '1']

    def op_badname(self):
        """names, which cannot be printed, are refused by hierarchies: nothing changes"""
        c = self.ctx
        bad = c.pick(self.BAD)
        if c.chance(.5):
            xs = [x for r in self.roots for x in r.pre() if x.parent is not None]
            if not xs:
                return 'skip'
            x = c.pick(xs)
            old = x.obj.name
            c.step('rename {!r} to {!r}: refused'.format(x, bad))

            def f():
                x.obj.name = bad
            ok, e = raises(NameError, f)
            check(ok, 'unprintable-name-accepted', lambda: (x, bad, e))
            check(x.obj.name == old, 'refused-rename-renames', lambda: (x.obj.name, old))
        else:
            rs = [r for r in self._on_roots() if isinstance(r, RNode)]
            free = [r for r in self._on_roots() if r is not self.main and not isinstance(r.obj, Model)]
            if not rs or not free:
                return 'skip'
            x = c.pick(free)
            rs = [r for r in rs if r is not x]
            if not rs or bad == '':
                return 'skip'
            node = c.pick(c.pick(rs).nodes())
            index = None if c.chance(.5) else c.int(-len(node.kids), len(node.kids))
            old = x.obj.name
            c.step('{!r}.link_parameter({!r} named {!r}, {}): refused'.format(node, x, bad, index))
            x.obj.name = bad
            ok, e = raises(NameError, lambda: node.obj.link_parameter(x.obj, index))
            check(ok, 'unprintable-name-accepted', lambda: (x, bad, e))
            check(x.obj.name == bad and not x.obj.has_parent(), 'refused-link-changes-the-part', lambda: (x.obj.name, x))
            x.obj.name = old
        c.count('names_refused')

    # copies ------------------------------------------------------------------
    def mirror(self, ref, obj):
        """a reference for a copy of ref, whose real object is obj"""
        if isinstance(ref, RLeaf):
            check(isinstance(obj, Param) and obj.shape == ref.shape, 'copy-structure', lambda: (ref, type(obj), getattr(obj, 'shape', None)))
            n = RLeaf(obj, ref.zk)
            check(obj.zk == ref.zk, 'copy-attributes')
            n.t = list(ref.t)
            n.fx = ref.fx.copy()
            check(same(n.v, ref.v), 'copy-values', lambda: (ref, ref.v, n.v))
            return n
        check(type(obj) is type(ref.obj) and len(obj.parameters) == len(ref.kids), 'copy-structure', lambda: (ref, obj.parameters))
        n = RNode(obj, [self.mirror(k, o) for k, o in zip(ref.kids, obj.parameters)])
        return n

    def op_copy(self):
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        c.step('copy of {!r}'.format(h))
        o = h.obj.copy()
        check(o is not h.obj and not o.has_parent(), 'copy-has-parent')
        n = self.mirror(h, o)
        for a, b in zip(h.pre(), n.pre()):
            check(a.obj.name == b.obj.name, 'copy-names', lambda: (a.obj.name, b.obj.name))
        self.roots.append(n)
        if not self.is_on(h):
            self.off.add(id(n))
        c.count('copies')
        self.copied(h, n)
        self.prune()

    def copied(self, h, n):
        """hook of checks"""

    def op_pickle(self):
        c = self.ctx
        r = c.pick(self.roots) if c.chance(.5) else self.main
        if r.size == 0:
            return 'skip'
        proto = c.pick([1, 2, 3, 4, 5, -1])
        how = c.pick(['buffer', 'file', 'open', 'dumps'])
        c.step('pickle {!r} {} protocol={}'.format(r, how, proto))
        if how == 'buffer':
            b = io.BytesIO()
            r.obj.pickle(b, proto)
            b.seek(0)
            o = paramz.load(b)
        elif how == 'dumps':
            o = pickle.loads(pickle.dumps(r.obj, proto))
        else:
            fd, path = tempfile.mkstemp(suffix='.pickle')
            os.close(fd)
            try:
                if how == 'file':
                    if c.chance(.3):
                        # an older file of this name is replaced
                        c.pick(self.roots).obj.pickle(path, proto) if c.chance(.7) else open(path, 'wb').write(b'old' * 9000)
                        c.count('files_replaced')
                    r.obj.pickle(path, proto)
                    o = paramz.load(path)
                else:
                    with open(path, 'wb') as fh:
                        r.obj.pickle(fh, proto)
                    with open(path, 'rb') as fh:
                        o = paramz.load(fh)
            finally:
                os.unlink(path)
        check(not o.has_parent(), 'loaded-has-parent')
        n = self.mirror(r, o)
        for a, b in zip(r.pre(), n.pre()):
            check(a.obj.name == b.obj.name, 'loaded-names', lambda: (a.obj.name, b.obj.name))
        if not self.is_on(r):
            self.off.add(id(n))
        c.count('pickles')
        self.copied(r, n)
        if c.chance(.5):  # go on with the loaded one
            i = [k for k, q in enumerate(self.roots) if q is r][0]
            self.roots[i] = n
            if r is self.main:
                self.main = n
            if c.chance(.5):
                self.roots.append(r)
        else:
            self.roots.append(n)
        self.prune()

    # update switch -------------------------------------------------------------
    def op_updates(self):
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        on = self.is_on(h)
        flag = (not on) if c.chance(.8) else on
        how = c.pick(['update_model', 'update_model', 'update_toggle', 'toggle_update'])
        if how != 'update_model':
            flag = not on
        c.step('{!r}.{}({})'.format(h, how, flag))
        check(h.obj.update_model() == on, 'update-switch-state', lambda: (h, on))
        if how != 'update_model':
            with quiet():       # the former name says that it is deprecated
                getattr(h.obj, how)()
        else:
            h.obj.update_model(flag)
        r = h.root
        self.off.discard(id(r))
        if not flag:
            self.off.add(id(r))
            self.frozen[id(r)] = [(n, n.obj.n_updates) for n in r.nodes() if hasattr(n.obj, 'n_updates')]
        for x in r.pre():
            check(x.obj.update_model() == flag, 'update-switch-state', lambda: (x, flag))
        c.count('switches')

    # optimizer -----------------------------------------------------------------
    def op_optimize(self):
        c = self.ctx
        r = self.any_root(model=True)
        if r is None:
            return 'skip'
        fr = self._free(r)
        if not np.all(np.isfinite(r.opt())):
            return 'skip'   # a value exactly at the border of its domain
        name = c.pick(['lbfgsb', 'scg', 'fmin_tnc', 'org-bfgs', 'simplex'])
        c.step('{!r}.optimize({!r}, max_iters=4)'.format(r, name))
        free = sum(1 for _ in fr)
        if free and self.is_on(r):
            f0 = float(r.obj.objective_function())
        o = r.obj.optimize(name, max_iters=4)
        if not free:
            check(o is None, 'optimize-of-nothing')
            return
        self.off.discard(id(r))
        x = np.array(o.x_opt, float)
        check(x.shape == (free,), 'optimize-solution-size')
        self.after_free_change(r)
        c.count('optimizes')

    def after_free_change(self, h):
        for l in h.leaves():
            got = np.array(l.obj.values, float).ravel()
            check(same(got[l.fx], l.v[l.fx]), 'fixed-element-changed',
                  lambda: '{!r}: {} was {}'.format(l, got[l.fx].tolist(), l.v[l.fx].tolist()))
            for i in range(l.v.size):
                if l.t[i] is not None and not l.fx[i]:
                    check(bool(reft.inside(l.t[i], got[i])), 'constrained-value-outside-domain', lambda: (l, i, l.t[i], got[i]))
            l.v[:] = got

    def op_restarts(self):
        c = self.ctx
        r = self.any_root(model=True)
        if r is None or not self.is_on(r) or not self._free(r):
            return 'skip'
        if any(l.t[i] == ('Square',) for l, i in self._free(r)) or not np.all(np.isfinite(r.opt())):
            return 'skip'
        n = c.int(1, 2)
        c.step('{!r}.optimize_restarts({}, max_iters=3)'.format(r, n))
        r.obj.optimize_restarts(n, verbose=c.chance(.3), robust=c.chance(.5), max_iters=3)
        self.after_free_change(r)
        c.count('restarts')

    def op_extreme(self):
        """an extreme optimizer vector; then back to a moderate one"""
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        fr = self._free(h)
        if not fr:
            return 'skip'
        big = [0., -0., 1e-300, -1e-300, 1., 20., 35.9, 36., 36.1, 40., 700., 709.9, 745.2, 1e4, 1e100, 1e308]
        x = np.array([c.pick(big) * c.pick([1, -1]) * (1 if c.chance(.5) else self.rng.uniform(.9, 1.)) for _ in fr])
        for k, (l, i) in enumerate(fr):
            if l.t[i] is None:
                x[k] = self.rng.uniform(-3, 3)
        c.step('{!r}.optimizer_array = {}'.format(h, x.tolist()))
        h.obj.optimizer_array = x
        for l in h.leaves():
            got = np.array(l.obj.values, float).ravel()
            check(same(got[l.fx], l.v[l.fx]), 'fixed-element-changed', lambda: (l, got, l.v))
        for k, (l, i) in enumerate(fr):
            v = float(l.obj.values.ravel()[i])
            if l.t[i] is not None:
                check(bool(reft.inside(l.t[i], v)), 'constrained-value-outside-domain',
                      lambda: '{!r}[{}] {}: {} for {}'.format(l, i, l.t[i], v, x[k]))
                c.count('extreme_values')
                c.seen('extreme', l.t[i], float(np.sign(x[k])), round(np.log10(abs(x[k]) + 1e-310)))
        y = np.array([float(reft.optval(l.t[i], self.rng)) for l, i in fr])
        c.step('{!r}.optimizer_array = {}'.format(h, np.round(y, 4).tolist()))
        h.obj.optimizer_array = y
        self._expect_opt(h, y, 'optimizer-vector-not-set')

    def op_tiny(self):
        """values of tiny (or huge) magnitude, as they are in the model after extreme steps; then moderate ones"""
        c = self.ctx
        h = self.any_handle()
        if h is None:
            return 'skip'
        fr = [(l, i) for l, i in self._free(h) if l.t[i] in (('Logexp',), ('NegativeLogexp',), ('Square',), ('Exponent',), ('NegativeExponent',))]
        if not fr:
            return 'skip'
        for l, i in fr:
            # (the exponential map is cut at exp(-36))
            v = 10. ** self.rng.uniform(-15 if 'Exponent' in l.t[i][0] else -120, -6) if c.chance(.8) else 10. ** self.rng.uniform(2, 9)
            v = -v if l.t[i][0].startswith('Negative') else v
            l.obj[np.unravel_index(i, l.shape)] = v
            l.v[i] = v
        c.step('{!r}: tiny values {}'.format(h, [float(l.v[i]) for l, i in fr]))
        for x in (h, h.root):
            got = np.array(x.obj.optimizer_array, float)
            exp = x.opt()
            check(got.shape == exp.shape and bool(np.all((np.abs(got - exp) <= 1e-6 + 1e-6 * np.abs(exp)) | ~np.isfinite(exp) |
                                                         [l.t[i] is not None and l.t[i][0] == 'Logistic' for l, i in self._free(x)])),
                  'optimizer-vector-stale', lambda: '{!r}: {} instead of {}'.format(x, got.tolist(), exp.tolist()))
        if np.all(np.isfinite(h.opt())):
            h.obj.optimizer_array = np.array(h.obj.optimizer_array, float).copy()
            for l, i in fr:
                g = float(l.obj.values.ravel()[i])
                check(abs(g - l.v[i]) <= 3e-6 * abs(l.v[i]), 'set-back-changes-value', lambda: '{!r}[{}] {}: {} instead of {}'.format(l, i, l.t[i], g, l.v[i]))
            c.count('tiny_values', len(fr))
        for l, i in fr:
            v = float(reft.interior(l.t[i], self.rng))
            l.obj[np.unravel_index(i, l.shape)] = v
        for l in h.leaves():
            for i in range(l.v.size):
                got = float(l.obj.values.ravel()[i])
                if (l, i) not in fr and not l.fx[i]:
                    check(abs(got - l.v[i]) <= 1e-7 * abs(l.v[i]) + 1e-9, 'set-back-changes-value', lambda: (l, i, got, l.v[i]))
                if not l.fx[i]:
                    l.v[i] = got

    def moderate(self, r):
        """all free values well inside their domains (for numerical work)"""
        for l, i in self._free(r):
            s = l.t[i]
            x = l.v[i] if s is None else float(reft.finv(s, l.v[i]))
            if not np.isfinite(x) or abs(x) > 6 or (s == ('Square',) and abs(x) < .05):
                return False
        return True

    def op_checkgrad(self):
        c = self.ctx
        r = self.any_root(model=True)
        if r is None or not self.is_on(r) or not self.moderate(r):
            return 'skip'
        h = self.any_handle(r)
        verbose = c.chance(.3)
        c.step('{!r}.checkgrad(verbose={})'.format(h, verbose))
        before = [l.v.copy() for l in r.leaves()]
        res = h.obj.checkgrad(verbose=verbose)
        check(bool(res), 'correct-gradient-rejected', lambda: (h, verbose))
        for l in r.leaves():
            got = np.array(l.obj.values, float).ravel()
            check(same(got[l.fx], l.v[l.fx]), 'fixed-element-changed', lambda: (l, got, l.v))
        self.approx(r.leaves(), before, 'checkgrad-changes-values')
        c.count('checkgrads')

    def op_print(self):
        h = self.any_handle()
        if h is None or not self.is_on(h):
            return 'skip'
        self.ctx.step('print {!r}'.format(h))
        str(h.obj)
        repr(h.obj)
        h.obj._repr_html_()
        self.ctx.count('prints')

    def op_calls(self):
        """ask for objective and gradient like an optimizer does (values stay at x_init)"""
        c = self.ctx
        r = self.any_root(model=True)
        if r is None or not self._free(r) or not self.is_on(r) or not self.moderate(r):
            return 'skip'
        c.step('{!r}: objective and gradient requests'.format(r))
        before = [l.v.copy() for l in r.leaves()]

        def todo(o, x, f_fp, f, fp):
            for k in range(c.int(1, 3)):
                y = x + self.rng.normal(0, .3, x.shape)
                w = c.int(0, 2)
                if w == 0:
                    f(y)
                elif w == 1:
                    fp(y)
                else:
                    f_fp(y)
        r.obj.optimize(Recorder(todo))
        for l in r.leaves():
            got = np.array(l.obj.values, float).ravel()
            check(same(got[l.fx], l.v[l.fx]), 'fixed-element-changed', lambda: (l, got, l.v))
        self.approx(r.leaves(), before, 'optimizer-solution-not-set')
        c.count('requests')

    OPS = dict(set=30, inplace=8, optset=10, optback=3, randomize=3, constrain=12, fix=8, unfix=5, unconstrain=6,
               link=6, move=3, unlink=4, illegal=2, rename=3, copy=2, pickle=2, updates=0, optimize=1, restarts=0, extreme=0, tiny=0, badname=0, badconstraint=0, checkgrad=1,
               print=1, calls=1)

    def run(self, nops, weights=None, monitors=(), ops=None):
        w = dict(self.OPS)
        w.update(weights or {})
        pairs = [(k, v) for k, v in w.items() if v > 0]
        # reading refreshes what was stale: in some worlds the monitors look only now and then (and at the end)
        rare = [m for m in monitors if not getattr(m, 'always', False)] if self.ctx.chance(.35) else []
        for m in monitors:
            if m not in rare:
                m(self, 'new')
        for k in range(nops):
            name = self.ctx.wpick(pairs)
            f = getattr(self, 'op_' + name)
            if f() == 'skip':
                continue
            self.ctx.count('op_' + name)
            self.ctx.count('operations')
            look = not rare or self.ctx.chance(.12)
            for m in monitors:
                if look or m not in rare:
                    m(self, name)
        for m in rare:
            m(self, 'end')
        if rare:
            self.ctx.count('worlds_seldom_looked_at')


def itext(idx):
    def one(i):
        if isinstance(i, slice):
            return '{}:{}{}'.format('' if i.start is None else i.start, '' if i.stop is None else i.stop,
                                    '' if i.step is None else ':{}'.format(i.step))
        if isinstance(i, np.ndarray):
            return str(i.tolist())
        return str(i) if i is not Ellipsis else '...'
    if isinstance(idx, tuple):
        return ','.join(one(i) for i in idx)
    return one(idx)
