"""P22: printed summaries"""
import re, html
import numpy as np
import monitors as M, reft, twin
from vcommon import check, same, close
from world import World, RLeaf, RNode, Sel, adj, itext
LEVEL = 'exploration'
CASES = dict(quick=600, thorough=4000)
EVAL = 'rows_checked'
MINIMUM = dict(rows_checked=6000, headers_checked=200, tables_text=1000, tables_html=500, snapshots_compared=1500, concatenations_printed=100, scaled=60)
DISTINCT = 1000
RULE = 'distinct printed cells (kind of table, value or shape, constraints) which were compared with the shadow state'
ASSUMPTIONS = ['the layout of the tables: one row per parameter or element, cells separated by | in text and td in HTML']


def clean(s):
    return re.sub('\x1b\\[[0-9;]*m', '', s)


def text_rows(s):
    return [[c.strip() for c in line.split('|')] for line in clean(s).split('\n') if '|' in line]


def html_rows(s):
    out = []
    for tr in re.findall('<tr>(.*?)</tr>', s, re.S):
        cells = re.findall('<t[dh][^>]*>(.*?)</t[dh]>', tr, re.S)
        out.append([html.unescape(re.sub('<[^>]*>', '', c)).strip() for c in cells])
    return out


def tokens(l, pos=None):
    """expected constraints of a leaf (pos None) or one element"""
    if pos is not None:
        return sorted(([] if l.t[pos] is None else [str(reft.make(l.t[pos]))]) + (['fixed'] if l.fx[pos] else []))
    d = {}
    for i in range(l.v.size):
        if l.t[i] is not None:
            d[l.t[i]] = d.get(l.t[i], 0) + 1
        if l.fx[i]:
            d['fixed'] = d.get('fixed', 0) + 1
    d = [(k if k == 'fixed' else str(reft.make(k)), n) for k, n in d.items()]
    return sorted(k if n == l.v.size else '{' + k + '}' for k, n in d)


def floats(s):
    return [float(x) for x in re.findall(r'-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf)', s)]


def node_table(w, n, rows, kind):
    head, rows = rows[0], rows[1:]
    check(head[0] == adj(n.obj.name) + '.' and len(head) == 3, 'header', lambda: (kind, head, n))
    ls = n.leaves()
    check(len(rows) == len(ls), 'number-of-rows', lambda: (kind, n, rows))
    base = len(n.path()) + 1 if n.path() else 0
    for row, l in zip(rows, ls):
        # blanks around names are not seen in tables
        check(adj(row[0]).strip('_') == adj(l.path()[base:]).strip('_'), 'printed-name', lambda: (kind, row, l))
        if l.v.size > 1:
            check(row[1].replace(' ', '') == str(l.shape).replace(' ', ''), 'printed-shape', lambda: (kind, row, l))
        else:
            fl = floats(row[1])
            check(len(fl) == 1 and close(fl[0], l.v[0], 1e-5, 6e-9 if abs(l.v[0]) >= 1e-4 else 1e-300), 'printed-value', lambda: (kind, row, l.v))
        check(sorted(row[2].split()) == tokens(l), 'printed-constraints', lambda: '{} {!r}: {} instead of {}'.format(kind, l, row, tokens(l)))
        w.ctx.count('rows_checked')
        w.ctx.seen(kind, row[1], row[2])


def element_table(w, rows, els, kind, text, name=None):
    """els: [(leaf, positions)]; one header per leaf"""
    k = 0
    for l, pos in els:
        check(k < len(rows), 'number-of-rows', lambda: (kind, text, rows))
        full = l.root.obj.name if l.parent is None else adj(l.root.obj.name) + '.' + l.path()
        check(adj(rows[k][1]).strip('_') == adj(full).strip('_') if l.parent is None else rows[k][1] == full, 'header', lambda: (kind, rows[k], full))
        k += 1
        for p in pos:
            check(k < len(rows), 'number-of-rows', lambda: (kind, text, rows))
            row = rows[k]
            e = [int(i) for i in np.unravel_index(p, l.shape)]
            check([int(i) for i in re.findall(r'-?\d+', row[0])] == e, 'printed-index', lambda: (kind, text, row, e))
            check(close(float(row[1]), l.v[p], 1e-6, 6e-9), 'printed-value', lambda: (kind, text, row, l.v[p]))
            check(sorted(row[2].split()) == tokens(l, p), 'printed-constraints', lambda: '{} {}: {} instead of {}'.format(kind, text, row, tokens(l, p)))
            w.ctx.count('rows_checked')
            w.ctx.seen(kind, row[1], row[2])
            k += 1
    check(k == len(rows), 'number-of-rows', lambda: (kind, text, rows))


def header(w, r, s, kind):
    s = clean(s)
    if kind == 'html':
        d = dict(re.findall(r'<b>([^<]*)</b>: ([^<]*)<br>', s))
        d['Name'] = d.get('Model')
    else:
        d = dict(re.findall(r'^([A-Z][A-Za-z ]*?) *: (.*)$', s, re.M))
    check(d.get('Name') == r.obj.name, 'model-name', lambda: (kind, d))
    check(int(d['Number of Parameters']) == r.size, 'number-of-parameters', lambda: (kind, d, r.size))
    check(int(d['Number of Optimization Parameters']) == int(np.sum(~r.fixed())), 'number-of-free-parameters', lambda: (kind, d, int(np.sum(~r.fixed()))))
    check(d['Updates'] == str(w.is_on(r)), 'update-state', lambda: (kind, d))
    o = float(d['Objective'])
    check(close(o, float(r.obj.objective_function()), 1e-9, 1e-9), 'printed-objective', lambda: (kind, d))
    if w.is_on(r):
        check(close(o, M.objective(r), 1e-7, 1e-8), 'printed-objective', lambda: (kind, d, M.objective(r)))
    w.ctx.count('headers_checked')


def show(w, op=None):
    c = w.ctx
    rs = [r for r in w.roots if r.size]
    if not rs:
        return
    r = c.pick(rs)
    x = c.pick(r.pre()) if c.chance(.7) else r
    if not x.size:
        return
    before = twin.state(w, r, False)
    updates = [n.obj.n_updates for n in r.nodes()]
    isobj = isinstance(r, RNode) and isinstance(r.obj, M.zoo.Model)
    obs = [len(list(y.obj.observers)) for y in r.pre()]
    what = c.pick(['text', 'text', 'html', 'selection', 'concat', 'repr', 'other'])
    c.step('print {} of {!r}'.format(what, x))
    o = x.obj
    model = isobj and x is r
    if what == 'text':
        vt = c.chance(.5)
        s = str(o) if vt else o.__str__(VT100=False)
        if isinstance(x, RNode):
            if model:
                header(w, r, s, 'text')
            node_table(w, x, text_rows(s), 'text')
        else:
            element_table(w, text_rows(s), [(x, range(x.v.size))], 'text', repr(x))
        c.count('tables_text')
    elif what == 'html':
        s = o._repr_html_()
        if isinstance(x, RNode):
            if model:
                header(w, r, s, 'html')
            node_table(w, x, html_rows(s), 'html')
        else:
            s2 = s.replace('</b></th>\n', '</b></th>')
            element_table(w, html_rows(s2), [(x, range(x.v.size))], 'html', repr(x))
        c.count('tables_html')
    elif what in ('selection', 'concat'):
        sel = w.leaf_sel(r, ('slice', 'adv')) if what == 'selection' else w.regex_sel(r)
        if sel is not None:
            before = twin.state(w, r, False)
            if sel.kind in ('slice', 'adv'):
                kind = c.pick(['text', 'html'])
                s = str(sel.real) if kind == 'text' else sel.real._repr_html_().replace('</b></th>\n', '</b></th>')
                element_table(w, text_rows(s) if kind == 'text' else html_rows(s), sel.els, 'selection', sel.text)
                c.count('tables_' + kind)
            elif sel.kind == 'concat':
                s = str(sel.real)
                element_table(w, text_rows(s), sel.els, 'concatenation', sel.text)
                repr(sel.real)
                c.count('concatenations_printed')
    elif what == 'repr':
        s = repr(o)
        if isinstance(x, RLeaf):
            nums = floats(re.sub(r'(shape|dtype)=.*', '', clean(s).split('\n', 1)[1].replace('Param(', '')))
            check(len(nums) == x.v.size and close(nums, x.v, 1e-4, 1e-6), 'printed-value', lambda: (s, x.v))
    else:
        str(o.constraints)
        if isinstance(x, RNode):
            list(o.parameter_names_flat())
        if model:
            str(o.optimization_runs)
            for run in o.optimization_runs:
                str(run)
        if isinstance(x, RNode):
            try:
                import pydot
            except ImportError:
                pydot = None
            if pydot is not None:
                G = o.build_pydot()
                if G is not None:
                    check(len(G.get_nodes()) >= len(x.pre()), 'graph-incomplete', lambda: (len(G.get_nodes()), x))
                    c.count('graphs')
    d = twin.equal(before, twin.state(w, r, False))
    check(d is None, 'printing-changes', lambda: (what, d))
    check(updates == [n.obj.n_updates for n in r.nodes()], 'printing-updates', lambda: (what, x))
    check(obs == [len(list(y.obj.observers)) for y in r.pre()], 'printing-observes', lambda: (what, x))
    c.count('snapshots_compared')


class W(World):
    def op_scale(self):
        """small values, shown with their leading digits where a single value is shown"""
        c = self.ctx
        ls = [l for l in c.pick(self.roots).leaves() if l.v.size and not any(t is not None for t in l.t)]
        one = [l for l in ls if l.v.size == 1]
        if not ls:
            return 'skip'
        l = c.pick(one if one and c.chance(.7) else ls)
        v = l.v * 10. ** self.rng.uniform(-12, 1)
        c.step('{!r} = {}'.format(l, v.tolist()))
        l.obj[...] = v.reshape(l.shape)
        l.v[:] = v
        c.count('scaled')


def run_case(ctx):
    w = W(ctx)
    w.run(ctx.int(12, 30), dict(set=16, inplace=3, constrain=20, fix=14, unfix=8, unconstrain=8, link=5, move=3, unlink=4,
                                rename=5, updates=3, print=0, scale=5), [show, show])
    ctx.samples = ctx.history[:12]
