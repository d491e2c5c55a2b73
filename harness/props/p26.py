"""P26: index tables added by users travel with their parameters"""
import re, os, sys, json, subprocess, tempfile, shutil
import numpy as np
import monitors as M, tagged
from paramz.core.index_operations import ParameterIndexOperations
from vcommon import check, same, raises
from world import World, RLeaf, RNode, adj
LEVEL = 'exploration'
CASES = dict(quick=1050, thorough=7000)
EVAL = 'tables_compared'
MINIMUM = dict(tables_compared=20000, nonempty_tables=8000, notes_added=2000, notes_removed=420, tables_replaced=100, op_link=300, op_unlink=200,
               op_move=150, copies=100, pickles=100, summaries=300, refused_tables=40, other_process=10)
DISTINCT = 1500
RULE = 'distinct non-empty tables (note -> positions) compared at some handle'
ASSUMPTIONS = ['every part of a hierarchy has the table, as link_parameter requires', 'notes are hashable and compare by value']
NOTES = ['prior', 'Ga(1, 2)', ('x', 1), 7, 'tie', 'fixed', 'N', 2.5]


class W(World):
    make_leaf = staticmethod(tagged.leaf)

    def node_class(self, model=False):
        if self.style == 'Z':
            return tagged.TZModel if model else tagged.TZNode
        return tagged.TRModel if model else tagged.TPlain

    def new_leaf(self, name=None):
        r = super(W, self).new_leaf(name)
        r.tags = [set() for _ in range(r.v.size)]
        if self.ctx.chance(.4):
            self.add(r)
        return r

    def mirror(self, ref, obj):
        n = super(W, self).mirror(ref, obj)
        if isinstance(ref, RLeaf):
            n.tags = [set(t) for t in ref.tags]
        return n

    def positions(self, n):
        c = self.ctx
        k = c.int(0, 4)
        idx = np.arange(n) if k == 0 else self.rng.choice(n, c.int(1, n), replace=False)
        if k == 2:
            idx = np.append(idx, idx[:1])   # twice the same
        return (idx.tolist() if k == 4 else idx), sorted(set(int(i) for i in idx))

    def els(self, h):
        return [(l, i) for l in h.leaves() for i in range(l.v.size)]

    def add(self, h):
        note = self.ctx.pick(NOTES)
        idx, pos = self.positions(h.size)
        self.ctx.step('{!r}.notes.add({!r}, {})'.format(h, note, list(idx)))
        h.obj.notes.add(note, idx)
        own = self.els(h)
        for p in pos:
            own[p][0].tags[own[p][1]].add(note)
        self.ctx.count('notes_added')

    def op_note(self):
        h = self.any_handle()
        if h is None:
            return 'skip'
        for _ in range(self.ctx.int(1, 2)):
            self.add(h)

    def op_forget(self):
        h = self.any_handle()
        if h is None:
            return 'skip'
        c = self.ctx
        own = self.els(h)
        there = sorted(set(t for l, i in own for t in l.tags[i]), key=str)
        note = c.pick(there) if there and c.chance(.85) else c.pick(NOTES)
        idx, pos = self.positions(h.size)
        has = [p for p in range(len(own)) if note in own[p][0].tags[own[p][1]]]
        k = c.int(0, 5)
        c.count('notes_removed')
        if k == 0:
            c.step('{!r}.notes.clear()'.format(h))
            h.obj.notes.clear()
            for l, i in own:
                l.tags[i].clear()
            return
        if k == 1 and has:
            c.step('del {!r}.notes[{!r}]'.format(h, note))
            del h.obj.notes[note]
            gone = has
        else:
            c.step('{!r}.notes.remove({!r}, {})'.format(h, note, list(idx)))
            r = h.obj.notes.remove(note, idx)
            gone = [p for p in pos if p in has]
            check(sorted(int(x) for x in np.ravel(r)) == gone, 'removed-positions', lambda: '{!r} {!r} {}: {} instead of {}'.format(h, note, idx, r, gone))
        for p in gone:
            own[p][0].tags[own[p][1]].discard(note)

    def op_table(self):
        """the root's table replaced, merged, or added twice"""
        c = self.ctx
        rs = [r for r in self.roots if isinstance(r, RNode) and r.size]
        if not rs:
            return 'skip'
        r = c.pick(rs)
        own = self.els(r)
        k = c.int(0, 3)
        if k == 0:
            x = c.pick(r.pre()).obj
            ok, e = raises(AttributeError, x.add_index_operation, 'notes', ParameterIndexOperations())
            check(ok, 'second-table-accepted')
            ok, e = raises(AttributeError, x.remove_index_operation, 'nothing of this name')
            check(ok, 'missing-table-removed')
            c.count('refused_tables')
            return
        new = ParameterIndexOperations()
        pos = []
        for _ in range(c.int(0, 3)):
            note = c.pick(NOTES)
            idx, ps = self.positions(r.size)
            new.add(note, idx)
            pos.append((note, ps))
        if k == 1:
            c.step('{!r}.notes = table of {}'.format(r, pos))
            r.obj.notes = new
            for l, i in own:
                l.tags[i].clear()
        else:
            h = c.pick([x for x in r.pre() if x.size])
            if h.size < r.size:
                new = ParameterIndexOperations()
                pos = [(n, [p for p in ps if p < h.size]) for n, ps in pos]
                for n, ps in pos:
                    if ps:
                        new.add(n, ps)
            own = self.els(h)
            c.step('{!r}.notes.update(table of {})'.format(h, pos))
            h.obj.notes.update(new)
        for note, ps in pos:
            for p in ps:
                own[p][0].tags[own[p][1]].add(note)
        c.count('tables_replaced')


def tables(w, op=None):
    c = w.ctx
    for r in w.roots:
        for x in r.pre():
            if not x.size:
                continue
            own = w.els(x)
            exp = {}
            for p, (l, i) in enumerate(own):
                for t in l.tags[i]:
                    exp.setdefault(t, []).append(p)
            t = x.obj.notes
            got = {}
            for note, ind in t.items():
                if np.size(ind):
                    check(note not in got, 'note-listed-twice')
                    got[note] = [int(i) for i in np.ravel(ind)]
            text = lambda: '{!r}: {} instead of {}'.format(x, got, exp)
            check(got == exp, 'notes-differ', text)
            check(set(t.properties()) == set(exp) and t.size == sum(len(e) for e in exp.values()), 'notes-differ', text)
            for note in exp:
                check([int(i) for i in t[note]] == exp[note], 'notes-differ', text)
            q = w.rng.integers(0, x.size, c.int(1, 3))
            ps = t.properties_for(q)
            check([sorted(map(str, y)) for y in ps] == [sorted(map(str, own[p][0].tags[own[p][1]])) for p in q], 'notes-of-positions', lambda: (x, q, ps))
            d = t.properties_dict_for(q)
            e = {}
            for p in q:
                for n in own[p][0].tags[own[p][1]]:
                    e.setdefault(n, []).append(int(p))
            check(dict((n, [int(i) for i in v]) for n, v in d.items()) == e, 'notes-of-positions', lambda: (x, q, d, e))
            c.count('tables_compared')
            if exp:
                c.count('nonempty_tables')
                c.seen(sorted(exp.items(), key=str))
    if c.chance(.25):
        summary(w)


def said(l, i=None):
    """the notes column of a leaf, or of one of its elements"""
    if i is not None:
        return sorted(str(t) for t in l.tags[i])
    n = {}
    for t in l.tags:
        for x in t:
            n[x] = n.get(x, 0) + 1
    return sorted(str(x) if k == l.v.size else '{' + str(x) + '}' for x, k in n.items())


def summary(w):
    """the summaries have a column for the table"""
    c = w.ctx
    r = c.pick([r for r in w.roots if r.size])
    if not w.is_on(r):
        return
    x = c.pick([x for x in r.pre() if x.size])
    if isinstance(x, RNode):
        s = x.obj.__str__(VT100=False) if c.chance(.3) else str(x.obj)
        rows = [re.sub('\x1b\\[[0-9;]*m', '', y).split('|') for y in s.split('\n') if '|' in y]
        exp = [said(l) for l in x.leaves()]
        head, rows = rows[0], rows[1:]
    else:
        if x.size > 500:
            return
        s = str(x.obj)
        rows = [re.sub('\x1b\\[[0-9;]*m', '', y).split('|') for y in s.split('\n') if '|' in y]
        exp = [said(x, i) for i in range(x.size)]
        head, rows = rows[0], rows[1:]
    check([y.strip() for y in head[2:]] == ['constraints', 'notes'], 'columns', lambda: (x, head))
    got = [y[3].strip() for y in rows]
    check(len(got) == len(exp) and all(len(g) == len(' '.join(e)) and all(q in g for q in e) for g, e in zip(got, exp)), 'notes-column',
          lambda: '{!r}: {} instead of {}'.format(x, got, exp))
    html = x.obj._repr_html_()
    check('>notes<' in html.replace(' ', ''), 'columns', lambda: html[:400])
    cells = re.findall(r'<td[^>]*>([^<]*)</td>', html)
    k = len(cells) // max(1, len(exp))
    got = [y.strip() for y in cells[k - 1::k]]
    check(k == 4 and len(got) == len(exp) and all(len(g) == len(' '.join(e)) and all(q in g for q in e) for g, e in zip(got, exp)), 'notes-column',
          lambda: 'html of {!r}: {} instead of {}'.format(x, got, exp))
    c.count('summaries')


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def elsewhere(w):
    c = w.ctx
    r = w.main
    if not r.size:
        return
    import child26
    d = tempfile.mkdtemp(prefix='verif-p26-')
    try:
        path, out = os.path.join(d, 'm.pickle'), os.path.join(d, 'out.json')
        r.obj.pickle(path, c.pick([1, 2, 3, 4, 5]))
        p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'child26.py'), path, out], env=dict(os.environ),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
        check(p.returncode == 0 and os.path.exists(out), 'loading-elsewhere-fails', lambda: p.stdout.decode()[-1500:])
        theirs = json.load(open(out))
        o = r.obj.copy()
        mine = [child26.report(o)]
        o.notes.add('later', [0])
        if o.size > 1:
            o.notes.remove('prior', [o.size - 1])
        mine.append(child26.report(o))
        check(json.loads(json.dumps(mine)) == theirs, 'notes-lost-elsewhere', lambda: (mine, theirs))
        c.count('other_process')
    finally:
        shutil.rmtree(d)


def run_case(ctx):
    w = W(ctx)
    tables(w)
    w.run(ctx.int(15, 40), dict(set=4, inplace=1, optset=2, constrain=8, fix=5, unfix=3, unconstrain=5, link=12, move=7, unlink=9, illegal=3,
                                rename=2, copy=4, pickle=4, randomize=1, updates=1, note=22, forget=12, table=5),
          [tables, M.constraints, M.values])
    if ctx.case % 18 == 0:
        elsewhere(w)
    ctx.samples = ctx.history[:12]
