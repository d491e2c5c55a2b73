"""P27: the graph drawn of a hierarchy shows its parts, their order of dependence and all observers"""
import numpy as np
import monitors as M, twin
from vcommon import check, same
from world import World, RLeaf, RNode
LEVEL = 'exploration'
CASES = dict(quick=1200, thorough=8000)
EVAL = 'graphs_compared'
MINIMUM = dict(graphs_compared=6000, nodes_drawn=30000, foreign_observers=540, partial_graphs=2000, op_link=300, op_unlink=200, copies=50, pickles=50)
DISTINCT = 400
RULE = 'distinct (structure, observers) whose graph was compared edge by edge'
ASSUMPTIONS = ['pydot is installed', 'parts are told apart by their identity, as the graph does']


class Named(object):
    def __init__(self, k):
        self.name = 'watcher {}'.format(k)


class Unnamed(object):
    def __str__(self):
        return 'nameless watcher'


class W(World):
    watchers = None

    def op_watch(self):
        c = self.ctx
        x = self.any_handle(empty=True)
        if self.watchers is None:
            self.watchers = []
        mine = [q for q in self.watchers if q[0] is x.obj]
        if mine and c.chance(.35):
            q = c.pick(mine)
            c.step('{!r}: observer removed'.format(x))
            q[0].remove_observer(q[1], q[2])
            self.watchers = [p for p in self.watchers if p is not q]
            return
        k = c.int(0, 3)
        if k <= 1:
            o = Named(len(self.watchers))
        elif k == 2:
            o = Unnamed()
        else:
            o = c.pick(c.pick(self.roots).pre()).obj    # parts may watch each other

        def f(me, which=None):
            pass
        c.step('{!r}: observed by {}'.format(x, getattr(o, 'name', o)))
        x.obj.add_observer(o, f, c.int(-2, 0))
        self.watchers.append((x.obj, o, f))
        c.count('foreign_observers')

    def op_copy(self):
        if any(isinstance(o, (M.zoo.Param, M.zoo.Parameterized)) for _, o, _ in self.watchers or ()):
            return 'skip'
        return super(W, self).op_copy()

    def op_pickle(self):
        if any(isinstance(o, (M.zoo.Param, M.zoo.Parameterized)) for _, o, _ in self.watchers or ()):
            return 'skip'
        return super(W, self).op_pickle()


def graph(w, op=None):
    c = w.ctx
    rs = [r for r in w.roots if isinstance(r, RNode)]
    for r in rs[:3]:
        one(w, r)
        c.count('graphs_compared')
    r = c.pick(rs)
    x = c.pick(r.nodes())
    one(w, x)
    c.count('graphs_compared')
    c.count('partial_graphs')


def one(w, x):
    G = x.obj.build_pydot()
    text = lambda: '{!r}\n{}'.format(x, G.to_string())
    nodes = {}
    for n in G.get_node_list():
        nodes.setdefault(str(n.get_name()), []).append((n.get('shape'), n.get('label')))
    parts = x.pre()
    exp = {}
    for p in parts:
        exp.setdefault(str(id(p.obj)), set()).add(('trapezium' if isinstance(p, RLeaf) else 'box', p.obj.name))
    edges = []
    for p in parts:
        me = str(id(p.obj))
        if isinstance(p, RNode):
            edges += [(me, str(id(k.obj)), None) for k in p.kids]
            edges.append((me, me, 'darkorange2'))
        if p.parent is not None:
            edges.append((me, str(id(p.parent.obj)), 'darkorange2'))
        for q, o, f in w.watchers or ():
            if q is p.obj:
                edges.append((me, str(id(o)), 'darkorange2'))
                exp.setdefault(str(id(o)), set()).add((None, o.name if hasattr(o, 'name') else str(o)))
    if x.parent is not None:
        exp.setdefault(str(id(x.parent.obj)), set()).add((None, x.parent.obj.name))
    check(set(nodes) == set(exp), 'parts-drawn', lambda: '{}: {} instead of {}'.format(text(), nodes, exp))
    for k, e in exp.items():
        check(set(nodes[k]) <= e and (not [q for q in e if q[0]] or [q for q in nodes[k] if q[0]]), 'part-drawn-wrongly', lambda: (text(), k, nodes[k], e))
    got = [(str(e.get_source()), str(e.get_destination()), e.get('color')) for e in G.get_edge_list()]
    check(sorted(got, key=str) == sorted(edges, key=str), 'edges-drawn', lambda: '{}: {} instead of {}'.format(text(), sorted(got, key=str), sorted(edges, key=str)))
    # children in their order
    for p in parts:
        if isinstance(p, RNode):
            me = str(id(p.obj))
            check([d for s, d, col in got if s == me and col is None] == [str(id(k.obj)) for k in p.kids], 'order-of-children', text)
    w.ctx.count('nodes_drawn', len(parts))
    w.ctx.seen(M.shape(x), [(parts.index(p), repr(o)[:20]) for q, o, f in w.watchers or () for p in parts if p.obj is q])


def untouched(w, op=None):
    """drawing changes nothing"""
    r = w.ctx.pick([r for r in w.roots if isinstance(r, RNode)])
    before = twin.state(w, r)
    up = [getattr(n.obj, 'n_updates', None) for n in r.nodes()]
    r.obj.build_pydot()
    d = twin.equal(before, twin.state(w, r))
    check(d is None and up == [getattr(n.obj, 'n_updates', None) for n in r.nodes()], 'drawing-changes-the-model', lambda: d)


def run_case(ctx):
    w = W(ctx)
    graph(w)
    w.run(ctx.int(12, 30), dict(set=3, inplace=1, optset=1, constrain=2, fix=2, unfix=1, unconstrain=1, link=14, move=6, unlink=10, illegal=4,
                                rename=6, copy=3, pickle=3, randomize=1, updates=1, watch=14, calls=1, checkgrad=1, optimize=1), [graph, untouched])
    ctx.samples = ctx.history[:12]
