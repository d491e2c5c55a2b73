"""Monitors over the world: each compares what paramz shows with the reference."""
import numpy as np
from paramz.transformations import __fixed__
import reft, zoo
from vcommon import check, same, close
from world import RLeaf, RNode, adj


def values(w, op=None):
    """P01: every handle shows the block of values its position dictates"""
    for r in w.roots:
        for x in r.pre():
            exp = x.vals()
            got = np.asarray(x.obj.param_array)
            check(got.size == exp.size and same(np.ravel(got), exp), 'values-differ',
                  lambda: '{!r} shows {} instead of {}'.format(x, np.ravel(got).tolist(), exp.tolist()))
            if isinstance(x, RLeaf):
                check(x.obj.shape == x.shape and same(x.obj.values, x.v.reshape(x.shape)), 'leaf-values-differ', lambda: x)
            elif x.size:
                check(same(np.asarray(x.obj[:]), exp), 'node-index-differs', lambda: x)
            w.ctx.count('handles_compared')
    w.ctx.seen('state', [x.vals().round(6).tolist() for x in w.roots])


def gradients(w, op=None):
    """P01: gradients of all handles are one storage"""
    for r in w.roots:
        if isinstance(r, RLeaf) or not r.size:
            continue
        full = np.array(r.obj.gradient, float).ravel()
        check(full.size == r.size, 'gradient-size', lambda: (r, full.size, r.size))
        o = 0
        for x in r.pre():
            o = offset(x)
            g = np.asarray(x.obj.gradient)
            check(same(g.ravel(), full[o:o + x.size]), 'gradients-differ',
                  lambda: '{!r} shows {} instead of {}'.format(x, g.ravel().tolist(), full[o:o + x.size].tolist()))
            if isinstance(x, RLeaf):
                check(g.shape == x.shape, 'gradient-shape', lambda: (x, g.shape))


def offset(x):
    """position of x in the flat vector of its root"""
    o = 0
    while x.parent is not None:
        for k in x.parent.kids:
            if k is x:
                break
            o += k.size
        x = x.parent
    return o


def probe(w, op=None):
    """P01: a raw write through one handle is at once visible through all others; then restored"""
    c = w.ctx
    r = c.pick(w.roots)
    hs = [x for x in r.pre() if x.size]
    if not hs:
        return
    h = c.pick(hs)
    for kind in ('values', 'gradient'):
        if kind == 'gradient' and isinstance(r, RLeaf):
            continue
        if kind == 'values':
            arr = h.obj.values if isinstance(h, RLeaf) else h.obj.param_array
        else:
            arr = h.obj.gradient
        old = np.array(arr, float).copy()
        root0 = np.array(r.obj.param_array if kind == 'values' else r.obj.gradient, float).ravel().copy()
        mark = 1e6 + np.arange(h.size) + w.rng.random(h.size)
        arr[...] = mark.reshape(old.shape)
        exp = root0.copy()
        exp[offset(h):offset(h) + h.size] = mark
        bad = None
        for x in r.pre():
            g = x.obj.param_array if kind == 'values' else x.obj.gradient
            e = exp[offset(x):offset(x) + x.size]
            if not same(np.ravel(np.asarray(g)), e):
                bad = (x, np.ravel(np.asarray(g)).tolist(), e.tolist())
                break
        arr[...] = old
        check(bad is None, kind + '-not-shared', lambda: 'written through {!r}, seen {}'.format(h, bad))
        now = np.array(r.obj.param_array if kind == 'values' else r.obj.gradient, float).ravel()
        check(same(now, root0), kind + '-not-shared', lambda: 'restored through {!r}: {} instead of {}'.format(h, now, root0))
        c.count('probes')


def structure(w, op=None):
    """P02"""
    for r in w.roots:
        check(not r.obj.has_parent(), 'root-has-parent', lambda: r)
        pre = []
        r.obj.traverse(pre.append)
        exp = [x.obj for x in r.pre()]
        check(len(pre) == len(exp) and all(a is b for a, b in zip(pre, exp)), 'traversal',
              lambda: '{!r}: {} nodes instead of {}'.format(r, len(pre), len(exp)))
        for x in r.pre():
            check(x.obj.size == x.size, 'size', lambda: '{!r}: {} instead of {}'.format(x, x.obj.size, x.size))
            if isinstance(x, RNode):
                ks = x.obj.parameters
                check(len(ks) == len(x.kids) and all(a is k.obj for a, k in zip(ks, x.kids)), 'children',
                      lambda: '{!r}: {} instead of {}'.format(x, [k.name for k in ks], x.kids))
                check(x.obj.num_params == len(x.kids), 'num_params', lambda: x)
                if ks:
                    # found by identity, though arrays compare by their values
                    i = w.ctx.int(0, len(ks) - 1)
                    check(ks.index(ks[i]) == i and ks[i] in ks, 'child-not-found', lambda: x)
                    y = w.ctx.pick(r.pre())
                    check((y.obj in ks) == (y.parent is x), 'child-not-found', lambda: (x, y))
                fl = x.obj.flattened_parameters
                check(len(fl) == len(x.leaves()) and all(a is l.obj for a, l in zip(fl, x.leaves())), 'flattened', lambda: x)
                below = []
                x.obj.traverse(below.append)
                exb = [y.obj for y in x.pre()]
                check(len(below) == len(exb) and all(a is b for a, b in zip(below, exb)), 'traversal', lambda: x)
            if x.parent is not None:
                check(x.obj.has_parent(), 'parent-missing', lambda: x)
                names = []
                y = x
                while y is not None:
                    names.append(adj(y.obj.name))
                    y = y.parent
                check(x.obj.hierarchy_name() == '.'.join(reversed(names)), 'hierarchy-name',
                      lambda: (x.obj.hierarchy_name(), names[::-1]))
            w.ctx.count('nodes_compared')
        x = w.ctx.pick(r.pre())
        up = []
        x.obj.traverse_parents(up.append)
        own = set(id(y.obj) for y in x.pre())
        exp = set(id(y.obj) for y in r.pre()) - own
        check(len(up) == len(exp) and set(map(id, up)) == exp, 'traverse-parents',
              lambda: '{!r}: {} visited instead of {}'.format(x, len(up), len(exp)))
    w.ctx.seen('shape', [shape(r) for r in w.roots])


def shape(x):
    return x.shape if isinstance(x, RLeaf) else [shape(k) for k in x.kids]


def expected_constraints(x):
    d = {}
    o = 0
    for l in x.leaves():
        for i in range(l.v.size):
            if l.t[i] is not None:
                d.setdefault(l.t[i], []).append(o + i)
            if l.fx[i]:
                d.setdefault(__fixed__, []).append(o + i)
        o += l.v.size
    return d


def shown_constraints(obj):
    got = {}
    for p, ind in obj.constraints.items():
        k = p if p == __fixed__ else reft.spec_of(p)
        ind = np.asarray(ind).ravel()
        if ind.size == 0:
            continue
        check(k not in got, 'constraint-listed-twice', lambda: (k, got))
        got[k] = ind.tolist()
    return got


def constraints(w, op=None):
    """P03: the constraints reported at every level are those the calls dictate"""
    for r in w.roots:
        for x in r.pre():
            exp = expected_constraints(x)
            got = shown_constraints(x.obj)
            check(got == exp, 'constraints-differ', lambda: '{!r}: {} instead of {}'.format(x, got, exp))
            if exp:
                w.ctx.seen('constraints', sorted(exp.items(), key=str))
            w.ctx.count('constraint_tables_compared')
            for k, ind in exp.items():
                key = k if k == __fixed__ else reft.make(k)
                check(np.asarray(x.obj.constraints[key]).tolist() == ind, 'constraint-lookup', lambda: (x, k))
            props = x.obj.constraints.properties_for(np.arange(x.size)) if x.size else []
            for i, ps in enumerate(props):
                e = sorted([str(k) for k in exp if i in exp[k]])
                g = sorted([str(p if p == __fixed__ else reft.spec_of(p)) for p in ps])
                check(e == g, 'properties-for', lambda: '{!r}[{}]: {} instead of {}'.format(x, i, g, e))
            check(bool(x.obj.is_fixed) == bool(np.all(x.fixed())), 'is-fixed', lambda: x)


def domains(w, op=None):
    """P04"""
    for r in w.roots:
        for l in r.leaves():
            got = np.asarray(l.obj.values, float).ravel()
            for i in range(l.v.size):
                if l.t[i] is not None:
                    check(bool(reft.inside(l.t[i], got[i])), 'outside-domain', lambda: (l, i, l.t[i], got[i]))
                    w.ctx.count('domain_checks')
                    w.ctx.seen('dom', l.t[i], round(float(got[i]), 2))


def fixed(w, op=None):
    """P05: fixed elements are left out everywhere and the rest keeps its order"""
    for r in w.roots:
        for x in r.pre():
            fx = x.fixed()
            if not x.size:
                continue
            v = x.vals()
            got = np.asarray(x.obj.unfixed_param_array).ravel()
            check(same(got, v[~fx]), 'unfixed-values', lambda: '{!r}: {} instead of {}'.format(x, got, v[~fx]))
            oa = np.asarray(x.obj.optimizer_array)
            check(oa.shape == (int(np.sum(~fx)),), 'optimizer-vector-size', lambda: '{!r}: {} instead of {}'.format(x, oa.shape, np.sum(~fx)))
            al = list(x.obj.parameter_names_flat(include_fixed=True))
            fr = list(x.obj.parameter_names_flat())
            check(len(al) == x.size, 'names-size', lambda: (x, al))
            check(fr == [n for n, f in zip(al, fx) if not f], 'free-names', lambda: '{!r}: {} instead of {}'.format(x, fr, [n for n, f in zip(al, fx) if not f]))
            w.ctx.count('fixed_checks')
            if fx.any():
                w.ctx.count('fixed_checks_with_fixes')
                w.ctx.seen('fx', fx.tolist(), type(x).__name__)


def optvec(w, op=None):
    """P06: the optimizer vector at every level is the current state"""
    for r in w.roots:
        for x in r.pre():
            if x.size:
                optvec_one(w, x)


def optvec_one(w, x):
    got = np.asarray(x.obj.optimizer_array, float)
    v, s, fx = x.vals(), x.specs(), x.fixed()
    k = 0
    check(got.shape == (int(np.sum(~fx)),), 'optimizer-vector-size', lambda: '{!r}: {} instead of {}'.format(x, got.shape, int(np.sum(~fx))))
    for i in range(v.size):
        if fx[i]:
            continue
        g = got[k]
        k += 1
        e = v[i] if s[i] is None else float(reft.finv(s[i], v[i]))
        if s[i] is None:
            ok = g == e
        elif not np.isfinite(e) or (abs(e) > 15 and s[i][0] == 'Logistic'):
            ok = True   # rounding at the border of the domain
        else:
            ok = abs(g - e) <= 1e-7 + 1e-7 * abs(e)
        check(ok, 'optimizer-vector-stale', lambda: '{!r} element {}: {} instead of {} (value {}, {})'.format(x, i, g, e, v[i], s[i]))
    w.ctx.count('optimizer_vectors_compared')
    if v.size:
        w.ctx.seen('opt', got.round(5).tolist())


def fresh(w, op=None):
    """P11: derived state of every node equals a recomputation, while updates are on"""
    for r in w.roots:
        if id(r) in w.off:
            for n, k in w.frozen.get(id(r), ()):
                check(n.obj.n_updates == k, 'recomputed-while-updates-off', lambda: n)
                w.ctx.count('quiet_checks')
            continue
        fresh_tree(w, r)


def fresh_tree(w, r):
    for n in r.nodes():
        if isinstance(n.obj, (zoo.ZNode, zoo.ZModel)):
            own = [k for k in n.kids if isinstance(k, RLeaf)]
            o, gs = zoo.own_stat([(k.zk, k.v) for k in own])
            check(close(n.obj.stat, o), 'derived-state-stale', lambda: '{!r}: {} instead of {}'.format(n, n.obj.stat, o))
            for k, g in zip(own, gs):
                check(close(np.ravel(k.obj.gradient), g), 'gradient-stale',
                      lambda: '{!r}: {} instead of {}'.format(k, np.ravel(k.obj.gradient), g))
            w.ctx.count('nodes_fresh')
    o = objective(r)
    if o is not None:
        check(close(r.obj.objective_function(), o), 'objective-stale',
              lambda: '{!r}: {} instead of {}'.format(r, r.obj.objective_function(), o))
        w.ctx.count('objectives_fresh')
        w.ctx.seen('obj', round(o, 6))
        if isinstance(r.obj, zoo.RModel):
            _, gs = zoo.own_stat([(k.zk, k.v) for k in r.leaves()])
            g = np.concatenate(gs) if gs else np.empty(0)
            check(close(np.asarray(r.obj.gradient), g), 'gradient-stale', lambda: '{!r}: {} instead of {}'.format(r, r.obj.gradient, g))


def objective(r, vals=None):
    """objective of the root r from scratch (for the given flat values)"""
    if not isinstance(r, RNode) or not isinstance(r.obj, (zoo.ZModel, zoo.RModel)):
        return None
    vals = r.vals() if vals is None else vals
    part, o = {}, 0
    for l in r.leaves():
        part[id(l)] = vals[o:o + l.v.size]
        o += l.v.size
    if isinstance(r.obj, zoo.RModel):
        return zoo.own_stat([(l.zk, part[id(l)]) for l in r.leaves()])[0]
    return sum(zoo.own_stat([(k.zk, part[id(k)]) for k in n.kids if isinstance(k, RLeaf)])[0] for n in r.nodes())


def gradient(r, vals=None):
    """gradient of the objective of r with respect to the flat values"""
    vals = r.vals() if vals is None else vals
    part, o = {}, 0
    for l in r.leaves():
        part[id(l)] = vals[o:o + l.v.size]
        o += l.v.size
    out = {}
    if isinstance(r.obj, zoo.RModel):
        groups = [r.leaves()]
    else:
        groups = [[k for k in n.kids if isinstance(k, RLeaf)] for n in r.nodes()]
    for g in groups:
        for l, x in zip(g, zoo.own_stat([(l.zk, part[id(l)]) for l in g])[1]):
            out[id(l)] = x
    return np.concatenate([out[id(l)] for l in r.leaves()])


def names(w, op=None):
    """P16"""
    for r in w.roots:
        for n in r.pre():
            if isinstance(n, RNode):
                ns = [adj(k.obj.name) for k in n.kids]
                check(len(set(ns)) == len(ns), 'siblings-share-name', lambda: (n, ns))
                for k in n.kids:
                    got = getattr(n.obj, adj(k.obj.name), None)
                    check(got is k.obj, 'attribute-leads-elsewhere', lambda: (n, k, got))
                    w.ctx.count('attributes_followed')
                former = n.__dict__.setdefault('former', set())
                former.update(ns)
                for f in sorted(former - set(ns)):
                    check(not hasattr(n.obj, f), 'former-name-still-leads-somewhere', lambda: (n, f))
                    w.ctx.count('former_names_checked')
                exp = [l.path()[len(n.path()) + 1 if n.path() else 0:] for l in n.leaves()]
                got = [str(s) for s in n.obj.parameter_names(adjust_for_printing=True)]
                check(got == exp, 'parameter-names', lambda: '{!r}: {} instead of {}'.format(n, got, exp))
                w.ctx.seen('names', ns)
                raw = []
                for l in n.leaves():
                    y, q = l, []
                    while y is not n:
                        q.append(y.obj.name)
                        y = y.parent
                    raw.append('.'.join(reversed(q)))
                for got, e in ((n.obj.parameter_names(), raw), (n.obj.parameter_names(adjust_for_printing=False), raw),
                               (n.obj.parameter_names(add_self=True), [n.obj.name + '.' + q for q in raw]),
                               (n.obj.parameter_names(add_self=True, adjust_for_printing=True), [adj(n.obj.name) + '.' + q for q in exp]),
                               (n.obj.parameter_names(recursive=False), [k.obj.name for k in n.kids]),
                               (n.obj.parameter_names(recursive=False, adjust_for_printing=True), ns)):
                    got = list(got)
                    w.ctx.count('name_lists_compared')
                    check(got == e, 'parameter-names', lambda: '{!r}: {} instead of {}'.format(n, got, e))
                # with the nodes between: nothing is missing and nothing else is listed
                below = set(k.path()[len(n.path()) + 1 if n.path() else 0:] for k in n.pre() if k is not n)
                for own in (False, True):
                    got = [str(s) for s in n.obj.parameter_names(add_self=own, adjust_for_printing=True, intermediate=True)]
                    pre = adj(n.obj.name) + '.' if own else ''
                    check(set(pre + s for s in ns + exp) <= set(got) <= set(pre + s for s in below), 'parameter-names',
                          lambda: '{!r} with nodes between: {} instead of {}'.format(n, got, ns + exp))
            y, q = n, []
            while y is not None:
                q.append(y.obj.name)
                y = y.parent
            got = n.obj.hierarchy_name(adjust_for_printing=False)
            check(got == '.'.join(reversed(q)), 'hierarchy-name', lambda: (got, q[::-1]))
            check(n.obj.hierarchy_name() == '.'.join(adj(z) for z in reversed(q)), 'hierarchy-name', lambda: (n.obj.hierarchy_name(), q[::-1]))
            exp = []
            for l in n.leaves():
                full = adj(r.obj.name) + ('.' + l.path() if l.path() else '')
                if l.v.size > 1:
                    exp.extend('{}[{}]'.format(full, np.array(np.unravel_index(i, l.shape))) for i in range(l.v.size))
                else:
                    exp.append(full)
            got = list(n.obj.parameter_names_flat(include_fixed=True))
            check(got == exp, 'flat-names', lambda: '{!r}: {} instead of {}'.format(n, got, exp))
            fx = n.fixed()
            got = list(n.obj.parameter_names_flat())
            exf = [e for e, f in zip(exp, fx) if not f]
            check(got == exf, 'flat-names-free', lambda: '{!r}: {} instead of {}'.format(n, got, exf))
            w.ctx.count('name_lists_compared')
