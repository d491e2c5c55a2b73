"""Comparison of a copy (or loaded object) with its original."""
import numpy as np
import monitors as M, reft
from paramz.transformations import __fixed__
from vcommon import check, same, close
from world import RLeaf, RNode


def state(w, r, full=True):
    """everything observable of a hierarchy part"""
    out = []
    for x in r.pre():
        o = x.obj
        d = dict(name=o.name, size=o.size, values=np.array(o.param_array, float).ravel().tolist(),
                 constraints=M.shown_constraints(o), flat=[str(n) for n in o.parameter_names_flat(include_fixed=True)],
                 free=[str(n) for n in o.parameter_names_flat()], cls=type(o).__name__, update=o.update_model(),
                 gradient=np.array(o.gradient, float).ravel().tolist())
        if isinstance(x, RNode):
            d['kids'] = [k.name for k in o.parameters]
            d['text'] = str(o) if full and o.update_model() else None
        else:
            d['shape'] = o.shape
            d['values_nd'] = np.array(o.values).tolist()
        out.append(d)
    return out


def equal(a, b, skip=()):
    """first difference of two states"""
    if len(a) != len(b):
        return 'number of elements', len(a), len(b)
    for x, y in zip(a, b):
        for k in x:
            if k in skip:
                continue
            if k in ('values', 'gradient', 'values_nd'):
                ok = same(np.array(x[k], float), np.array(y.get(k), float))
            else:
                ok = x[k] == y.get(k)
            if not ok:
                return k, x[k], y.get(k)
    return None


def belongings(h, a, b, n, key):
    """attributes set by the user"""
    x, y = a.obj, b.obj
    for k in ('u_none', 'u_text', 'u_array', 'u_dict', 'u_state', 'u_flag', '_u_cache', '_u_array_'):
        check(hasattr(y, k), key + '-loses-attribute', lambda: '{!r}: {}'.format(b, k))
        p, q = getattr(x, k), getattr(y, k)
        check(same(p, q) if k == 'u_array' else p == q, key + '-attribute-differs', lambda: '{!r}: {} {} instead of {}'.format(b, k, q, p))
        check(k in ('u_none', 'u_text', 'u_flag', '_u_array_') or p is not q, key + '-shares-attribute', lambda: '{!r}: {}'.format(b, k))
    check(same(np.array(x.u_obs), np.array(y.u_obs)) and not np.shares_memory(x.u_obs, y.u_obs), key + '-attribute-differs', lambda: '{!r}: u_obs'.format(b))
    check(y.u_same[0] is y.u_obs, key + '-alias-leads-elsewhere', lambda: '{!r}: u_same'.format(b))
    if hasattr(x, 'u_first'):
        check(x.u_first == y.u_first and x.u_first is not y.u_first, key + '-attribute-differs', lambda: '{!r}: u_first'.format(b))
    if hasattr(x, 'u_alias'):
        below = [c for c, d in zip(h.pre(), n.pre()) if c.obj is x.u_alias]
        if below:
            exp = [d for c, d in zip(h.pre(), n.pre()) if c is below[0]][0]
            check(y.u_alias is exp.obj, key + '-alias-leads-elsewhere', lambda: '{!r}: {!r}'.format(b, exp))


def arrays(obj):
    out = []
    obj.traverse(lambda p: out.extend([np.asarray(p.param_array), np.asarray(p.gradient)]))
    return out


def copied(w, h, n, key):
    """right after copying h to n"""
    c = w.ctx
    for a in arrays(h.obj):
        for b in arrays(n.obj):
            check(not (a.size and b.size and np.shares_memory(a, b)), key + '-shares-memory', lambda: (h, a.size, b.size))
    mine = set(id(x.obj) for x in n.pre())
    up = []
    n.obj.traverse(up.append)
    check(set(map(id, up)) == mine, key + '-structure')
    check(not mine & set(id(y.obj) for r in w.roots for y in r.pre() if y.root is not n), key + '-structure', 'shared elements')
    for a, b in zip(h.pre(), n.pre()):
        check(b is n or b.obj.has_parent(), key + '-structure', lambda: b)
        ca, cb = M.shown_constraints(a.obj), M.shown_constraints(b.obj)
        check(ca == cb and cb == M.expected_constraints(b), key + '-constraints', lambda: '{!r}: {} instead of {}'.format(b, cb, ca))
        for p in b.obj.constraints.properties():
            if p != __fixed__:
                check(p is reft.make(reft.spec_of(p)), key + '-constraint-identity', lambda: p)
        na, nb = a.obj.parameter_names_flat(include_fixed=True), b.obj.parameter_names_flat(include_fixed=True)
        check(len(na) == len(nb), key + '-names')
        check(b.obj.update_model() == a.obj.update_model(), key + '-update-switch', lambda: (a, b))
        oa, ob = np.array(a.obj.optimizer_array), np.array(b.obj.optimizer_array)
        check(same(oa, ob), key + '-optimizer-vector', lambda: '{!r}: {} instead of {}'.format(b, ob, oa))
        c.count('twin_elements_compared')
        belongings(h, a, b, n, key)
    o = M.objective(h) if h.parent is None else None
    if o is not None and w.is_on(h):
        check(same(np.array(h.obj.objective_function()), np.array(n.obj.objective_function())), key + '-objective',
              lambda: (h.obj.objective_function(), n.obj.objective_function()))
        check(same(np.array(h.obj.gradient), np.array(n.obj.gradient)), key + '-gradient', lambda: (h.obj.gradient, n.obj.gradient))
        c.count('twin_objectives')
    c.seen(key, str(M.shape(h)), sorted(M.expected_constraints(h).items(), key=str), w.is_on(h))
