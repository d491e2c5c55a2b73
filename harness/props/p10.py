"""P10: who is told about a change, how often, in which order, with which values in place"""
import gc
import numpy as np
from paramz import ObsAr, Param
from paramz.core.observable import Observable
import reft, zoo
from vcommon import check, same, raises
from world import World, RLeaf, RNode, itext
LEVEL = 'exploration'
CASES = dict(quick=9000, thorough=60000)
EVAL = 'events_compared'
MINIMUM = dict(events_compared=20000, sequences_compared=3000, leaf_changes=800, node_changes=500, optimizer_changes=400,
               list_operations=4000, list_notifications=2000, dead_observers=200, min_priority_calls=500,
               failing_observers=60, self_removals=60, selection_changes=150, with_updates_off=100)
DISTINCT = 1000
RULE = 'distinct (kind of change, tree shape, sequence of announced elements) and (observer list, minimum priority) judged'
ASSUMPTIONS = ['observers of nodes never have exactly the priority of the step to the parent (-inf)',
               'callbacks of observers which die do not hold them']


class Boom(Exception):
    pass


class Obs(object):
    """an observer, held by the harness only"""
    def __init__(self, i):
        self.i = i

    def told(self, me, which=None):
        pass


class SameAsAll(Obs):
    def __eq__(self, o):
        return True
    __hash__ = object.__hash__


# ---------------------------------------------------------------- plain lists
def lists(ctx):
    rng = ctx.rng
    kind = ctx.pick(['obsar', 'param', 'plain', 'view'])
    base = None
    if kind == 'obsar':
        o = ObsAr(rng.normal(size=4))
    elif kind == 'param':
        o = Param('p', rng.normal(size=(2, 2)))
    elif kind == 'plain':
        o = Observable()
    else:
        base = ObsAr(rng.normal(size=(3, 2)))
        o = base[1:]
    pool = [ctx.pick([Obs, SameAsAll])(i) for i in range(4)] + [ObsAr(np.arange(3.))]
    log = []
    cbs = []

    def cb(k):
        def f(me, which=None):
            log.append((k, me, which))
        return f
    cbs = [cb(k) for k in range(4)]
    ref = []   # (priority, observer or None if dead, callback index)
    prios = [-np.inf, -1000, -1, 0, 0, 0.5, 1, 1, 7, np.inf]

    def radd(p, ob, k):
        i = 0
        while i < len(ref) and not p > ref[i][0]:
            i += 1
        ref.insert(i, (p, ob, k))

    def notify(minp, which):
        del log[:]
        o.notify_observers(which, minp)
        exp = [k for p, ob, k in ref if minp is None or p > minp]
        check([k for k, _, _ in log] == exp, 'observers-called',
              lambda: '{} instead of {} (min_priority {}, list {})'.format([k for k, _, _ in log], exp, minp, [(p, k) for p, _, k in ref]))
        for k, me, wh in log:
            check(me is o and wh is (o if which is None else which), 'observer-arguments', lambda: (k, type(me), type(wh)))
        ctx.count('list_notifications')
        ctx.count('events_compared', len(exp))
        ctx.seen('list', [(p, k) for p, _, k in ref], minp)

    for step in range(ctx.int(10, 30)):
        w = ctx.wpick([('add', 8), ('remove', 3), ('removeall', 2), ('prio', 3), ('notify', 8), ('die', 2), ('off', 1), ('change', 3),
                       ('raise', 1), ('selfremove', 1), ('shown', 2)])
        ctx.count('list_operations')
        live = [x for x in pool if x is not None]
        ob = ctx.pick(live) if live else None
        k = ctx.int(0, 3)
        if w in ('add', 'remove', 'removeall', 'prio') and ob is None:
            continue
        if w == 'add':
            p = ctx.pick(prios)
            ctx.step('add({}, {}, {})'.format(pool_ix(pool, ob), k, p))
            if p == 0 and ctx.chance(.5):
                o.add_observer(ob, cbs[k])
            else:
                o.add_observer(ob, cbs[k], p)
            radd(p, ob, k)
        elif w == 'remove':
            ctx.step('remove({}, {})'.format(pool_ix(pool, ob), k))
            o.remove_observer(ob, cbs[k])
            ref = [r for r in ref if not (r[1] is ob and r[2] == k)]
        elif w == 'removeall':
            ctx.step('remove({})'.format(pool_ix(pool, ob)))
            o.remove_observer(ob)
            ref = [r for r in ref if r[1] is not ob]
        elif w == 'prio':
            p = ctx.pick(prios)
            ctx.step('change_priority({}, {}, {})'.format(pool_ix(pool, ob), k, p))
            o.change_priority(ob, cbs[k], p)
            ref = [r for r in ref if not (r[1] is ob and r[2] == k)]
            radd(p, ob, k)
        elif w == 'notify':
            minp = ctx.pick([None, None] + prios)
            if minp is not None:
                ctx.count('min_priority_calls')
            ctx.step('notify({})'.format(minp))
            notify(minp, ctx.pick([None, o, pool]))
        elif w == 'die':
            i = ctx.int(0, len(pool) - 1)
            if pool[i] is None:
                continue
            ctx.step('observer {} dies'.format(i))
            ctx.count('dead_observers', sum(1 for r in ref if r[1] is pool[i]))
            ref = [r for r in ref if r[1] is not pool[i]]
            pool[i] = ob = live = None
            del log[:]
            if ctx.chance(.2):
                gc.collect()
        elif w == 'off':
            ctx.step('updates off')
            o.set_updates(False)
            del log[:]
            o.notify_observers()
            if isinstance(o, np.ndarray):
                o[:] = 1.
            check(not log, 'told-while-updates-off', lambda: log)
            o.set_updates(True)
        elif w == 'change' and isinstance(o, np.ndarray):
            del log[:]
            ctx.step('assign')
            v = rng.normal()
            o[...] = v
            exp = [k for _, _, k in ref]
            check([k for k, _, _ in log] == exp, 'observers-called', lambda: (log, exp))
            if base is not None:
                del log[:]
                base[0] = v
                check([k for k, _, _ in log] == exp, 'observers-called', lambda: ('through the base', log, exp))
            ctx.count('events_compared', len(exp))
        elif w == 'raise':
            def bad(me, which=None):
                raise Boom()
            x = Obs(99)
            p = ctx.pick(prios)
            o.add_observer(x, bad, p)
            ctx.step('failing observer with priority {}'.format(p))
            del log[:]
            ok, e = raises(Boom, o.notify_observers)
            check(ok, 'error-of-observer-swallowed')
            exp = [k for pp, _, k in ref if pp >= p]
            check([k for k, _, _ in log] == exp, 'observers-called', lambda: (log, exp))
            o.remove_observer(x, bad)
            ctx.count('failing_observers')
            notify(None, None)
        elif w == 'selfremove':
            x = Obs(98)
            p = ctx.pick(prios)
            hit = []

            def once(me, which=None):
                hit.append(1)
                me.remove_observer(x)
            o.add_observer(x, once, p)
            ctx.step('observer with priority {} removes itself when told'.format(p))
            notify(None, None)
            check(len(hit) == 1, 'observers-called', lambda: hit)
            notify(None, None)
            check(len(hit) == 1, 'removed-observer-called', lambda: hit)
            ctx.count('self_removals')
        elif w == 'shown':
            check(len(o.observers) == len(ref), 'observer-list', lambda: (len(o.observers), len(ref)))
            got = list(o.observers)
            check(len(got) == len(ref) and all(a[0] == b[0] and a[1] is b[1] and a[2] == cbs[b[2]] for a, b in zip(got, ref)),
                  'observer-list', lambda: (got, ref))
            str(o.observers)
            del got
    notify(None, None)


def pool_ix(pool, ob):
    return [i for i, x in enumerate(pool) if x is ob][0]


# ----------------------------------------------------------------------- trees
class Watch(object):
    """observers at elements of a tree and the common event log"""
    def __init__(self, w, r):
        self.w = w
        self.obs = {}    # id(ref) -> [(priority, key, observer, callback)]
        self.k = 0
        self.fail = None
        zoo.RECORD[0] = True

    def add(self, x, prio):
        self.k += 1
        key = self.k

        def told(me, which=None):
            zoo.EVENTS.append(('told', key, me, which, np.array(x.root.obj.param_array, float).copy()))
            if self.fail == key:
                raise Boom()
        ob = Obs(key)
        x.obj.add_observer(ob, told, prio)
        l = self.obs.setdefault(id(x), [])
        i = 0
        while i < len(l) and not prio > l[i][0]:
            i += 1
        l.insert(i, (prio, key, ob, told))

    def remove(self, x):
        l = self.obs.get(id(x))
        if l:
            i = self.w.ctx.int(0, len(l) - 1)
            p, key, ob, told = l[i]
            if self.w.ctx.chance(.5):
                x.obj.remove_observer(ob, told)
            del l[i]    # (or it dies)
            del ob

    def of(self, x, which):
        """expected events of one element"""
        out = []
        done = isinstance(x, RLeaf)
        for p, key, _, _ in self.obs.get(id(x), ()):
            if not done and p <= -100:     # the update itself was there first
                out.append(('update', x))
                done = True
            out.append(('told', key, x, which))
        if not done:
            out.append(('update', x))
        return out

    def leaf_change(self, l):
        out = self.of(l, l)
        x = l.parent
        while x is not None:
            out += self.of(x, l)
            x = x.parent
        return out

    def whole(self, r):
        return self.node_change(r) if isinstance(r, RNode) else self.leaf_change(r)

    def node_change(self, n):
        out = []

        def post(x):
            if isinstance(x, RNode):
                for k in x.kids:
                    post(k)
            if x is not n:
                out.extend(self.of(x, x))
        post(n)
        out += self.of(n, n)
        x = n.parent
        while x is not None:
            out += self.of(x, n)
            x = x.parent
        return out


def fully_fixed(x, top):
    while x is not None and x is not top:
        if np.all(x.fixed()):
            return True
        x = x.parent
    return False


def compare(ctx, W, exp, kind, top=None, exact_me=True, skip_fixed=False):
    """exp: expected events; the new values are those of the reference"""
    got = list(zoo.EVENTS)
    tags = {x.obj.tag: x for r in W.w.roots for x in r.nodes()}
    keys = {key: (p, x) for r in W.w.roots for x in r.pre() for p, key, _, _ in W.obs.get(id(x), ())}

    def owner(e):
        if e[0] == 'told':
            return keys[e[1]][1] if e[1] in keys else None
        return tags.get(e[0])
    for e in got:
        check(owner(e) is not None, 'removed-or-strange-observer-called', lambda: '{}: {}'.format(kind, e[:2]))
    if skip_fixed:
        # elements with only fixed parts may be left out of an optimizer update
        got = [e for e in got if not fully_fixed(owner(e), top)]
        exp = [e for e in exp if not fully_fixed(keys[e[1]][1] if e[0] == 'told' else e[1], top)]

    def show(es):
        return [('told', e[1]) if e[0] == 'told' else ('update', (owner(e) if not isinstance(e[1], RNode) else e[1])) for e in es]
    check(len(got) == len(exp), 'announcements', lambda: '{}: {} instead of {}'.format(kind, show(got), show(exp)))
    for g, e in zip(got, exp):
        if e[0] == 'update':
            check(g[0] != 'told' and tags[g[0]] is e[1], 'announcements', lambda: '{}: {} instead of {}'.format(kind, show(got), show(exp)))
            check(same(g[1], e[1].vals()), 'update-before-new-values', lambda: '{}: {!r}: {} instead of {}'.format(kind, e[1], g[1], e[1].vals()))
        else:
            check(g[0] == 'told' and g[1] == e[1], 'announcements', lambda: '{}: {} instead of {}'.format(kind, show(got), show(exp)))
            for what, a, x in (('changed object', g[2], e[2]), ('origin', g[3], e[3])):
                ok = a is x.obj or (not exact_me and isinstance(x, RLeaf) and isinstance(a, np.ndarray) and np.may_share_memory(a, x.obj))
                check(ok, 'observer-arguments', lambda: '{}: {} is {}'.format(kind, what, type(a)))
            check(same(np.ravel(g[4]), e[2].root.vals()), 'told-before-new-values', lambda: (kind, g[1]))
        ctx.count('events_compared')
    ctx.count('sequences_compared')
    ctx.seen(kind, [e[1] if e[0] == 'told' else repr(e[1]) for e in exp])


def trees(ctx):
    w = World(ctx)
    w.run(ctx.int(0, 6), dict(pickle=0, copy=0, updates=0, unlink=0, optimize=0, checkgrad=0, calls=0, fix=12))
    r = w.main
    W = Watch(w, r)
    W.tags = 1000
    retag(W)
    prios = [-5000, -101, -100, -99, -1, 0, 0, 1, 3.5, 100, np.inf]
    try:
        for x in r.pre():
            for _ in range(ctx.int(0, 2)):
                W.add(x, ctx.pick(prios))
        for _ in range(ctx.int(6, 16)):
            one(ctx, w, W, prios)
    finally:
        zoo.RECORD[0] = False
        del zoo.EVENTS[:]


def retag(W):
    """copies have the tags of the originals: give every node its own"""
    seen = set()
    for r in W.w.roots:
        for n in r.nodes():
            if n.obj.tag in seen:
                W.tags += 1
                n.obj.tag = W.tags
            seen.add(n.obj.tag)


def one(ctx, w, W, prios):
    c = ctx
    r = w.main if c.chance(.6) else c.pick(w.roots)
    if not r.size:
        return
    k = c.wpick([('leaf', 8), ('node', 5), ('opt', 5), ('trigger', 2), ('inplace', 3), ('selection', 3), ('structure', 3), ('observers', 4),
                 ('off', 2), ('fail', 1), ('attr', 3), ('view', 3), ('constraints', 4)])
    if k in ('structure', 'constraints'):
        zoo.RECORD[0] = False
        if k == 'structure':
            f = c.pick([w.op_link, w.op_move, w.op_rename, w.op_unlink, w.op_unlink, w.op_copy, w.op_pickle])
        else:
            f = c.pick([w.op_fix, w.op_fix, w.op_unfix, w.op_constrain, w.op_unconstrain])
        keep = list(w.roots)
        f()
        for x in keep:      # (a loaded one can take the place of the original, whose observers go with it)
            if not any(x.root is y for y in w.roots):
                for y in x.root.pre():
                    W.obs.pop(id(y), None)
        w.gone = getattr(w, 'gone', []) + keep      # keeps ids unique
        retag(W)
        zoo.RECORD[0] = True
        del zoo.EVENTS[:]
        return
    del zoo.EVENTS[:]
    if k == 'observers':
        for _ in range(c.int(1, 3)):
            x = c.pick(r.pre())
            if c.chance(.6):
                W.add(x, c.pick(prios))
            else:
                W.remove(x)
        return
    leaf = c.pick(r.leaves())
    if k in ('leaf', 'inplace', 'attr', 'view', 'off', 'fail'):
        base = np.arange(leaf.v.size).reshape(leaf.shape)
        idx = w.basic_index(leaf.shape) if k == 'view' or c.chance(.6) else w.adv_index(leaf.shape)
        if k in ('attr', 'inplace'):
            idx = Ellipsis
        pos = base[idx]
        if np.size(pos) == 0 or (k == 'view' and np.ndim(pos) == 0):
            return
        pos = np.ravel(pos)
        new = np.array([float(reft.interior(leaf.t[i], w.rng)) for i in pos])
        val = new.reshape(np.shape(base[idx]))
        text = '{} {!r}[{}] = {}'.format(k, leaf, itext(idx), np.round(val, 3).tolist())
        c.step(text)
        if k == 'attr':
            if leaf.parent is None:
                return
            from world import adj
            leaf.v[pos] = new
            setattr(leaf.parent.obj, adj(leaf.name), val)
        elif k == 'inplace':
            p = leaf.obj
            d = val - leaf.v.reshape(leaf.shape)
            exp = leaf.v.reshape(leaf.shape) + d
            if np.any([s is not None for s in leaf.t]):
                return
            leaf.v[:] = exp.ravel()
            p += d
            del p
        elif k == 'view':
            h = leaf.obj[idx]
            leaf.v[pos] = new
            h[...] = val
        elif k == 'off':
            x = c.pick(r.pre())
            x.obj.update_model(False)
            check(not zoo.EVENTS, 'told-while-updates-off', lambda: zoo.EVENTS[:1])
            leaf.obj[idx] = val
            leaf.v[pos] = new
            if c.chance(.5):
                r.obj.param_array[...] = r.vals().reshape(r.obj.param_array.shape)
                r.obj.trigger_update()
            check(not zoo.EVENTS, 'told-while-updates-off', lambda: (text, zoo.EVENTS[:1]))
            c.pick(r.pre()).obj.update_model(True)
            c.count('with_updates_off')
            compare(c, W, W.whole(r), 'updates switched on')
            return
        elif k == 'fail':
            path = W.leaf_change(leaf)
            told = [e for e in path if e[0] == 'told']
            if not told:
                return
            W.fail = c.pick(told)[1]
            leaf.v[pos] = new

            def go():
                leaf.obj[idx] = val
            ok, e = raises(Boom, go)
            W.fail = None
            check(ok, 'error-of-observer-swallowed', lambda: text)
            check(same(leaf.obj.values.ravel(), leaf.v), 'values-lost-by-failing-observer', lambda: leaf)
            i = [n for n, e in enumerate(path) if e[0] == 'told' and zoo.EVENTS[-1][1] == e[1]][0]
            compare(c, W, path[:i + 1], 'failing observer')
            c.count('failing_observers')
            del zoo.EVENTS[:]
            r.obj.trigger_update()
            compare(c, W, W.whole(r), 'after failing observer')
            return
        else:
            leaf.v[pos] = new
            leaf.obj[idx] = val
        c.count('leaf_changes')
        compare(c, W, W.leaf_change(leaf), k, exact_me=k not in ('view',))
        return
    if k in ('node', 'trigger'):
        if isinstance(r, RLeaf):
            return
        n = c.pick(r.nodes())
        if not n.size:
            return
        if k == 'node':
            own = [(l, i) for l in n.leaves() for i in range(l.v.size)]
            pos = np.flatnonzero(w.rng.random(n.size) < .6)
            new = [float(reft.interior(own[p][0].t[own[p][1]], w.rng)) for p in pos]
            for p, v in zip(pos, new):
                own[p][0].v[own[p][1]] = v
            c.step('{!r}[{}] = {}'.format(n, pos.tolist(), np.round(new, 3).tolist()))
            if c.chance(.4):
                n.obj[:] = n.vals()
            else:
                n.obj[pos] = np.array(new)
        else:
            c.step('{!r}.trigger_update()'.format(n))
            n.obj.trigger_update()
        c.count('node_changes')
        compare(c, W, W.node_change(n), k)
        return
    if k == 'opt':
        x = c.pick(r.pre())
        fr = w._free(x)
        if not x.size:
            return
        y = np.array([float(reft.optval(l.t[i], w.rng)) for l, i in fr])
        c.step('{!r}.optimizer_array = {}'.format(x, np.round(y, 3).tolist()))
        x.obj.optimizer_array = y
        w._expect_opt(x, y, 'optimizer-vector-not-set')
        c.count('optimizer_changes')
        compare(c, W, W.whole(x), 'optimizer vector', top=x, skip_fixed=True)
        return
    # selections by name: everything concerned is told, at last with all values in place
    sel = w.regex_sel(r)
    if sel is None:
        return
    new = w.newvals(sel)
    c.step('set {} = {}'.format(sel.text, np.round(new, 3).tolist()))
    w.write(sel, new)
    sel.real[:] = new.reshape(sel.shape)
    last = {}
    told = set()
    for e in zoo.EVENTS:
        if e[0] == 'told':
            told.add(e[1])
        else:
            last[e[0]] = e[1]
    for l, _ in sel.els:
        for e in W.leaf_change(l):
            if e[0] == 'update':
                check(e[1].obj.tag in last, 'node-not-told', lambda: (sel.text, e[1]))
                check(same(last[e[1].obj.tag], e[1].vals()), 'update-before-new-values', lambda: (sel.text, e[1]))
            else:
                check(e[1] in told, 'observer-not-told', lambda: (sel.text, e[2]))
            c.count('events_compared')
    c.count('selection_changes')


def run_case(ctx):
    if ctx.case % 3 == 2:
        lists(ctx)
    else:
        trees(ctx)
    ctx.samples = ctx.history[:12]
