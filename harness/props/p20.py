"""P20: tables from properties to indices, and windows on them"""
import copy, pickle
import numpy as np
from paramz.core.index_operations import ParameterIndexOperations as Table, ParameterIndexOperationsView as View
from paramz.transformations import Logexp, Logistic
from vcommon import check
LEVEL = 'exploration'
CASES = dict(quick=15000, thorough=60000)
EVAL = 'operations'
MINIMUM = dict(operations=60000, tables_compared=150000, windows_compared=60000, through_windows=10000, nested=1500, queries=8000, copies=2000,
               merges=1500, shifts=4000, removed_some=1500)
DISTINCT = 5000
RULE = 'distinct contents of a table reached by a history'
ASSUMPTIONS = ['indices are non-negative and inside the window they are given to', 'a nested window lies inside the window it is made of',
               'shifting through a window shifts the table from that position on']


class Eq(object):
    """equal by value"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Eq) and o.v == self.v

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Eq', self.v))

    def __repr__(self):
        return 'Eq({})'.format(self.v)


def keys(c):
    ks = [lambda: 'one', lambda: 'two', lambda: ('a', 1), lambda: None, lambda: 7, lambda: Eq(1), lambda: Eq(2), lambda: Logexp(),
          lambda: Logistic(0., 3.), lambda: 'fixed', lambda: frozenset([1])]
    k = int(c.rng.integers(2, 6))
    return [ks[i] for i in c.rng.permutation(len(ks))[:k]]


class Ref(object):
    """a table: dict of sets; shared by all windows"""
    def __init__(self):
        self.d = {}

    def put(self, k, idx):
        s = self.d.setdefault(k, set())
        s |= set(idx)
        if not s:
            del self.d[k]

    def drop(self, k, idx):
        s = self.d.get(k, set())
        r = s & set(idx)
        s -= r
        if k in self.d and not s:
            del self.d[k]
        return r


class Handle(object):
    """a table or a window on it, with what it has to show"""
    def __init__(self, obj, ref, lo=0, size=None, depth=0):
        self.obj, self.ref, self.lo, self.size, self.depth = obj, ref, lo, size, depth

    def window(self):
        hi = 10 ** 9 if self.size is None else self.lo + self.size
        return dict((k, set(i - self.lo for i in s if self.lo <= i < hi)) for k, s in self.ref.d.items()
                    if any(self.lo <= i < hi for i in s))

    def span(self):
        return 14 if self.size is None else self.size


def indices(c, n, least=0):
    """some local indices in one of many forms"""
    k = c.int(least, min(n, 6)) if n else 0
    vals = [int(i) for i in c.rng.integers(0, n, k)] if k else []
    form = c.pick(['list', 'array', 'array', 'tuple', 'int32', 'sorted', 'range', 'two', 'scalar', 'repeat', 'numpy ints'])
    if form == 'range' and n:
        a = c.int(0, n - 1)
        b = c.int(a, n)
        return np.arange(a, b), list(range(a, b))
    if form == 'scalar' and n and not least == 2:
        i = c.int(0, n - 1)
        return i, [i]
    if form == 'repeat' and vals:
        vals = vals + vals[:1]
        return c.pick([np.array(vals), list(vals)]), vals
    if form == 'list':
        return list(vals), vals
    if form == 'tuple':
        return tuple(vals), vals
    if form == 'int32':
        return np.array(vals, dtype=np.int32), vals
    if form == 'two' and len(vals) == 4:
        return np.array(vals).reshape(2, 2), vals
    if form == 'sorted':
        vals = sorted(set(vals))
        return np.array(vals, dtype=int), vals
    if form == 'numpy ints':
        return [np.int64(i) for i in vals], vals
    return np.array(vals, dtype=int), vals


def proper(ind, s, what):
    a = np.asarray(ind)
    check(a.dtype.kind in 'iu' and a.ndim == 1, 'not-an-index-array', lambda: '{}: {!r}'.format(what(), ind))
    check(a.tolist() == sorted(s), 'wrong-indices', lambda: '{}: {} instead of {}'.format(what(), a.tolist(), sorted(s)))


def compare(c, h, what):
    o, e = h.obj, h.window()
    txt = lambda: '{}; {} offset {} size {}'.format(what(), type(o).__name__, h.lo, h.size)
    items = list(o.items())
    check(len(items) == len(e) and len(set(k for k, _ in items)) == len(items) and all(k in e for k, _ in items), 'wrong-properties',
          lambda: '{}: {} instead of {}'.format(txt(), [k for k, _ in items], list(e)))
    for k, ind in items:
        proper(ind, e[k], txt)
    check(list(o.properties()) == [k for k, _ in items], 'properties-differ-from-items', txt)
    inds = list(o.indices())
    check(len(inds) == len(items) and all(np.array_equal(a, b) for a, (_, b) in zip(inds, items)), 'indices-differ-from-items', txt)
    check(o.size == sum(len(s) for s in e.values()), 'wrong-size', lambda: '{}: {}'.format(txt(), o.size))
    for k in e:
        proper(o[k], e[k], txt)
    c.count('windows_compared' if h.size is not None else 'tables_compared')


def query(c, h, ks, what):
    e = h.window()
    n = h.span()
    k = c.int(0, 6)
    q = [int(i) for i in c.rng.integers(0, n, k)] if n else []
    got = h.obj.properties_for(c.pick([q, np.array(q, dtype=int)]) if q else np.array(q, dtype=int))
    txt = lambda: '{}: properties_for({}) = {}'.format(what(), q, list(got))
    check(len(got) == len(q), 'wrong-answer-size', txt)
    for i, ps in zip(q, got):
        exp = [p for p in e if i in e[p]]
        check(len(ps) == len(exp) and all(any(p == x for x in exp) for p in ps) and all(any(p == x for p in ps) for x in exp),
              'wrong-properties-for', txt)
    uq = sorted(set(q), key=q.index)
    d = h.obj.properties_dict_for(np.array(uq, dtype=int))
    exp = dict((p, [i for i in uq if i in e[p]]) for p in e if any(i in e[p] for i in uq))
    check(set(d) == set(exp), 'wrong-properties-dict', lambda: (what(), uq, d, exp))
    for p in exp:
        a = np.asarray(d[p])
        check(a.dtype.kind in 'iu' and a.tolist() == exp[p], 'wrong-properties-dict', lambda: (what(), uq, d, exp))
    k = c.pick(ks)()
    proper(h.obj[k], e.get(k, ()), lambda: '{}: [{!r}]'.format(what(), k))
    c.count('queries')


def run_case(c):
    ks = keys(c)
    hs = []
    hist = c.history

    def table():
        r = Ref()
        if c.chance(.4):
            d = {}
            for k in ks:
                if c.chance(.6):
                    i, vals = indices(c, 12)
                    d[k()] = i
                    r.put(k(), vals)
            hs.append(Handle(Table(d), r))
            c.step('t{} = Table({})'.format(len(hs) - 1, d))
        else:
            hs.append(Handle(Table(), r))
            c.step('t{} = Table()'.format(len(hs) - 1))
        return hs[-1]
    table()
    for _ in range(c.int(10, 45)):
        what = lambda: hist[-1] if hist else ''
        op = c.wpick([('add', 22), ('remove', 14), ('window', 6 if len(hs) < 9 else 0), ('shift_right', 6), ('shift_left', 7), ('update', 6),
                      ('copy', 5), ('clear', 2), ('delete', 4), ('query', 12), ('table', 1), ('pickle', 2), ('forget', 3)])
        hi = c.int(0, len(hs) - 1)
        h = hs[hi]
        o, r = h.obj, h.ref
        n = h.span()
        e = h.window()
        c.count('operations')
        if h.size is not None:
            c.count('through_windows')
            if h.depth > 1:
                c.count('nested')
        k = c.pick(ks)()
        if op == 'add':
            i, vals = indices(c, n)
            c.step('{}.add({!r}, {!r})'.format(hi, k, i))
            keep = np.array(i).copy()
            o.add(k, i)
            check(np.array_equal(np.array(i), keep), 'argument-changed', what)
            r.put(k, [v + h.lo for v in vals])
        elif op == 'remove':
            i, vals = indices(c, n)
            c.step('{}.remove({!r}, {!r})'.format(hi, k, i))
            got = o.remove(k, i)
            exp = sorted(v - h.lo for v in r.drop(k, [v + h.lo for v in vals]))
            if exp:
                c.count('removed_some')
            proper(np.asarray(got), set(exp), lambda: what() + ' returns')
        elif op == 'window':
            size = c.int(0, n)
            off = c.int(0, n - size)
            c.step('{} = window of {} at {} size {}'.format(len(hs), hi, off, size))
            hs.append(Handle(View(o, off, size), r, h.lo + off, size, h.depth + 1))
        elif op == 'shift_right':
            a, s = c.int(0, n + (6 if c.chance(.2) else 0)), c.int(0, 4)
            c.step('{}.shift_right({}, {})'.format(hi, a, s))
            o.shift_right(a, s)
            for p in r.d:
                r.d[p] = set(i + s if i >= a + h.lo else i for i in r.d[p])
            c.count('shifts')
        elif op == 'shift_left':
            a, s = c.int(0, n + (6 if c.chance(.2) else 0)), c.int(0, 4)
            c.step('{}.shift_left({}, {})'.format(hi, a, s))
            o.shift_left(a, s)
            for p in list(r.d):
                t = set(i - s if i >= a + h.lo + s else i for i in r.d[p] if not a + h.lo <= i < a + h.lo + s)
                if t:
                    r.d[p] = t
                else:
                    del r.d[p]
            c.count('shifts')
        elif op == 'update':
            others = [x for x in hs if x.ref is not r]
            if not others:
                table()
                others = hs[-1:]
            x = c.pick(others)
            xe = x.window()
            top = max([max(s) for s in xe.values()] or [0])
            off = c.int(0, max(0, n - top - 1))
            low = min([min(s) for s in xe.values()] or [0])
            if low > 0 and c.chance(.3):
                off = -c.int(1, low) # towards the front
                c.count('merged_forward')
            if n and top + off >= n and h.size is not None:
                continue
            if not n and xe:
                continue
            c.step('{}.update({}, {})'.format(hi, hs.index(x), off))
            o.update(x.obj, off) if c.chance(.8) or off else o.update(x.obj)
            for p in xe:
                r.put(p, [i + off + h.lo for i in xe[p]])
            c.count('merges')
        elif op in ('copy', 'pickle'):
            if op == 'copy':
                how = c.pick(['copy', 'deepcopy', 'constructor'])
                c.step('{} = copy of {} by {}'.format(len(hs), hi, how))
                n_ = dict(copy=lambda: o.copy(), deepcopy=lambda: copy.deepcopy(o), constructor=lambda: Table(o))[how]()
                nr = Ref()
                nr.d = dict((p, set(s)) for p, s in e.items())
                hs.append(Handle(n_, nr))
            else:
                c.step('{} = pickled {}'.format(len(hs), hi))
                n_ = pickle.loads(pickle.dumps(o, c.pick([0, 1, 2, 4])))
                nr = Ref()
                nr.d = dict((p, set(s)) for p, s in r.d.items())
                hs.append(Handle(n_, nr, h.lo, h.size, h.depth))
            c.count('copies')
        elif op == 'clear':
            c.step('{}.clear()'.format(hi))
            o.clear()
            for p in list(e):
                r.drop(p, [i + h.lo for i in e[p]])
        elif op == 'delete':
            if not e:
                continue
            p = c.pick(list(e))
            c.step('del {}[{!r}]'.format(hi, p))
            del o[p]
            r.drop(p, [i + h.lo for i in e[p]])
        elif op == 'query':
            query(c, h, ks, what)
        elif op == 'table':
            table()
        elif op == 'forget' and len(hs) > 1:
            hs.pop(hi)
        for x in hs:
            compare(c, x, what)
        c.seen(sorted((repr(p), sorted(s)) for p, s in r.d.items()))
    c.samples = hist[-8:]
