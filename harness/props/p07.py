"""P07: the constraints as changes of variables"""
import gc, copy, pickle
import numpy as np
from paramz import transformations as T
from paramz import domains as D
import reft
from vcommon import check, same, close
LEVEL = 'exploration'
CASES = dict(quick=7500, thorough=30000)
EVAL = 'values_checked'
MINIMUM = dict(values_checked=30000, gradients_checked=10000, log_jacobians_checked=5000, identities_checked=2000,
               rejected=200, extreme_values=5000, own_classes=50, close_bounds=5000)
DISTINCT = 3000
RULE = 'distinct (constraint, decimal magnitude and sign of the value, law) evaluated, and lifetime operations'
ASSUMPTIONS = ['a bound itself, up to rounding, counts as inside',
               'inverse laws where the inverse is representable: within 36 for exponentials, 1e-8 away from bounds']
KIND = dict(Logexp='positive', Exponent='positive', Square='positive', NegativeLogexp='negative', NegativeExponent='negative', Logistic='bounded')
DOM = dict(positive=D._POSITIVE, negative=D._NEGATIVE, bounded=D._BOUNDED)


def bounds(c):
    k = c.int(0, 4)
    if k == 0:
        return c.pick(reft.BOUNDS)
    if k == 1:
        lo = float(np.round(c.rng.normal(0, 3), 2))
        return lo, lo + float(np.round(c.rng.uniform(.01, 10), 2)) + .01
    if k == 2:
        return 0., float(10. ** c.int(-3, 8))
    if k == 3:
        m = float(10. ** c.int(-2, 6))
        return -m, m
    return float(c.int(-5, 2)), float(c.int(3, 9))


def shaped(c, v):
    """the same values in another memory layout"""
    k = c.int(0, 3)
    if k == 0:
        return v.copy()
    if k == 1:
        b = np.empty((v.size, 2))
        b[:, 0] = v
        return b[:, 0]
    if k == 2:
        return v[::-1].copy()[::-1]
    return np.array(v, order='F')


def keep(f, *args):
    """call and check that the arguments are left alone"""
    old = [np.array(a).copy() for a in args]
    r = np.asarray(f(*args), float)
    for a, b in zip(args, old):
        check(same(np.asarray(a), b), 'changes-its-argument', lambda: (f, b.tolist(), np.asarray(a).tolist()))
    return r


def laws(c, spec, t):
    rng = c.rng
    n = spec[0]
    lo, up = spec[1:] if n == 'Logistic' else (None, None)
    scale = max(abs(lo), abs(up)) if n == 'Logistic' else 1.
    check(t.domain == DOM[KIND[n]], 'domain', lambda: t.domain)
    # ---- optimizer space
    x = np.concatenate([rng.uniform(-5, 5, 12), rng.uniform(-35, 35, 8), rng.uniform(-.01, .01, 3), [0.]])
    if n == 'Square':
        x = np.abs(x)
    x = shaped(c, x)
    y = keep(t.f, x)
    e = reft.f(spec, x)
    check(y.shape == x.shape and close(y, e, 1e-9, 1e-12 * scale), 'mapping', lambda: (spec, x.tolist(), y.tolist(), e.tolist()))
    check(bool(np.all(reft.inside(spec, y))), 'outside-domain', lambda: (spec, x.tolist(), y.tolist()))
    dist = np.inf if n != 'Logistic' else np.minimum(y - lo, up - y)
    ok = np.ones(x.shape, bool) if n != 'Logistic' else (dist > 1e-8) & (dist > 1e-8 * scale)
    if n == 'NegativeLogexp' or n == 'Logexp':
        ok = np.abs(x) < 36
    back = keep(t.finv, y)
    tol = 1e-8 + 1e-8 * np.abs(x)
    check(bool(np.all(np.abs(back - x)[ok] <= np.broadcast_to(tol, x.shape)[ok])), 'inverse-after-mapping', lambda: (spec, x[ok].tolist(), back[ok].tolist()))
    g = rng.normal(0, 2, x.shape)
    got = keep(t.gradfactor, y, g)
    exp = g * reft.dfdx_at(spec, x)
    sl = ok if n == 'Logistic' else np.ones(x.shape, bool)
    # rounding of y - lo, up - y
    gtol = 1e-7 * np.abs(exp) + 1e-9 * np.abs(g) * np.maximum(1., scale)
    check(got.shape == x.shape and bool(np.all((np.abs(got - exp) <= gtol)[sl])), 'gradient-factor',
          lambda: (spec, x.tolist(), got.tolist(), exp.tolist()))
    c.count('gradients_checked', x.size)
    # by differences of the mapping itself
    m = np.abs(x) < 8
    h = 1e-5
    num = (np.asarray(t.f(x + h), float) - np.asarray(t.f(x - h), float)) / (2 * h) * g
    check(bool(np.all((np.abs(num - got) <= 1e-5 * (np.abs(got) + np.abs(g) * scale * 1e-3) + 1e-6 * np.abs(g) * (1 + scale))[m])),
          'gradient-factor-not-the-slope', lambda: (spec, x[m].tolist(), got[m].tolist(), num[m].tolist()))
    # ---- model space
    k = 16
    if n == 'Logistic':
        z = lo + (up - lo) * rng.uniform(1e-3, 1 - 1e-3, k)
    else:
        z = 10. ** rng.uniform(-7, 7, k)
        if 'Exponent' not in n:
            z[6:10] = 10. ** rng.uniform(-150, -7, 4)
        z[:6] = rng.uniform(.1, 5, 6)
        if KIND[n] == 'negative':
            z = -z
    z = shaped(c, z)
    u = keep(t.finv, z)
    eu = reft.finv(spec, z)
    check(u.shape == z.shape and close(u, eu, 1e-7, 1e-7), 'inverse', lambda: (spec, z.tolist(), u.tolist(), eu.tolist()))
    w = keep(t.f, u)
    check(close(w, z, 1e-7, 1e-9 * scale), 'mapping-after-inverse', lambda: (spec, z.tolist(), w.tolist()))
    # ---- log Jacobian
    lj = t.log_jacobian(z)
    provided = n in ('Logexp', 'Exponent', 'NegativeExponent') or np.ndim(lj) > 0
    if provided:
        lj = keep(t.log_jacobian, z)
        ej = np.log(np.abs(reft.dfdx(spec, z)))
        check(lj.shape == z.shape and close(lj, ej, 1e-6, 1e-8), 'log-jacobian', lambda: (spec, z.tolist(), lj.tolist(), ej.tolist()))
        lg = t.log_jacobian_grad(z)
        if n in ('Logexp', 'Exponent', 'NegativeExponent') or np.ndim(lg) > 0:
            lg = keep(t.log_jacobian_grad, z)
            if n in ('Logexp', 'NegativeLogexp'):
                eg = np.sign(z) / np.expm1(np.abs(z))
            elif 'Exponent' in n:
                eg = 1. / z
            elif n == 'Square':
                eg = .5 / z
            else:
                eg = 1. / (z - lo) - 1. / (up - z)
            check(lg.shape == z.shape and close(lg, eg, 1e-6, 1e-9), 'log-jacobian-gradient', lambda: (spec, z.tolist(), lg.tolist(), eg.tolist()))
        c.count('log_jacobians_checked', z.size)
    # ---- extremes
    big = np.array([c.pick([0., 1e-300, 36., 36.0000001, 37., 299., 300., 301., 700., 709., 710., 745., 746., 1e3, 1e5, 1e15, 1e150]) *
                    c.pick([1, -1]) for _ in range(8)])
    yb = keep(t.f, big)
    check(bool(np.all(np.isfinite(yb) | (n == 'Square'))) and not np.any(np.isnan(yb)), 'mapping-not-finite', lambda: (spec, big.tolist(), yb.tolist()))
    check(bool(np.all(reft.inside(spec, yb))), 'outside-domain', lambda: (spec, big.tolist(), yb.tolist()))
    if n in ('Logexp', 'NegativeLogexp'):
        sg = 1. if n == 'Logexp' else -1.
        check(bool(np.all((sg * yb)[big > 36.5] == big[big > 36.5])), 'mapping', lambda: (spec, big.tolist(), yb.tolist()))
        check(bool(np.all(sg * yb[big < -36.5] <= 1e-15)), 'mapping', lambda: (spec, big.tolist(), yb.tolist()))
        # small values are as exact as large ones
        lx = np.concatenate([-rng.uniform(5, 40, 4), -rng.uniform(36, 700, 6)])
        ly = keep(t.f, lx)
        check(bool(np.all(np.abs(ly - sg * np.exp(lx)) <= 1e-2 * np.exp(lx))) and close(ly / reft.f(spec, lx), np.ones(lx.size), 1e-9),
              'mapping', lambda: (spec, lx.tolist(), ly.tolist()))
        check(close(keep(t.finv, ly), lx, 1e-8), 'inverse-after-mapping', lambda: (spec, lx.tolist(), ly.tolist()))
        check(close(keep(t.gradfactor, ly, np.ones(lx.size)) / reft.dfdx_at(spec, lx), np.ones(lx.size), 1e-9), 'gradient-factor',
              lambda: (spec, lx.tolist()))
    if n == 'Logistic':
        check(close(yb[big > 40], np.full((big > 40).sum(), up), 1e-12, 1e-12 * scale) and
              close(yb[big < -40], np.full((big < -40).sum(), lo), 1e-12, 1e-12 * scale), 'mapping', lambda: (spec, big.tolist(), yb.tolist()))
    c.count('extreme_values', big.size)
    # ---- starting values
    s = np.concatenate([rng.normal(0, 5, 6), 10. ** rng.uniform(-8, 8, 4) * c.pick([-1, 1]), z[:3],
                        [0.] if n != 'Logistic' else [lo, up, 2 * lo - up, 2 * up - lo]])
    s = s.reshape(-1, 1) if c.chance(.3) else s
    i1 = keep(t.initialize, s)
    check(i1.shape == s.shape and bool(np.all(reft.inside(spec, i1))), 'start-outside-domain', lambda: (spec, s.tolist(), i1.tolist()))
    ins = reft.inside(spec, s)
    if n == 'Logistic':
        ins = (s >= lo) & (s <= up)
    check(same(i1[ins], s[ins]), 'start-inside-changed', lambda: (spec, s.tolist(), i1.tolist()))
    check(same(keep(t.initialize, i1), i1), 'start-moved-again', lambda: (spec, s.tolist(), i1.tolist()))
    check(bool(np.all(np.isfinite(np.asarray(t.finv(i1[i1 != 0] if n != 'Logistic' else i1), float)))), 'start-without-optimizer-value', lambda: (spec, i1.tolist()))
    for what, v in (('x', x), ('z', z), ('big', big), ('s', s.ravel())):
        c.count('values_checked', v.size)
        for q in v[:8]:
            c.seen(n if n != 'Logistic' else (n, round(np.log10(up - lo))), what, float(np.sign(q)), int(np.round(np.log10(abs(q) + 1e-310))))


class Own(T.Logistic):
    pass


class OwnPositive(T.Logexp):
    pass


def neighbours(c):
    """bounds close to each other are not the same bounds"""
    b = bounds(c)
    big = float(10. ** c.int(12, 16))
    cand = [(b[0], b[1]), (b[0], b[1] * (1 + 1e-6) + 1e-9), (b[0], float(np.nextafter(b[1], np.inf))), (b[0] - 1e-9, b[1]),
            (float(np.nextafter(b[0], -np.inf)), b[1]), (0., 1e-9), (0., 3e-9), (1e-9, 3e-9), (-big, 2.), (-big, 2.25), (-1e16, 2.), (-1e16, 3.),
            (2., 1e17), (3., 1e17), (-b[1], -b[0]), (b[0], b[1] + abs(b[1]) + 1)]
    made = {}
    for k in range(c.int(3, 10)):
        lo, up = c.pick(cand)
        if not lo < up:
            continue
        c.step('Logistic({!r}, {!r})'.format(lo, up))
        t = T.Logistic(lo, up)
        check((t.lower, t.upper) == (lo, up), 'other-bounds', lambda: ((lo, up), t.lower, t.upper))
        check(t is made.get((lo, up), t), 'second-object', lambda: (lo, up))
        check(all(t is not o for q, o in made.items() if q != (lo, up)), 'other-bounds', lambda: (lo, up))
        made[lo, up] = t
        c.count('identities_checked')
        c.count('close_bounds')
        c.seen('neighbours', len(made), lo < 0, round(np.log10(up - lo)))
    for (lo, up), t in made.items():
        check((t.lower, t.upper) == (lo, up), 'bounds-changed', lambda: ((lo, up), t.lower, t.upper))


def lifetimes(c):
    """identity of constraints over creation, rejection, dropping and pickling in any order"""
    alive = {}
    pool = [(0., 1.), (-1., 2.), (0, 1), (2., 3.), (-2.5, -2.25), (0., 100.)] + [bounds(c) for _ in range(2)]
    for k in range(c.int(6, 25)):
        w = c.int(0, 7)
        b = c.pick(pool)
        key = (float(b[0]), float(b[1]))
        if w <= 2:
            how = c.int(0, 2)
            t = [lambda: T.Logistic(*b), lambda: T.Logistic(lower=b[0], upper=b[1]), lambda: T.Logistic(b[0], upper=b[1])][how]()
            c.step('Logistic{}'.format(b))
            check(type(t) is T.Logistic, 'other-class', lambda: (type(t), b))
            check((t.lower, t.upper) == key, 'other-bounds', lambda: (b, t.lower, t.upper))
            if key in alive:
                check(t is alive[key], 'second-object', lambda: b)
            alive[key] = t
            c.count('identities_checked')
        elif w == 3 and alive:
            key = c.pick(sorted(alive))
            c.step('drop {}'.format(key))
            t = None
            del alive[key]
            if c.chance(.5):
                gc.collect()
        elif w == 4:
            bad = c.pick([(1., 1.), (2., 1.), (0., -5.), (b[1], b[0])])
            c.step('rejected Logistic{}'.format(bad))
            try:
                T.Logistic(*bad)
            except Exception as e:
                c.count('rejected')
                if c.chance(.5):
                    keepit = e
            else:
                check(False, 'bounds-accepted', lambda: bad)
        elif w == 5 and alive:
            key = c.pick(sorted(alive))
            t = alive[key]
            how = c.int(0, 3)
            c.step('pickle or copy {} {}'.format(key, how))
            u = [lambda: pickle.loads(pickle.dumps(t, c.int(0, 5))), lambda: copy.copy(t), lambda: copy.deepcopy(t),
                 lambda: copy.deepcopy({'a': [t]})['a'][0]][how]()
            check(u is t, 'second-object', lambda: (key, how))
            c.count('identities_checked')
        elif w == 6:
            spec = c.pick(reft.PLAIN)
            t = reft.make(spec)
            check(type(t).__name__ == spec[0], 'other-class', lambda: (spec, t))
            check(t is reft.make(spec) and pickle.loads(pickle.dumps(t, c.int(0, 5))) is t and copy.deepcopy(t) is t, 'second-object', lambda: spec)
            c.count('identities_checked')
        else:
            a = Own(*b)
            check(type(a) is Own and a is Own(*b) and (a.lower, a.upper) == (float(b[0]), float(b[1])), 'other-class', lambda: (type(a), b))
            p = OwnPositive()
            check(type(p) is OwnPositive and p is OwnPositive(), 'other-class', lambda: type(p))
            check(type(T.Logexp()) is T.Logexp and type(T.Logistic(*b)) is T.Logistic, 'other-class', lambda: b)
            alive[(float(b[0]), float(b[1]))] = T.Logistic(*b)
            c.count('own_classes')
        for key, t in alive.items():
            check((t.lower, t.upper) == key, 'bounds-changed', lambda: (key, t.lower, t.upper))
            x = np.array([-1., 0., 1.])
            check(close(t.f(x), reft.f(('Logistic',) + key, x)), 'mapping-changed', lambda: key)
    c.seen('life', tuple(c.history[-6:]))


def run_case(ctx):
    specs = [ctx.pick(reft.PLAIN) for _ in range(2)] + [('Logistic',) + bounds(ctx)]
    for spec in specs:
        ctx.step('laws of {}'.format(spec))
        laws(ctx, spec, reft.make(spec))
    lifetimes(ctx)
    neighbours(ctx)
    ctx.samples = ctx.history[:8]
