"""
Reference transformations: written from their mathematical definitions, not from
the code under test.  A constraint is described by a *spec* (a tuple).
"""
import numpy as np
from paramz import transformations as T

PLAIN = [('Logexp',), ('Exponent',), ('NegativeLogexp',), ('NegativeExponent',), ('Square',)]
BOUNDS = [(0., 1.), (-1., 2.), (-3., -0.5), (2., 10.), (-10., 10.), (0.25, 0.75)]
OWN = [('Tilt',), ('OwnLogexp',)]
ALL = PLAIN + [('Logistic',) + b for b in BOUNDS] + OWN


class Tilt(T.Transformation):
    """a constraint written by a user: onto the whole line, steeper above than below"""
    def f(self, x):
        return x + np.hypot(1., x) / 2.

    def finv(self, f):
        return f - np.hypot(f, np.sqrt(.75)) * 2. / 3. + f / 3.

    def gradfactor(self, f, df):
        x = self.finv(f)
        return df * (1. + x / (2. * np.hypot(1., x)))

    def initialize(self, f):
        return f

    def __str__(self):
        return 'tilt'


class OwnLogexp(T.Logexp):
    """derived of a provided one, but another constraint"""
    def __str__(self):
        return 'own+ve'


def make(spec):
    return {'Tilt': Tilt, 'OwnLogexp': OwnLogexp}.get(spec[0], getattr(T, spec[0], None))(*spec[1:])


def spec_of(t):
    n = type(t).__name__
    return (n, t.lower, t.upper) if n == 'Logistic' else (n,)


def kind(spec):
    return 'Logexp' if spec[0] == 'OwnLogexp' else spec[0]


def softplus(x):
    return np.logaddexp(0., x)


def f(spec, x):
    x = np.asarray(x, float)
    n = kind(spec)
    if n == 'Logexp':
        return softplus(x)
    if n == 'NegativeLogexp':
        return -softplus(x)
    if n in ('Exponent', 'NegativeExponent'):
        r = np.exp(np.clip(x, -36., 36.))
        return r if n == 'Exponent' else -r
    if n == 'Square':
        return x * x
    if n == 'Tilt':
        return x + np.hypot(1., x) / 2.
    if n == 'Logistic':
        lo, up = spec[1:]
        return lo + (up - lo) / (1. + np.exp(-np.clip(x, -300., None)))
    raise KeyError(spec)


def finv(spec, y):
    y = np.asarray(y, float)
    n = kind(spec)
    if n == 'NegativeLogexp':
        y, n = -y, 'Logexp'
    if n == 'NegativeExponent':
        y, n = -y, 'Exponent'
    if n == 'Logexp':  # log(exp(y) - 1) = y + log(1 - exp(-y))
        return y + np.log(-np.expm1(-y))
    if n == 'Exponent':
        return np.log(y)
    if n == 'Square':
        return np.sqrt(y)
    if n == 'Tilt':
        return (4. * y - 2. * np.hypot(y, np.sqrt(.75))) / 3.
    if n == 'Logistic':
        lo, up = spec[1:]
        return np.log(y - lo) - np.log(up - y)
    raise KeyError(spec)


def dfdx(spec, y):
    """derivative of f at x = finv(y)"""
    y = np.asarray(y, float)
    n = kind(spec)
    if n == 'Logexp':
        return -np.expm1(-y)
    if n == 'NegativeLogexp':
        return np.expm1(y)
    if n == 'Exponent':
        return y
    if n == 'NegativeExponent':
        return y
    if n == 'Square':
        return 2 * np.sqrt(y)
    if n == 'Tilt':
        return dfdx_at(spec, finv(spec, y))
    if n == 'Logistic':
        lo, up = spec[1:]
        return (y - lo) * (up - y) / (up - lo)
    raise KeyError(spec)


def initialize(spec, y):
    y = np.asarray(y, float)
    n = kind(spec)
    if n in ('Logexp', 'Exponent', 'Square'):
        return np.abs(y)
    if n in ('NegativeLogexp', 'NegativeExponent'):
        return -np.abs(y)
    if n == 'Tilt':
        return y
    lo, up = spec[1:]
    return np.where((y < lo) | (y > up), (lo + up) / 2., y)


def inside(spec, y):
    """y in the (closed) domain, bounds up to rounding"""
    y = np.asarray(y, float)
    n = kind(spec)
    if n in ('Logexp', 'Exponent', 'Square'):
        return y >= 0
    if n in ('NegativeLogexp', 'NegativeExponent'):
        return y <= 0
    if n == 'Tilt':
        return np.ones(y.shape, bool)
    lo, up = spec[1:]
    eps = 4e-16 * max(abs(lo), abs(up), up - lo)
    return (y >= lo - eps) & (y <= up + eps)


def strictly(spec, y):
    """y in the (closed) domain, without any tolerance: such starting values have to be kept"""
    y = np.asarray(y, float)
    return (y >= spec[1]) & (y <= spec[2]) if spec[0] == 'Logistic' else inside(spec, y)


def interior(spec, rng, size=None):
    """random values well inside the domain"""
    if spec is None:
        return rng.normal(0, 2, size)
    n = kind(spec)
    if n in ('Logexp', 'Exponent', 'Square'):
        return rng.uniform(.2, 4, size)
    if n in ('NegativeLogexp', 'NegativeExponent'):
        return -rng.uniform(.2, 4, size)
    if n == 'Tilt':
        return rng.normal(0, 2, size)
    lo, up = spec[1:]
    return lo + (up - lo) * rng.uniform(.05, .95, size)


def optval(spec, rng, size=None):
    """random optimizer space values of moderate size (Square: positive branch)"""
    if spec is not None and spec[0] == 'Square':
        return rng.uniform(.3, 2, size)
    return rng.uniform(-3, 3, size)


def dfdx_at(spec, x):
    """derivative of f at the optimizer value x"""
    x = np.asarray(x, float)
    n = kind(spec)
    s = 1. / (1. + np.exp(-x))
    if n == 'Logexp':
        return s
    if n == 'NegativeLogexp':
        return -s
    if n == 'Exponent':
        return np.exp(x)
    if n == 'NegativeExponent':
        return -np.exp(x)
    if n == 'Square':
        return 2 * x
    if n == 'Tilt':
        return 1. + x / np.hypot(1., x) / 2.
    if n == 'Logistic':
        return (spec[2] - spec[1]) * s * (1 - s)
    raise KeyError(spec)
