"""Numeric values of the closed forms of Sym.tla, from the standard library
alone."""
import math

import numpy as np

from common import fl
from params import Mismatch, is_numeric

EULER = 0.57721566490153286060651209


def digamma(x):
    r = 0.0
    while x < 12.0:
        r -= 1.0 / x
        x += 1.0
    f = 1.0 / (x * x)
    return r + math.log(x) - 0.5 / x - f * (1 / 12. - f * (1 / 120. - f * (1 / 252. - f * (
        1 / 240. - f * (1 / 132. - f * (691 / 32760. - f / 12.))))))


def trigamma(x):
    r = 0.0
    while x < 12.0:
        r += 1.0 / (x * x)
        x += 1.0
    f = 1.0 / (x * x)
    return r + 0.5 * f + (1 + f * (1 / 6. - f * (1 / 30. - f * (1 / 42. - f * (1 / 30. - f * (
        5 / 66. - f * (691 / 2730. - f * 7 / 6.))))))) / x


def atom(a):
    t, n, d = a
    if t in ('one', 'frac'):
        return 1.0
    if t == 'gamma':
        return EULER
    if t == 'log':
        return math.log(n) - math.log(d)
    if t == 'logpi':
        return math.log(math.pi)
    if t == 'psi':
        return digamma(n / float(d))
    if t == 'tri':
        return trigamma(n / float(d))
    if t == 'lgam':
        return math.lgamma(n / float(d))
    if t == 'exp':
        return math.exp(n / float(d))
    if t.startswith('expm1:'):
        return math.expm1(math.ldexp(n / float(d), int(t[6:])))
    raise KeyError(t)


def value(s):
    """The value of a closed form, and the size of its terms."""
    terms = [fl(r['c']) * atom(r['a']) for r in s]
    return math.fsum(terms), math.fsum(abs(t) for t in terms)


def num(x):
    """A number q * 2^e."""
    return math.ldexp(fl(x['q']), x['e'])


def expect_sym(label, got, syms, shape=None, tol=1e-10, extra=0.0):
    """got against a closed form, or an array of closed forms (flat).  extra:
    the size of terms that cancelled formally."""
    if shape is None:
        syms, shape = [syms], ()
    if not is_numeric(got):
        raise Mismatch('%s: not numeric: %r' % (label, type(got)))
    g = np.asarray(got)
    if g.shape != tuple(shape):
        raise Mismatch('%s: shape %s, expected %s' % (label, g.shape, tuple(shape)))
    for i, (a, s) in enumerate(zip(g.reshape(-1), syms)):
        w, size = value(s)
        if not abs(a - w) <= tol * (size + 1e-3 + extra):
            raise Mismatch('%s[%d]: got %r, expected %r' % (label, i, float(a), w))


def flat(rows):
    return [x for r in rows for x in r]
