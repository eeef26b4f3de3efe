"""Exact polynomial arithmetic, to construct functions with known optima."""
from fractions import Fraction as Fr


def const(c):
    return {(): Fr(c)} if c != 0 else {}


def var(i):
    return {((i, 1),): Fr(1)}


def add(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c != 0}


def scale(a, p):
    return {m: Fr(a) * c for m, c in p.items() if a != 0}


def mul(p, q):
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            e = {}
            for v, k in m + n:
                e[v] = e.get(v, 0) + k
            key = tuple(sorted(e.items()))
            out[key] = out.get(key, 0) + c * d
    return {m: c for m, c in out.items() if c != 0}


def power(p, k):
    out = const(1)
    for _ in range(k):
        out = mul(out, p)
    return out


def ev(p, v):
    """Value at the sequence v (variables are numbered from 1)."""
    tot = Fr(0)
    for m, c in p.items():
        x = c
        for i, k in m:
            x *= Fr(v[i - 1]) ** k
        tot += x
    return tot


def rats(p):
    """The form the specifications read."""
    return [{'c': rat(c), 'm': [list(x) for x in m]} for m, c in sorted(p.items())]


def rat(c):
    c = Fr(c)
    return [c.numerator, c.denominator]


def frac(r):
    return Fr(r[0], r[1])


def unrats(p):
    return {tuple(tuple(x) for x in t['m']): frac(t['c']) for t in p}


def diff(p, i):
    out = {}
    for m, c in p.items():
        e = dict(m)
        k = e.get(i, 0)
        if k:
            e[i] = k - 1
            key = tuple(sorted((v, n) for v, n in e.items() if n))
            out[key] = out.get(key, 0) + c * k
    return {m: c for m, c in out.items() if c != 0}
