"""Polynomial functions shared by the model and the implementation."""
import autograd.numpy as anp
import numpy as np

import params
from common import fl


def rpoly(rng, nvars, terms=4, degree=3, coefs=(-2, -1, 1, 1, 2, 3)):
    """A random polynomial; each variable occurs with some probability."""
    out = []
    for _ in range(terms):
        d = rng.randint(1, degree)
        pw = {}
        for _ in range(d):
            v = rng.randint(1, nvars)
            pw[v] = pw.get(v, 0) + 1
        out.append({'c': [rng.choice(coefs), 1], 'm': [[v, pw[v]] for v in sorted(pw)]})
    return out


def peval(p, v):
    """Value at the sequence v, differentiable by autograd."""
    tot = 0.0
    for t in p:
        x = fl(t['c'])
        for i, e in t['m']:
            x = x * v[i - 1] ** e
        tot = tot + x
    return tot


def read_vector(par, c, how):
    """The vector value of par, through get_vector or through the values of
    its leaves."""
    if how == 'vector':
        return par.get_vector()
    out = []
    for (path, lc, vo, fo, uo, eo) in params.leaves(c):
        g = params.at(par, path).get()
        k = lc['kind']
        if k == 'scalar':
            out.append(anp.reshape(g, (1,)))
        elif k in ('posdef', 'posdefvec', 'posdefarr'):
            m = lc['m']
            g = anp.reshape(g, (-1, m, m))
            for e in range(params.prod(lc['shape'])):
                for i in range(m):
                    for j in range(i + 1):
                        out.append(anp.reshape(g[e, i, j], (1,)))
        else:
            out.append(anp.reshape(g, (-1,)))
    return anp.concatenate(out)


def rmat(rng, n, vals=(-1, 0, 0, 1, 2)):
    """A random invertible, typically asymmetric integer matrix."""
    while True:
        A = [[rng.choice(vals) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            A[i][i] = rng.choice((1, 2, -1, 3))
        d = abs(np.linalg.det(np.array(A, dtype=float)))
        if 0.5 < d < 60:
            return [[[a, 1] for a in r] for r in A]
