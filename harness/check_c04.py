"""C04: the sparse Jacobian and Hessians of the map from free to vector."""
import exponents
from gen import *
import distributions
import params
from replay import run_suites
from check_c03 import subpaths

READS = ('vec', 'get', 'free')


def script(rng, c, n):
    ops = []
    paths = [p for p in subpaths(c)]
    for i in range(n):
        path = list(rng.choice(paths)) if i > 1 else []
        sc = params.cfg_at(c, path)
        w = ('jac', 'hess', 'jac', 'set_free', 'hess', 'set_vector')[i % 6]
        ops.append({'op': w, 'o': 'p', 'path': path, 'x': rx(rng, sc)})
    return ops


def small(c):
    """Bounded cost of the jets."""
    return params.ext_size(c) <= 14


def run(ctx):
    rng = ctx.rng()
    cfgs = [scalar(b) for b in BOUNDS + FAR] + [vector(3, b) for b in BOUNDS + FAR] + \
        [array((2, 2), b) for b in BOUNDS + FAR] + [array((2, 3), ([[0, 1]], [[1, 1]]))] + \
        [simplex(1, 2), simplex(2, 3), simplex(3, 2), simplex(1, 5), simplex(2, 4), simplex(1, 1), simplex(2, 1),
         dct([('a', vector(2, ([[0, 1]], []))), ('s', simplex(2, 1)), ('t', simplex(1, 2))])] + \
        [posdef(m, d) for m in (1, 2, 3) for d in ((0, 1), (1, 2))] + \
        [posdefvec(2, 2, (1, 2)), posdefvec(3, 1), posdefvec(2, 3), posdefarr((2, 2), 2, (1, 1)),
         posdefarr((2, 3), 1), posdefarr((2,), 2), posdefarr((2, 1, 2), 1), posdefarr((1, 2, 2), 2)] + [subspace(A) for A in SUBSPACES]
    k = 0
    while k < (40 if ctx.quick else 500):
        c = rdict(rng, 3, 3) if k % 3 else rleaf(rng, True)
        if small(c):
            cfgs.append(c)
            k += 1
    big = [vector(30, BOUNDS[7]), posdef(4), posdef(5), simplex(1, 8), simplex(9, 2), array((2, 2, 2, 2), BOUNDS[1]),
           posdefvec(5, 2), posdefarr((2, 2, 2, 2), 1)] + large(rng)[-2:]
    cfgs += big
    cfgs += [c for c in distributions.catalogue(rng) if small(c)]
    suites = [{'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}],
               'ops': script(rng, c, 6 if ctx.quick and (c['kind'] == 'dict' or c in big) else 12)} for c in cfgs]
    # exhaustive pairs: a derivative between any two writes and reads
    for c in [dct([('s', simplex(1, 3)), ('b', scalar(([[0, 1]], [[2, 1]]))), ('m', posdef(2))]),
              dct([('v', posdefvec(2, 1)), ('in', dct([('u', vector(2, ([[1, 1]], []))),
                                                      ('w', subspace([[1, 1, 1]]))]))])]:
        ops = []
        for path in subpaths(c):
            sc = params.cfg_at(c, list(path))
            for w in ('jac', 'hess') + (('set_free',) if len(path) < 2 else ()):
                ops.append({'op': w, 'o': 'p', 'path': list(path), 'x': rx(rng, sc)})
        suites.append({'mode': 'graph', 'name': 'deriv', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}],
                       'ops': ops[:9] if ctx.quick else ops})
    run_suites(ctx, suites, READS)
    if not ctx.violations:
        run_suites(ctx, exponents.derivative_suites(rng, 40 if ctx.quick else 600, ['jac', 'hess']), module='MC_Exponent',
                   driver=exponents.ExponentDriver)
