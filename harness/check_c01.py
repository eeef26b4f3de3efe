"""C01: free, vector and full parameterizations are inverse to one another."""
import exponents
from gen import *
from replay import run_suites


def writers(rng, c, wide=True):
    ops = []
    for w in ['set_free', 'get_free', 'rt:free', 'set_vector', 'get_free', 'rt:vector', 'get_vector',
              'free_to_vector', 'get_free', 'set', 'get_free', 'rt:free', 'set_free', 'set_vector',
              'get_free', 'set', 'rt:set', 'get_vector', 'set_free', 'get_free']:
        op = {'op': w.split(':')[0], 'o': 'p', 'path': []}
        if ':' in w:
            op['how'] = w.split(':')[1]
        if c['kind'] == 'dict' and (op['op'] == 'set' or op.get('how') == 'set'):
            continue
        if op['op'] in ('set_free', 'set_vector', 'set', 'free_to_vector'):
            op['x'] = rx(rng, c, wide)
        ops.append(op)
    return ops


def run(ctx):
    rng = ctx.rng()
    n = 60 if ctx.quick else 600
    cfgs = [scalar(b) for b in BOUNDS + FAR] + [vector(3, b) for b in BOUNDS + FAR] + \
        [array((2, 3), b) for b in BOUNDS[:4]] + [simplex(2, 1), dct([('a', vector(2, ([[0, 1]], []))), ('s', simplex(2, 1)), ('t', simplex(1, 2))]),
         simplex(1, 2), simplex(2, 3), simplex(3, 2),
         simplex(1, 5)] + [posdef(m, d) for m in (1, 2, 3) for d in ((0, 1), (1, 2))] + \
        [posdef(4), posdefvec(2, 2, (1, 2)), posdefvec(3, 1), posdefarr((2, 3), 2, (1, 1)), posdefarr((2, 1, 3), 2, (1, 2)),
         posdefarr((2,), 2)] + [subspace(A) for A in SUBSPACES] + [subspace([[1, 1, 1]], True)]
    for i in range(n):
        cfgs.append(rleaf(rng, True) if i % 2 else rdict(rng, 3, 3))
    cfgs += large(rng)
    suites = []
    for c in cfgs:
        suites.append({'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c, True)}],
                       'ops': writers(rng, c)})
    run_suites(ctx, suites, ('vec', 'get', 'free'))
    if not ctx.violations:
        run_suites(ctx, exponents.suites(rng, 40 if ctx.quick else 600), module='MC_Exponent',
                   driver=exponents.ExponentDriver)
