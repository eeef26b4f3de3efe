"""C07: copies and index parameters are independent of their source, buffers
of free values are not shared, and derivatives change nothing."""
from gen import *
import distributions
import params
from replay import run_suites
from check_c03 import subpaths
from check_c04 import small


def graph(rng, c, name, more):
    ops = [{'op': 'copy', 'o': 'p', 'to': 'q'},
           {'op': 'index', 'o': 'p', 'to': 'ix'},
           {'op': 'set_free', 'o': 'p', 'path': [], 'x': rx(rng, c)},
           {'op': 'set_free', 'o': 'q', 'path': [], 'x': rx(rng, c)},
           {'op': 'jac', 'o': 'q', 'path': [], 'x': rx(rng, c)},
           {'op': 'hess', 'o': 'q', 'path': [], 'x': rx(rng, c)},
           {'op': 'get_free', 'o': 'p', 'path': []},
           {'op': 'scribble', 'o': 'p', 'path': []}]
    if more:
        ops += [{'op': 'set_vector', 'o': 'q', 'path': [], 'x': rx(rng, c)},
                {'op': 'jac', 'o': 'p', 'path': [], 'x': rx(rng, c)},
                {'op': 'hess', 'o': 'p', 'path': [], 'x': rx(rng, c)}]
    return {'mode': 'graph', 'name': name, 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}], 'ops': ops}


def script(rng, c, n):
    ops, objs = [], ['p']
    for i in range(n):
        o = rng.choice(objs)
        path = list(rng.choice(subpaths(c)))
        sc = params.cfg_at(c, path)
        w = rng.choice(['copy', 'set_free', 'set_free', 'set_vector', 'set', 'jac', 'hess', 'get_free',
                        'scribble', 'scribble', 'index', 'free_to_vector'])
        if w == 'copy':
            to = rng.choice(['p', 'q', 'r', 's'])
            ops.append({'op': 'copy', 'o': o, 'to': to})
            if to not in objs:
                objs.append(to)
            continue
        if w == 'index':
            ops.append({'op': 'index', 'o': o, 'to': 'ix%d' % i})
            continue
        if w == 'set' and sc['kind'] == 'dict':
            continue
        op = {'op': w, 'o': o, 'path': path}
        if w not in ('get_free', 'scribble'):
            op['x'] = rx(rng, sc)
        ops.append(op)
    return ops


def run(ctx):
    rng = ctx.rng()
    leaves = [scalar(([], [])), scalar(([[0, 1]], [[2, 1]])), vector(2, ([], [])), vector(2, ([[1, 1]], [])),
              array((2, 1), ([], [])), array((2, 2), ([], [[1, 1]])), simplex(2, 2), posdef(2), posdef(1),
              posdefvec(2, 1), posdefvec(1, 2, (1, 2)), posdefarr((2,), 1), posdefarr((1, 1), 2),
              subspace([[1, 1, 1]])]
    suites = []
    for i, c in enumerate(leaves):
        suites.append(graph(rng, c, 'leaf%d' % i, not ctx.quick))
    inner = dct([('u', scalar(([[0, 1]], []))), ('w', vector(2, ([], [])))])
    suites.append(graph(rng, dct([('m', posdef(2)), ('in', inner)]), 'nest', False))
    suites.append(graph(rng, dct([('in', inner), ('s', simplex(1, 3)), ('z', scalar(([], [])))]), 'nest2', False))
    cfgs = leaves + [c for c in distributions.catalogue(rng) if small(c)]
    k = 0
    while k < (40 if ctx.quick else 600):
        c = rdict(rng, 3, 3) if k % 3 else rleaf(rng, True)
        if small(c):
            cfgs.append(c)
            k += 1
    suites += [{'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}], 'ops': script(rng, c, 16)}
               for c in cfgs]
    run_suites(ctx, suites, ('vec', 'get', 'free'))
