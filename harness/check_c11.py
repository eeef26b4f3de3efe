"""C11: parameter converters."""
from gen import *
import params
from check_c09 import small
from check_c10 import pairs
from converters import ConverterDriver
from polys import rpoly
from replay import run_suites


def unbounded(c):
    return all(lc['kind'] in ('scalar', 'vector', 'array') and not lc['lb'] and not lc['ub']
               for (_, lc, _, _, _, _) in params.leaves(c))


def objective(rng, ci, co):
    n = params.vec_size(ci)
    h = any(heavy(c) or any(lc['kind'].startswith('posdef') for (_, lc, _, _, _, _) in params.leaves(c))
            for c in (ci, co))
    conv = [rpoly(rng, n, 1 if h else rng.randint(1, 2), 1 if h else 2, (-1, 1, 1, 2)) for _ in range(params.ext_size(co))]
    unit = lambda c: rng.choice([0, 0, -45, 45, -200]) if unbounded(c) else 0
    return {'ci': ci, 'co': co, 'conv': conv, 'ui': unit(ci), 'uo': unit(co), 'read': rng.choice(['vector', 'get']),
            'write': rng.choice(['free', 'vector', 'set'])}


def tame(rng, c):
    """Points at which the chained rationals stay small."""
    out = []
    for t, k in tags(c):
        if t == 'log':
            v = rng.choice([[1, 1], [2, 1], [1, 2]])
        else:
            v = rng.choice([[0, 1], [1, 1], [-1, 1], [1, 2]] if k != 'sub' else [[0, 1], [1, 1], [-1, 1]])
        out.append({'t': t, 'v': v})
    return out


def call(rng, ob, o, fi, fo, boom=False):
    return {'op': o, 'fi': bool(fi), 'fo': bool(fo), 'x': tame(rng, ob['ci']), 'xo': rx(rng, ob['co']),
            'v': [rng.choice([[0, 1], [1, 1], [-1, 1], [3, 2], [-7, 2], [9, 1]]) for _ in range(params.vec_size(ob['co']))],
            'q': rq(rng, ob['ci']) if rng.random() < 0.4 else [], 'boom': boom, 'when': rng.choice(['early', 'late'])}


def heavy(c):
    """Quotients of exponentials: their derivatives have large denominators."""
    return any(lc['kind'] == 'simplex' or (lc.get('lb') and lc.get('ub'))
               for (_, lc, _, _, _, _) in params.leaves(c))


def run(ctx):
    rng = ctx.rng()
    suites = []
    ps = pairs(rng, 60 if ctx.quick else 500, 4 if ctx.quick else 5)
    n0 = ([], [])
    free = lambda: rng.choice([scalar(n0), vector(2, n0), array((2, 1), n0), dct([('a', vector(2, n0)), ('b', scalar(n0))])])
    ps += [(free(), free()) if i % 3 == 0 else (rleaf(rng), free()) if i % 3 == 1 else (free(), rleaf(rng))
           for i in range(12 if ctx.quick else 60)]
    ps = [(b, a) if i % 2 else (a, b) for i, (a, b) in enumerate(ps)]
    for ci, co in ps:
        if heavy(ci) and heavy(co):
            continue
        ob = objective(rng, ci, co)
        ops = [call(rng, ob, o, fi, fo) for o in ('conv', 'jac') for fi in (0, 1) for fo in (0, 1)]
        for _ in range(10):
            o = rng.choice(['conv', 'jac', 'jac', 'setin', 'setout', 'rawout', 'rawout'])
            ops.append(call(rng, ob, o, rng.randint(0, 1), rng.randint(0, 1),
                            o in ('conv', 'jac') and rng.random() < 0.5))
        rng.shuffle(ops)
        suites.append({'mode': 'script', 'ob': ob, 'xi': rx(rng, ci), 'xo': rx(rng, co), 'ops': ops})
    sets = [[('conv', 1, 0), ('jac', 1, 1), ('jac', 0, 0, True), ('setout', 1, 1), ('conv', 0, 1, True)],
            [('conv', 0, 0), ('jac', 1, 0, True), ('jac', 0, 1), ('setin', 0, 0), ('jac', 1, 1, True)],
            [('conv', 1, 1, True), ('jac', 0, 1, True), ('jac', 1, 0), ('setout', 0, 0), ('jac', 0, 0)],
            [('rawout', 0, 0), ('jac', 1, 1), ('jac', 0, 0), ('setout', 1, 0), ('conv', 0, 1)]]
    for i, (ci, co) in enumerate(ps[:8 if ctx.quick else 9]):
        for s in ([sets[i % 4]] if ctx.quick else sets):
            ob = objective(rng, ci, co)
            suites.append({'mode': 'graph', 'name': 'conv', 'ob': ob, 'xi': rx(rng, ci), 'xo': rx(rng, co),
                           'ops': [call(rng, ob, *k) for k in s]})
    run_suites(ctx, suites, module='MC_Converter', driver=ConverterDriver)
