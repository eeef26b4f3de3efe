"""C22: priors, the normal log density and numerical expectations."""
from fractions import Fraction as Fr

import check_c20 as ex
from check_c21 import mat, posdef, rmat, rq
from priors import PriorsDriver
from replay import run_suites

VALS = [Fr(0), Fr(1), Fr(-1), Fr(1, 2), Fr(-3, 2), Fr(2), Fr(5, 3), Fr(-4)]
POS = [Fr(1), Fr(2), Fr(1, 2), Fr(3), Fr(1, 3), Fr(7, 2), Fr(10), Fr(1, 10)]
SHAPES = [[], [1], [2], [3], [2, 2], [1, 3], [3, 1], [2, 1, 2]]
W = [Fr(1), Fr(1, 2), Fr(1, 4), Fr(1, 3), Fr(1, 6)]


def prod(s):
    n = 1
    for k in s:
        n *= k
    return n


def rule(rng, kind):
    """kind: 'gh', 'sym' (symmetric, integer nodes, total weight one) or
    'any'."""
    if kind == 'gh':
        return {'gh': rng.choice([1, 2, 3, 4, 5]), 't': [], 'w': []}
    if kind == 'sym':
        t, w = rng.choice([([-1, 1], [Fr(1, 2)] * 2), ([0], [Fr(1)]), ([-2, 0, 2], [Fr(1, 8), Fr(3, 4), Fr(1, 8)]),
                           ([-1, 0, 1], [Fr(1, 3)] * 3), ([-2, -1, 1, 2], [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)]),
                           ([-3, -1, 0, 1, 3], [Fr(1, 10), Fr(1, 5), Fr(2, 5), Fr(1, 5), Fr(1, 10)])])
    else:
        n = rng.choice([1, 2, 3, 4])
        t = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(n)]
        w = [rng.choice(W) for _ in range(n)]
    return {'gh': 0, 't': [rq(a) for a in t], 'w': [rq(a) for a in w]}


def normals(rng, kind, shape=None):
    shape = rng.choice(SHAPES) if shape is None else shape
    n = prod(shape)
    if kind == 'log':
        m = [rng.choice([Fr(1), Fr(2), Fr(1, 3), Fr(5), Fr(1, 20), Fr(30), Fr(7, 2)]) for _ in range(n)]
        s = [rng.choice([Fr(2), Fr(3), Fr(3, 2)]) for _ in range(n)]
    elif kind == 'far':
        m = [rng.choice([-1, 1]) * rng.choice([70, 100, 101, 99, 300, 700, 720, 800, 2000, 50000]) for _ in range(n)]
        s = [rng.choice([Fr(1), Fr(1, 2), Fr(2)]) for _ in range(n)]
    else:
        m = [rng.choice(VALS) for _ in range(n)]
        s = [rng.choice([Fr(1), Fr(1, 2), Fr(2), Fr(3), Fr(1, 3)]) for _ in range(n)]
    return {'kind': kind, 'm': [rq(a) for a in m], 's': [rq(a) for a in s], 'shape': shape}


def arrays(rng, names, pools):
    """Arguments of one common shape, some of them scalars."""
    shape = rng.choice(SHAPES)
    n = prod(shape)
    out = {'n': n, 'shape': shape, 'sh': {}}
    full = rng.choice(names)
    for k, p in zip(names, pools):
        sc = k != full and rng.random() < 0.3
        out[k] = [rq(rng.choice(p)) for _ in range(1 if sc else n)]
        out['sh'][k] = [] if sc else shape
    return out


def op(rng, k, z=None):
    if k == 'rule':
        return {'op': k, 'rule': rule(rng, rng.choice(['gh', 'sym', 'any']))}
    if k == 'normals':
        return {'op': k, 'z': normals(rng, rng.choice(['log', 'log', 'far', 'rat']))}
    if k == 'efun':
        n = rng.choice([1, 2, 3, 4])
        return {'op': k, 'p': [rq(rng.choice([0, 1, -1, 2, Fr(1, 2), -3])) for _ in range(n)],
                'un': rng.choice([0, 0, 0, -30, 30, -200, 200])}
    if k == 'logistic':
        n = rng.choice([1, 2, 3, 4])
        return {'op': k, 'y': [rq(rng.choice([0, 1, 0, 1, 2, Fr(1, 3)])) for _ in z['m']],
                't': [rq(rng.choice([-2, -1, 0, 1, 2, 3])) for _ in range(n)]}
    if k == 'dp':
        n = 1 if z is None or rng.random() < 0.5 else len(z['m'])
        return {'op': k, 'a': [rq(rng.choice(POS)) for _ in range(n)]}
    if k == 'mvn':
        n = rng.choice([1, 2, 2, 3])
        v = lambda: [rq(rng.choice(VALS)) for _ in range(n)]
        o = {'m': v(), 'e': v(), 'L': rmat(posdef(rng, n)), 'c': rmat(posdef(rng, n))}
    elif k == 'uvn':
        o = arrays(rng, ['m', 'l', 'e', 'v'], [VALS, POS, VALS, POS])
    elif k == 'gamma':
        o = arrays(rng, ['a0', 'b0'], [POS, POS])
        n = o['n']
        pick = lambda: rng.choice(rng.choice([ex.INTS[:5], ex.HALVES[:3], [[1, 3], [1, 4], [1, 1]]]))
        o['a'] = [pick() for _ in range(n)]
        o['b'] = [{'q': rq(rng.choice(POS)), 'e': 0} for _ in range(n)]
    elif k == 'expo':
        o = arrays(rng, ['l', 'e'], [POS, POS])
    elif k == 'dir':
        n = rng.choice([1, 2, 3, 4])
        o = {'a': [rng.choice(ex.INTS[:3] + ex.HALVES[:2]) for _ in range(n)], 'a0': [rq(rng.choice(POS)) for _ in range(n)]}
    elif k == 'lkj':
        o = {'l': rq(rng.choice(POS)), 'd': ex.wishart(rng)}
    elif k == 'logprob':
        o = arrays(rng, ['u', 'm', 'l'], [VALS, VALS, POS])
    elif k == 'nat':
        o = arrays(rng, ['e', 'q'], [VALS, [-a for a in POS]])
    elif k == 'draws':
        o = {'n': rng.choice([1, 2, 3, 5, 10, 51, 200])}
    else:
        o = {}
    o['op'] = k
    if k in ('mvn', 'uvn', 'expo', 'logprob', 'nat', 'gamma') and rng.random() < 0.5:
        o['un'] = rng.choice([-1, 3, -20, 20, -60, 60, -300, 300])
        if k == 'gamma':
            for b in o['b']:
                b['e'] = -o['un']
    return o


PLAIN = ['mvn', 'uvn', 'gamma', 'expo', 'dir', 'lkj', 'logprob', 'nat', 'draws']


def symmetric(r):
    t = [Fr(*a) for a in r['t']]
    w = [Fr(*a) for a in r['w']]
    return r['gh'] == 0 and sum(w) == 1 and t == [-a for a in t[::-1]] and w == w[::-1]


def walk(rng, n):
    ru, z = rule(rng, 'sym'), normals(rng, 'log')
    s = {'mode': 'script', 'name': 'priors', 'rule': ru, 'z': z, 'ops': []}
    while len(s['ops']) < n:
        ks = ['rule', 'normals', 'negate'] if z['kind'] == 'log' else ['rule', 'normals']
        if z['kind'] != 'rat':
            ks += ['logistic'] * 2
            if ru['gh'] == 0:
                ks += ['softgh', 'expit', 'softgh']
            if symmetric(ru):
                ks += ['logexpit', 'dp'] * 2
        if z['kind'] != 'log':
            ks += ['efun'] * 4
        k = rng.choice(rng.choice([ks, ks, PLAIN]))
        if k == 'efun' and z['kind'] == 'far':
            continue
        o = op(rng, k, z)
        if k == 'rule':
            ru = o['rule']
        elif k == 'normals':
            z = o['z']
        elif k == 'efun' and ru['gh'] and len(o['p']) > 2 * ru['gh']:
            o['p'] = o['p'][:2 * ru['gh']]
        s['ops'].append(o)
    return s


def run(ctx):
    rng = ctx.rng()
    suites = [walk(rng, 15) for _ in range(120 if ctx.quick else 1200)]
    # every order of the stateful calls
    for _ in range(4 if ctx.quick else 30):
        shape = rng.choice(SHAPES)
        z = normals(rng, 'log', shape)
        zs = [normals(rng, k, shape) for k in ('log', 'far', 'rat')]
        ops = [{'op': 'rule', 'rule': rule(rng, k)} for k in ('gh', 'sym', 'any')]
        ops += [{'op': 'normals', 'z': q} for q in zs]
        ops += [op(rng, k, z) for k in ('efun', 'logistic', 'softgh', 'expit', 'logexpit', 'dp')]
        suites.append({'mode': 'graph', 'name': 'priors', 'rule': rule(rng, 'sym'), 'z': z, 'ops': ops})
    run_suites(ctx, suites, module='MC_Priors', driver=PriorsDriver)
