"""C06: illegal arguments are rejected and leave the parameters unchanged."""
import itertools

from gen import *
import distributions
import params
from replay import run_suites
from check_c03 import subpaths


def ints(n, rng):
    return [[rng.choice([1, 2, 3, 4, 5]), 1] for _ in range(n)]


def bad_sizes(n):
    return [s for s in sorted({0, 1, n - 1, n + 1, 2 * n, n + 3}) if s >= 0 and s != n]


def bad_shapes(c, rng):
    """Shapes a full value must not have, same-size ones first."""
    want = list(params.full_shape(c))
    n = params.prod(want)
    out = []
    for p in itertools.permutations(want):
        out.append(list(p))
    out += [[n], [1] + want, want + [1], [n, 1], [1, n]]
    if len(want) > 1:
        out += [want[1:], want[:-1]]
        for i in range(len(want)):
            w = list(want)
            w[i] += 1
            out.append(w)
            w = list(want)
            w[i] -= 1
            out.append(w)
            w = list(want)
            w[i] = 1
            out.append(w)
        out.append([want[0] * want[1]] + want[2:])
    else:
        out += [[n + 1], [n - 1], [2 * n]]
    seen = []
    for s in out:
        if s == want or min(s) < 0 or s in seen:
            continue
        if c['kind'] in ('vector', 'subspace') and params.prod(s) == n:
            continue
        seen.append(s)
    return seen


def bad_ops(rng, c, path):
    """Illegal calls on the member at path, whose configuration is c."""
    ops = []

    def add(call, data, shape=None, **kw):
        a = {'data': data, 'shape': shape or [len(data)]}
        op = {'op': 'bad', 'call': call, 'o': 'p', 'path': list(path), 'arg': a}
        op.update(kw)
        ops.append(op)
    if c['kind'] != 'scalar':
        for s in bad_sizes(params.free_size(c)):
            add('set_free', ints(s, rng))
        for s in bad_sizes(params.vec_size(c)):
            add('set_vector', ints(s, rng))
    if c['kind'] not in ('dict', 'scalar'):
        for s in bad_shapes(c, rng):
            d = ints(params.prod(s), rng)
            if c['kind'] in ('posdef', 'posdefvec', 'posdefarr'):
                # otherwise innocuous entries
                d = [[1, 1]] * len(d)
            add('set', d, s)
            if path and rng.random() < 0.3:
                add('set', d, s, how='values')
    if c['kind'] in ('posdef', 'posdefvec', 'posdefarr'):
        m = c['m']
        shape = list(params.full_shape(c))
        count = params.prod(shape) // (m * m)
        good = [[c['dlb'][0] + 2 * c['dlb'][1], c['dlb'][1]] if a == b else [0, 1] for a in range(m) for b in range(m)]

        def among(M, k):
            return [list(e) for j in range(count) for e in (M if j == k else good)]
        where = sorted({0, count // 2, count - 1})
        for k in where:
            for i in range(m):
                for j in range(i):
                    for t in ([7, 1], [1, 1024]):
                        M = [[[9, 1] if a == b else [1, 1] for b in range(m)] for a in range(m)]
                        M[i][j] = [1 + t[0] * (t[1] == 1), 1] if t[1] == 1 else [1025, 1024]
                        add('set', among([e for r in M for e in r], k), shape)
            # symmetric, but not above the diagonal bound
            d = c['dlb']
            outs = []
            if m > 1:
                outs.append([[d[0] + d[1], d[1]] if a == b else [2, 1] for a in range(m) for b in range(m)])
            for q in (sub(d, [1, 1]), sub(d, [1, 64])):
                outs.append([(q if a == m - 1 else [d[0] + d[1], d[1]]) if a == b else [0, 1]
                             for a in range(m) for b in range(m)])
            for M in outs:
                add('get_free_of', among(M, k), shape)
    if c['kind'] in ('scalar', 'vector', 'array') and (c['lb'] or c['ub']):
        n = params.vec_size(c)
        ok = inside(c)
        for pos in sorted({0, n // 2, n - 1}):
            outs = []
            if c['lb']:
                outs += [sub(c['lb'][0], [3, 1]), sub(c['lb'][0], [1, 64])]
            if c['ub']:
                outs += [sub(c['ub'][0], [-3, 1]), sub(c['ub'][0], [-1, 64])]
            for v in outs:
                d = [list(ok) for _ in range(n)]
                d[pos] = v
                add('get_free_of', d)
    return ops


def inside(c):
    if c['lb'] and c['ub']:
        a, b = c['lb'][0], c['ub'][0]
        return [a[0] * b[1] + b[0] * a[1], 2 * a[1] * b[1]]
    if c['lb']:
        return sub(c['lb'][0], [-1, 1])
    return sub(c['ub'][0], [1, 1])


def sub(a, b):
    n, d = a[0] * b[1] - b[0] * a[1], a[1] * b[1]
    from fractions import Fraction
    f = Fraction(n, d)
    return [f.numerator, f.denominator]


def constructions(rng):
    ops = []

    def add(**a):
        ops.append({'op': 'bad', 'call': 'construct', 'o': 'p', 'path': [], 'arg': a})
    pairs = [([1, 1], [1, 1]), ([2, 1], [1, 1]), ([0, 1], [0, 1]), ([0, 1], [-1, 2]), ([-1, 1], [-2, 1])]
    for lb, ub in pairs:
        for c in (scalar(([lb], [ub])), vector(2, ([lb], [ub])), array((2, 2), ([lb], [ub])), array((1,), ([lb], [ub]))):
            add(c=c)
            for v in (lb, ub):
                add(c=c, val=[v] * params.full_size(c))
    for A, dim in (([[1, 1, 1]], 2), ([[1, 1, 1]], 4), ([[1, 0], [0, 1]], 2), ([[1, 0], [0, 1], [1, 1]], 2),
                   ([[1, 0, 1, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]], 4)):
        add(c=subspace(A), dim=dim)
    for d in ([-1, 1], [-1, 8]):
        for c in (posdef(1, d), posdef(2, d), posdefvec(2, 2, d), posdefarr((2, 2), 2, d), posdefarr((1,), 1, d)):
            add(c=c)
            eye = [[int(i == j), 1] for i in range(c['m']) for j in range(c['m'])]
            add(c=c, val=eye * (params.full_size(c) // len(eye)))
    n = ([], [])
    for c in (vector(3, n), array((2, 3), n), array((4,), n), simplex(2, 3), posdef(2), posdefvec(2, 3),
              posdefarr((2, 3), 2), posdefarr((2, 2), 2)):
        for s in bad_shapes(c, rng):
            add(c=c, shape=s)
    return ops


def catalogue(rng):
    n = ([], [])
    b = ([[0, 1]], [[3, 1]])
    return [scalar(b), scalar(([[1, 1]], [])), scalar(([], [[-2, 1]])), vector(1, n), vector(3, b),
            vector(4, ([[-1, 1]], [])), array((2, 3), n), array((2, 2), b), array((3,), ([], [[5, 2]])),
            array((2, 1, 2), b), array((2, 2, 2), n), simplex(1, 2), simplex(2, 3), simplex(3, 2), simplex(2, 2),
            simplex(1, 4), posdef(1), posdef(2), posdef(3, (1, 2)), posdefvec(2, 2), posdefvec(2, 3),
            posdefvec(3, 1), posdefvec(1, 2, (1, 2)), posdefarr((2, 2), 2), posdefarr((2, 3), 2),
            posdefarr((3,), 2, (1, 2)), posdefarr((2, 1, 2), 1), posdefarr((1, 2), 1)] + [subspace(A) for A in SUBSPACES]


def run(ctx):
    rng = ctx.rng()
    suites = []

    def script(c, ops):
        # a legal write between the illegal calls keeps the values moving
        out = []
        for i, op in enumerate(ops):
            if i % 7 == 3:
                out.append({'op': 'set_free', 'o': 'p', 'path': [], 'x': rx(rng, c)})
            out.append(op)
        suites.append({'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}], 'ops': out})
    cons = constructions(rng)
    for i in range(0, len(cons), 25):
        script(scalar(([], [])), cons[i:i + 25])
    for c in catalogue(rng):
        script(c, bad_ops(rng, c, ()))
    for c in large(rng):
        if 'items' not in c:
            o = bad_ops(rng, c, ())
            rng.shuffle(o)
            script(c, o[:25 if ctx.quick else 200])
    dicts = [rdict(rng, 3, 3) for i in range(30 if ctx.quick else 500)]
    dicts += [c for c in large(rng) if 'items' in c] + distributions.catalogue(rng)
    for c in dicts:
        ops = []
        for path in subpaths(c):
            sc = params.cfg_at(c, list(path))
            o = bad_ops(rng, sc, path)
            rng.shuffle(o)
            ops += o[:10]
        rng.shuffle(ops)
        script(c, ops[:30])
    # exhaustive: illegal calls between any writes
    for c in [dct([('v', vector(2, ([], []))), ('m', posdef(2)), ('s', simplex(2, 2))]),
              dct([('in', dct([('a', array((2, 1), ([[0, 1]], [])))])), ('k', posdefvec(2, 2))])]:
        ops = []
        for path in subpaths(c):
            sc = params.cfg_at(c, list(path))
            o = bad_ops(rng, sc, path)
            rng.shuffle(o)
            ops += o[:3]
        for w in ('set_free', 'set_vector'):
            ops.append({'op': w, 'o': 'p', 'path': [], 'x': rx(rng, c)})
        suites.append({'mode': 'graph', 'name': 'reject', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}],
                       'ops': ops})
    run_suites(ctx, suites, ('vec', 'get', 'size'))
