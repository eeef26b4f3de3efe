"""Generators of parameter configurations and free values."""
from fractions import Fraction

FR = [[1, 2], [1, 1], [2, 1], [3, 1], [3, 2], [1, 4], [4, 1], [1, 3], [5, 2]]
WIDE = FR + [[1, 64], [64, 1], [1, 16], [16, 1], [7, 1], [2, 7]]
HALF = [[1, 1], [2, 1], [1, 2], [3, 2]]
LIN = [[0, 1], [1, 1], [-1, 1], [1, 2], [-3, 2], [2, 1], [5, 4], [-1, 3], [7, 2]]
SMALL = [[0, 1], [1, 1], [-1, 1], [1, 2], [-1, 2]]

BOUNDS = [([], []), ([[0, 1]], []), ([[-3, 2]], []), ([[2, 1]], []),
          ([], [[0, 1]]), ([], [[5, 2]]), ([], [[-2, 1]]),
          ([[0, 1]], [[1, 1]]), ([[-1, 1]], [[3, 1]]), ([[2, 1]], [[7, 2]]),
          ([[-5, 1]], [[-4, 1]]), ([[-2, 1]], [[0, 1]])]
# far from zero
FAR = [([[1000000, 1]], []), ([[-1000000, 1]], []), ([], [[1000000, 1]]), ([], [[-1000000, 1]]),
       ([[-10000, 1]], [[10000, 1]]), ([[1000, 1]], [[1001, 1]]), ([[0, 1]], [[1000000, 1]]),
       ([[1, 1000]], []), ([[0, 1]], [[1, 1000]])]


def scalar(b):
    return {'kind': 'scalar', 'shape': [1], 'lb': b[0], 'ub': b[1]}


def vector(n, b):
    return {'kind': 'vector', 'shape': [n], 'lb': b[0], 'ub': b[1]}


def array(shape, b):
    return {'kind': 'array', 'shape': list(shape), 'lb': b[0], 'ub': b[1]}


def simplex(r, k):
    return {'kind': 'simplex', 'shape': [r, k]}


def posdef(m, dlb=(0, 1)):
    return {'kind': 'posdef', 'm': m, 'dlb': list(dlb), 'shape': [1]}


def posdefvec(n, m, dlb=(0, 1)):
    return {'kind': 'posdefvec', 'shape': [n], 'm': m, 'dlb': list(dlb)}


def posdefarr(shape, m, dlb=(0, 1)):
    return {'kind': 'posdefarr', 'shape': list(shape), 'm': m, 'dlb': list(dlb)}


def subspace(A, default=False):
    # the length of a row (here in powers of two) does not matter
    subspace.calls += 1
    units = ([[], [-17, 12, -30], [], [33, -14, 0]][subspace.calls % 4] + [0] * len(A))[:len(A)]
    return {'kind': 'subspace', 'A': [[[a, 1] for a in r] for r in A], 'shape': [len(A[0])],
            'default': default, 'units': units}


subspace.calls = 0


def dct(items):
    return {'kind': 'dict', 'items': [{'name': n, 'c': c} for n, c in items]}


SUBSPACES = [[[1, 1]], [[1, 1, 1]], [[1, 2, 0]], [[1, 0, -1], [0, 1, 1]],
             [[1, 1, 1, 1]], [[1, -1, 0, 2], [0, 1, 1, 0]],
             [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 1]], [[2, 1, 0, 0, 1]]]


def rleaf(rng, big=False):
    """A random leaf configuration."""
    k = rng.choice(['scalar', 'vector', 'vector', 'array', 'array', 'simplex', 'simplex',
                    'posdef', 'posdef', 'posdefvec', 'posdefarr', 'subspace'])
    b = rng.choice(BOUNDS)
    if k == 'scalar':
        return scalar(b)
    if k == 'vector':
        return vector(rng.choice([1, 2, 3, 4] + ([6, 13] if big else [])), b)
    if k == 'array':
        return array(rng.choice([(1, 1), (2, 3), (3, 2), (2, 2), (3,), (2, 1, 2), (1, 3), (4, 1)]
                                + ([(2, 3, 2)] if big else [])), b)
    if k == 'simplex':
        return simplex(*rng.choice([(1, 2), (1, 3), (2, 2), (3, 2), (2, 3), (1, 4), (2, 4)]
                                   + ([(4, 3)] if big else [])))
    dlb = rng.choice([(0, 1), (0, 1), (1, 2), (2, 1)])
    if k == 'posdef':
        return posdef(rng.choice([1, 2, 2, 3, 3] + ([4] if big else [])), dlb)
    if k == 'posdefvec':
        return posdefvec(*(rng.choice([(1, 2), (2, 2), (3, 1), (2, 1), (3, 2)]
                                      + ([(2, 3)] if big else [])) + (dlb,)))
    if k == 'posdefarr':
        return posdefarr(rng.choice([(1,), (2,), (2, 2), (1, 2), (2, 1), (3, 2), (2, 1, 2), (1, 2, 2)]),
                         rng.choice([1, 2]), dlb)
    return subspace(rng.choice(SUBSPACES))


def large(rng):
    """Larger than anything `rleaf` makes."""
    b = lambda: rng.choice(BOUNDS)
    return [vector(40, b()), vector(130, b()), array((5, 4, 3), b()), array((2, 1, 2, 1, 2), b()), array((9, 7), b()),
            simplex(1, 9), simplex(7, 2), simplex(12, 2), posdef(5), posdef(6, (1, 2)), posdefvec(5, 2), posdefvec(11, 1),
            posdefarr((2, 2, 2, 2), 1), posdefarr((2, 3, 2), 2), subspace([[1] * 9]),
            dct([('a%d' % i, rng.choice([vector(2, b()), scalar(b()), simplex(1, 2)])) for i in range(13)]),
            dct([('l1', dct([('l2', dct([('l3', dct([('l4', dct([('x', vector(3, b())), ('y', scalar(b()))])),
                                                     ('z', simplex(1, 2))]))])), ('w', posdef(2))]))])]


def rdict(rng, depth=2, width=3, big=False):
    names = ['a', 'b', 'cc', 'd_1', 'e', 'f']
    rng.shuffle(names)
    items = []
    for i in range(rng.randint(1, width)):
        if depth > 1 and rng.random() < 0.3:
            items.append((names[i], rdict(rng, depth - 1, 2, big)))
        else:
            items.append((names[i], rleaf(rng, big)))
    return dct(items)


def tags(c):
    k = c['kind']
    if k == 'dict':
        return [t for i in c['items'] for t in tags(i['c'])]
    if k in ('scalar', 'vector', 'array'):
        n = 1
        for s in c['shape']:
            n *= s
        t = 'log' if (c['lb'] or c['ub']) else 'lin'
        return [(t, 'box')] * n
    if k == 'simplex':
        return [('log', 'simplex')] * (c['shape'][0] * (c['shape'][1] - 1))
    if k == 'subspace':
        return [('sub', 'sub')] * len(c['A'][0])
    n = 1
    if k != 'posdef':
        for s in c['shape']:
            n *= s
    one = []
    for i in range(c['m']):
        one += [('lin', 'pd%d' % c['m'])] * i + [('log', 'pd%d' % c['m'])]
    return one * n


def rx(rng, c, wide=False):
    """Random extended free coordinates for configuration c."""
    out = []
    for t, k in tags(c):
        if k == 'box':
            v = rng.choice((WIDE if wide else FR) if t == 'log' else LIN)
        elif k == 'simplex':
            v = rng.choice([[1, 1], [2, 1], [1, 2], [3, 1], [1, 4], [4, 1], [3, 2]])
        elif k == 'sub':
            v = rng.choice([[0, 1], [1, 1], [-1, 1], [2, 1], [1, 2], [-3, 1]])
        else:
            v = rng.choice(HALF if t == 'log' else SMALL)
            if k[:2] == 'pd' and int(k[2:]) > 3 and v[1] != 1:
                v = [1, 1]
        out.append({'t': t, 'v': list(v)})
    return out


def rq(rng, c):
    """A vector in the closed constraint set, often on its boundary."""
    if c['kind'] == 'dict':
        return [v for it in c['items'] for v in rq(rng, it['c'])]
    k = c['kind']
    n = 1
    for s in c.get('shape', [1]):
        n *= s
    if k in ('scalar', 'vector', 'array'):
        lb, ub = c['lb'], c['ub']
        some = [list(b[0]) for b in (lb, ub) if b]
        if lb and ub:
            (a, b), (p, q) = lb[0], ub[0]
            f = Fraction(a, b) + (Fraction(p, q) - Fraction(a, b)) / 3
            some.append([f.numerator, f.denominator])
        elif lb:
            some.append([lb[0][0] + lb[0][1], lb[0][1]])
        elif ub:
            some.append([ub[0][0] - ub[0][1], ub[0][1]])
        else:
            some = [[0, 1], [1, 1], [-3, 2]]
        return [list(rng.choice(some)) for _ in range(n)]
    if k == 'simplex':
        r, w = c['shape']
        out = []
        for _ in range(r):
            ks = [rng.choice([0, 0, 1, 2]) for _ in range(w)]
            if not sum(ks):
                ks[rng.randrange(w)] = 1
            out += [Fraction(t, sum(ks)) for t in ks]
        return [[f.numerator, f.denominator] for f in out]
    if k == 'subspace':
        return [[0, 1]] * len(c['A'][0])
    d = [c['dlb'][0] + c['dlb'][1], c['dlb'][1]]
    one = [d if i == j else [0, 1] for i in range(c['m']) for j in range(i + 1)]
    return one * (1 if k == 'posdef' else n)
