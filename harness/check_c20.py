"""C20: entropies and moments of the exponential families."""
from fractions import Fraction as Fr

from expfam import ExpFamDriver
from gen import rx, posdef
from replay import run_suites

INTS = [[k, 1] for k in range(1, 9)]
HALVES = [[k, 2] for k in (1, 3, 5, 7, 9, 11)]
ODD = [[1, 3], [2, 3], [1, 4], [3, 4], [1, 5], [3, 10], [1, 10], [7, 5], [5, 3], [1, 100], [9, 4]]
LARGE = [[20, 1], [41, 2], [100, 1], [301, 2], [1000, 1], [77, 3]]
RATES = [[1, 1], [2, 1], [1, 2], [3, 1], [1, 3], [7, 2], [10, 1], [1, 100], [5, 7], [99, 1]]
EXPS = [0] * 6 + [-3, 5, -40, 40, -200, 200]


def r(f):
    f = Fr(f)
    return [f.numerator, f.denominator]


def num(rng, extreme=True):
    return {'q': rng.choice(RATES), 'e': rng.choice(EXPS) if extreme else 0}


def par(rng):
    return rng.choice(rng.choice([INTS, INTS, HALVES, ODD, ODD, LARGE]))


def shapes(rng, cap=12):
    return rng.choice([[], [1], [2], [3], [2, 2], [3, 1], [1, 4], [2, 3], [2, 1, 2], [5]])


def size(s):
    n = 1
    for k in s:
        n *= k
    return n


def block(rng):
    """A positive definite matrix with small entries."""
    m = rng.choice([1, 1, 2, 2, 3])
    L = [[Fr(rng.choice([0, 1, -1, 2])) if j < i else (Fr(rng.choice([1, 2, 1, 3])) if i == j else Fr(0))
          for j in range(m)] for i in range(m)]
    s = rng.choice([Fr(1), Fr(1), Fr(1, 2), Fr(3)])
    return [[r(s * sum(L[i][k] * L[j][k] for k in range(m))) for j in range(m)] for i in range(m)]


def gamma(rng, shape=None):
    shape = shapes(rng) if shape is None else shape
    n = size(shape)
    a, b = [par(rng) for _ in range(n)], [num(rng) for _ in range(n)]
    which = rng.random()
    if which < 0.15:
        a = a[:1] * n
    elif which < 0.35:
        b = b[:1] * n
    return {'fam': 'gamma', 'a': a, 'b': b, 'shape': shape}


def uvn(rng, shape=None):
    shape = shapes(rng) if shape is None else shape
    return {'fam': 'uvn', 'b': [num(rng) for _ in range(size(shape))], 'shape': shape}


def mvn(rng, n=None):
    return {'fam': 'mvn', 'm': [block(rng) for _ in range(n or rng.choice([1, 1, 2, 3]))], 'e': rng.choice(EXPS)}


def dirichlet(rng, shape=None):
    shape = shape or rng.choice([[2], [3], [4], [1], [2, 1], [2, 3], [3, 2], [4, 2], [1, 3], [3, 3], [2, 2, 2], [3, 1, 2],
                                 [2, 3, 2]])
    kind = rng.choice([INTS[:5], INTS[:5], HALVES[:3], INTS[:3] + HALVES[:3], LARGE[:4],
                       [[1, 4], [3, 4], [1, 2], [1, 1]], [[1, 10], [3, 10], [1, 5], [1, 100]]])
    n = size(shape[1:])
    return {'fam': 'dirichlet', 'a': [[rng.choice(kind) for _ in range(n)] for _ in range(shape[0])], 'shape': shape}


def beta(rng, n=None):
    out = []
    for _ in range(n or rng.choice([1, 2, 3])):
        kind = rng.choice([INTS[:5], HALVES[:3], INTS[:3] + HALVES[:3], LARGE[:4], [[1, 4], [3, 4], [1, 2]]])
        out.append([rng.choice(kind), rng.choice(kind)])
    return {'fam': 'beta', 'a': out}


def probs(rng, k):
    if k > 1 and rng.random() < 0.2:
        w = [0] * k
        w[rng.randrange(k)] = 1
    else:
        w = [rng.choice([0, 1, 1, 2, 3, 5]) for _ in range(k)]
        if not any(w):
            w[0] = 1
    return [r(Fr(x, sum(w))) for x in w]


def multi(rng, k=None, n=None, eps=None):
    k = k or rng.choice([1, 2, 3, 4])
    if eps is None:
        eps = rng.choice([[], [], [], [[1, 100]], [[1, 1000]]])
    return {'fam': 'multi', 'a': [probs(rng, k) for _ in range(n or rng.choice([1, 2, 3]))], 'eps': eps}


def wishart(rng):
    m = [block(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    k = sum(len(b) for b in m)
    df = k - 1 + Fr(*rng.choice([[1, 1], [1, 1], [2, 1], [1, 2], [3, 1], [4, 1], [5, 1], [1, 3], [2, 3], [50, 1], [1, 10]]))
    return {'fam': 'wishart', 'df': r(df), 'm': m, 'e': rng.choice(EXPS[:-2])}


def lognormal(rng):
    shape = shapes(rng)
    n = size(shape)
    return {'fam': 'lognormal', 'a': [rng.choice([[0, 1], [1, 1], [-1, 1], [1, 2], [-7, 3], [5, 1]]) for _ in range(n)],
            's': [{'q': rng.choice([[1, 1], [1, 2], [2, 1], [1, 10], [3, 1]]), 'e': 0} for _ in range(n)],
            'shape': shape}


MAKE = {f.__name__: f for f in (gamma, uvn, mvn, dirichlet, beta, multi, wishart, lognormal)}
SCALES = [[2, 1], [3, 1], [1, 2], [5, 2], [1, 3]]
LINEAR = {1: [[[2]], [[-3]]], 2: [[[1, 2], [0, 1]], [[0, 1], [1, 0]], [[2, 0], [1, 3]], [[1, 1], [-1, 1]]],
          3: [[[1, 0, 0], [2, 1, 0], [0, -1, 2]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]}


def small(rng, fam):
    while True:
        d = MAKE[fam](rng)
        if fam in ('gamma', 'uvn', 'lognormal') and size(d['shape']) > 2:
            continue
        if fam in ('beta', 'multi') and len(d['a']) > 1:
            continue
        if fam == 'dirichlet' and size(d['shape']) > 4:
            continue
        if fam in ('mvn', 'wishart') and len(d['m']) > 1:
            continue
        return d


def outline(d):
    return (d.get('shape'), len(d.get('a', [])), len(d.get('m', [[]])[0]), [len(x) for x in d.get('a', [])])


class Gen(object):
    """A random walk; keeps what it must know of the state: family, number of
    components, shape."""
    def __init__(self, rng, fam, d=None):
        self.rng = rng
        self.d = d or MAKE[fam](rng)
        self.d0 = self.d
        self.ops = []

    def set(self, fam):
        self.d = MAKE[fam](self.rng)
        self.ops.append({'op': 'set', 'd': self.d})

    def options(self):
        d = self.d
        f = d['fam']
        o = []
        if f in ('gamma', 'uvn', 'mvn', 'wishart'):
            o.append('scale')
        if f == 'lognormal':
            o += ['shift', 'narrow']
        if f in ('mvn', 'wishart'):
            o.append('linear')
        if f in ('gamma', 'dirichlet', 'wishart'):
            o.append('bump')
        if (f in ('gamma', 'uvn') and d['shape']) or f in ('mvn', 'beta', 'multi') or \
                (f == 'dirichlet' and len(d['shape']) == 2):
            o.append('cat')
        if f in ('gamma', 'uvn', 'mvn', 'beta', 'multi', 'dirichlet'):
            o.append('perm')
        if (f == 'dirichlet' and d['shape'][0] > 1) or (f == 'multi' and len(d['a'][0]) > 1):
            o.append('merge')
        if (f == 'gamma' and d['shape'] in ([], [1])) or f == 'beta' or \
                (f == 'uvn' and len(set(x['e'] for x in d['b'])) == 1):
            o.append('as')
        return o

    def step(self, k=None):
        rng, d = self.rng, self.d
        f = d['fam']
        k = k or rng.choice(self.options())
        new = dict(d)
        if k in ('scale', 'shift'):
            c = rng.choice(SCALES)
            op = {'op': 'scale', 'c': c}
        elif k == 'narrow':
            op = {'op': 'narrow', 'k': rng.choice([-3, -20, -30, -44, -70, -200])}
        elif k == 'linear':
            n = len(d['m'][0])
            op = {'op': 'linear', 'A': [[[a, 1] for a in row] for row in rng.choice(LINEAR[n])]}
        elif k == 'bump':
            n = {'gamma': len(d.get('a', [])), 'dirichlet': d.get('shape', [0])[0] if f == 'dirichlet' else 0}.get(f, 1)
            op = {'op': 'bump', 'i': rng.randint(1, n)}
        elif k == 'cat':
            if f in ('gamma', 'uvn'):
                m = rng.choice([1, 2])
                e = MAKE[f](rng, [m])
                op = {'op': 'cat', 'd': e, 'shape': [size(d['shape']) + m]}
                new['shape'] = op['shape']
                for q in ('a', 'b'):
                    if q in d:
                        new[q] = d[q] + e[q]
            elif f == 'mvn':
                e = mvn(rng, 1)
                op = {'op': 'cat', 'd': e}
                new['m'] = d['m'] + e['m']
            elif f == 'beta':
                e = beta(rng, 1)
                op = {'op': 'cat', 'd': e}
                new['a'] = d['a'] + e['a']
            elif f == 'multi':
                e = multi(rng, len(d['a'][0]), 1, d['eps'])
                op = {'op': 'cat', 'd': e}
                new['a'] = d['a'] + e['a']
            else:
                e = dirichlet(rng, [d['shape'][0], 1])
                new['shape'] = [d['shape'][0], d['shape'][1] + 1]
                new['a'] = [x + y for x, y in zip(d['a'], e['a'])]
                op = {'op': 'cat', 'd': e, 'shape': new['shape']}
        elif k == 'perm':
            n = len(d['m'] if f == 'mvn' else d['b'] if f == 'uvn' else d['a'])
            p = list(range(1, n + 1))
            rng.shuffle(p)
            op = {'op': 'perm', 'p': p}
            for q in ('a', 'b', 'm'):
                if q in d:
                    new[q] = [d[q][i - 1] for i in p]
        elif k == 'merge':
            op = {'op': 'merge'}
            if f == 'dirichlet':
                new['shape'] = [d['shape'][0] - 1] + d['shape'][1:]
                new['a'] = d['a'][1:]
            else:
                new['a'] = [x[1:] for x in d['a']]
        else:
            op = {'op': 'as'}
            if f == 'gamma':
                new = {'fam': 'wishart', 'm': [[[0]]]}
            elif f == 'beta':
                new = {'fam': 'dirichlet', 'a': [[0] * len(d['a'])] * 2, 'shape': [2, len(d['a'])]}
            else:
                new = {'fam': 'mvn', 'm': [[[0]] for _ in d['b']], 'e': 0}
        self.ops.append(op)
        self.d = new


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i in range(30 if ctx.quick else 300):
        for fam in sorted(MAKE):
            g = Gen(rng, fam)
            since = 0
            for _ in range(9):
                # a few transformations at a time keep the numbers small
                if since >= (2 if 'm' in g.d else 3):
                    g.set(fam)
                    since = 0
                else:
                    g.step()
                    since += 1
            suites.append({'mode': 'script', 'name': fam, 'd': g.d0, 'ops': g.ops})
    # every order of a few transformations
    for fam in sorted(MAKE):
        g = Gen(rng, fam, small(rng, fam))
        ops = []
        for k in ('scale', 'shift', 'linear', 'bump', 'cat', 'perm'):
            if k in g.options() and k not in ('shift',) + (() if fam in ('gamma', 'uvn', 'mvn') else ('perm',)):
                h = Gen(rng, fam, g.d)
                h.step(k)
                if k != 'cat':
                    ops += h.ops
        for _ in range(2):
            e = small(rng, fam)
            while outline(e) != outline(g.d):
                e = small(rng, fam)
            ops.append({'op': 'set', 'd': e})
        suites.append({'mode': 'graph', 'name': fam, 'd': g.d, 'ops': ops, 'depth': 1 if 'm' in g.d else 3})
    # determinants beyond the floating point range
    for e in (-60, 60, -200):
        big = {'fam': 'mvn', 'm': [block(rng) for _ in range(20)] * 2, 'e': e}
        suites.append({'mode': 'script', 'name': 'mvn', 'd': big, 'ops': [{'op': 'scale', 'c': [3, 1]}]})
    big = {'fam': 'wishart', 'df': [70, 1], 'm': [block(rng) for _ in range(10)] * 2, 'e': -60}
    suites.append({'mode': 'script', 'name': 'wishart', 'd': big, 'ops': [{'op': 'scale', 'c': [3, 1]}]})
    # many components
    for e in (-40, 30):
        n = 120
        for big in ({'fam': 'uvn', 'b': [dict(num(rng), e=e) for _ in range(n)], 'shape': [n]},
                    {'fam': 'gamma', 'a': [par(rng) for _ in range(n)], 'b': [dict(num(rng), e=e) for _ in range(n)],
                     'shape': [n // 4, 4]},
                    {'fam': 'beta', 'a': [x for _ in range(30) for x in beta(rng, 2)['a']]},
                    {'fam': 'multi', 'a': [probs(rng, 3) for _ in range(60)], 'eps': []}):
            suites.append({'mode': 'script', 'name': big['fam'], 'd': big,
                           'ops': [{'op': 'scale', 'c': [3, 1]}] if big['fam'] in ('uvn', 'gamma') else []})
    run_suites(ctx, suites, module='MC_ExpFam', driver=ExpFamDriver)
