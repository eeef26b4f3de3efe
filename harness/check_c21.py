"""C21: Bayesian linear regression."""
from fractions import Fraction as Fr

from regression import RegressionDriver
from replay import run_suites


def rq(x):
    x = Fr(x)
    return [x.numerator, x.denominator]


def prod(s):
    n = 1
    for k in s:
        n *= k
    return n


def mat(rng, n, m):
    return [[rng.choice([0, 1, 1, -1, 2]) for _ in range(m)] for _ in range(n)]


def posdef(rng, n):
    kind = rng.choice(['any', 'any', 'any', 'unit', 'identity', 'diag'])
    if kind == 'unit':
        # unit diagonal, with correlations
        s = rng.choice([1, 1, 1, 2])
        return [[s * (Fr(1) if i == j else Fr(1, 2) if abs(i - j) == 1 else Fr(0)) for j in range(n)]
                for i in range(n)]
    if kind in ('identity', 'diag'):
        d = [Fr(1) if kind == 'identity' else Fr(rng.choice([1, 2, 3])) for _ in range(n)]
        return [[d[i] if i == j else Fr(0) for j in range(n)] for i in range(n)]
    L = [[rng.choice([0, 1, -1]) if j < i else (rng.choice([1, 1, 2]) if i == j else 0) for j in range(n)]
         for i in range(n)]
    s = rng.choice([Fr(1), Fr(1), Fr(1, 2), Fr(2)])
    return [[s * sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def rmat(M):
    return [[rq(a) for a in r] for r in M]


def rvec(rng, n):
    return [rq(rng.choice([0, 1, -1, 2, -2, 3, Fr(1, 2), Fr(-3, 2)])) for _ in range(n)]


def prior(rng, P, r):
    return [rvec(rng, r) for _ in range(P)], [rmat(posdef(rng, r)) for _ in range(P)]


def det(M):
    n = len(M)
    M = [list(map(Fr, r)) for r in M]
    d = Fr(1)
    for k in range(n):
        p = [i for i in range(k, n) if M[i][k] != 0]
        if not p:
            return Fr(0)
        if p[0] != k:
            M[k], M[p[0]] = M[p[0]], M[k]
            d = -d
        d *= M[k][k]
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            M[i] = [a - f * b for a, b in zip(M[i], M[k])]
    return d


def data(rng, dims, r, regular=False, big=False):
    P = prod(dims)
    n = rng.choice([1, 2, 2, 3, 4] if not regular else [r, r + 1, r + 1, r + 2])
    extra = rng.choice([[], [], [], [1], [2], [3], [2, 2], [1, 2]])
    xs = []
    while len(xs) < P:
        x = mat(rng, n, r)
        if regular and det([[sum(x[k][i] * x[k][j] for k in range(n)) for j in range(r)] for i in range(r)]) == 0:
            continue
        xs.append(x)
    full = rng.random() < 0.5
    return {'x': [rmat(x) for x in xs], 'extra': extra,
            'y': [[rvec(rng, n) for _ in range(prod(extra))] for _ in range(P)],
            'w': {'one': rq(rng.choice([1, 2, 3, Fr(1, 2), Fr(3, 2)])),
                  'full': [rmat(posdef(rng, n)) for _ in range(P)] if full else []},
            'int': rng.random() < 0.3, 'np': rng.random() < 0.3}


def op(rng, k, dims, r):
    P = prod(dims)
    if k == 'reset':
        m, i = prior(rng, P, r)
        return {'op': k, 'mean': m, 'info': i}
    if k in ('update', 'lik', 'coef'):
        return {'op': k, 'd': data(rng, dims, r, k == 'coef')}
    if k == 'mm':
        s, a, b = [rng.choice([1, 2, 3]) for _ in range(3)]
        return {'op': k, 'p': [rmat(mat(rng, s, a)) for _ in range(P)], 'q': [rmat(mat(rng, s, b)) for _ in range(P)]}
    if k == 'mv':
        s, a = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        extra = rng.choice([[], [], [1], [2], [2, 3]])
        return {'op': k, 'p': [rmat(mat(rng, s, a)) for _ in range(P)], 'extra': extra,
                'q': [[rvec(rng, s) for _ in range(prod(extra))] for _ in range(P)]}
    return {'op': k}


def added(infos, d):
    """The information after an update."""
    out = []
    for i, inf in enumerate(infos):
        x = [[Fr(*a) for a in row] for row in d['x'][i]]
        n, r = len(x), len(x[0])
        if d['w']['full']:
            w = [[Fr(*a) for a in row] for row in d['w']['full'][i]]
        else:
            w = [[Fr(*d['w']['one']) if a == b else Fr(0) for b in range(n)] for a in range(n)]
        k = len(d['y'][i])
        out.append([[Fr(*inf[a][b]) + k * sum(x[p][a] * w[p][q] * x[q][b] for p in range(n) for q in range(n))
                     for b in range(r)] for a in range(r)])
    return out


def tame(infos):
    for M in infos:
        dt = det([[2 * a for a in row] for row in M])
        if len(M) == 3 and (dt > 8 * 250 or max(a for row in M for a in row) > 24):
            return False
        if len(M) < 3 and dt > 5000:
            return False
    return True


DIMS = [[], [], [], [1], [2], [3], [2, 1], [1, 2], [2, 2], [2, 3], [1, 1, 2]]


def units(rng, r):
    """Regressors in different units."""
    return rng.choice([[0, 0, 0], [0, 0, 0], [0, 14, -3], [-17, 3, 0], [9, -9, 20]])[:r]


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i in range(120 if ctx.quick else 1500):
        dims = rng.choice(DIMS)
        r = rng.choice([1, 2, 2, 3])
        m, inf = prior(rng, prod(dims), r)
        now = inf
        ops = []
        while len(ops) < 10:
            k = rng.choice(['update', 'update', 'update', 'lik', 'coef', 'mm', 'mv', 'nat', 'back'])
            o = op(rng, k, dims, r)
            while k == 'coef' and not tame(added([rmat([[0] * r] * r)] * prod(dims), o['d'])):
                o = op(rng, k, dims, r)
            if k == 'update':
                # keep the numbers small
                while not tame(added(now, o['d'])):
                    if rng.random() < 0.3:
                        ops.append(op(rng, 'reset', dims, r))
                        now = ops[-1]['info']
                    o = op(rng, k, dims, r)
                now = [rmat(M) for M in added(now, o['d'])]
            ops.append(o)
        suites.append({'mode': 'script', 'name': 'regression', 'dims': dims, 'mean': m, 'info': inf, 'ops': ops,
                       'u': rng.choice([[0, 0], [0, 0], [10, -7], [-20, 20], [0, 30], [15, -20]]), 'ux': units(rng, r)})
    for i in range(6 if ctx.quick else 60):
        dims = rng.choice(DIMS[:8])
        r = rng.choice([1, 2])
        m, inf = prior(rng, prod(dims), r)
        ops = [op(rng, k, dims, r) for k in ('update', 'update', 'update', 'nat', 'back', 'coef')]
        while not all(tame(added([rmat(M) for M in added(inf, a['d'])], b['d'])) for a in ops[:3] for b in ops[:3]):
            ops[:3] = [op(rng, 'update', dims, r) for _ in range(3)]
        ops.append({'op': 'reset', 'mean': m, 'info': inf})
        suites.append({'mode': 'graph', 'name': 'regression', 'dims': dims, 'mean': m, 'info': inf, 'ops': ops,
                       'u': rng.choice([[0, 0], [0, 0], [10, -7], [-20, 20], [0, 30], [15, -20]]), 'ux': units(rng, r)})
    run_suites(ctx, suites, module='MC_Regression', driver=RegressionDriver)
