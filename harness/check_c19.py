"""C19: sparse placement and packing."""
from gen import LIN
from replay import run_suites
from sparsemat import SparseDriver

ZERO = [0, 1]
INTS = [[1, 1], [-1, 1], [2, 1], [0, 1], [0, 1], [5, 1]]


def block(rng, a, b, ints, sym, tiny):
    vals = INTS if ints else LIN + [ZERO, [1, 8], [-5, 64]]
    if tiny:
        # next to nothing is not nothing
        vals = [ZERO, [3, 134217728], [1, 134217728], [-1, 134217728]]
    p = rng.choice([0.0, 0.5, 1.0, 1.0])
    M = [[rng.choice(vals) if rng.random() < p else ZERO for _ in range(b)] for _ in range(a)]
    if sym:
        for i in range(a):
            for j in range(i):
                M[j][i] = M[i][j]
    return M


def indices(rng, k, n):
    kind = rng.choice(['distinct', 'repeated', 'any'])
    if kind == 'distinct' and k <= n:
        return rng.sample(range(1, n + 1), k)
    if kind == 'repeated':
        pool = rng.sample(range(1, n + 1), min(n, 2))
        return [rng.choice(pool) for _ in range(k)]
    return [rng.randint(1, n) for _ in range(k)]


def place(rng, o, n, m, tiny=False, e=0):
    hess = n == m and rng.random() < 0.4
    a = rng.randint(1, 4)
    b = a if hess else rng.randint(1, 4)
    ints = not tiny and e == 0 and rng.random() < 0.2
    rows = indices(rng, a, n)
    return {'op': o, 'sub': block(rng, a, b, ints, hess and rng.random() < 0.5, tiny), 'rows': rows,
            'cols': rows if hess else indices(rng, b, m), 'n': n, 'm': m, 'hess': hess, 'int': ints,
            # the rows and columns of a much larger matrix it is placed at
            'far': [1, 1] if rng.random() < 0.7 else [rng.choice([1, 50, 6000, 40000]), rng.choice([1, 50, 6000, 40000])],
            'matrix': rng.random() < 0.15, 'as': rng.choice(['array', 'array', 'list', 'float'])}


def entries(rng, n, m, e=0):
    dtype = rng.choice(['float64', 'float64', 'int64', 'int32', 'float32'])
    if e:
        dtype = 'float64'
    vals = INTS if dtype.startswith('int') else [[1, 2], [-3, 4], [2, 1], [0, 1], [7, 8], [1, 1]]
    if dtype == 'float64':
        vals = vals + [[1, 3], [22, 7], [1, 1000003]]
    st = [[rng.randint(1, n), rng.randint(1, m), rng.choice(vals)] for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    if dtype == 'float32':
        pos = {}
        for x in st:
            pos[(x[0], x[1])] = x
        st = [pos[k] for k in sorted(pos)]
    return {'op': 'entries', 'e': st, 'n': n, 'm': m, 'dtype': dtype, 'canonical': rng.random() < 0.5}


def pack(rng, o):
    return {'op': o, 'fmt': rng.choice(['csr', 'csr', 'csc', 'coo', 'dense', 'lil']), 'through': rng.random() < 0.5,
            'wrong': rng.random() < 0.2}


FORMS = ['csr', 'csc', 'coo', 'dense', 'matrix', 'lil']


def times(rng, n, m):
    left = rng.random() < 0.5
    q = rng.choice([1, 2, 3, n, m])
    a, b = (q, n) if left else (m, q)
    return {'op': 'times', 'left': left, 'B': [[[rng.choice([0, 0, 1, -2, 3]), 1] for _ in range(b)] for _ in range(a)],
            'fmt': rng.choice(FORMS), 'other': rng.choice(FORMS)}


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i in range(400 if ctx.quick else 4000):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        if rng.random() < 0.4:
            m = n
        tiny = rng.random() < 0.2
        e = rng.choice([0, 0, 0, -70, 70, -900])
        ops = [place(rng, 'place', n, m, tiny, e) if rng.random() < 0.5 else entries(rng, n, m, e)]
        for _ in range(7):
            o = rng.choice(['pack', 'pack', 'json', 'text', 'add', 'erase', 'new', 'look', 'times'])
            if o == 'add' and tiny:
                o = 'pack'
            if o == 'add':
                ops.append(place(rng, 'add', n, m, False, e))
            elif o == 'erase':
                ops.append({'op': 'erase', 'i': rng.randint(1, n), 'j': rng.randint(1, m)})
            elif o == 'look':
                ops.append({'op': 'look', 'fmt': rng.choice(FORMS)})
            elif o == 'times':
                ops.append(times(rng, n, m))
            elif o == 'new':
                n, m = rng.randint(1, 6), rng.randint(1, 6)
                tiny = rng.random() < 0.2
                ops.append(place(rng, 'place', n, m, tiny, e) if rng.random() < 0.5 else entries(rng, n, m, e))
            else:
                ops.append(pack(rng, o))
        suites.append({'mode': 'script', 'name': 'sparse', 'e': e, 'ops': ops})
    run_suites(ctx, suites, module='MC_Sparse', driver=SparseDriver)
