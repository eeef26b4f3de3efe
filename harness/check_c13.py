"""C13: the algebra of derivative terms."""
from gen import *
from polys import rpoly, rmat
from replay import run_suites
from terms import TermsDriver


def iv(rng, n, vals=(-1, 1, 1, 2)):
    return [[rng.choice(vals), 1] for _ in range(n)]


def unimodular(rng):
    return rng.choice([[[2, 1], [1, 1]], [[1, 0], [0, 1]], [[1, 2], [2, 5]], [[3, -1], [-1, 1]], [[1, -1], [0, 1]]])


def table(rng, n, small=False):
    if small:
        H = rng.choice([[[1, 0], [0, 1]], [[1, -1], [0, 1]], [[1, 0], [1, 1]]])
        return {'a': [[1, 1], [0, 1]], 'b': iv(rng, 2, (-1, 1)), 'deps': [[1, 1], [0, 1]],
                'H': [[[x, 1] for x in r] for r in H],
                'u': [[iv(rng, 2, (-1, 0, 1)) for _ in range(n)] for _ in range(n)]}
    return {'a': iv(rng, 2, (-1, 0, 1, 1)), 'b': iv(rng, 2, (-1, 1)), 'deps': iv(rng, 2, (0, 1, -1)),
            'H': [[[x, 1] for x in r] for r in unimodular(rng)],
            'u': [[iv(rng, 2, (-1, 0, 1, 2)) for _ in range(n)] for _ in range(n)]}


def patterns(k):
    """(e, m) with e + sum i m_i = k and len(m) = k."""
    def rec(i, left):
        if i > k:
            yield ()
            return
        for j in range(left // i + 1):
            for rest in rec(i + 1, left - i * j):
                yield (j,) + rest
    for m in rec(1, k):
        e = k - sum((i + 1) * x for i, x in enumerate(m))
        yield e, list(m)


def taylor(rng, order, ev):
    ops = []
    for k in range(order - 1):
        if rng.random() < 0.3:
            ops += [{'op': 'rawdiff'}, {'op': 'consolidate'}]
        else:
            ops.append({'op': 'diff', 'module': rng.random() < 0.6})
    if ev:
        ops = [{'op': 'diff', 'module': o.get('module', False)} for o in ops if o['op'] != 'consolidate']
    return {'mode': 'script', 'kind': 'taylor', 'eval': ev, 'ob': table(rng, order + 2, ev and order > 4), 'ops': ops, 'name': 'taylor'}


def termlist(rng, k, n, diffs):
    ps = list(patterns(k))
    some = [rng.choice(ps) for _ in range(rng.randint(1, max(1, len(ps) // 2)))]
    ts = []
    for _ in range(n):
        e, m = rng.choice(some)
        ts.append({'e': e, 'm': m, 'c': [rng.choice([1, 2, 3, -1, -2, 5]), rng.choice([1, 1, 2])]})
    ops = [{'op': rng.choice(['consolidate', 'rawdiff', 'diff']), 'module': False} for _ in range(diffs)]
    ops = [{'op': 'consolidate'}] + ops if rng.random() < 0.5 else ops + [{'op': 'consolidate'}]
    grow = sum(1 for o in ops if o['op'] != 'consolidate')
    return {'mode': 'script', 'kind': 'terms', 'eval': True, 'ob': table(rng, k + grow + 2), 'terms': ts,
            'D': [iv(rng, 2, (-1, 0, 1, 1)) for _ in range(k + grow)], 'ops': ops, 'name': 'terms'}


def jvp(rng, how):
    nargs = 2 if how == 'array' else rng.randint(1, 3)
    sizes = [rng.randint(1, 3) for _ in range(nargs)]
    n = sum(sizes)
    offs = [sum(sizes[:i]) for i in range(nargs)]
    ops = []
    order = rng.randint(2, 3)
    for _ in range(5):
        if how == 'array':
            i, j = rng.randint(0, order - 1), rng.randint(0, order)
            args = [0] * i + [1] * j
        else:
            args = [rng.randint(0, nargs - 1) for _ in range(rng.randint(1, 3))]
        ops.append({'op': 'jvp', 'how': how, 'order': order, 'at': iv(rng, n, (-1, 1, 2, 0)),
                    'dirs': [{'arg': a, 'v': iv(rng, sizes[a], (-1, 0, 1, 2))} for a in args]})
    return {'mode': 'script', 'kind': 'jvp', 'eval': False, 'sizes': sizes, 'offs': offs, 'ops': ops, 'name': 'jvp',
            'fun': [rpoly(rng, n, rng.randint(3, 5), 4) for _ in range(rng.choice([1, 2, 2, 3]))]}


def run(ctx):
    rng = ctx.rng()
    suites = [taylor(rng, 8 if ctx.quick else 11, False) for _ in range(3)]
    for _ in range(10 if ctx.quick else 60):
        suites.append(taylor(rng, rng.randint(3, 5), True))
    # every pair of patterns of one order, in both orders, and triples of like terms
    for k in range(1, 4):
        ps = list(patterns(k))
        for p in ps:
            for q in ps:
                ts = [{'e': e, 'm': m, 'c': [c, 1]} for (e, m), c in
                      ((p, 1), (q, 2), (p, 3), (q, -1), (p, 5))]
                suites.append({'mode': 'script', 'kind': 'terms', 'eval': True, 'ob': table(rng, k + 3), 'terms': ts,
                               'D': [iv(rng, 2, (-1, 0, 1, 1)) for _ in range(k + 1)], 'name': 'pairs',
                               'ops': [{'op': 'consolidate'}, {'op': 'diff', 'module': False}]})
    for _ in range(60 if ctx.quick else 600):
        suites.append(termlist(rng, rng.randint(1, 5), rng.randint(1, 12), rng.randint(0, 2)))
    for _ in range(40 if ctx.quick else 400):
        suites.append(jvp(rng, rng.choice(['array', 'append'])))
    run_suites(ctx, suites, module='MC_Terms', driver=TermsDriver)
