"""C10: derivatives of a function of two parameters."""
from gen import *
import params
from check_c09 import COEF, small, unbounded
from polys import rpoly
from replay import run_suites
from twoparam import TwoParamDriver

KINDS = [('fun', 1, 1), ('fun', 0, 0), ('fun', 1, 0), ('fun', 0, 1)] + \
    [(g, i, j) for g in ('grad1', 'grad2') for i in (0, 1) for j in (0, 1)] + \
    [('hess12', 1, 1), ('hess21', 1, 1), ('hess12', 0, 0), ('hess21', 0, 0), ('hess12', 1, 0), ('hess12', 0, 1)]


def objective(rng, c1, c2):
    n1, n2 = params.vec_size(c1), params.vec_size(c2)
    P = rpoly(rng, n1 + n2, rng.randint(1, 3), 3)
    # make sure the parameters interact, asymmetrically
    for _ in range(rng.randint(2, 4)):
        P.append({'c': rng.choice([[1, 1], [2, 1], [-1, 1], [3, 1]]),
                  'm': [[rng.randint(1, n1), rng.choice([1, 1, 2])], [n1 + rng.randint(1, n2), rng.choice([1, 1, 2])]]})
    return {'c1': c1, 'c2': c2, 'P': P, 'Q': rpoly(rng, n1 + n2, 2, 2), 'read': rng.choice(['vector', 'get']),
            'u': rng.choice([0, 0, 0, -40, 40, -200]),
            'u1': rng.choice([0, -30, -60, -60, 40]) if unbounded(c1) else 0,
            'u2': rng.choice([0, -30, -60, -60, 40]) if unbounded(c2) else 0}


def call(rng, ob, o, f1, f2, boom=False):
    op = {'op': o, 'f1': bool(f1), 'f2': bool(f2), 'x1': rx(rng, ob['c1']), 'x2': rx(rng, ob['c2']),
            'a': rng.choice(COEF), 'b': rng.choice(COEF), 'pos': rng.randint(0, 2), 'boom': boom,
            'q1': rq(rng, ob['c1']) if rng.random() < 0.4 else [], 'q2': rq(rng, ob['c2']) if rng.random() < 0.4 else [],
            'when': rng.choice(['early', 'late']), 'via': rng.random() < 0.5, 'arg': rng.randint(0, 1)}
    if rng.random() < 0.3:
        op.update(a=[1, 1], b=[1, 1], pos=3)
    return op


def pairs(rng, n, size):
    n0 = ([], [])
    fixed = [(scalar(([[0, 1]], [])), vector(2, n0)), (simplex(1, 3), posdef(2)), (posdef(2), scalar(n0)),
             (vector(3, ([[0, 1]], [])), vector(2, ([], [[1, 1]]))), (vector(2, n0), vector(2, n0)), (scalar(n0), vector(2, n0)), (array((2, 1), n0), scalar(n0)),
             (scalar(n0), scalar(n0)), (vector(2, n0), dct([('a', scalar(n0)), ('b', scalar(n0))])),
             (subspace([[1, 1, 1]]), simplex(2, 2)), (array((2, 2), ([[0, 1]], [[1, 1]])), subspace([[1, 0, -1]])),
             (posdefvec(2, 1), array((1, 2), n0)), (simplex(2, 2), scalar(([], [])))]
    out = list(fixed)
    while len(out) < n:
        c1 = rdict(rng, 2, 2) if rng.random() < 0.5 else rleaf(rng)
        c2 = rdict(rng, 2, 2) if rng.random() < 0.5 else rleaf(rng)
        if small(c1, size) and small(c2, size):
            out.append((c1, c2))
    return out


def graph(rng, c1, c2, ops):
    ob = objective(rng, c1, c2)
    return {'mode': 'graph', 'name': 'two', 'ob': ob, 'x1': rx(rng, c1), 'x2': rx(rng, c2),
            'ops': [call(rng, ob, *o) for o in ops]}


def run(ctx):
    rng = ctx.rng()
    suites = []
    for c1, c2 in pairs(rng, 50 if ctx.quick else 400, 6 if ctx.quick else 8):
        ob = objective(rng, c1, c2)
        ops = [call(rng, ob, *k) for k in KINDS]
        for _ in range(6):
            k = rng.choice(KINDS + [('set1', 1, 1), ('set2', 0, 0), ('set1', 0, 0)])
            ops.append(call(rng, ob, k[0], k[1], k[2], k[0][:3] != 'set' and rng.random() < 0.6))
        rng.shuffle(ops)
        # the same request elsewhere
        for op in list(ops):
            if op['op'][:3] != 'set' and rng.random() < 0.3:
                new = call(rng, ob, op['op'], op['f1'], op['f2'])
                new.update({k: op[k] for k in ('a', 'b', 'pos')})
                ops.insert(ops.index(op) + 1, new)
        if len(suites) % 2 or unbounded(c1) and unbounded(c2):
            for k in KINDS[-6:]:
                for _ in range(2):
                    ops.append(dict(call(rng, ob, *k), a=[1, 1], b=[1, 1], pos=3))
        suites.append({'mode': 'script', 'ob': ob, 'x1': rx(rng, c1), 'x2': rx(rng, c2), 'ops': ops})
    sets = [[('fun', 1, 0), ('grad1', 1, 1, True), ('hess12', 0, 1, True), ('grad2', 0, 0), ('set1', 1, 1),
             ('raw', 1, 0), ('hess21', 1, 1)],
            [('grad1', 0, 1), ('grad2', 1, 0, True), ('hess12', 1, 1, True), ('hess21', 0, 0, True), ('fun', 0, 0, True),
             ('set2', 0, 0), ('raw', 0, 1)],
            [('hess12', 1, 0, True), ('hess12', 0, 1), ('grad1', 0, 0, True), ('fun', 0, 1), ('hess21', 1, 1, True),
             ('raw', 1, 1), ('set1', 0, 0)]]
    for i, (c1, c2) in enumerate(pairs(rng, 9, 5)[:4 if ctx.quick else 9]):
        for s in ([sets[i % 3]] if ctx.quick else sets):
            suites.append(graph(rng, c1, c2, s))
    run_suites(ctx, suites, module='MC_TwoParam', driver=TwoParamDriver)
