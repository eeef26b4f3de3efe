"""C18: masks and masked solves."""
import itertools
import json
from fractions import Fraction as Fr

import masks
import params
import qpoly as qp
from check_c12 import spd
from common import fmt_exc
from gen import LIN
from replay import run_suites


def judge(ctx, rng):
    recs = []

    def add(f, *args):
        try:
            recs.append(f(*args))
        except params.Mismatch as e:
            ctx.violation('masks', str(e), {'masks': list(args)})
        except Exception:
            ctx.violation('masks', 'raised ' + fmt_exc(), {'masks': list(args)})
    top = 7 if ctx.quick else 10
    for n in range(1, top + 1):
        for bits in itertools.product((0, 1), repeat=n):
            asked = [i + 1 for i in range(n) if bits[i]]
            add(masks.record_split, n, asked)
            for limit in range(1, len(asked) + 2):
                add(masks.record_recursive, n, asked, limit)
            if ctx.too_many():
                return
    for n in range(1, 40 if ctx.quick else 90):
        for limit in range(1, n):
            add(masks.record_blocks, n, limit)
        add(masks.record_recursive, n, list(range(1, n + 1)), rng.randint(1, n))
    for n in (1, 5):
        for limit in (0, -1, -n):
            try:
                masks.refuses_blocks(n, limit)
                ctx.validated += 1
            except params.Mismatch as e:
                ctx.violation('masks', str(e), {'masks': [n, limit]})
    for _ in range(150 if ctx.quick else 600):
        n = rng.randint(8, 120)
        p = rng.choice([0.05, 0.3, 0.5, 0.9, 1.0])
        asked = [i + 1 for i in range(n) if rng.random() < p]
        before = [[1, 2], []][:rng.randint(0, 2)]
        add(masks.record_recursive, n, asked, rng.choice([1, 2, 3, 5, 10, 10, 17]), before)
        add(masks.record_split, n, asked)
    # longer than a byte counts
    for n in [128, 150, 200, 257, 300] + ([] if ctx.quick else [400, 513, 700, 1025]):
        limit = rng.choice([17, 30, 50, 64])
        add(masks.record_blocks, n, limit)
        for p in (1.0, 0.9):
            asked = [i + 1 for i in range(n) if rng.random() < p]
            add(masks.record_recursive, n, asked, limit)
            add(masks.record_split, n, asked)
    ctx.count('mask records', len(recs))
    chunks = [recs[i::8] for i in range(8)]

    def one(chunk):
        return chunk, ctx.tlc('MaskTrace', data=chunk, workers=1, heap='2g')
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for chunk, res in ex.map(one, chunks):
            bad = [r['bad'] for r in res.records]
            ctx.validated += len(chunk) - len(bad)
            for b in bad[:3]:
                ctx.violation('masks', 'the masks are not as specified: %s' % chunk[b - 1], {'masks': chunk[b - 1]})
    ctx.sample(recs[200:203])


def blocks(rng, n):
    """Many different eigenvalues, so that a solve takes about n steps."""
    A = [[0] * n for _ in range(n)]
    for i in range(n):
        A[i][i] = 2 + (i * i) // 2
    for i in range(0, n - 1, 2):
        A[i][i + 1] = A[i + 1][i] = rng.choice([0, 1, -1])
    return A


def system(rng, n, A=None):
    c = [rng.choice([0, 1, 2]) if A is None else 0 for _ in range(n)]
    A = spd(rng, n) if A is None else A
    x0 = [Fr(rng.choice([0, 1, 2, 1, 3])) for _ in range(n)]
    F = {}
    for i in range(n):
        for j in range(n):
            if A[i][j] == 0:
                continue
            F = qp.add(F, qp.scale(Fr(A[i][j], 2), qp.mul(qp.var(i + 1), qp.var(j + 1))))
        F = qp.add(F, qp.scale(Fr(c[i], 6), qp.power(qp.var(i + 1), 3)))
        F = qp.add(F, qp.scale(rng.choice([0, 1, -1]), qp.var(i + 1)))
    return {'F': qp.rats(F), 'e': rng.choice([0, 0, 12, 24, -8]), 'x0': [qp.rat(v) for v in x0]}


def call(rng, n, o):
    op = {'op': o, 'k': 0, 'masks': [], 'partition': False, 'x0': [], 'vec': [], 'e': 0}
    if o in ('solve', 'subsets', 'move'):
        op['vec'] = [rng.choice(LIN + [[0, 1]]) for _ in range(n)]
        if o != 'move' and all(v[0] == 0 for v in op['vec']):
            op['vec'][0] = [1, 1]
        if o != 'move':
            op['e'] = rng.choice([0, 0, -12, 8])
    if o == 'solve' and rng.random() < 0.5:
        op['x0'] = [rng.choice(LIN) for _ in range(n)]
    if o == 'subsets':
        op['k'] = rng.randint(0, 1)
        kind = rng.choice(['blocks', 'cuts', 'any', 'shuffled', 'none'])
        ix = list(range(1, n + 1))
        if kind in ('blocks', 'cuts', 'shuffled'):
            op['partition'] = True
            if kind == 'shuffled':
                rng.shuffle(ix)
            k = rng.randint(1, n)
            if kind == 'blocks':
                op['masks'] = [ix[i:i + k] for i in range(0, n, k)]
            else:
                cuts = sorted(rng.sample(range(1, n), min(n - 1, k - 1)))
                op['masks'] = [sorted(ix[a:b]) for a, b in zip([0] + cuts, cuts + [n])]
        elif kind == 'any':
            op['masks'] = [[i for i in ix if rng.random() < 0.5] for _ in range(rng.randint(1, 3))]
    if o == 'tol' or o == 'pre':
        op['k'] = rng.randint(0, 2)
    return op


def run(ctx):
    rng = ctx.rng()
    if getattr(ctx, 'replay_file', None):
        rp = json.load(open(ctx.replay_file))['replay']
        if 'masks' in rp:
            judge(ctx, rng)
            return
    else:
        ctx.tlc('MC_Masks')
        judge(ctx, rng)
    suites = []
    for _ in range(70 if ctx.quick else 600):
        n = rng.choice([1, 2, 3, 4, 4, 5])
        ob = system(rng, n)
        ops = [call(rng, n, rng.choice(['solve', 'solve', 'subsets', 'subsets', 'subsets', 'reset', 'tol', 'pre', 'move']))
               for _ in range(12)]
        suites.append({'mode': 'script', 'name': 'cg', 'ob': ob, 'ops': ops})
    # systems that need many steps
    for n in ([23, 30] if ctx.quick else [23, 30, 37, 41]):
        ob = dict(system(rng, n, blocks(rng, n)), e=0)
        ops = [call(rng, n, o) for o in ('solve', 'subsets', 'move', 'solve', 'pre', 'subsets')]
        for o in ops:
            o['e'] = 0
            if len(o['masks']) > 4:
                o['masks'], o['partition'] = o['masks'][:4], False
        suites.append({'mode': 'script', 'name': 'cg', 'ob': ob, 'ops': ops})
    for _ in range(2):
        n = 3
        ob = system(rng, n)
        ops = [dict(call(rng, n, 'subsets'), masks=[[1], [2, 3]], partition=True),
               dict(call(rng, n, 'subsets'), masks=[[1, 3]], partition=False), call(rng, n, 'solve'),
               call(rng, n, 'reset'), dict(call(rng, n, 'pre'), k=1), call(rng, n, 'move')]
        suites.append({'mode': 'graph', 'name': 'cg', 'ob': ob, 'ops': ops})
    run_suites(ctx, suites, module='MC_CG', driver=masks.CGDriver)
