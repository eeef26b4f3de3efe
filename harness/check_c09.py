"""C09: derivatives of an objective agree with its value, in free, vector and
preconditioned coordinates."""
from gen import *
import distributions
import params
from polys import rpoly, rmat
from objectives import ObjectiveDriver
from replay import run_suites

KINDS = ['fun', 'pair', 'grad', 'hessian', 'jacobian', 'hvp']


def small(c, n=8):
    return params.ext_size(c) <= n


def has_subspace(c):
    return any(lc['kind'] == 'subspace' for (_, lc, _, _, _, _) in params.leaves(c))


def unbounded(c):
    return all(lc['kind'] in ('scalar', 'vector', 'array') and not lc['lb'] and not lc['ub']
               for (_, lc, _, _, _, _) in params.leaves(c))


def objective(rng, c, i):
    nv = params.vec_size(c)
    ob = {'c': c, 'P': rpoly(rng, nv, rng.randint(2, 4), 3), 'Q': rpoly(rng, nv, rng.randint(1, 3), 2),
          'read': rng.choice(['vector', 'get']), 'pre': [],
          'u': rng.choice([0, 0, 0, -40, 40, -200])}
    if unbounded(c):
        ob['ux'] = rng.choice([0, -30, -60, 40])
    if not has_subspace(c) and i % 5 != 4:
        ob['pre'] = rmat(rng, params.free_size(c))
        ob['pre_format'] = rng.choice(['', '', 'csr_matrix', 'csc_matrix', 'coo_matrix'])
    return ob


COEF = [[1, 1], [2, 1], [-1, 1], [1, 2], [3, 1]]


def call(rng, ob, o, at, boom=False):
    c = ob['c']
    n = params.vec_size(c) if at == 'vector' else params.ext_size(c)
    op = {'op': o, 'at': at, 'x': rx(rng, c), 'a': rng.choice(COEF), 'b': rng.choice(COEF),
          'pos': rng.randint(0, 2), 'boom': boom, 'when': rng.choice(['early', 'late']),
          'q': rq(rng, c) if at == 'vector' and rng.random() < 0.5 else []}
    if rng.random() < 0.3:
        op.update(a=[1, 1], b=[1, 1], pos=3)
    if o == 'hvp':
        op['vec'] = [[rng.choice([-2, -1, 0, 1, 1, 3]), 1] for _ in range(n)]
    return op


def setpre(rng, ob):
    return {'op': 'setpre', 'at': 'cond', 'pre': rmat(rng, len(ob['pre'])), 'boom': False, 'q': [],
            'pre_format': rng.choice(['', '', 'csr_matrix', 'csc_matrix', 'coo_matrix'])}


def ats(ob, o):
    # conditioned Jacobians and vector valued functions do not exist
    return ['free', 'vector'] + (['cond'] if ob['pre'] and o not in ('jacobian', 'pair') else [])


def configs(rng, n, size=8):
    n0 = ([], [])
    cfgs = [scalar(([[0, 1]], [])), vector(3, n0), vector(2, ([[0, 1]], [[1, 1]])), array((2, 2), n0),
            array((2, 1), ([], [[1, 1]])), simplex(1, 3), simplex(2, 2), posdef(2), posdef(2, (1, 2)),
            posdefvec(2, 2), posdefarr((2, 2), 1), subspace([[1, 1, 1]]), subspace([[1, 0, -1]]), vector(2, n0), scalar(n0),
            dct([('a', scalar(n0)), ('b', vector(2, n0))]), dct([('in', dct([('a', array((2, 1), n0))])), ('c', scalar(n0))])]
    while len(cfgs) < n:
        c = rdict(rng, 3, 3) if rng.random() < 0.8 else rleaf(rng)
        if small(c, size):
            cfgs.append(c)
    return cfgs + [c for c in distributions.catalogue(rng) if small(c, 6)]


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i, c in enumerate(configs(rng, 60 if ctx.quick else 500, 8 if ctx.quick else 10)):
        ob = objective(rng, c, i)
        ops = []
        for o in KINDS:
            for at in ats(ob, o):
                ops.append(call(rng, ob, o, at))
        if ob['pre']:
            u = call(rng, ob, 'fun', 'cond')
            u['op'] = 'uncondition'
            ops.append(u)
        rng.shuffle(ops)
        if ob['pre']:
            # the same again with another preconditioner on the same objective
            again = [dict(call(rng, ob, o, 'cond')) for o in ('fun', 'grad', 'hessian', 'hvp')]
            again.append(dict(call(rng, ob, 'fun', 'cond'), op='uncondition'))
            rng.shuffle(again)
            ops += [setpre(rng, ob)] + again
        suites.append({'mode': 'script', 'ob': ob, 'x0': rx(rng, c), 'ops': ops})
    run_suites(ctx, suites, module='MC_Objective', driver=ObjectiveDriver)
