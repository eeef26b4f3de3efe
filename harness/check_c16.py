"""C16: preconditioners."""
from fractions import Fraction as Fr

import numpy as np

import params
import qpoly as qp
from check_c12 import inputs, objective
from gen import *
from precond import PrecondDriver
from replay import run_suites

SQUARES = [Fr(1), Fr(4), Fr(9), Fr(1, 4), Fr(16), Fr(25), Fr(9, 4), Fr(1, 9), Fr(1, 16)]
ANY = [Fr(-3), Fr(-1), Fr(0), Fr(1, 2), Fr(2), Fr(3), Fr(1, 3), Fr(5), Fr(7), Fr(-1, 2), Fr(10), Fr(1, 64), Fr(36)]


def matmul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def orthogonal(rng, n, many=True):
    """Permutation times at most two reflections."""
    Q = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    rng.shuffle(Q)
    for _ in range(rng.choice([0, 1, 1, 1, 2] if n < 4 and many else [0, 1, 1])):
        v = [rng.choice([0, 1, 1, -1, 2]) for _ in range(n)]
        if n > 4:
            # reflections of a few coordinates only keep the denominators small
            keep = rng.sample(range(n), 4)
            v = [a if i in keep else 0 for i, a in enumerate(v)]
        d = sum(a * a for a in v)
        if d in (0,) or d > 7:
            continue
        H = [[Fr(int(i == j)) - Fr(2 * v[i] * v[j], d) for j in range(n)] for i in range(n)]
        Q = matmul(Q, H)
    return Q


def rmat(M):
    return [[qp.rat(a) for a in r] for r in M]


def limits(rng, n):
    """lo, hi and n eigenvalues, such that the clamped ones are squares."""
    kind = rng.choice(['none', 'lo', 'lo', 'hi', 'both', 'both'])
    lo = hi = None
    if kind in ('lo', 'both'):
        lo = rng.choice(SQUARES)
    if kind in ('hi', 'both'):
        hi = rng.choice([s for s in SQUARES if lo is None or s >= lo] or [lo])
    lam = []
    while len(lam) < n:
        x = rng.choice(SQUARES + ANY + [v for v in (lo, hi) if v is not None] * 2)
        y = x
        if lo is not None and y < lo:
            y = lo
        if hi is not None and y > hi:
            y = hi
        if y in SQUARES + [Fr(36), Fr(1, 64)]:
            lam.append(x)
            if rng.random() < 0.2 and len(lam) < n:
                lam.append(x)
    return lo, hi, lam


def matrix(rng, n, lam):
    K = [[Fr(0)] * n for _ in range(n)]
    if rng.random() < 0.5:
        for i in range(n):
            for j in range(i):
                K[i][j] = Fr(rng.choice([0, 1, -2, 3]))
                K[j][i] = -K[i][j]
    return {'Q': rmat(orthogonal(rng, n)), 'lam': [qp.rat(a) for a in lam], 'K': rmat(K)}


NOM = {'Q': [], 'lam': [], 'K': []}


def opt(v):
    return [] if v is None else [qp.rat(v)]


def compute(rng, n):
    lo, hi, lam = limits(rng, n)
    return {'op': 'compute', 'm': matrix(rng, n, lam), 'lo': opt(lo), 'hi': opt(hi), 'x': [], 'given': True, 'at': False,
            'none': rng.random() < 0.3}


def problem(rng, n):
    """An objective and the points x at which its Hessian has the eigenvalues
    wanted, with the limits that go with them."""
    Q = orthogonal(rng, n, False)
    sets = [limits(rng, n) for _ in range(3)]
    a, b, us = [], [], [[], [], []]
    for i in range(n):
        # g'' = a + b u takes the values wanted at u = 0, u = 1 (or any u when
        # they agree) and at the u that follows
        l0, l1, l2 = [s[2][i] for s in sets]
        a.append(l0)
        b.append(l1 - l0)
        us[0].append(Fr(0))
        us[1].append(Fr(1))
        us[2].append((l2 - l0) / (l1 - l0) if l1 != l0 else None)
    F = {}
    for i in range(n):
        u = {}
        for k in range(n):
            u = qp.add(u, qp.scale(Q[k][i], qp.var(k + 1)))
        u2 = qp.mul(u, u)
        F = qp.add(F, qp.add(qp.scale(a[i] / 2, u2), qp.scale(b[i] / 6, qp.mul(u2, u))))
        F = qp.add(F, qp.scale(rng.choice([0, 1, -2]), u))
    pts = []
    for s, u in zip(sets, us):
        if None in u or any(v.denominator > 9 or abs(v) > 30 for v in u):
            continue
        x = [sum(Q[k][i] * u[i] for i in range(n)) for k in range(n)]
        pts.append((s, [qp.rat(v) for v in x]))
    ob = {'Q': rmat(Q), 'a': [qp.rat(v) for v in a], 'b': [qp.rat(v) for v in b], 'F': qp.rats(F)}
    return ob, pts


def install(rng, ob, pts, kind):
    n = len(ob['a'])
    (lo, hi, lam), x = rng.choice(pts)
    op = {'op': 'install', 'm': NOM, 'lo': opt(lo), 'hi': opt(hi), 'x': x, 'given': False, 'at': True,
          'none': rng.random() < 0.3}
    if kind in ('given', 'both'):
        lo, hi, lam = limits(rng, n)
        op.update({'m': matrix(rng, n, lam), 'given': True, 'at': kind == 'both', 'lo': opt(lo), 'hi': opt(hi)})
    elif kind == 'neither':
        op['at'] = False
    elif kind == 'cond':
        op['op'] = 'cond'
    return op


def relation(ctx, rng):
    """On arbitrary parameters: the pair computed from the exact Hessian, which
    the sensitivity specification provides."""
    import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
    from params import expect
    from sensitivity import Base
    suites = []
    for c in inputs(rng, 12 if ctx.quick else 60):
        ob = objective(rng, c, vector(1, ([], [])), True, False)
        suites.append({'mode': 'script', 'name': 'pre', 'ob': ob, 'b': 1, 'hess': [],
                       'ops': [{'op': 'rebase', 'b': b, 'hess': [], 'xh': ob['bases'][0]['xh'], 'xi': ob['bases'][0]['xi'],
                                'given': False} for b in (1, 2)]})

    class Driver(Base):
        def __init__(self, suite, init, bases):
            Base.__init__(self, suite, init, bases)
            import LinearResponseVariationalBayes.SparseObjectives as obj_lib
            self.obj = obj_lib.Objective(self.pi, self.full)

        def step(self, op, rec):
            a, h = self.base_arrays(op['b'])
            self.ph.set_vector(h)
            if op['b'] == 1:
                self.pi.set_free(a + 0.5)
            want = params.mat(self.vals[op['b'] - 1]['hess'])
            H, half, corrected = opt_lib.set_objective_preconditioner(self.obj, free_par=a)
            s = 2.0 ** self.u
            expect('Hessian', np.asarray(H) / s, want, 1e-7, 0.1)
            expect('corrected Hessian', corrected / s, want, 1e-7, 0.1)
            expect('preconditioner', self.obj.preconditioner, half, 0)
            unit = half * s ** 0.5
            expect('symmetry', unit, unit.T, 1e-8)
            n = len(a)
            expect('half H half', np.dot(unit, np.dot(want, unit)), np.eye(n), 1e-6, 0.1)
            if min(np.linalg.eigvalsh(0.5 * (half + half.T))) <= 0:
                raise params.Mismatch('the inverse square root is not positive definite')
            y = np.linalg.solve(half, a)
            expect('conditioned Hessian at the base', self.obj.fun_free_hessian_cond(y), np.eye(n), 1e-6, 0.1)
            expect('conditioned value', self.obj.fun_free_cond(y) / s, self.obj.fun_free(a) / s, 1e-7)
    run_suites(ctx, suites, module='MC_Sensitivity', driver=Driver)


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i in range(60 if ctx.quick else 500):
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, rng.randint(5, 7)])
        ob, pts = problem(rng, n)
        ops = []
        for _ in range(6):
            ops.append(compute(rng, rng.choice([1, 2, 3, 4, rng.randint(5, 12)])))
        ops.append(install(rng, ob, pts, 'neither'))
        installed = False
        for _ in range(8):
            k = rng.choice(['at', 'at', 'given', 'both', 'neither', 'cond', 'cond'])
            if k == 'cond' and not installed:
                k = 'at'
            installed = installed or k in ('at', 'given', 'both')
            ops.append(install(rng, ob, pts, k))
        suites.append({'mode': 'script', 'name': 'precond', 'ob': ob, 'ops': ops, 'u': rng.choice([0, 0, 0, -20, -16, -8, 12, 20])})
    for i in range(3):
        ob, pts = problem(rng, 2)
        ops = [install(rng, ob, pts, k) for k in ('at', 'given', 'both', 'neither', 'cond')]
        suites.append({'mode': 'graph', 'name': 'precond', 'ob': ob, 'ops': ops, 'u': 0})
    run_suites(ctx, suites, module='MC_Precond', driver=PrecondDriver)
    relation(ctx, rng)
