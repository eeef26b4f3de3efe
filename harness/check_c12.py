"""C12: linear sensitivity of an optimum to hyperparameters."""
from fractions import Fraction as Fr
import qpoly as qp
from gen import *
import params
from check_c09 import has_subspace, small, unbounded
from check_c11 import heavy
from polys import rpoly
from replay import run_suites
from sensitivity import DeprecatedDriver, LinearDriver

N0 = ([], [])


def tame(rng, c):
    out = []
    for t, k in tags(c):
        if t == 'log':
            v = rng.choice([[1, 1], [2, 1], [1, 2]] + ([[3, 1]] if k == 'simplex' else []))
        else:
            v = rng.choice([[0, 1], [1, 1], [-1, 1], [2, 1]] + ([[1, 2]] if k == 'box' else []))
        out.append({'t': t, 'v': v})
    return out


def vec(c, x):
    """The vector value of tame points, to construct an objective whose
    optimum is there (the specification checks that it is)."""
    out = []
    o = 0
    for (_, lc, _, _, _, _) in params.leaves(c):
        n = params.ext_size(lc)
        xs = [qp.frac(t['v']) for t in x[o:o + n]]
        o += n
        k = lc['kind']
        if k in ('scalar', 'vector', 'array'):
            lb = qp.frac(lc['lb'][0]) if lc['lb'] else None
            ub = qp.frac(lc['ub'][0]) if lc['ub'] else None
            for e in xs:
                if lb is not None and ub is not None:
                    out.append(lb + (ub - lb) * e / (1 + e))
                else:
                    out.append(lb + e if lb is not None else ub - 1 / e if ub is not None else e)
        elif k == 'simplex':
            w = lc['shape'][1] - 1
            for r in range(lc['shape'][0]):
                row = [Fr(1)] + xs[r * w:(r + 1) * w]
                out += [a / sum(row) for a in row]
        elif k == 'subspace':
            import sympy
            raise ValueError('subspace')
        else:
            m, tr = lc['m'], lc['m'] * (lc['m'] + 1) // 2
            for e in range(len(xs) // tr):
                L = [[Fr(0)] * m for _ in range(m)]
                p = e * tr
                for i in range(m):
                    for j in range(i + 1):
                        L[i][j] = xs[p]
                        p += 1
                for i in range(m):
                    for j in range(i + 1):
                        out.append(sum(L[i][q] * L[j][q] for q in range(m)) +
                                   (qp.frac(lc['dlb']) if i == j else 0))
    return out


def spd(rng, n):
    B = [[rng.choice([-1, 0, 0, 1]) for _ in range(n)] for _ in range(n)]
    A = [[sum(B[k][i] * B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    for i in range(n):
        A[i][i] += rng.choice([1, 1, 2])
    return A


def quadratic(rng, n, extra):
    """F as a polynomial in the residuals: a positive definite quadratic form,
    and higher terms that matter away from the optimum only."""
    A = spd(rng, n)
    F = {}
    for i in range(n):
        for j in range(n):
            F = qp.add(F, qp.scale(Fr(A[i][j], 2), qp.mul(qp.var(i + 1), qp.var(j + 1))))
    for _ in range(extra):
        t = qp.const(rng.choice([1, -1, 2]))
        for _ in range(rng.choice([3, 3, 4])):
            t = qp.mul(t, qp.var(rng.randint(1, n)))
        F = qp.add(F, t)
    return F


def optimum_map(rng, v0, w0, v1, w1, linear):
    """Polynomials m with m(w0) = v0 and m(w1) = v1."""
    n, nw = len(v0), len(w0)
    ks = [k for k in range(nw) if w0[k] != w1[k]]
    if not ks:
        return None
    k = ks[0]
    l = qp.scale(1 / (w1[k] - w0[k]), qp.add(qp.var(k + 1), qp.const(-w0[k])))
    z = []
    for j in range(nw):
        if j != k:
            z.append(qp.add(qp.add(qp.var(j + 1), qp.const(-w0[j])), qp.scale(w0[j] - w1[j], l)))
    out = []
    for i in range(n):
        p = qp.add(qp.const(v0[i]), qp.scale(v1[i] - v0[i], l))
        for q in z:
            if rng.random() < 0.7:
                p = qp.add(p, qp.scale(rng.choice([1, -1, 2, Fr(1, 2)]), q))
        if not linear and rng.random() < 0.7:
            p = qp.add(p, qp.scale(rng.choice([1, -1]), qp.mul(l, qp.add(l, qp.const(-1)))))
        out.append(p)
    return out


def objective(rng, ci, ch, fi, fh, linear=None):
    linear = (rng.random() < 0.4) if linear is None else linear
    while True:
        x = [(tame(rng, ci), tame(rng, ch)) for _ in range(2)]
        m = optimum_map(rng, vec(ci, x[0][0]), vec(ch, x[0][1]), vec(ci, x[1][0]), vec(ch, x[1][1]), linear)
        if m:
            break
    n, nw = params.vec_size(ci), params.vec_size(ch)
    part = rng.random() < 0.4
    return {'ci': ci, 'ch': ch, 'fi': fi, 'fh': fh, 'm': [qp.rats(p) for p in m], 'linear': linear,
            'F': qp.rats(quadratic(rng, n, rng.randint(0, 2))),
            'K': rpoly(rng, n, 3, 2), 'L': rpoly(rng, nw, 2, 3), 'part': part,
            # a part that is not that of the objective
            'amp': rng.choice([1, 1, 2, -1, 3]) if part else 1,
            'bases': [{'xi': a, 'xh': b} for a, b in x], 'defaults': rng.random() < 0.5,
            'read': rng.choice(['vector', 'get']), 'u': rng.choice([0, 0, 0, -40, 40, -200])}


def units(rng, ob, inp=True):
    """Unbounded parameters are measured in some unit."""
    for k, c in (('ui', ob['ci']), ('uh', ob['ch'])):
        if unbounded(c) and (inp or k == 'uh'):
            ob[k] = rng.choice([0, -30, -60, 40])
    return ob


def hess(rng, ob, p):
    n = (params.ext_size if ob['fi'] else params.vec_size)(ob['ci'])
    return [[[a, 1] for a in r] for r in spd(rng, n)] if rng.random() < p else []


def call(rng, ob, o):
    return {'op': o, 'b': rng.randint(1, 2), 'hess': hess(rng, ob, 0.3) if o == 'rebase' else [],
            'xh': tame(rng, ob['ch']), 'xi': tame(rng, ob['ci']), 'given': rng.random() < 0.5}


def inputs(rng, n):
    fixed = [scalar(([[0, 1]], [])), vector(2, N0), vector(2, ([[0, 1]], [])), simplex(1, 2), posdef(2),
             dct([('m', scalar(N0)), ('s', simplex(1, 2))]), dct([('m', vector(2, N0)), ('k', posdef(1, (1, 2)))]),
             scalar(([[0, 1]], [[1, 1]])), simplex(1, 3), posdefvec(2, 1), array((1, 2), ([], [[1, 1]])),
             posdefarr((1,), 2)]
    out = list(fixed)
    while len(out) < n:
        c = rdict(rng, 2, 2) if rng.random() < 0.5 else rleaf(rng)
        if any(lc['kind'] == 'simplex' and lc['shape'][1] > 3 for (_, lc, _, _, _, _) in params.leaves(c)):
            continue
        if params.vec_size(c) <= 4 and not has_subspace(c) and params.free_size(c) > 0:
            out.append(c)
    return out


def hypers(rng):
    return rng.choice([vector(2, N0), scalar(([[0, 1]], [])), vector(2, ([[0, 1]], [])), posdef(1), simplex(1, 2),
                       dct([('a', scalar(N0)), ('b', scalar(([[1, 1]], [])))]), scalar(([[0, 1]], [[1, 1]])),
                       array((1, 2), N0)])


def suite(rng, ob, ops, mode='script', **kw):
    d = {'mode': mode, 'name': 'sens', 'ob': ob, 'b': rng.randint(1, 2), 'hess': hess(rng, ob, 0.25), 'ops': ops}
    d.update(kw)
    return d


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i, c in enumerate(inputs(rng, 24 if ctx.quick else 150)):
        for fi in (True, False):
            for fh in (True, False):
                ch = hypers(rng)
                ob = units(rng, objective(rng, c, ch, fi, fh))
                ops = [call(rng, ob, o) for o in ('sens', 'predict', 'rebase', 'sens', 'predict')]
                for _ in range(5):
                    ops.append(call(rng, ob, rng.choice(['sens', 'predict', 'predict', 'rebase', 'scribble', 'move', 'home'])))
                suites.append(suite(rng, ob, ops))
    # every history of the calls on small ones
    for c in (vector(2, ([[0, 1]], [])), simplex(1, 2), dct([('m', scalar(N0)), ('s', scalar(([[0, 1]], [])))])):
        for fi, fh in ((True, False), (False, True), (True, True), (False, False)):
            ob = units(rng, objective(rng, c, hypers(rng), fi, fh))
            ops = [dict(call(rng, ob, 'rebase'), b=1, hess=[]), dict(call(rng, ob, 'rebase'), b=2, hess=hess(rng, ob, 1)),
                   call(rng, ob, 'sens'), call(rng, ob, 'predict'), call(rng, ob, 'move'), call(rng, ob, 'scribble'),
                   call(rng, ob, 'home')]
            suites.append(suite(rng, ob, ops, 'graph'))
    run_suites(ctx, suites, module='MC_Sensitivity', driver=LinearDriver)

    suites = []
    outs = [vector(2, N0), scalar(([[0, 1]], [])), posdef(1), dct([('a', vector(2, ([[0, 1]], []))), ('s', simplex(1, 2))]),
            simplex(1, 2), array((1, 2), N0)]
    more = [scalar(N0), vector(3, N0), array((2, 2), N0), dct([('a', scalar(N0)), ('b', array((2, 1), N0))])]
    for i, c in enumerate(inputs(rng, 20 if ctx.quick else 120) + more):
        lin = all(t == 'lin' for t, _ in tags(c))
        for rep in range(3 if lin else 1):
            ob = units(rng, objective(rng, c, hypers(rng), True, False), False)
            co = outs[(i + rep) % len(outs)]
            if lin and heavy(co):
                co = outs[(0, 1, 2, 5)[(i + rep) % 4]]
            h = any(heavy(k) or any(lc['kind'].startswith('posdef') for (_, lc, _, _, _, _) in params.leaves(k))
                    for k in (c, co))
            ob.update({'co': co, 'given': rng.random() < 0.5, 'write': rng.choice(['free', 'vector', 'set']),
                       'conv': [rpoly(rng, params.vec_size(c), 1, 1 if h else 2, (-1, 1, 2))
                                for _ in range(params.ext_size(co))]})
            kinds = ['sens', 'dout', 'predict', 'predict_out_lin'] + (['predict_out'] if lin else [])
            ops = [call(rng, ob, o) for o in kinds + ['rebase'] + kinds]
            for _ in range(4):
                ops.append(call(rng, ob, rng.choice(kinds + ['rebase', 'move', 'scribble'])))
            suites.append(suite(rng, ob, ops))
    run_suites(ctx, suites, module='MC_Sensitivity', driver=DeprecatedDriver)
