"""C15: repeated optimisation."""
from fractions import Fraction as Fr

import numpy as np

import params
import optim
import qpoly as qp
from check_c12 import N0, inputs, quadratic, tame, vec
from common import Machinery, parallel, fmt_exc
from gen import *
from polys import rpoly
from replay import run_suites

EIGHTHS = [[-1, 1], [0, 1], [1, 2], [1, 1], [2, 1], [-3, 2], [1, 4], [3, 8]]


def conf(rng, quick):
    n = rng.choice([1, 2, 2, 3])
    while True:
        pts = []
        while len(pts) < rng.choice([3, 4] if quick else [3, 4, 5]):
            p = [rng.choice(EIGHTHS) for _ in range(n)]
            if p not in pts:
                pts.append(p)
        P = rpoly(rng, n, 3, 2, (-1, 1, 2, 3))
        f = [p_eval(P, p) for p in pts]
        g = [sum(abs(p_eval(D, p)) for D in [p_diff(P, k + 1) for k in range(n)]) for p in pts]
        steps = sorted({sum(abs(qp.frac(a) - qp.frac(b)) for a, b in zip(p, q)) for p in pts for q in pts})
        changes = sorted({abs(a - b) for a in f for b in f})
        grads = sorted(set(g))
        if len(changes) > 1:
            break

    def tol(values):
        """Often exactly one of the attained values: not below it."""
        v = rng.choice(values)
        return qp.rat(rng.choice([v, v, v + Fr(1, 64), max(v - Fr(1, 64), Fr(0)), Fr(0), Fr(0), Fr(0)]))
    return {'points': pts, 'P': P, 'tol': {'x': tol(steps), 'f': tol(changes), 'g': tol(grads)},
            'max': rng.choice([1, 2, 2, 3] if quick else [1, 2, 3, 4]), 'init': rng.random() < 0.4,
            'keep': rng.random() < 0.5, 'disp': rng.random() < 0.3, 'start': rng.randint(1, len(pts)), 'mode': 'graph'}


def p_eval(P, p):
    return qp.ev(qp.unrats(P), [qp.frac(a) for a in p])


def p_diff(P, k):
    return qp.rats(qp.diff(qp.unrats(P), k))


def adversary(ctx, rng):
    confs = [conf(rng, ctx.quick) for _ in range(60 if ctx.quick else 400)]
    res = ctx.tlc('MC_OptimLoop', data=confs, timeout=150 if ctx.quick else 800)
    work = []
    for i, r in enumerate(res.records):
        way = ('fresh', 'inplace', 'buffer')[i % 3]
        work.append((confs[r['s'] - 1], r, way))
    ctx.count('adversary runs', len(work))

    def one(sub, chunk):
        for c, r, way in chunk:
            try:
                optim.run_loop(c, r, way)
            except params.Mismatch as e:
                err = str(e)
            except Exception:
                err = 'raised ' + fmt_exc()
            else:
                sub.validated += 1
                continue
            sub.violation('loop', 'points %s (%s): %s' % (r['hist'], way, err), {'conf': c, 'rec': r, 'way': way})
            if sub.too_many():
                return
    parallel(ctx, [work[i::64] for i in range(64)], one)
    ctx.sample({'conf': confs[0], 'runs': [r['hist'] for r in res.records[:5]]})


def problem(rng, c):
    # tame enough for every optimiser to arrive
    x = tame(rng, c)
    n = params.vec_size(c)
    return {'c': c, 'xopt': x, 'F': qp.rats(quadratic(rng, n, 0)), 'read': rng.choice(['vector', 'get'])}


def near(rng, c, x):
    out = []
    for t in x:
        v = qp.frac(t['v'])
        v = v * rng.choice([Fr(1), Fr(3, 2), Fr(2, 3)]) if t['t'] == 'log' else v + rng.choice([0, Fr(1, 2), Fr(-1, 2)])
        out.append({'t': t['t'], 'v': qp.rat(v)})
    return out


def precond(rng, n):
    while True:
        P = [[rng.choice([0, 0, 1, -1]) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            P[i][i] += rng.choice([2, 3])
        if np.linalg.cond(np.array(P, dtype=float)) < 15:
            return [[[a, 1] for a in r] for r in P]


def minimise_suites(ctx, rng):
    suites = []
    for c in inputs(rng, 14 if ctx.quick else 40):
        n = params.free_size(c)
        ob = problem(rng, c)
        ob['pre'] = [precond(rng, n) for _ in range(2)]
        ops = [{'op': 'min', 'cond': True}]
        ops += [{'op': 'min', 'cond': False} for _ in range(3)]
        ops += [{'op': 'pre', 'k': 1}] + [{'op': 'min', 'cond': k} for k in (True, True, False, True)]
        ops += [{'op': 'pre', 'k': 2}, {'op': 'min', 'cond': True}, {'op': 'pre', 'k': 0}, {'op': 'min', 'cond': True},
                {'op': 'min', 'cond': False}]
        k = installed = 0
        for o in ops:
            if o['op'] == 'min':
                k += 1
                how = ('trust', 'bfgs')[k % 2]
                o.update({'x': near(rng, c, ob['xopt']), 'how': how, 'disp': rng.random() < 0.5,
                          'clear': rng.random() < 0.6, 'every': rng.choice([0, 0, 1, 3]), 'repeat': rng.random() < 0.3,
                          'maxiter': rng.choice([100, 200]), 'tol': 2e-3})
                if o['cond'] and not installed:
                    # rejected; how far the call got is its own business
                    o.update({'clear': False, 'every': 0, 'disp': False})
            else:
                installed = o['k']
                o.update({'x': []})
        suites.append({'mode': 'script', 'ob': ob, 'ops': ops})
    run_suites(ctx, suites, module='MC_Minimize', driver=optim.MinimizeDriver)


def traces(ctx, rng):
    """Runs with real optimisers, checked by TLC."""
    jobs = []
    for c in inputs(rng, 14 if ctx.quick else 60):
        for rep in range(4 if ctx.quick else 8):
            n = params.free_size(c)
            cf = {'max': rng.choice([1, 2, 5, 30]), 'inner': rng.choice([1, 2, 3, 20]), 'init': rng.random() < 0.3,
                  'keep': rng.random() < 0.5, 'rate': rng.choice([0.01, 0.05]), 'g': rng.choice([1e-8, 1e-2, 0.0, 1.0]),
                  'f': rng.choice([1e-8, 1e-3, 0.0]), 'x': rng.choice([1e-8, 1e-2, 0.0]),
                  'gtol': rng.choice([None, 1e-8, 1e-3])}
            ob = problem(rng, c)
            P = precond(rng, n)
            jobs.append((ob, near(rng, c, ob['xopt']), rng.choice(['trust', 'bfgs', 'descent']), rng.random() < 0.5, P, cf))
    found = []
    import json
    import os
    import tempfile
    d = tempfile.mkdtemp(prefix='lrvb-tr-')

    def one(sub, item):
        i, (ob, x0, how, cond, P, cf) = item
        bases = params.Bases()
        c = ob['c']
        try:
            t = optim.record_loop(c, ob['F'], [qp.rat(a) for a in vec(c, ob['xopt'])], ob['xopt'],
                                  params.free_of(c, x0, bases), how, cond and how != 'descent', params.mat(P), cf,
                                  ob['read'])
        except Exception:
            sub.violation('trace', 'raised ' + fmt_exc(), {'job': i})
            return
        if t is None:
            sub.count('diverged')
            return
        with open(os.path.join(d, '%d.json' % i), 'w') as f:
            json.dump(t, f)
    parallel(ctx, list(enumerate(jobs)), one)
    trs, src = [], []
    for i in range(len(jobs)):
        p = os.path.join(d, '%d.json' % i)
        if os.path.exists(p):
            trs.append(json.load(open(p)))
            src.append(i)
    __import__('shutil').rmtree(d)
    if not trs:
        return
    res = ctx.tlc('OptimTrace', data=trs)
    done = {r['t'] for r in res.records if r['done']}
    ctx.count('traces of real optimisers', len(trs))
    for t in range(1, len(trs) + 1):
        if t in done:
            ctx.validated += 1
            continue
        where = [r for r in res.records if r['t'] == t and not r['done']]
        ctx.violation('trace', 'a recorded run (%s) is not a behaviour of the specification; stuck at round %s of %s: %s' % (
            jobs[src[t - 1]][2], where[0]['k'] if where else '?', len(trs[t - 1]['rounds']), trs[t - 1]), {'trace': trs[t - 1]})


def run(ctx):
    rng = ctx.rng()
    if getattr(ctx, 'replay_file', None):
        import json
        rp = json.load(open(ctx.replay_file))['replay']
        if 'conf' in rp:
            try:
                optim.run_loop(rp['conf'], rp['rec'], rp['way'])
            except params.Mismatch as e:
                ctx.violation('loop', str(e), rp)
        elif 'suite' in rp:
            run_suites(ctx, [], module='MC_Minimize', driver=optim.MinimizeDriver)
        return
    adversary(ctx, rng)
    minimise_suites(ctx, rng)
    traces(ctx, rng)
