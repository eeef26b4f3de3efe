"""C14: Taylor series of the optimum."""
from gen import *
import params
import qpoly as qp
from check_c12 import N0, inputs, hypers, objective as any_objective, tame
from replay import run_suites
from taylor import TaylorDriver


def objective(rng, ci, *args, **kw):
    """With the optimum inside the simplexes for every hyperparameter, so that
    it is the same one whether the constraint is imposed or not."""
    ob = any_objective(rng, ci, *args, **kw)
    ob['amp'] = 1
    o = 0
    for (_, lc, _, _, _, _) in params.leaves(ci):
        if lc['kind'] == 'simplex':
            k = lc['shape'][1]
            for r in range(lc['shape'][0]):
                p = qp.const(1)
                for j in range(1, k):
                    p = qp.add(p, qp.scale(-1, qp.unrats(ob['m'][o + r * k + j])))
                ob['m'][o + r * k] = qp.rats(p)
        o += params.vec_size(lc)
    return ob


def call(rng, ob, o, order):
    nh = (params.ext_size if ob['fh'] else params.vec_size)(ob['ch'])
    d = [rng.choice([[1, 1], [-1, 1], [1, 2], [0, 1]]) for _ in range(nh)]
    if all(x[0] == 0 for x in d):
        d[rng.randint(0, nh - 1)] = [1, 1]
    op = {'op': o, 'd': d, 'k': 0, 'n': 0, 'offset': True, 'dflt': True, 'b': 1, 'given': False,
          'boom': rng.choice(['early', 'late']) if rng.random() < 0.1 else '',
          'xh': tame(rng, ob['ch']), 'xi': tame(rng, ob['ci'])}
    if o == 'dk':
        op['k'] = rng.randint(1, order)
    elif o == 'bad':
        if rng.random() < 0.5:
            op.update({'op': 'dk', 'k': rng.choice([0, -1, order + 1, order + 2])})
        else:
            op.update({'op': 'series', 'n': rng.choice([0, -2, order + 1, order + 3])})
    elif o == 'series':
        op.update({'n': rng.choice([-1, order, rng.randint(1, order)]), 'offset': rng.random() < 0.5,
                   'dflt': rng.random() < 0.5})
    elif o == 'rebase':
        op.update({'b': rng.randint(1, 2), 'given': rng.random() < 0.4})
    elif o == 'order':
        op['n'] = order
    return op


def orders_for(c, fi):
    """How far the derivatives are taken."""
    kinds = [lc['kind'] for (_, lc, _, _, _, _) in params.leaves(c)]
    if any(k.startswith('posdef') for k in kinds) or params.vec_size(c) > 3:
        return [1, 2, 3]
    return [1, 2, 3, 4]


def suite(rng, ob, ops, order, mode='script'):
    return {'mode': mode, 'name': 'taylor', 'ob': ob, 'b': rng.randint(1, 2), 'order': order,
            'given': rng.random() < 0.3, 'ops': ops}


def small_hyper(rng):
    while True:
        c = hypers(rng)
        if params.vec_size(c) <= 2:
            return c


def run(ctx):
    rng = ctx.rng()
    suites = []
    for i, c in enumerate(inputs(rng, 16 if ctx.quick else 60)):
        if params.vec_size(c) > 4:
            continue
        for fi in (True, False):
            for fh in ((True, False) if not ctx.quick else [(i % 2 == 0) ^ fi]):
                ob = objective(rng, c, small_hyper(rng), fi, fh, linear=rng.random() < 0.1)
                order = rng.choice(orders_for(c, fi)[1:])
                if ctx.quick and i % 4 != 0:
                    order = min(order, 3)
                start = order
                ops = [call(rng, ob, 'dk', order) for _ in range(1)]
                ops += [dict(call(rng, ob, 'dk', order), k=k) for k in range(1, order + 1)]
                ops += [call(rng, ob, 'series', order), call(rng, ob, 'bad', order), call(rng, ob, 'rebase', order),
                        call(rng, ob, 'series', order), call(rng, ob, 'dk', order)]
                # one order along several directions
                ops += [dict(call(rng, ob, 'dk', order), k=k) for k in [rng.randint(1, order)] * 3]
                for _ in range(5):
                    o = rng.choice(['series', 'dk', 'move', 'scribble', 'bad', 'rebase', 'order'])
                    if o == 'order':
                        order = rng.choice(orders_for(c, fi)[:3])
                    ops.append(call(rng, ob, o, order))
                suites.append(suite(rng, ob, ops, start))
    # high orders of small inputs
    for c, fi, fh, order in ([(scalar(N0), True, False, 5), (scalar(([[0, 1]], [])), True, False, 4),
                              (scalar(([[0, 1]], [])), False, False, 5), (vector(2, N0), False, False, 4)] +
                             ([] if ctx.quick else [(vector(2, ([[0, 1]], [])), True, False, 4),
                                                    (simplex(1, 2), False, False, 5), (scalar(N0), False, True, 5)])):
        for _ in range(1 if ctx.quick else 4):
            ob = objective(rng, c, scalar(([[0, 1]], [])) if fh else scalar(N0), fi, fh, linear=False)
            ops = [dict(call(rng, ob, 'dk', order), k=order), dict(call(rng, ob, 'series', order), n=-1),
                   dict(call(rng, ob, 'series', order), n=4)]
            suites.append(suite(rng, ob, ops, order))
    for c in (scalar(([[0, 1]], [])), vector(2, N0)):
        for fi, fh in ((True, False), (False, True)):
            ob = objective(rng, c, vector(2, N0) if not fh else scalar(([[0, 1]], [])), fi, fh, linear=False)
            ops = [dict(call(rng, ob, 'rebase', 2), b=1), dict(call(rng, ob, 'rebase', 2), b=2), call(rng, ob, 'move', 2),
                   dict(call(rng, ob, 'order', 2), n=1), dict(call(rng, ob, 'order', 3), n=3),
                   dict(call(rng, ob, 'dk', 2), k=2), dict(call(rng, ob, 'series', 2), n=-1),
                   dict(call(rng, ob, 'series', 2), n=3)]
            suites.append(suite(rng, ob, ops, 2, 'graph'))
    run_suites(ctx, suites, module='MC_Taylor', driver=TaylorDriver)
