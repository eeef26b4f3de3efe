"""C08: evaluations are functions of their arguments and leave numbers, also
when the objective function fails."""
from gen import *
import params
from check_c09 import KINDS, ats, call, configs, objective, setpre
from objectives import ObjectiveDriver
from replay import run_suites


def again(rng, op, new):
    new.update({k: op[k] for k in ('a', 'b', 'pos')})
    return new


def graph(rng, c, i, ops):
    ob = objective(rng, c, i)
    out = []
    for o, at, boom in ops:
        if at == 'cond' and not ob['pre']:
            continue
        out.append(setpre(rng, ob) if o == 'setpre' else call(rng, ob, o, at, boom))
    return {'mode': 'graph', 'name': 'objective', 'ob': ob, 'x0': rx(rng, c), 'ops': out}


def run(ctx):
    rng = ctx.rng()
    suites = []
    # exhaustive: every ordered pair of calls in every state they lead to
    sets = [[('fun', 'free', False), ('grad', 'free', False), ('hessian', 'vector', False),
             ('grad', 'free', True), ('hvp', 'vector', True), ('set', 'vector', False), ('raw', 'free', False)],
            [('hvp', 'cond', False), ('grad', 'cond', True), ('fun', 'vector', True), ('hvp', 'free', True),
             ('jacobian', 'vector', False), ('raw', 'vector', False), ('hessian', 'free', True)],
            [('hessian', 'cond', True), ('jacobian', 'free', True), ('grad', 'vector', True),
             ('hvp', 'cond', True), ('fun', 'cond', True), ('set', 'free', False), ('pair', 'free', False)],
            [('hessian', 'vector', True), ('jacobian', 'vector', True), ('grad', 'cond', False),
             ('raw', 'vector', False), ('hessian', 'cond', False), ('fun', 'free', True), ('grad', 'vector', False)],
            [('setpre', 'cond', False), ('hessian', 'cond', False), ('grad', 'cond', False), ('fun', 'cond', False),
             ('hvp', 'cond', True), ('hvp', 'cond', False), ('grad', 'free', False)]]
    n0 = ([], [])
    cs = [dct([('s', simplex(1, 2)), ('x', scalar(([[0, 1]], [])))]), posdef(2),
          dct([('v', vector(2, n0)), ('b', array((1, 1), ([[0, 1]], [[2, 1]])))]),
          dct([('in', dct([('u', scalar(n0))])), ('k', posdefvec(2, 1))]), scalar(([], [[3, 1]])),
          vector(3, ([[0, 1]], [[1, 1]])), simplex(2, 2), posdefarr((2,), 1), array((2, 1), n0)]
    for i, c in enumerate(cs if not ctx.quick else cs[:6]):
        for s in (sets if not ctx.quick else [sets[i % 5], sets[(i + 1) % 5]]):
            suites.append(graph(rng, c, 0, s))
    suites.append(graph(rng, subspace([[1, 1, 1]]), 4, sets[0]))
    # random longer histories over many configurations
    for i, c in enumerate(configs(rng, 30 if ctx.quick else 400, 7)):
        ob = objective(rng, c, i)
        ops = []
        for _ in range(14):
            if ob['pre'] and rng.random() < 0.1:
                ops.append(setpre(rng, ob))
            o = rng.choice(KINDS + ['set', 'raw', 'grad', 'hvp'])
            at = rng.choice(ats(ob, o))
            if o in ('set', 'raw') and at == 'cond':
                at = 'free'
            ops.append(call(rng, ob, o, at, o not in ('set', 'raw') and rng.random() < 0.3))
            if o not in ('set', 'raw') and rng.random() < 0.5:
                # the same request elsewhere
                ops.append(again(rng, ops[-1], call(rng, ob, o, at)))
        # every request at two points
        for o in KINDS:
            for at in ats(ob, o):
                op = call(rng, ob, o, at)
                op.update(a=[1, 1], b=[1, 1], pos=3)
                more = again(rng, op, call(rng, ob, o, at))
                if i % 3 == 0:
                    ops += [op, more]
        suites.append({'mode': 'script', 'ob': ob, 'x0': rx(rng, c), 'ops': ops})
    run_suites(ctx, suites, module='MC_Objective', driver=ObjectiveDriver)
