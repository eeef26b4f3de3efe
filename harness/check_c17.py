"""C17: the evaluation log."""
import params
from check_c12 import inputs, tame
from evallog import LogDriver
from gen import *
from polys import rpoly
from replay import run_suites


def objective(rng, c):
    return {'c': c, 'P': rpoly(rng, params.vec_size(c), 3, 2), 'pts': [tame(rng, c) for _ in range(3)]}


def call(rng, o, log, **kw):
    op = {'op': o, 'log': log, 'v': 0, 'p': 0, 'k': 0, 'verbose': False, 'boom': False}
    if o in ('eval', 'cond', 'grad', 'vector', 'log'):
        op['p'] = rng.randint(1, 3)
    if o == 'log':
        op['v'] = rng.randint(1, 7)
    if o in ('eval', 'cond'):
        op.update({'verbose': rng.random() < 0.75, 'boom': rng.random() < 0.15, 'k': rng.randint(0, 1)})
    if o == 'grad':
        op['k'] = rng.randint(0, 3)
    if o == 'every':
        op['k'] = rng.choice([1, 2, 2, 3, 5])
    if o == 'callback':
        op['k'] = rng.randint(0, 2)
    op.update(kw)
    return op


def run(ctx):
    rng = ctx.rng()
    suites = []
    for c in inputs(rng, 30 if ctx.quick else 150):
        logs = rng.choice([1, 2, 2, 3])
        ops = [call(rng, rng.choice(['eval', 'eval', 'eval', 'cond', 'cond', 'log', 'log', 'grad', 'vector', 'reset', 'every',
                                     'callback', 'callback']), rng.randint(1, logs)) for _ in range(40)]
        suites.append({'mode': 'script', 'name': 'log', 'logs': logs, 'bound': 1000,
                       'every': [rng.choice([1, 1, 1, 2, 3]) for _ in range(logs)],
                       'ob': [objective(rng, c)] + [objective(rng, vector(2, ([], []))) for _ in range(logs - 1)], 'ops': ops})
    # every history
    c = vector(2, ([[0, 1]], []))
    base = [call(rng, 'eval', 1, p=1, verbose=True, boom=False), call(rng, 'eval', 1, p=2, verbose=False, boom=False),
            call(rng, 'eval', 1, p=2, verbose=True, boom=True), call(rng, 'cond', 1, p=3, verbose=True, boom=False),
            call(rng, 'reset', 1), call(rng, 'every', 1, k=2), call(rng, 'every', 1, k=3), call(rng, 'callback', 1, k=1),
            call(rng, 'callback', 1, k=0), call(rng, 'grad', 1, k=0)]
    suites.append({'mode': 'graph', 'name': 'log', 'logs': 1, 'bound': 4 if ctx.quick else 6, 'every': [1],
                   'ob': [objective(rng, c)], 'ops': base})
    two = [call(rng, 'log', 1), call(rng, 'log', 2), call(rng, 'eval', 2, verbose=True, boom=False), call(rng, 'reset', 1),
           call(rng, 'callback', 2, k=2), call(rng, 'every', 1, k=2)]
    suites.append({'mode': 'graph', 'name': 'log', 'logs': 2, 'bound': 2 if ctx.quick else 3, 'every': [1, 2],
                   'ob': [objective(rng, c), objective(rng, c)], 'ops': two})
    # a fixed interval
    for k in (1, 2, 3, 4):
        ops = [call(rng, 'log', 1) for _ in range(13)]
        ops[9] = call(rng, 'reset', 1)
        suites.append({'mode': 'script', 'name': 'log', 'logs': 1, 'bound': 100, 'every': [k],
                       'ob': [objective(rng, c)], 'ops': ops})
    run_suites(ctx, suites, module='MC_EvalLog', driver=LogDriver)
