"""C03: a container's vectors are the concatenation of its members', in order."""
from gen import *
import distributions
from replay import run_suites
import params


def subpaths(c, pre=()):
    out = [pre]
    if c['kind'] == 'dict':
        for it in c['items']:
            out += subpaths(it['c'], pre + (it['name'],))
    return out


def script(rng, c, n):
    ops = []
    paths = subpaths(c)
    for i in range(n):
        path = list(rng.choice(paths))
        sc = params.cfg_at(c, path)
        w = rng.choice(['set_free', 'set_vector', 'set', 'free_to_vector', 'get_free',
                        'get_vector', 'rt', 'index', 'push', 'values'])
        op = {'op': w, 'o': 'p', 'path': path}
        if w == 'index':
            ops.append({'op': 'index', 'o': 'p', 'to': 'ix%d' % i})
            continue
        if w == 'push':
            if 'cls' in c:
                continue
            nc = rdict(rng, 1, 2) if rng.random() < 0.3 else rleaf(rng)
            nm = 'n%d' % i
            ops.append({'op': 'push', 'o': 'p', 'name': nm, 'c': nc, 'x': rx(rng, nc)})
            c = dct([(it['name'], it['c']) for it in c['items']] + [(nm, nc)])
            paths = subpaths(c)
            continue
        if w == 'values':
            if sc['kind'] == 'dict':
                continue
            op['op'], op['how'] = 'set', 'values'
        if op['op'] == 'set' and sc['kind'] == 'dict':
            continue
        if w == 'rt':
            op['how'] = rng.choice(['free', 'vector'])
        if op['op'] in ('set_free', 'set_vector', 'set', 'free_to_vector'):
            op['x'] = rx(rng, sc)
        ops.append(op)
    return ops


def graph(ctx, rng):
    """Exhaustive: every ordered pair of calls in every reachable state."""
    out = []
    inner = dct([('u', scalar(([[0, 1]], []))), ('w', simplex(1, 3))])
    layouts = [dct([('s', simplex(1, 2)), ('x', scalar(([[1, 1]], []))), ('m', posdef(2))]),
               dct([('v', vector(2, ([], []))), ('in', inner), ('b', subspace([[1, 1, 1]]))]),
               dct([('in', inner), ('a', array((2, 1), ([[0, 1]], [[1, 1]])))])]
    for li, c in enumerate(layouts if not ctx.quick else layouts[:2]):
        ops = []
        for pi, path in enumerate(subpaths(c)[1:]):
            sc = params.cfg_at(c, list(path))
            for w in ('set_free', 'set_vector') if not ctx.quick else \
                    (('set_free', 'set_vector')[pi % 2],):
                ops.append({'op': w, 'o': 'p', 'path': list(path), 'x': rx(rng, sc)})
            ops.append({'op': 'get_free', 'o': 'p', 'path': list(path)})
        ops.append({'op': 'set_free', 'o': 'p', 'path': [], 'x': rx(rng, c)})
        ops.append({'op': 'set_vector', 'o': 'p', 'path': [], 'x': rx(rng, c)})
        out.append({'mode': 'graph', 'name': 'layout%d' % li,
                    'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}], 'ops': ops})
    return out


def run(ctx):
    rng = ctx.rng()
    cfgs = [rdict(rng, 3, 4) for i in range(60 if ctx.quick else 800)]
    # more than ten entries
    cfgs += [dct([('v', vector(12, ([], []))), ('in', dct([('w', vector(11, ([[0, 1]], []))), ('s', subspace([[1] * 12]))])),
                  ('a', array((3, 4), ([], [])))])]
    cfgs += [dct([('a', vector(2, ([[0, 1]], []))), ('s', simplex(2, 1)), ('t', simplex(1, 2))])]
    cfgs += distributions.catalogue(rng)
    cfgs += [c if 'items' in c else dct([('a', scalar(([], []))), ('big', c), ('b', scalar(([], [])))]) for c in large(rng)]
    suites = [{'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}],
               'ops': script(rng, c, 14)} for c in cfgs]
    suites += graph(ctx, rng)
    run_suites(ctx, suites, ('vec', 'get', 'free', 'size', 'dict', 'layout'))
