"""C23: distribution parameters follow their current value."""
import distributions
import params
from check_c03 import subpaths
from dists import DistDriver
from gen import *
from replay import run_suites

UVN = ('UVNParamArray',)


def dists(c, pre=()):
    if c['kind'] != 'dict':
        return []
    if 'cls' in c:
        return [list(pre)]
    return [p for it in c['items'] for p in dists(it['c'], pre + (it['name'],))]


def rd(rng, c):
    """Coordinates giving distributions of moderate size."""
    precise = c.get('cls', [''])[0] in ('UVNParam', 'UVNParamVector', 'UVNParamArray')
    out = []
    for t, k in tags(c):
        if t == 'log':
            v = rng.choice([[1, 1], [2, 1]] if k in ('pd3', 'pd4') else HALF + [[3, 1]])
            if precise and rng.random() < 0.2:
                v = rng.choice([[1000, 1], [8192, 1]])
        else:
            v = rng.choice(SMALL if k != 'pd3' else [[0, 1], [1, 1], [-1, 1]])
        out.append({'t': t, 'v': list(v)})
    return out


def script(rng, cs, n):
    """cs: object -> config."""
    cs = dict(cs)
    index = set()
    ops = []
    for i in range(n):
        o = rng.choice(sorted(cs))
        c = cs[o]
        ds = dists(c)
        ks = ['set_free', 'set_vector', 'set', 'free_to_vector', 'get_free', 'rt', 'copy', 'index']
        if ds:
            ks += ['deriv'] * 3
        k = rng.choice(ks)
        op = {'op': k, 'o': o, 'path': list(rng.choice(subpaths(c)))}
        if o in index and k in ('get_free', 'rt', 'deriv', 'copy', 'index'):
            continue
        if o in index:
            continue
        if k == 'copy' or k == 'index':
            if len(cs) > 5:
                continue
            op = {'op': k, 'o': o, 'to': '%s_%d' % (k, i)}
            cs[op['to']] = c
            if k == 'index':
                index.add(op['to'])
        elif k == 'deriv':
            op['path'] = rng.choice(ds)
        elif k == 'rt':
            op['how'] = rng.choice(['free', 'vector'])
        else:
            sc = params.cfg_at(c, op['path'])
            if k == 'set':
                leaf = [p for p in subpaths(c) if params.cfg_at(c, list(p))['kind'] != 'dict']
                op['path'] = list(rng.choice(leaf))
                sc = params.cfg_at(c, op['path'])
                if op['path'] and rng.random() < 0.5:
                    op['how'] = 'values'
            if k != 'get_free':
                op['x'] = rd(rng, sc)
        ops.append(op)
    return ops


def single(rng, c):
    """Every kind of call on one distribution object, moments in between."""
    cs = {'p': c}
    ops = script(rng, cs, 12)
    ops.append({'op': 'deriv', 'o': 'p', 'path': rng.choice(dists(c))})
    return {'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rd(rng, c)}], 'ops': ops}


def container(rng):
    cat = distributions.catalogue(rng)
    small = [c for c in cat if params.vec_size(c) <= 7]
    items = [('d1', rng.choice(small)), ('x', rleaf(rng)), ('d2', rng.choice(small))]
    if rng.random() < 0.5:
        items[0] = ('in', dct([('y', scalar(([], []))), items[0]]))
    return dct(items[:rng.choice([2, 3])])


def ctor(rng):
    """A constructor call, legal or not."""
    if rng.random() < 0.5:
        k = rng.choice([1, 2, 3])
        return {'op': 'ctor', 'cls': 'WishartParam', 'size': k,
                'arg': rng.choice([[2 * k - 3, 2], [k - 1, 1], [2 * k - 1, 2], [k, 1], [4 * k - 5, 4]])}
    return {'op': 'ctor', 'cls': 'DirichletParamArray', 'size': rng.choice([1, 2, 3]),
            'arg': rng.choice([[-1, 2], [0, 1], [1, 2], [-1, 64], [-3, 1]])}


def moment(rng, n):
    """A moment parameterization filled from others, alone or in containers."""
    shape = rng.choice([[1, 1], [2], [1], [2, 3], [3, 2], [2, 1], [1, 2, 2]])
    u = distributions.cfg('UVNParamArray', shape=shape, min_info=rng.choice([[0, 1], [1, 2], [1, 1]]))
    m = distributions.cfg('UVNMomentParamArray', shape=shape)
    k = array(shape, rng.choice([([[0, 1]], []), ([[1, 2]], [[3, 1]]), ([], [[-1, 2]]), ([[-3, 1]], [[-1, 3]])]))
    odd = array([n + 1 for n in shape], ([[0, 1]], []))
    oddu = distributions.cfg('UVNParamArray', shape=odd['shape'])
    wrap = lambda c, nm: (dct([('z', scalar(([], []))), (nm, c)]), [nm]) if rng.random() < 0.5 else (c, [])
    u, up = wrap(u, 'u')
    m, mp = wrap(m, 'm')
    k, kp = wrap(k, 'k')
    cs = {'u': u, 'm': m, 'k': k, 'odd': odd, 'oddu': oddu}
    ops = []
    for i in range(n):
        r = rng.random()
        if r < 0.3:
            ops.append({'op': 'from_uvn', 'o': 'm', 'path': mp, 'src': 'u', 'spath': up})
        elif r < 0.5:
            ops.append({'op': 'from_const', 'o': 'm', 'path': mp, 'src': 'k', 'spath': kp})
        elif r < 0.55:
            ops.append({'op': 'from_uvn', 'o': 'm', 'path': mp, 'src': 'oddu', 'spath': []} if rng.random() < 0.5 else
                       {'op': 'from_const', 'o': 'm', 'path': mp, 'src': 'odd', 'spath': []})
        elif r < 0.6:
            ops.append(ctor(rng))
        elif r < 0.7:
            ops.append({'op': 'deriv', 'o': 'm', 'path': mp})
        else:
            o = rng.choice(['u', 'u', 'm', 'k'])
            ops.append({'op': rng.choice(['set_free', 'set_vector']), 'o': o, 'path': [], 'x': rd(rng, cs[o])})
    return {'mode': 'script', 'init': [{'o': o, 'c': cs[o], 'x': rd(rng, cs[o])} for o in sorted(cs)], 'ops': ops}


def graph(rng, c):
    ops = []
    for path in subpaths(c):
        sc = params.cfg_at(c, list(path))
        ops.append({'op': 'set_free', 'o': 'p', 'path': list(path), 'x': rd(rng, sc)})
        if sc['kind'] != 'dict':
            ops.append({'op': 'set', 'o': 'p', 'path': list(path), 'x': rd(rng, sc)})
    ops.append({'op': 'set_vector', 'o': 'p', 'path': [], 'x': rd(rng, c)})
    ops.append({'op': 'deriv', 'o': 'p', 'path': dists(c)[0]})
    return {'mode': 'graph', 'name': 'dist', 'init': [{'o': 'p', 'c': c, 'x': rd(rng, c)}], 'ops': ops}


def moment_graph(rng, shape):
    u = distributions.cfg('UVNParamArray', shape=shape)
    m = distributions.cfg('UVNMomentParamArray', shape=shape)
    k = array(shape, ([], [[-1, 4]]))
    ops = [{'op': 'from_uvn', 'o': 'm', 'path': [], 'src': 'u', 'spath': []},
           {'op': 'from_const', 'o': 'm', 'path': [], 'src': 'k', 'spath': []},
           {'op': 'set_free', 'o': 'm', 'path': ['e2'], 'x': rd(rng, params.cfg_at(m, ['e2']))},
           {'op': 'set_free', 'o': 'u', 'path': [], 'x': rd(rng, u)},
           {'op': 'set_vector', 'o': 'u', 'path': ['info'], 'x': rd(rng, params.cfg_at(u, ['info']))},
           {'op': 'set', 'o': 'k', 'path': [], 'x': rd(rng, k)}]
    return {'mode': 'graph', 'name': 'moments',
            'init': [{'o': o, 'c': c, 'x': rd(rng, c)} for o, c in (('u', u), ('m', m), ('k', k))], 'ops': ops}


def run(ctx):
    rng = ctx.rng()
    suites = []
    for _ in range(1 if ctx.quick else 12):
        suites += [single(rng, c) for c in distributions.catalogue(rng)]
    for _ in range(20 if ctx.quick else 200):
        c = container(rng)
        if dists(c):
            suites.append(single(rng, c))
    suites += [moment(rng, 10) for _ in range(20 if ctx.quick else 200)]
    cat = distributions.catalogue(rng)[:9]
    suites += [graph(rng, c) for c in (cat if ctx.quick else distributions.catalogue(rng))]
    suites += [moment_graph(rng, s) for s in ([2], [1, 2])]
    run_suites(ctx, suites, module='MC_Dist', driver=DistDriver)
