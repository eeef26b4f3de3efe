"""C02: whatever the free vector, the value satisfies the constraints, and so
does the value a parameter starts with."""
from fractions import Fraction

import numpy as np

from common import Machinery, fl, parallel, fmt_exc
from gen import *
import distributions
import params
from replay import run_suites


def exact_suites(ctx, rng):
    cfgs = [scalar(b) for b in BOUNDS + FAR] + [vector(2, b) for b in BOUNDS + FAR] + \
        [array((2, 2), b) for b in BOUNDS + FAR] + [simplex(2, 3), simplex(1, 5), simplex(4, 2)] + \
        [posdef(m, d) for m in (1, 2, 3) for d in ((0, 1), (1, 2), (3, 1))] + \
        [posdefvec(2, 2, (1, 2)), posdefvec(1, 3, (2, 1)), posdefvec(3, 1, (5, 2)),
         posdefarr((2,), 2, (1, 1)), posdefarr((2, 2), 2, (1, 2)), posdefarr((3,), 1, (2, 1))] + \
        [subspace(A) for A in SUBSPACES]
    for i in range(30 if ctx.quick else 600):
        cfgs.append(rleaf(rng, True) if i % 2 else rdict(rng, 2, 3))
    cfgs += distributions.catalogue(rng) + large(rng)
    out = []
    for c in cfgs:
        ops = []
        for i in range(6):
            ops.append({'op': ('set_free', 'free_to_vector')[i % 2], 'o': 'p', 'path': [],
                        'x': rx(rng, c, True)})
        out.append({'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}], 'ops': ops})
    return out


def rational(v):
    f = Fraction(float(v)).limit_denominator(2000)
    if abs(float(f) - float(v)) > 1e-12 * (1 + abs(float(v))):
        return None
    return [f.numerator, f.denominator]


def extreme_cases(ctx, rng):
    cases = []
    for b in BOUNDS:
        for z in ([1], [-1], [0]):
            cases.append({'what': 'limit', 'c': scalar(b), 'z': z})
        cases.append({'what': 'limit', 'c': vector(3, b), 'z': [1, 0, -1]})
        cases.append({'what': 'limit', 'c': array((2, 2), b), 'z': [-1, 1, 1, 0]})
    for i in range(40 if ctx.quick else 400):
        r, k = rng.choice([(1, 2), (2, 2), (1, 3), (2, 3), (3, 4), (1, 5)])
        z = [rng.choice([-2, -1, 0, 0, 1, 1, 2]) for _ in range(r * (k - 1))]
        cases.append({'what': 'limit', 'c': simplex(r, k), 'z': z})
    for k in cases:
        # beyond what can be exponentiated, where the value stays bounded
        if k['c']['kind'] == 'simplex':
            k['unit'] = 1000.0           # rounding grows with the unit
        else:
            k['unit'] = rng.choice([1000.0, 720.0, 1e6]) if k['c']['lb'] and k['c']['ub'] else 600.0
    return cases


def default_cases(rng):
    cfgs = [scalar(b) for b in BOUNDS + FAR] + [vector(2, b) for b in BOUNDS + FAR] + \
        [array((2, 3), b) for b in BOUNDS] + [simplex(2, 1), simplex(1, 2), simplex(2, 3), simplex(1, 7)] + \
        [posdef(m, d) for m in (1, 2, 3) for d in ((0, 1), (1, 2), (3, 1))] + \
        [posdefvec(2, 2, (1, 2)), posdefvec(1, 3, (2, 1)), posdefarr((2,), 2, (1, 1)),
         posdefarr((2, 2), 3, (7, 2)), posdefarr((1, 3), 1, (0, 1))] + \
        [subspace(A) for A in SUBSPACES]
    cfgs += distributions.catalogue(rng)
    for i in range(20):
        cfgs.append(rdict(rng, 2, 4, True))
    return cfgs + large(rng)


def check_limit(sub, item):
    case, rec = item
    c = case['c']
    try:
        p = params.build(c)
        p.set_free(case['unit'] * np.array(case['z'], dtype=float))
        v = np.asarray(p.get_vector(), dtype=float)
        g = np.asarray(p.get(), dtype=float).reshape(-1)
        for got, lim in list(zip(v, rec['lim'])) + list(zip(g, rec['lim'])):
            want = fl(lim['v'])
            if lim['k'] == 'fin':
                if not abs(got - want) <= 1e-12 * (1 + abs(want)):
                    raise params.Mismatch('got %r, expected the limit %r' % (got, want))
            elif not (np.isfinite(got) and got * want >= 600.0 - 1e-6):
                raise params.Mismatch('got %r, expected a huge value of sign %r' % (got, want))
        if len(v) != len(rec['lim']):
            raise params.Mismatch('size')
        sub.validated += 1
        sub.count('limit')
    except params.Mismatch as e:
        sub.violation('limit:' + repr(case), 'huge free value %s: %s' % (case, e), {'case': case})
    except Exception:
        sub.violation('limit:' + repr(case), 'huge free value %s: raised %s' % (case, fmt_exc()),
                      {'case': case})


def posdef_extremes(sub, rng):
    """Large but representable free values of matrices: symmetric, finite, and
    not below the diagonal bound."""
    for c in [posdef(2, (1, 2)), posdef(3), posdefvec(2, 2, (1, 1)), posdefarr((2,), 2, (3, 1))]:
        for rep in range(8):
            t = tags(c)
            x = np.array([rng.choice([-40., -20., 0., 10., 15.]) if k == 'log'
                          else rng.choice([-1e3, 0., 1e3]) for k, _ in t])
            p = params.build(c)
            p.set_free(x)
            m = np.asarray(p.get(), dtype=float).reshape((-1, c['m'], c['m']))
            for M in m:
                scale = np.max(np.abs(M))
                ok = np.all(np.isfinite(M)) and np.all(M == M.T)
                ok = ok and np.min(np.linalg.eigvalsh(M)) >= fl(c['dlb']) - 1e-9 * scale
                ok = ok and np.all(np.diag(M) >= fl(c['dlb']))
                if not ok:
                    sub.violation('pdx:%r' % (c,), 'matrix %s infeasible at %s' % (M, list(x)),
                                  {'c': c, 'x': list(x)})
                    return
            sub.validated += 1


def run(ctx):
    rng = ctx.rng()
    run_suites(ctx, exact_suites(ctx, rng), ('vec', 'get'))
    if ctx.violations or ctx.replay_file:
        return
    cases = extreme_cases(ctx, rng)
    cfgs = default_cases(rng)
    for c in cfgs:
        try:
            p = params.build(c, with_val=False)
            q = [rational(v) for v in np.asarray(p.get_vector(), dtype=float)]
        except Exception:
            ctx.violation('default:%r' % (c,), 'default construction of %s raised %s' % (c, fmt_exc()),
                          {'c': c})
            continue
        if None in q:
            raise Machinery('default value is not a small rational: %s' % c)
        cases.append({'what': 'observe', 'c': c, 'q': q})
    res = ctx.tlc('ParamExtreme', cases)
    recs = {r['n']: r for r in res.records}
    if len(recs) != len(cases):
        raise Machinery('%d verdicts for %d cases' % (len(recs), len(cases)))
    lim = []
    for i, case in enumerate(cases):
        r = recs[i + 1]
        if case['what'] == 'limit':
            lim.append((case, r))
        else:
            ctx.validated += 1
            ctx.count('default')
            if not r['feasible']:
                ctx.violation('default:%r' % (case['c'],),
                              'default value %s of %s is not strictly feasible' % (case['q'], case['c']),
                              {'case': case})
    parallel(ctx, lim, check_limit)
    posdef_extremes(ctx, rng)
    ctx.assumptions = ['one-sided and matrix coordinates are probed up to magnitudes whose '
                       'exponentials are representable; two-sided ones and simplexes beyond']
