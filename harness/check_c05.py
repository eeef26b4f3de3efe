"""C05: converting a vector Hessian into a free Hessian."""
import exponents
from gen import *
import distributions
import params
from replay import run_suites
from check_c03 import subpaths
from check_c04 import small


def script(rng, c, n):
    ops = []
    paths = subpaths(c)
    for i in range(n):
        path = list(rng.choice(paths)) if i else []
        sc = params.cfg_at(c, path)
        nv = params.vec_size(sc)
        A = [[rng.choice([-2, -1, 0, 0, 1, 2, 3]) for _ in range(nv)] for _ in range(nv)]
        vh = [[[A[a][b] + A[b][a], 1] for b in range(nv)] for a in range(nv)]
        vg = [rng.choice([[-2, 1], [-1, 1], [0, 1], [1, 1], [3, 1], [1, 2], [-3, 2]]) for _ in range(nv)]
        op = {'op': 'convert', 'o': 'p', 'path': path, 'x': rx(rng, sc), 'vg': vg, 'vh': vh,
              'sparse': rng.choice(['', '', 'coo', 'coo', 'csr', 'csc', 'lil', 'dok', 'dia', 'bsr']),
              'ints': rng.choice(['', 'hess', 'both'])}
        if op['sparse']:
            # stored entries; several may belong to one place, and add up
            e = []
            for a in range(nv):
                for b in range(nv):
                    v = vh[a][b][0]
                    if v or rng.random() < 0.1:
                        k = rng.choice([0, 0, 1, -1]) if op['sparse'] == 'coo' else 0
                        e.append([a + 1, b + 1, [v - k, 1]])
                        if k:
                            e.append([a + 1, b + 1, [k, 1]])
            rng.shuffle(e)
            op['vh'] = e
        ops.append(op)
        # the conversion may leave any value behind; then it is written again
        ops.append({'op': 'set_free', 'o': 'p', 'path': [], 'x': rx(rng, c)})
    return ops


def run(ctx):
    rng = ctx.rng()
    cfgs = [scalar(b) for b in BOUNDS] + [vector(2, b) for b in BOUNDS] + \
        [array((2, 2), b) for b in BOUNDS[:8]] + \
        [simplex(1, 2), simplex(2, 3), simplex(3, 2), simplex(1, 4),
         dct([('a', vector(2, ([[0, 1]], []))), ('s', simplex(2, 1)), ('t', simplex(1, 2))])] + \
        [posdef(m, d) for m in (1, 2, 3) for d in ((0, 1), (1, 2))] + \
        [posdefvec(2, 2, (1, 2)), posdefvec(3, 1), posdefarr((2, 2), 2, (1, 1)),
         posdefarr((2, 3), 1), posdefarr((2, 1, 2), 1), posdefarr((1, 2, 2), 2)] + [subspace(A) for A in SUBSPACES]
    k = 0
    while k < (60 if ctx.quick else 600):
        c = rdict(rng, 3, 3) if k % 3 else rleaf(rng, True)
        if small(c):
            cfgs.append(c)
            k += 1
    cfgs += [vector(20, BOUNDS[7]), posdef(4), simplex(1, 8), simplex(7, 2), array((2, 2, 2, 2), BOUNDS[1]),
             posdefvec(3, 2)] + large(rng)[-2:]
    cfgs += [c for c in distributions.catalogue(rng) if small(c)]
    suites = [{'mode': 'script', 'init': [{'o': 'p', 'c': c, 'x': rx(rng, c)}],
               'ops': script(rng, c, 4 if ctx.quick else 8)} for c in cfgs]
    run_suites(ctx, suites, ('vec',), lenient=('convert',))
    if not ctx.violations:
        run_suites(ctx, exponents.derivative_suites(rng, 40 if ctx.quick else 600, ['convert']), module='MC_Exponent',
                   driver=exponents.ExponentDriver)
