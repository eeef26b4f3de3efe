"""OptimLoop and MinimizeModel on the implementation."""
import contextlib
import io

import autograd.numpy as anp
import numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from common import fl
from params import Mismatch, expect, is_numeric


class Adversary(object):
    """An optimiser that returns what the model says, in one of the ways
    optimisers hand back arrays."""
    def __init__(self, way, points):
        self.way, self.points = way, list(points)
        self.starts, self.results = [], []
        self.buf = None

    def __call__(self, start):
        self.starts.append(np.array(start))
        if len(self.starts) > len(self.points):
            raise Mismatch('round %d, where the model stops after %d' % (len(self.starts), len(self.points)))
        p = np.array(self.points[len(self.starts) - 1])
        if self.way == 'inplace':
            start[...] = p
            p = start
        elif self.way == 'buffer':
            if self.buf is None:
                self.buf = np.array(p)
            self.buf[...] = p
            p = self.buf
        self.results.append({'result': len(self.results), 'of': id(self)})
        return p, self.results[-1]


def verdict(x):
    if not isinstance(x, (bool, np.bool_)):
        raise Mismatch('a convergence verdict is ' + repr(x))
    return bool(x)


def run_loop(conf, rec, way):
    par = vb.VectorParam('x', size=len(conf['points'][0]))
    obj = obj_lib.Objective(par, lambda: polys.peval(conf['P'], par.get()))
    pts = [params.floats(p) for p in conf['points']]
    for p, v in zip(pts, rec['vals']):
        # the comparison with tolerances is exact only if this is
        if float(obj.fun_free(p)) != fl(v):
            raise Mismatch('the value of the objective at %s is not exact' % p)
    hist = [pts[h - 1] for h in rec['hist']]
    first = None
    if conf['init']:
        first = Adversary(way, hist[:1])
        hist = hist[1:]
    main = Adversary(way, hist)
    start = pts[conf['start'] - 1].copy()
    kw = {}
    if first is not None:
        kw['initial_optimization_fun'] = first
    if conf['keep'] or way != 'fresh':
        kw['keep_intermediate_optimizations'] = conf['keep']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        new_x, conv, xc, fc, gc, res, kept = opt_lib.repeatedly_optimize(
            obj, main, start, max_iter=conf['max'], gtol=fl(conf['tol']['g']), ftol=fl(conf['tol']['f']),
            xtol=fl(conf['tol']['x']), disp=conf['disp'], **kw)
    r = rec['r']
    if len(main.starts) != rec['n']:
        raise Mismatch('%d rounds, the model runs %d' % (len(main.starts), rec['n']))
    if first is not None:
        if len(first.starts) != 1:
            raise Mismatch('%d initial optimisations' % len(first.starts))
        expect('start of the initial optimisation', first.starts[0], pts[conf['start'] - 1], 0)
    froms = [pts[rec['hist'][0] - 1] if conf['init'] else pts[conf['start'] - 1]] + hist[:-1]
    for i, (a, b) in enumerate(zip(main.starts, froms)):
        expect('start of round %d' % (i + 1), a, b, 0)
    expect('reported point', new_x, params.floats(r['x']), 0)
    got = {'x': verdict(xc), 'f': verdict(fc), 'g': verdict(gc)}
    if got != r['flags'] or verdict(conv) != r['conv']:
        raise Mismatch('verdicts %s (converged: %s), the model says %s (%s)' % (got, conv, r['flags'], r['conv']))
    if res is not main.results[-1]:
        raise Mismatch('the result reported is not that of the last round')
    made = ([] if first is None else first.results) + main.results
    want = [made[k - 1] for k in r['kept']]
    if len(kept) != len(want) or any(a is not b for a, b in zip(kept, want)):
        raise Mismatch('intermediate results %s, expected %s' % (kept, want))
    if not conf['disp'] and out.getvalue():
        raise Mismatch('printed although not asked to')
    if way != 'inplace' and not np.array_equal(start, pts[conf['start'] - 1]):
        raise Mismatch('the starting point was changed')


class Residual(object):
    """A polynomial in v - m, m the vector value of the optimum."""
    def __init__(self, c, F, m, read):
        self.par = params.build(c, 'p')
        self.m = params.floats(m)

        def fun():
            v = polys.read_vector(self.par, c, read)
            return polys.peval(F, [v[i] - self.m[i] for i in range(len(self.m))])
        self.obj = obj_lib.Objective(self.par, fun)


def watch(obj):
    """[whether a point so far out was tried that its exponential, or that of
    a product, is not representable]"""
    far = [False]
    set_free = obj.par.set_free

    def spy(x):
        if is_numeric(x) and not np.all(np.abs(x) < 150):
            far[0] = True
        return set_free(x)
    obj.par.set_free = spy
    return far


class MinimizeDriver(object):
    def __init__(self, suite, init, bases):
        ob = suite['ob']
        self.ob, self.c, self.bases = ob, ob['c'], bases
        self.obj = Residual(self.c, ob['F'], init['vopt'], ob['read']).obj
        self.xopt = params.free_of(self.c, ob['xopt'], bases)
        self.far = watch(self.obj)
        self.dead = False

    def step(self, op, rec):
        try:
            if not self.dead:
                self.act(op, rec)
        except Exception:
            # the optimiser tried a point whose exponential overflows
            if not self.far[0]:
                raise
            self.dead = True

    def act(self, op, rec):
        if op['op'] == 'pre':
            self.obj.preconditioner = None if op['k'] == 0 else params.mat(self.ob['pre'][op['k'] - 1])
            return
        x = params.free_of(self.c, op['x'], self.bases)
        keep = x.copy()
        log = self.obj.logger
        before = len(log.x_array)
        P = self.obj.preconditioner
        keepP = None if P is None else P.copy()
        kw = {'disp': op['disp'], 'init_logger': op['clear'], 'maxiter': op['maxiter']}
        if op['every']:
            kw['print_every'] = op['every']
        if op['how'] == 'trust':
            f = opt_lib.minimize_objective_trust_ncg
            kw['gtol'] = 1e-6
            args = (self.obj, x, op['cond'])
        else:
            f = opt_lib.minimize_objective_bfgs
            args = (self.obj, x)
            if op['cond'] or op['every']:
                kw['precondition'] = op['cond']
        if op['repeat']:
            def g():
                y, conv, _, _, _, res, _ = opt_lib.repeatedly_optimize(
                    self.obj, lambda z: f(*((self.obj, z) + args[2:]), **dict(kw, init_logger=False)), x, max_iter=20,
                    initial_optimization_fun=lambda z: f(*((self.obj, z) + args[2:]), **kw),
                    gtol=1e-4, ftol=1e-12, xtol=1e-9)
                if not conv:
                    raise Mismatch('not converged')
                return y, res
        else:
            g = lambda: f(*args, **kw)
        out = io.StringIO()
        if not rec['r']['ok']:
            try:
                with contextlib.redirect_stdout(out):
                    g()
            except Mismatch:
                raise
            except Exception:
                return
            raise Mismatch('minimising without a preconditioner was not rejected')
        with contextlib.redirect_stdout(out):
            y, res = g()
        what = '%s%s' % (op['how'], ', preconditioned' if op['cond'] else '')
        if not is_numeric(y):
            raise Mismatch(what + ': the optimum is not numeric')
        expect(what + ': optimum', y, self.xopt, op['tol'], 1.0)
        z = np.asarray(res.x)
        if op['cond']:
            z = np.dot(P, z)
        expect(what + ': the result returned along with the optimum', z, y, 1e-9)
        if not np.array_equal(x, keep):
            raise Mismatch(what + ': changed the starting point')
        if P is not None and not np.array_equal(P, keepP):
            raise Mismatch(what + ': changed the preconditioner')
        if not op['repeat'] and res.nit > op['maxiter']:
            raise Mismatch(what + ': exceeded maxiter')
        # the log
        n0 = 0 if op['clear'] else before
        if log.iter != len(log.x_array) or len(log.val_array) != len(log.x_array):
            raise Mismatch(what + ': the log disagrees with itself')
        if op['disp']:
            if len(log.x_array) <= n0:
                raise Mismatch(what + ': nothing was logged')
            expect(what + ': first point evaluated', log.x_array[n0], x, 1e-7, 0.1)
            for a, b in list(zip(log.x_array, log.val_array))[n0:n0 + 5]:
                if np.isfinite(b):
                    expect(what + ': logged value', b, self.obj.fun_free(a), 1e-9)
        elif len(log.x_array) != n0:
            raise Mismatch(what + ': %d points in the log, expected %d' % (len(log.x_array), n0))
        if not rec['h']['log'] and log.x_array:
            raise Mismatch(what + ': the log is not empty')
        if log.print_every != rec['h']['every']:
            raise Mismatch(what + ': reporting interval %s' % log.print_every)


def record_loop(c, F, m, xopt, start, how, cond, P, conf, read):
    """A run with a real optimiser, as OptimTrace reads it."""
    R = Residual(c, F, m, read)
    obj = R.obj
    obj.preconditioner = P
    if how == 'trust':
        stop = {} if conf['gtol'] is None else {'gtol': conf['gtol']}
        f = lambda z: opt_lib.minimize_objective_trust_ncg(obj, z, cond, maxiter=conf['inner'], disp=False, **stop)
    elif how == 'bfgs':
        f = lambda z: opt_lib.minimize_objective_bfgs(obj, z, cond, maxiter=conf['inner'], disp=False)
    else:
        def f(z):
            z -= conf['rate'] * obj.fun_free_grad(np.array(z))
            return z, {'step': conf['rate']}
    seen = []

    def wrapped(z):
        if len(seen) >= conf['max']:
            raise Mismatch('round %d of at most %d' % (len(seen) + 1, conf['max']))
        s = np.array(z)
        y, res = f(z)
        seen.append((s, np.array(y), res))
        return y, res
    first = []

    def initial(z):
        first.append(np.array(z))
        y, res = f(z)
        first.append(np.array(y))
        first.append(res)
        return y, res
    kw = {'initial_optimization_fun': initial} if conf['init'] else {}
    out = io.StringIO()
    far = watch(obj)
    try:
        with contextlib.redirect_stdout(out):
            new_x, conv, xc, fc, gc, res, kept = opt_lib.repeatedly_optimize(
                obj, wrapped, np.array(start), max_iter=conf['max'], gtol=conf['g'], ftol=conf['f'], xtol=conf['x'],
                keep_intermediate_optimizations=conf['keep'], **kw)
    except Mismatch:
        raise
    except Exception:
        if far[0]:
            return None
        raise
    prev = first[1] if conf['init'] else np.array(start)
    if not all(np.all(np.isfinite(z)) for s, y, _ in seen for z in (s, y)):
        return None                              # a descent that diverges: nothing to compare
    rounds = []
    check = Residual(c, F, m, read).obj
    for s, y, res in seen:
        claim = how != 'descent' and bool(res.success)
        if claim:
            grad = check.fun_free_grad(y)
            if cond:
                grad = np.dot(P.T, grad)
            if how == 'trust':
                size, tol = np.sqrt(np.sum(grad ** 2)), 1e-6 if conf['gtol'] is None else conf['gtol']
            else:
                size, tol = np.max(np.abs(grad)), 1e-5
        rounds.append({'iters': 0 if how == 'descent' else int(res.nit), 'success': claim,
                       'small': claim and bool(size <= 1.01 * tol),
                       'chained': bool(np.array_equal(s, prev)),
                       'x': bool(np.sum(np.abs(y - prev)) < conf['x']),
                       'f': bool(abs(check.fun_free(y) - check.fun_free(prev)) < conf['f']),
                       'g': bool(np.sum(np.abs(check.fun_free_grad(y))) < conf['g'])})
        prev = y
    want = ([first[2]] if conf['init'] else []) + [z[2] for z in seen]
    if not conf['keep']:
        want = []
    return {'max': conf['max'], 'inner': conf['inner'], 'rounds': rounds,
            'end': {'last': bool(np.array_equal(new_x, prev)), 'conv': bool(conv), 'x': bool(xc), 'f': bool(fc),
                    'g': bool(gc), 'result': res is seen[-1][2],
                    'kept': len(kept) == len(want) and all(a is b for a, b in zip(kept, want))}}
