"""Masks and CGModel on the implementation."""
import contextlib
import io
import signal

import numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.ConjugateGradient as cg_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from arrays import Caller
from params import Mismatch, expect


def from_indices(n, ix):
    m = np.full(n, False)
    m[[i - 1 for i in ix]] = True
    return m


def to_indices(n, m, what):
    m = np.asarray(m)
    if m.shape != (n,) or m.dtype != bool:
        raise Mismatch('%s: a mask of shape %s, type %s' % (what, m.shape, m.dtype))
    return [int(i) + 1 for i in np.nonzero(m)[0]]


def record_split(n, asked):
    m = from_indices(n, asked)
    out = cg_lib.split_vector(m)
    return {'kind': 'split', 'n': n, 'asked': asked, 'limit': 0,
            'masks': [to_indices(n, x, 'split_vector') for x in out]}


def record_recursive(n, asked, limit, before=()):
    m = from_indices(n, asked)
    results = [from_indices(n, b) for b in before]
    old = list(results)
    kw = {} if limit == 10 else {'terminate_len': limit}
    cg_lib.recursive_split(m, results=results, **kw)
    if any(a is not b for a, b in zip(results, old)) or to_indices(n, m, '') != asked:
        raise Mismatch('recursive_split changed its arguments')
    return {'kind': 'recursive', 'n': n, 'asked': asked, 'limit': limit,
            'masks': [to_indices(n, x, 'recursive_split') for x in results[len(old):]]}


def record_blocks(n, limit):
    return {'kind': 'blocks', 'n': n, 'asked': list(range(1, n + 1)), 'limit': limit,
            'masks': [to_indices(n, x, 'get_masks') for x in cg_lib.get_masks(n, limit)]}


def refuses_blocks(n, limit):
    """A limit that no mask can have is refused, not tried for ever."""
    def late(*_):
        raise Mismatch('get_masks(%d, %d) does not end' % (n, limit))
    old = signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, 3)
    try:
        cg_lib.get_masks(n, limit)
    except Mismatch:
        raise
    except Exception:
        return
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    raise Mismatch('get_masks(%d, %d) was not refused' % (n, limit))


class CGDriver(object):
    def __init__(self, suite, init, bases):
        ob = self.ob = suite['ob']
        self.caller = Caller()
        self.x0 = self.caller.lend(params.floats(ob['x0']))
        self.n = len(self.x0)
        par = vb.VectorParam('x', size=self.n)
        self.obj = obj_lib.Objective(par, lambda: 2.0 ** ob['e'] * polys.peval(ob['F'], par.get()))
        par.set(self.x0 + 1.0)
        self.s = cg_lib.ConjugateGradientSolver(self.obj.fun_free_hvp, self.x0)
        self.check(init['h'])

    def step(self, op, rec):
        o = op['op']
        if o == 'reset':
            self.s.initialize()
        elif o == 'tol':
            self.s.tol = [1e-8, 1e-10, 1e-12][op['k']]
        elif o == 'pre':
            H = self.obj.fun_free_hessian(self.x0)
            self.s.preconditioner = [None, np.diag(1.0 / np.diag(H)), np.linalg.inv(H)][op['k']]
        elif o == 'move':
            # the parameter of the objective is elsewhere in between
            self.obj.par.set(params.floats(op['vec']))
        else:
            v = self.caller.lend(params.floats(op['vec']) * 2.0 ** op['e'], False)
            back = 2.0 ** (self.ob['e'] - op['e'])
            if o == 'solve':
                kw = {}
                if op['x0']:
                    kw['x0'] = self.caller.lend(params.floats(op['x0']) / back)
                got, info = self.s.get_hinv_vec(v, **kw)
                expect('get_hinv_vec', np.asarray(got) * back, params.floats(rec['r']), 1e-5, 1.0)
                if info != 0:
                    raise Mismatch('get_hinv_vec: info %s' % info)
            else:
                masks = [from_indices(self.n, m) for m in op['masks']]
                k = len(self.s.hinv_vecs)
                kw = {'verbose': True, 'print_every': 2} if op['k'] else {}
                with contextlib.redirect_stdout(io.StringIO()):
                    self.s.get_hinv_vec_subsets(v, masks, **kw)
                if op['partition']:
                    expect('sum of the masked solutions', np.sum(self.s.hinv_vecs[k:], axis=0) * back, params.floats(rec['r']), 1e-5, 1.0)
                for m, want in zip(masks, op['masks']):
                    if to_indices(self.n, m, '') != want:
                        raise Mismatch('a mask was changed')
            self.caller.settle()
            v[...] = 99.0
        self.check(rec['h'])

    def check(self, h):
        s = self.s
        sizes = [len(x) for x in (s.vecs, s.hinv_vecs, s.masks, s.times, s.cg_infos)]
        if sizes != [len(h)] * 5:
            raise Mismatch('records of lengths %s, expected %d' % (sizes, len(h)))
        for i, e in enumerate(h):
            if to_indices(self.n, s.masks[i], 'recorded mask') != e['mask']:
                raise Mismatch('mask %d' % i)
            expect('masked vector %d' % i, s.vecs[i], params.floats(e['vec']) * 2.0 ** e['ve'])
            expect('solution %d' % i, s.hinv_vecs[i] * 2.0 ** -e['se'], params.floats(e['sol']), 1e-5, 1.0)
            if s.cg_infos[i] != 0:
                raise Mismatch('info %d is %s' % (i, s.cg_infos[i]))
        if not np.array_equal(s.x0, params.floats(self.ob['x0'])):
            raise Mismatch('the point was changed')
