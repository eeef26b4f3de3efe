"""EvalLog on the implementation."""
import contextlib
import io

import numpy as np

import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from objectives import Boom, bang
from params import Mismatch, expect, is_numeric


# also values an optimizer meets off the domain of the objective
LOGGED = [1.5, np.inf, np.nan, -np.inf, 1e-300, -1e300, 0.0]


def same(label, got, want):
    if np.isfinite(want):
        expect(label, got, want, 1e-9)
    elif np.shape(got) != () or not np.array_equal(np.isnan(got), np.isnan(want)) or \
            not (np.isnan(want) or got == want):
        raise Mismatch('%s: got %s, expected %s' % (label, got, want))


class LogDriver(object):
    def __init__(self, suite, init, bases):
        self.suite, self.bases = suite, bases
        self.objs, self.pts = [], []
        self.told = []
        for i in range(suite['logs']):
            c = suite['ob'][i]['c']
            par = params.build(c, 'p')
            obj = obj_lib.Objective(par, self.function(suite['ob'][i], par))
            n = params.free_size(c)
            obj.preconditioner = 2.0 * np.eye(n) + np.ones((n, n))
            if suite['every'][i] != 1:
                obj.logger = obj_lib.Logger(print_every=suite['every'][i])
            if obj.logger.print_every != suite['every'][i]:
                raise Mismatch('reporting interval %s' % obj.logger.print_every)
            self.objs.append(obj)
            # numbered points and values
            self.pts.append([params.free_of(c, x, bases) for x in suite['ob'][i]['pts']])
        self.kept = [None] * suite['logs']
        self.pairs = [[] for _ in self.objs]
        self.check(init['h'])

    def function(self, ob, par):
        def fun(boom=False):
            if boom:
                raise bang()
            return polys.peval(ob['P'], polys.read_vector(par, ob['c'], 'vector'))
        return fun

    def value(self, i, v, p):
        """What the pair numbered (v, p) is: v = 0 is the value there."""
        return self.true(i, p) if v == 0 else LOGGED[v - 1]

    def true(self, i, p):
        ob = self.suite['ob'][i]
        par = params.build(ob['c'], 'q')
        par.set_free(self.pts[i][p - 1])
        return polys.peval(ob['P'], polys.read_vector(par, ob['c'], 'vector'))

    def callback(self, i, k):
        def cb(log):
            if log is not self.objs[i].logger:
                raise Mismatch('the callback was given another object')
            self.told.append((i, k, log.iter, log.value, np.array(log.x), len(log.x_array), len(log.val_array)))
        return cb

    def step(self, op, rec):
        i = op['log'] - 1
        obj = self.objs[i]
        o = op['op']
        self.told = []
        out = io.StringIO()
        arg = self.pts[i][op['p'] - 1].copy() if op['p'] else None
        with contextlib.redirect_stdout(out):
            if o == 'log':
                obj.logger.log(LOGGED[op['v'] - 1], arg)
            elif o in ('eval', 'cond'):
                if o == 'cond':
                    f = obj.fun_free_cond
                    arg = np.linalg.solve(obj.preconditioner, arg)
                else:
                    f = obj.fun_free
                kw = {'boom': True} if op['boom'] else {}
                if op['verbose'] or op['k']:
                    kw['verbose'] = op['verbose']
                try:
                    f(arg, **kw)
                except Boom:
                    if not op['boom']:
                        raise
            elif o == 'grad':
                f = [obj.fun_free_grad, obj.fun_free_hessian, obj.fun_free_grad_cond,
                     lambda x: obj.fun_free_hvp(x, np.ones(len(x)))][op['k']]
                f(arg)
            elif o == 'vector':
                obj.par.set_free(arg)
                obj.fun_vector(obj.par.get_vector())
            elif o == 'reset':
                obj.logger.initialize()
            elif o == 'every':
                obj.logger.print_every = op['k']
            elif o == 'callback':
                obj.logger.callback = self.callback(i, op['k']) if op['k'] else None
        if arg is not None:
            # the caller goes on to use the array for something else
            arg[...] = -77.0
        text = out.getvalue()
        r = rec['r']
        if (r['to'] == 0) != bool(text):
            raise Mismatch('%s on the standard output' % ('nothing' if not text else repr(text)))
        if (r['to'] > 0) != bool(self.told) or len(self.told) > 1:
            raise Mismatch('callbacks called: %s, expected %s' % ([t[:2] for t in self.told], r['to']))
        if r['to'] == 0 and str(r['n']) not in text.split():
            raise Mismatch('the message %r does not tell evaluation %d' % (text, r['n']))
        if r['to'] > 0:
            (j, k, n, val, x, nx, nv) = self.told[0]
            if j != i or k != r['to'] or n != r['n'] or nx != n + 1 or nv != n + 1:
                raise Mismatch('callback %s of log %s at evaluation %s, expected %s' % (k, j, n, r))
            v, p = rec['h'][i]['pairs'][-1]
            same('value at the callback', val, self.value(i, v, p))
            expect('point at the callback', x, self.pts[i][p - 1], 1e-9)
        self.check(rec['h'])

    def check(self, st):
        for i, l in enumerate(st):
            log = self.objs[i].logger
            n = len(l['pairs'])
            if log.iter != n or len(log.x_array) != n or len(log.val_array) != n:
                raise Mismatch('log %d: iter %s, %d points and %d values, expected %d' % (
                    i, log.iter, len(log.x_array), len(log.val_array), n))
            for j, (v, p) in enumerate(l['pairs']):
                if not is_numeric(log.val_array[j]) or not is_numeric(log.x_array[j]):
                    raise Mismatch('log %d: not numeric' % i)
                same('log %d: value %d' % (i, j), log.val_array[j], self.value(i, v, p))
                expect('log %d: point %d' % (i, j), log.x_array[j], self.pts[i][p - 1], 1e-9)
            if log.print_every != l['every'] or (log.callback is None) != (l['cb'] == 0):
                raise Mismatch('log %d: interval or callback' % i)
            if n == 0:
                if any(a is not None for a in (log.x, log.value, log.last_x, log.last_value)):
                    raise Mismatch('log %d: the empty log has a last pair' % i)
            else:
                v, p = l['pairs'][-1]
                for a, name in ((log.x, 'x'), (log.last_x, 'last_x')):
                    expect('log %d: %s' % (i, name), a, self.pts[i][p - 1], 1e-9)
                for a, name in ((log.value, 'value'), (log.last_value, 'last_value')):
                    same('log %d: %s' % (i, name), a, self.value(i, v, p))
