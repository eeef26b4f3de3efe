"""ObjectiveModel on the implementation."""
import autograd
import numpy as np
import scipy.sparse

import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from arrays import Caller
from common import fl
from params import Mismatch, expect, is_numeric


class Boom(BaseException):
    """What goes wrong in a function: an interrupt, or an error."""


class Error(Boom, Exception):
    pass


def bang():
    bang.calls += 1
    return (Error, Error, Boom)[bang.calls % 3]()


bang.calls = 0


class ObjectiveDriver(object):
    def __init__(self, suite, init, bases):
        ob = suite['ob']
        self.c = ob['c']
        self.ob = ob
        self.bases = bases
        # the unit the function is measured in
        self.u = ob.get('u', 0)
        # the unit an unbounded parameter is measured in
        self.s = 2.0 ** ob.get('ux', 0)
        self.E = params.ext_matrix(self.c, bases)
        self.caller = Caller()
        self.par = params.build(self.c, 'p')
        self.par.set_vector(params.floats(init['h']['q']) * self.s)
        read = ob.get('read', 'vector')

        def fun(a=1.0, b=1.0, out='s', boom=None):
            if boom == 'early':
                raise bang()
            v = polys.read_vector(self.par, self.c, read) / self.s
            p = 2.0 ** self.u * a * polys.peval(ob['P'], v)
            q = 2.0 ** self.u * b * polys.peval(ob['Q'], v)
            if boom == 'late':
                raise bang()
            if out == 's':
                return p + q
            return autograd.numpy.hstack([p, q])
        self.obj = obj_lib.Objective(self.par, fun)
        if ob['pre']:
            self.set_pre(ob['pre'], ob.get('pre_format', ''))
        self.check(init['h'], None)

    def set_pre(self, pre, f):
        P = params.mat(pre)
        self.P = P
        self.obj.preconditioner = getattr(scipy.sparse, f)(P) if f else P

    def check(self, st, x, exact=False):
        if not st['num']:
            return
        v = self.par.get_vector()
        if not is_numeric(v):
            raise Mismatch('get_vector is not numeric')
        v = v / self.s
        expect('parameter after the call', v, params.floats(st['q']))
        if exact and not np.array_equal(v, params.floats(st['q'])):
            raise Mismatch('the parameter holds %r after the call at %r' % (list(v), st['q']))
        for (path, lc, vo, fo, uo, eo) in params.leaves(self.c):
            if not is_numeric(params.at(self.par, path).get()):
                raise Mismatch('get is not numeric: ' + repr(path))
        if exact:
            # maybe on the boundary
            return
        f = self.par.get_free()
        if not is_numeric(f):
            raise Mismatch('get_free is not numeric')
        f = f / self.s
        if x is not None:
            expect('free value after the call', f, x)

    def point(self, op, rec):
        """(argument, free value or None)"""
        if op['at'] == 'vector':
            return params.floats(rec['h']['q'] if op['op'] != 'uncondition' else []), None
        x = params.free_of(self.c, op['x'], self.bases)
        if op['at'] == 'cond':
            return np.linalg.solve(self.P, x), x
        return x, x

    def step(self, op, rec):
        o = op['op']
        if o == 'setpre':
            self.set_pre(op['pre'], op['pre_format'])
            self.check(rec['h'], None)
            return
        arg, x = self.point(op, rec)
        arg = arg * self.s
        arg = (self.caller.lend if op['at'] == 'vector' else self.caller.reuse)(arg)
        if o == 'set':
            (self.par.set_vector if op['at'] == 'vector' else self.par.set_free)(np.array(arg))
            self.check(rec['h'], x, op['at'] == 'vector')
            return
        if o == 'uncondition':
            expect('unconditioned point', self.obj.uncondition_x(arg) / self.s, x)
            self.check(rec['h'], None)
            return
        a, b = fl(op['a']), fl(op['b'])
        if op.get('pos', 2) == 0:
            args, kw = (), {'a': a, 'b': b}
        elif op.get('pos', 2) == 1:
            args, kw = (a,), {'b': b}
        elif op.get('pos', 2) == 3:
            # as the function's own defaults
            args, kw = (), {}
        else:
            args, kw = (a, b), {}
        if op['boom']:
            kw['boom'] = op.get('when', 'early')
        if o in ('pair', 'jacobian'):
            kw['out'] = 'pair'
        if o == 'raw':
            f = self.obj.fun_vector if op['at'] == 'vector' else self.obj.fun_free
            try:
                autograd.grad(f)(arg, *args, **kw)
            except Boom:
                pass
            return
        name = {'free': 'fun_free', 'vector': 'fun_vector', 'cond': 'fun_free'}[op['at']]
        name += {'fun': '', 'pair': '', 'grad': '_grad', 'hessian': '_hessian', 'jacobian': '_jacobian',
                 'hvp': '_hvp'}[o]
        if op['at'] == 'cond':
            name += '_cond'
        f = getattr(self.obj, name)
        E = self.E if op['at'] != 'vector' else np.eye(params.vec_size(self.c))
        got = None
        try:
            if o == 'hvp':
                got = f(arg, *(args + (self.caller.lend(np.dot(E.T, params.floats(op['vec']))),)), **kw)
            else:
                got = f(arg, *args, **kw)
        except Boom:
            if not op['boom']:
                raise
        else:
            if op['boom']:
                raise Mismatch('%s swallowed the error of the objective function' % name)
        self.caller.settle()
        if not op['boom']:
            r = rec['r']
            if o == 'fun':
                want = fl(r)
            elif o == 'pair':
                want = params.floats(r)
            elif o in ('grad', 'hvp'):
                want = np.dot(E.T, params.floats(r))
            elif o == 'hessian':
                want = np.dot(E.T, np.dot(params.mat(r), E))
            else:
                want = np.dot(params.mat(r), E)
            if not is_numeric(got):
                raise Mismatch('%s is not numeric' % name)
            if o not in ('fun', 'pair'):
                self.caller.keep(got)
            if scipy.sparse.issparse(got):
                got = got.todense()
            order = {'fun': 0, 'pair': 0, 'grad': 1, 'jacobian': 1, 'hessian': 2, 'hvp': 2}[o]
            got = np.asarray(got) * 2.0 ** -self.u * self.s ** order
            if o == 'fun':
                got = got.reshape(()) if got.size == 1 else got
            expect('%s(a=%s, b=%s)' % (name, a, b), got, want)
        self.check(rec['h'], x, op['at'] == 'vector')
