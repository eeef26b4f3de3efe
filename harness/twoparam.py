"""TwoParamModel on the implementation."""
import autograd
import numpy as np

import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from arrays import Caller
from common import fl
from objectives import Boom, bang
from params import Mismatch, expect, is_numeric


def check_param(p, c, q, x, label, feasible=True, exact=False, u=0):
    """p numerically holds vector value q (and free value x); exactly so where
    that very vector was passed in.  The parameter is measured in the unit
    2^u."""
    v = p.get_vector()
    if not is_numeric(v):
        raise Mismatch('%s: get_vector is not numeric' % label)
    v = np.ldexp(v, -u)
    expect(label + ' get_vector', v, q)
    if exact and not np.array_equal(v, q):
        raise Mismatch('%s holds %r, not %r' % (label, list(v), list(q)))
    for (path, lc, vo, fo, uo, eo) in params.leaves(c):
        if not is_numeric(params.at(p, path).get()):
            raise Mismatch('%s: get is not numeric: %r' % (label, path))
    if not feasible or exact:
        return
    f = p.get_free()
    if not is_numeric(f):
        raise Mismatch('%s: get_free is not numeric' % label)
    if x is not None:
        expect(label + ' get_free', np.ldexp(f, -u), x)


class TwoParamDriver(object):
    NAMES = {('fun', True, True): 'fun_free', ('fun', False, False): 'fun_vector',
             ('hess12', True, True): 'fun_free_hessian12', ('hess21', True, True): 'fun_free_hessian21',
             ('hess12', False, False): 'fun_vector_hessian12', ('hess21', False, False): 'fun_vector_hessian21',
             ('hess12', True, False): 'fun_hessian_free1_vector2',
             ('hess12', False, True): 'fun_hessian_vector1_free2'}

    def __init__(self, suite, init, bases):
        ob = self.ob = suite['ob']
        self.bases = bases
        self.caller = Caller()
        # the unit the function is measured in
        self.u = ob.get('u', 0)
        self.c1, self.c2 = ob['c1'], ob['c2']
        self.E1, self.E2 = params.ext_matrix(self.c1, bases), params.ext_matrix(self.c2, bases)
        self.p1, self.p2 = params.build(self.c1, 'p1'), params.build(self.c2, 'p2')
        # the units unbounded parameters are measured in
        self.u1, self.u2 = ob.get('u1', 0), ob.get('u2', 0)
        self.p1.set_vector(np.ldexp(params.floats(init['h']['q1']), self.u1))
        self.p2.set_vector(np.ldexp(params.floats(init['h']['q2']), self.u2))

        def fun(a=1.0, b=1.0, boom=None):
            if boom == 'early':
                raise bang()
            v = autograd.numpy.concatenate([polys.read_vector(self.p1, self.c1, ob['read']) * 2.0 ** -self.u1,
                                            polys.read_vector(self.p2, self.c2, ob['read']) * 2.0 ** -self.u2])
            r = 2.0 ** self.u * (a * polys.peval(ob['P'], v) + b * polys.peval(ob['Q'], v))
            if boom == 'late':
                raise bang()
            return r
        self.obj = obj_lib.TwoParameterObjective(self.p1, self.p2, fun)

    def step(self, op, rec):
        o, f1, f2 = op['op'], op['f1'], op['f2']
        h = rec['h']
        x1 = params.free_of(self.c1, op['x1'], self.bases)
        x2 = params.free_of(self.c2, op['x2'], self.bases)
        y1 = x1 if f1 else self.vec(self.c1, op['x1'], h['q1'] if o != 'set2' else None)
        y2 = x2 if f2 else self.vec(self.c2, op['x2'], h['q2'] if o != 'set1' else None)
        y1, y2 = [None if y is None else np.ldexp(y, u) for y, u in ((y1, self.u1), (y2, self.u2))]
        e1, e2 = not f1 and o != 'set2', not f2 and o != 'set1'
        if o == 'set1':
            (self.p1.set_free if f1 else self.p1.set_vector)(y1)
        elif o == 'set2':
            (self.p2.set_free if f2 else self.p2.set_vector)(y2)
        elif o == 'raw':
            try:
                autograd.grad(self.obj.eval_fun, argnum=op['arg'])(y1, y2, f1, f2, fl(op['a']), fl(op['b']))
            except Boom:
                pass
            return
        else:
            self.evaluate(o, f1, f2, y1, y2, op, rec)
        self.check(h, None if e1 or o == 'set2' else x1, None if e2 or o == 'set1' else x2, e1, e2)

    def vec(self, c, x, q):
        return params.floats(q) if q is not None else None

    def check(self, h, x1, x2, e1, e2):
        if h['num']:
            check_param(self.p1, self.c1, params.floats(h['q1']), x1, 'first parameter', True, e1, self.u1)
            check_param(self.p2, self.c2, params.floats(h['q2']), x2, 'second parameter', True, e2, self.u2)

    def evaluate(self, o, f1, f2, y1, y2, op, rec):
        a, b = fl(op['a']), fl(op['b'])
        args, kw = {0: ((), {'a': a, 'b': b}), 1: ((a,), {'b': b}), 2: ((a, b), {}), 3: ((), {})}[op['pos']]
        kw = dict(kw)
        if op['boom']:
            kw['boom'] = op['when']
        if o in ('grad1', 'grad2') or (o == 'fun' and (op['via'] or f1 != f2)):
            f = {'grad1': self.obj.fun_grad1, 'grad2': self.obj.fun_grad2, 'fun': self.obj.eval_fun}[o]
            flags = (f1, f2)
        else:
            f = getattr(self.obj, self.NAMES[(o, f1, f2)])
            flags = ()
        label = '%s free=%s,%s' % (o, f1, f2)
        z1, z2 = [self.caller.reuse(y, k) if free else self.caller.lend(y)
                  for k, free, y in ((1, f1, y1), (2, f2, y2))]
        try:
            got = f(z1, z2, *(flags + args), **kw)
        except Boom:
            if not op['boom']:
                raise
            return
        if op['boom']:
            raise Mismatch(label + ' swallowed the error of the objective function')
        self.caller.settle()
        E1 = self.E1 if f1 else np.eye(params.vec_size(self.c1))
        E2 = self.E2 if f2 else np.eye(params.vec_size(self.c2))
        r = rec['r']
        if o == 'fun':
            want = fl(r)
            got = np.asarray(got).reshape(()) if np.asarray(got).size == 1 else got
        elif o == 'grad1':
            want = np.dot(E1.T, params.floats(r))
        elif o == 'grad2':
            want = np.dot(E2.T, params.floats(r))
        elif o == 'hess12':
            want = np.dot(E1.T, np.dot(params.mat(r), E2))
        else:
            want = np.dot(E2.T, np.dot(params.mat(r), E1))
        if not is_numeric(got):
            raise Mismatch(label + ' is not numeric')
        order = {'fun': 0, 'grad1': self.u1, 'grad2': self.u2}.get(o, self.u1 + self.u2)
        expect(label, np.asarray(got) * 2.0 ** (order - self.u), want)
        if o != 'fun':
            self.caller.keep(got)
