"""Precond on the implementation."""
import numpy as np

import LinearResponseVariationalBayes as vb
import LinearResponseVariationalBayes.OptimizationUtils as opt_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from arrays import Caller
from common import fl
from params import Mismatch, expect


class PrecondDriver(object):
    def __init__(self, suite, init, bases):
        self.ob = suite['ob']
        self.caller = Caller()
        # the unit of the Hessian (and of its limits)
        self.u = float(4.0 ** suite['u'])
        self.par = vb.VectorParam('x', size=len(self.ob['a']))
        self.obj = obj_lib.Objective(self.par, lambda: self.u * polys.peval(self.ob['F'], self.par.get()))

    def step(self, op, rec):
        r = rec['r']
        kw = {}
        for k in ('lo', 'hi'):
            if op[k]:
                kw['ev_' + {'lo': 'min', 'hi': 'max'}[k]] = fl(op[k][0]) * self.u
            elif op['none']:
                kw['ev_' + {'lo': 'min', 'hi': 'max'}[k]] = None
        if op['op'] == 'compute':
            A = self.caller.lend(params.mat(r['a']) * self.u)
            half, corrected = opt_lib.get_sym_matrix_inv_sqrt(A, **kw)
            self.pair(half, corrected, r['p'], 'get_sym_matrix_inv_sqrt')
            self.caller.keep(half)
            self.caller.keep(corrected)
        elif op['op'] == 'install':
            x = self.caller.lend(params.floats(op['x']))
            if op['at']:
                kw['free_par'] = x
            if op['given']:
                kw['hessian'] = self.caller.lend(params.mat(r['a']) * self.u)
            before = self.obj.preconditioner
            if not rec['ok']:
                try:
                    opt_lib.set_objective_preconditioner(self.obj, **kw)
                except ValueError:
                    pass
                else:
                    raise Mismatch('neither a point nor a Hessian was given, and this was not rejected')
                if self.obj.preconditioner is not before:
                    raise Mismatch('the rejected call changed the preconditioner')
                return
            H, half, corrected = opt_lib.set_objective_preconditioner(self.obj, **kw)
            expect('set_objective_preconditioner: Hessian', np.asarray(H) / self.u, params.mat(r['a']))
            self.pair(half, corrected, r['p'], 'set_objective_preconditioner')
            for a in (H, half, corrected):
                self.caller.keep(a)
        elif op['op'] == 'cond':
            x = params.floats(op['x'])
            y = np.linalg.solve(self.obj.preconditioner, x)
            expect('conditioned Hessian', self.obj.fun_free_hessian_cond(y), params.mat(r['a']), 1e-7, 0.1)
        self.caller.settle()
        if rec['h']:
            expect('preconditioner installed', self.obj.preconditioner * self.u ** 0.5, params.mat(rec['h']), 1e-8)
        elif self.obj.preconditioner is not None:
            raise Mismatch('a preconditioner was installed')

    def pair(self, half, corrected, want, what):
        expect(what + ': inverse square root', np.asarray(half) * self.u ** 0.5, params.mat(want['half']))
        expect(what + ': corrected matrix', np.asarray(corrected) / self.u, params.mat(want['corrected']))


