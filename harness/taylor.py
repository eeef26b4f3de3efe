"""TaylorModel on the implementation."""
import numpy as np

import LinearResponseVariationalBayes.ModelSensitivity as sens_lib

import params
from common import fl
from objectives import Boom
from params import Mismatch, expect, is_numeric
from sensitivity import Base
from twoparam import check_param


class TaylorDriver(Base):
    def __init__(self, suite, init, bases):
        Base.__init__(self, suite, init, bases)
        a, h = self.base_arrays(init['h']['b'])
        H = self.hessian(init['h']['b'])
        self.hold = [a, h] + ([H] if suite['given'] else [])
        kw = {'hyper_par_objective_functor': self.hyper_part} if self.ob['part'] else {}
        if suite['given']:
            kw['hess0'] = H
        if not (self.fi and not self.fh and self.ob['defaults']):
            kw.update({'input_is_free': self.fi, 'hyper_is_free': self.fh})
        self.s = sens_lib.ParametricSensitivityTaylorExpansion(
            self.full, self.pi, self.ph, a, h, init['h']['order'], **kw)

    def hessian(self, b):
        return self.caller.lend(np.ldexp(params.mat(self.vals[b - 1]['hess']), self.u), fixed=False)

    def step(self, op, rec):
        o, r = op['op'], rec['r']
        if o == 'rebase':
            a, h = self.base_arrays(op['b'])
            H = self.hessian(op['b'])
            self.hold = [a, h] + ([H] if op['given'] else [])
            self.s.set_base_values(a, h, **({'hess0': H} if op['given'] else {}))
        elif o == 'order':
            self.s.set_order(op['n'])
        elif o == 'scribble':
            self.scribble()
        elif o == 'move':
            self.pi.set_vector(params.floats(rec['vi']))
            self.ph.set_vector(params.floats(rec['vh']))
        else:
            d = self.caller.reuse(params.floats(op['d']), 'd')
            if o == 'dk':
                label = 'derivative of order %d' % op['k']
                f = lambda: self.s.evaluate_dkinput_dhyperk(d, op['k'])
            else:
                label = 'series of order %d (declared %d) %s offset' % (
                    op['n'], rec['h']['order'], 'with' if op['offset'] else 'without')
                kw = {}
                if op['n'] != -1:
                    kw['max_order'] = op['n']
                if not (op['offset'] and op['dflt']):
                    kw['add_offset'] = op['offset']
                f = lambda: self.s.evaluate_taylor_series(d, **kw)
            if r['fail']:
                self.boom = op['boom']
                try:
                    f()
                except Boom:
                    pass
                else:
                    raise Mismatch(label + ' swallowed the error of the objective')
                finally:
                    self.boom = None
                return self.at_base(rec)
            if not r['ok']:
                try:
                    f()
                except Exception:
                    return
                raise Mismatch(label + ' was not rejected')
            got = f()
            self.caller.settle()
            self.caller.keep(got)
            want = params.floats(r['val'])
            if r['off']:
                want = want + np.array([params.ext_value(x) for x in r['off']])
            if not is_numeric(got):
                raise Mismatch(label + ' is not numeric')
            expect(label, got, want, 1e-7)
            self.at_base(rec)

    def at_base(self, rec):
        v = self.vals[rec['h']['b'] - 1]
        check_param(self.pi, self.ci, params.floats(v['vi']), None, 'input parameter')
        check_param(self.ph, self.ch, params.floats(v['vh']), None, 'hyperparameter')
