"""SensitivityModel on the implementation, and generators of objectives with
known optima."""
import warnings

import autograd.numpy as anp
import numpy as np
import scipy as sp

import LinearResponseVariationalBayes.ModelSensitivity as sens_lib
import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import converters
import params
import polys
from arrays import Caller
from common import fl
from objectives import bang
from params import Mismatch, expect, is_numeric


def objective_value(ob, v, w, part):
    """F, or the separately given part G = a F - K(v) + L(w)."""
    r = [v[i] - polys.peval(p, w) for i, p in enumerate(ob['m'])]
    f = polys.peval(ob['F'], r) + polys.peval(ob.get('K', []), v) * 0.0
    if part:
        f = ob['amp'] * f - polys.peval(ob['K'], v) + polys.peval(ob['L'], w)
    return f


class Base(object):
    def __init__(self, suite, init, bases):
        ob = self.ob = suite['ob']
        self.suite = suite
        self.bases = bases
        self.ci, self.ch, self.fi, self.fh = ob['ci'], ob['ch'], ob['fi'], ob['fh']
        self.pi, self.ph = params.build(self.ci, 'pi'), params.build(self.ch, 'ph')
        self.Eh = params.ext_matrix(self.ch, bases) if self.fh else np.eye(params.vec_size(self.ch))
        self.vals = init['bases']
        self.hold = []
        self.caller = Caller()
        # the unit the objective is measured in
        self.u = ob.get('u', 0)
        # the units an unbounded input and hyperparameter are measured in
        self.ui, self.uh = ob.get('ui', 0), ob.get('uh', 0)
        self.boom = None
        # made by one factory: only what they close over tells them apart
        self.full, self.hyper_part = self.functor(False), self.functor(True)

    def value(self, part):
        if self.boom == 'early':
            raise bang()
        v = polys.read_vector(self.pi, self.ci, self.ob['read']) * 2.0 ** -self.ui
        w = polys.read_vector(self.ph, self.ch, self.ob['read']) * 2.0 ** -self.uh
        r = objective_value(self.ob, v, w, part) * 2.0 ** self.u
        if self.boom == 'late':
            raise bang()
        return r

    def functor(self, part):
        return lambda: self.value(part)

    def free_or_vec(self, c, x, vec, free):
        return params.free_of(c, x, self.bases) if free else params.floats(vec)

    def base_arrays(self, b):
        base = self.ob['bases'][b - 1]
        a = self.free_or_vec(self.ci, base['xi'], self.vals[b - 1]['vi'], self.fi)
        h = self.free_or_vec(self.ch, base['xh'], self.vals[b - 1]['vh'], self.fh)
        return self.caller.lend(np.ldexp(a, self.ui), False), self.caller.lend(np.ldexp(h, self.uh), False)

    def hess_array(self, h):
        return self.caller.lend(np.ldexp(params.mat(h), self.u - 2 * self.ui), False) if h else None

    def scribble(self):
        """The caller reuses every array it passed."""
        self.caller.settle()
        for a in self.hold:
            if a is not None:
                a[...] = 7.25

    def check_points(self, rec):
        """Where the two parameters are."""
        self.caller.settle()
        for p, v, u, what in ((self.pi, rec['pv'], self.ui, 'input'), (self.ph, rec['hv'], self.uh, 'hyper')):
            got = p.get_vector()
            if not is_numeric(got):
                raise Mismatch('the %s parameter is not numeric' % what)
            expect('%s parameter afterwards' % what, np.ldexp(got, -u), params.floats(v), 1e-7)

    def value_of(self, p):
        """A sum of multiples of coordinates."""
        return sum(fl(c) * params.ext_value(x) for c, x in p)


class LinearDriver(Base):
    """ParametricSensitivityLinearApproximation."""
    def __init__(self, suite, init, bases):
        Base.__init__(self, suite, init, bases)
        a, h = self.base_arrays(init['h']['b'])
        H = self.hess_array(init['h']['hess'])
        self.hold = [a, h, H]
        kw = {'hyper_par_objective_functor': self.hyper_part} if self.ob['part'] else {}
        if H is not None:
            kw['hess0'] = H
        if not (self.fi and not self.fh and self.ob['defaults']):
            kw.update({'input_is_free': self.fi, 'hyper_is_free': self.fh})
        self.s = sens_lib.ParametricSensitivityLinearApproximation(self.full, self.pi, self.ph, a, h, **kw)

    def step(self, op, rec):
        self.act(op, rec)
        self.check_points(rec)

    def act(self, op, rec):
        o = op['op']
        if o == 'home':
            self.s.set_par_to_base_values()
        elif o == 'rebase':
            a, h = self.base_arrays(op['b'])
            H = self.hess_array(op['hess'])
            self.hold = [a, h, H]
            kw = {} if H is None else {'hess0': H}
            self.s.set_base_values(a, h, **kw)
        elif o == 'scribble':
            self.scribble()
        elif o == 'move':
            self.pi.set_vector(np.ldexp(params.floats(rec['vi']), self.ui))
            self.ph.set_vector(np.ldexp(params.floats(rec['vh']), self.uh))
        elif o == 'sens':
            got = self.s.get_dinput_dhyper()
            self.caller.keep(got)
            expect('get_dinput_dhyper', np.ldexp(got, self.uh - self.ui), np.dot(params.mat(rec['r']), self.Eh), 1e-7)
        elif o == 'predict':
            new = self.caller.lend(np.ldexp(self.free_or_vec(self.ch, op['xh'], rec['vh'], self.fh), self.uh))
            got = self.s.predict_input_par_from_hyperparameters(new)
            self.caller.keep(got)
            expect('predict_input_par_from_hyperparameters', np.ldexp(got, -self.ui), np.array([self.value_of(p) for p in rec['r']]), 1e-7)


class DeprecatedDriver(Base):
    """ParametricSensitivity, with an output parameter."""
    def __init__(self, suite, init, bases):
        Base.__init__(self, suite, init, bases)
        ob = self.ob
        self.po = params.build(ob['co'], 'po')
        d = converters.ConverterDriver.__new__(converters.ConverterDriver)
        d.ob = {'conv': ob['conv'], 'read': ob['read'], 'write': ob['write']}
        d.ci, d.co, d.pi, d.po = self.ci, ob['co'], self.pi, self.po
        d.Eo = params.ext_matrix(ob['co'], bases)
        d.tags = converters.tag_list(ob['co'])
        d.tmp = params.build(ob['co'], 'tmp')
        d.boom = None
        a, h = self.base_arrays(init['h']['b'])
        H = self.hess_array(init['h']['hess'])
        self.ph.set_vector(h)
        self.pi.set_free(a)
        kw = {'hyper_par_objective_fun': self.hyper_part} if ob['part'] else {}
        if H is not None:
            kw['objective_hessian'] = H
        if ob['given']:
            self.hold = [a, H]
            # elsewhere: the point given is what counts
            self.pi.set_free(a + 0.25)
            kw['optimal_input_par'] = a
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.s = obj_lib.ParametricSensitivity(self.full, self.pi, self.po, self.ph, d.converter, **kw)

    def step(self, op, rec):
        self.act(op, rec)
        self.check_points(rec)

    def act(self, op, rec):
        o, r = op['op'], rec['r']
        if o == 'rebase':
            a, h = self.base_arrays(op['b'])
            H = self.hess_array(op['hess'])
            self.ph.set_vector(h)
            kw = {} if H is None else {'objective_hessian': H}
            if op['given']:
                self.hold = [a, H]
                kw['optimal_input_par'] = a
            else:
                self.hold = [H]
                self.pi.set_free(a)
            self.s.set_optimal_input_par(**kw)
        elif o == 'scribble':
            self.scribble()
        elif o == 'move':
            self.pi.set_vector(np.ldexp(params.floats(rec['vi']), self.ui))
            self.ph.set_vector(np.ldexp(params.floats(rec['vh']), self.uh))
        elif o == 'sens':
            expect('get_dinput_dhyper', np.ldexp(self.s.get_dinput_dhyper(), self.uh), params.mat(r), 1e-7)
        elif o == 'dout':
            expect('get_doutput_dhyper', np.ldexp(self.s.get_doutput_dhyper(), self.uh), params.mat(r), 1e-7)
        else:
            new = self.caller.lend(np.ldexp(params.floats(rec['vh']), self.uh))
            if o == 'predict':
                got = self.s.predict_input_par_from_hyperparameters(new)
                want = np.array([self.value_of(p) for p in r])
            else:
                got = self.s.predict_output_par_from_hyperparameters(new, linear=(o == 'predict_out_lin'))
                want = params.floats(r)
            if not is_numeric(got):
                raise Mismatch('the prediction is not numeric')
            expect(o, got, want, 1e-7)
