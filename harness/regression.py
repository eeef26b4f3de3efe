"""Regression on the implementation."""
import numpy as np

import LinearResponseVariationalBayes.regression_utils as ru

from arrays import Caller
from common import fl
from params import Mismatch, expect


def fs(x):
    """Nested rationals as nested floats."""
    if x and isinstance(x[0], int):
        return fl(x)
    return [fs(y) for y in x]


def arr(x, dims):
    """A flat list of arrays, laid out over dims."""
    a = np.array(fs(x), dtype=float)
    return a.reshape(tuple(dims) + a.shape[1:])


class RegressionDriver(object):
    def __init__(self, suite, init, bases):
        self.dims = suite['dims']
        self.caller = Caller()
        # the units of responses and coefficients, and of informations
        self.ym, self.wm = [2.0 ** e for e in suite['u']]
        # and of each regressor
        self.xm = np.array([2.0 ** e for e in suite['ux']])
        self.mm = self.ym / self.xm
        self.im = self.wm * np.outer(self.xm, self.xm)
        self.mean = arr(suite['mean'], self.dims) * self.mm
        self.info = arr(suite['info'], self.dims) * self.im

    def data(self, d):
        x = arr(d['x'], self.dims) * self.xm
        y = np.array(fs(d['y']), dtype=float)
        y = y.reshape(tuple(self.dims) + tuple(d['extra']) + y.shape[2:]) * self.ym
        if d['w']['full']:
            w = arr(d['w']['full'], self.dims) * self.wm
        else:
            w = fl(d['w']['one']) * self.wm
            if d.get('int') and w == int(w):
                w = int(w)
            elif d.get('np'):
                w = np.float64(w)
        return y, x, w

    def call(self, name, fn, *args):
        r = fn(*[self.caller.lend(a) for a in args])
        self.caller.settle()
        for a in r if isinstance(r, tuple) else [r]:
            self.caller.keep(a)
        return r

    def nat(self, label, got, want):
        expect(label + ': linear', got[0] / (self.ym * self.wm * self.xm), arr([w['a'] for w in want], self.dims), 1e-9)
        expect(label + ': quadratic', got[1] / self.im, arr([w['b'] for w in want], self.dims), 1e-9)

    def step(self, op, rec):
        k = op['op']
        r = rec['r']
        if k == 'reset':
            self.mean, self.info = arr(op['mean'], self.dims) * self.mm, arr(op['info'], self.dims) * self.im
        elif k == 'update':
            y, x, w = self.data(op['d'])
            self.mean, self.info = self.call('get_posterior_regression_coefficients',
                                             ru.get_posterior_regression_coefficients,
                                             y, x, w, self.mean, self.info)
        elif k == 'lik':
            self.nat('get_nat_params_from_likelihood',
                     self.call(k, ru.get_nat_params_from_likelihood, *self.data(op['d'])), r)
        elif k == 'coef':
            expect('get_regression_coefficients',
                   self.call(k, ru.get_regression_coefficients, *self.data(op['d'])) / self.mm, arr(r, self.dims), 1e-8)
        elif k == 'mm':
            expect('mat_mul_last2dims', self.call(k, ru.mat_mul_last2dims, arr(op['p'], self.dims), arr(op['q'], self.dims)),
                   arr(r, self.dims), 1e-12)
        elif k == 'mv':
            y = np.array(fs(op['q']), dtype=float)
            y = y.reshape(tuple(self.dims) + tuple(op['extra']) + y.shape[2:])
            expect('matvec_mul_last2dims', self.call(k, ru.matvec_mul_last2dims, arr(op['p'], self.dims), y),
                   arr(r, self.dims), 1e-12)
        elif k == 'nat':
            self.nat('get_nat_params_from_prior',
                     self.call(k, ru.get_nat_params_from_prior, self.mean, self.info), rec['h'])
        elif k == 'back':
            n = rec['h']
            got = self.call(k, ru.get_mvn_from_nat_params, arr([w['a'] for w in n], self.dims) * (self.ym * self.wm * self.xm),
                            arr([w['b'] for w in n], self.dims) * self.im)
            expect('get_mvn_from_nat_params: mean', got[0] / self.mm, arr(rec['b']['mean'], self.dims), 1e-8)
            expect('get_mvn_from_nat_params: info', got[1] / self.im, arr(rec['b']['info'], self.dims), 1e-9)
        expect('posterior mean', self.mean / self.mm, arr(rec['b']['mean'], self.dims), 1e-8)
        expect('posterior information', self.info / self.im, arr(rec['b']['info'], self.dims), 1e-9)
