"""Priors on the implementation."""
import math

import numpy as np

import LinearResponseVariationalBayes.ExponentialFamilies as ef
import LinearResponseVariationalBayes.Modeling as model

import params
from arrays import Caller
from common import fl
from expfam import arr, block_diag
from params import Mismatch, expect
from sym import expect_sym, num, value


def f(xs, shape):
    return arr([fl(x) for x in xs], shape)


class PriorsDriver(object):
    def __init__(self, suite, init, bases):
        self.st = init['h']
        self.caller = Caller()

    def call(self, fn, *args, **kw):
        r = fn(*[self.caller.lend(a) for a in args], **kw)
        self.caller.settle()
        self.caller.keep(r)
        return r

    def rule(self):
        """Nodes and weights in the convention of the weight exp(-x^2)."""
        ru = self.st['rule']
        if ru['gh']:
            return np.polynomial.hermite.hermgauss(ru['gh'])
        t = np.array([fl(x) for x in ru['t']])
        w = np.array([fl(x) for x in ru['w']])
        return t / math.sqrt(2.0), w * math.sqrt(math.pi)

    def normals(self):
        """Means and standard deviations."""
        z = self.st['z']
        m, s = np.asarray(f(z['m'], z['shape'])), np.asarray(f(z['s'], z['shape']))
        if z['kind'] == 'log':
            return np.log(m), np.log(s)
        return m, s

    def step(self, op, rec):
        k = op['op']
        r = rec['r']
        self.st = rec['p'] if k not in ('rule', 'normals', 'negate') else rec['h']
        if k in ('rule', 'normals', 'negate'):
            return
        z = self.st['z']
        shape = z['shape']
        sh = op.get('shape', [])
        un = op.get('un', 0)
        # the power of the unit a quantity is measured in
        power = {'m': 1, 'e': 1, 'v': 2, 'l': -2, 'c': 2, 'L': -2, 'u': 1, 'b0': -1, 'q': -2, 'a0': 0}
        if k in ('expo', 'nat'):
            power.update({'expo': {'l': -1}, 'nat': {'e': -1}}[k])
        scale = lambda name, x: np.ldexp(x, un * power[name])
        g = lambda name: scale(name, f(op[name], op['sh'][name]))
        if k in ('efun', 'expit', 'logexpit', 'dp'):
            m, s = self.normals()
            x, w = self.rule()
            info = 1.0 / s ** 2
        if k == 'efun':
            c = [fl(a) for a in op['p']]
            m, s = np.ldexp(m, un), np.ldexp(s, un)
            info = np.ldexp(info, -2 * un)

            def poly(v):
                v = np.ldexp(v, -un)
                out = 0.0 * v
                for a in reversed(c):
                    out = out * v + a
                return out
            # several signs cancel: compare with the size of the terms
            size = self.call(ef.get_e_fun_normal, m, info, x, np.abs(w),
                             lambda v: sum(abs(a) * np.abs(np.ldexp(v, -un)) ** i for i, a in enumerate(c)))
            got = self.call(ef.get_e_fun_normal, m, info, x, w, poly)
            want = f([[0, 1]] * len(r), shape) + np.array([value(v)[0] for v in r]).reshape(tuple(shape))
            if np.shape(got) != tuple(shape):
                raise Mismatch('get_e_fun_normal: shape %s, expected %s' % (np.shape(got), shape))
            if not np.all(np.abs(np.asarray(got) - want) <= 1e-9 * (1e-3 + np.abs(size) + np.abs(want))):
                raise Mismatch('get_e_fun_normal: got %s, expected %s' % (got, want))
        elif k == 'logistic':
            m, s = self.normals()
            t = np.array([fl(a) for a in op['t']])
            expect_sym('get_e_logistic_term',
                       self.call(model.get_e_logistic_term, np.asarray(f(op['y'], shape)), m, s, t), r[0])
        elif k == 'softgh':
            m, s = self.normals()
            x, w = self.rule()
            got = self.call(model.get_e_logistic_term_guass_hermite, m, s, x, w, aggregate_all=False)
            expect_sym('get_e_logistic_term_guass_hermite by component', got, r, shape)
            tot = math.fsum(value(v)[0] for v in r)
            for kw in ({}, {'aggregate_all': True}):
                expect('get_e_logistic_term_guass_hermite in total',
                       self.call(model.get_e_logistic_term_guass_hermite, m, s, x, w, **kw), tot, 1e-10)
        elif k == 'expit':
            expect_sym('get_e_logitnormal', self.call(ef.get_e_logitnormal, m, info, x, w), r, shape)
        elif k == 'logexpit':
            v, u = self.call(ef.get_e_log_logitnormal, m, info, x, w)
            n = len(r) // 2
            big = np.max(np.abs(m))
            expect_sym('get_e_log_logitnormal', v, r[:n], shape, 1e-11, big)
            expect_sym('get_e_log_logitnormal of the complement', u, r[n:], shape, 1e-11, big)
        elif k == 'dp':
            expect_sym('get_e_dp_prior_logitnorm_approx',
                       self.call(ef.get_e_dp_prior_logitnorm_approx, f(op['a'], shape if len(op['a']) > 1 else []),
                                 m, info, x, w), r, shape, 1e-11, 10 * np.max(np.abs(m)))
        elif k == 'mvn':
            v = lambda n: scale(n, np.array([fl(x) for x in op[n]]))
            w = lambda n: scale(n, params.mat(op[n]))
            expect_sym('mvn_prior', self.call(ef.mvn_prior, v('m'), w('L'), v('e'), w('c')), r[0])
        elif k == 'uvn':
            expect_sym('uvn_prior', self.call(ef.uvn_prior, g('m'), g('l'), g('e'), g('v')), r, sh)
        elif k == 'gamma':
            a = np.array([fl(x) for x in op['a']])
            b = np.array([num(x) for x in op['b']])
            e = arr((a / b).tolist() if a.size == op['n'] else [], sh)
            el = arr([value(x)[0] for x in rec['q']], sh)
            expect_sym('gamma_prior', self.call(ef.gamma_prior, g('a0'), g('b0'), e, el), r, sh)
        elif k == 'expo':
            expect_sym('exponential_prior', self.call(ef.exponential_prior, g('l'), g('e')), r, sh)
        elif k == 'dir':
            el = np.array([value(x)[0] for x in rec['q']])
            expect_sym('dirichlet_prior', self.call(ef.dirichlet_prior, np.array([fl(x) for x in op['a0']]), el), r[0])
        elif k == 'lkj':
            d = op['d']
            expect_sym('expected_ljk_prior', self.call(ef.expected_ljk_prior, fl(op['l']), fl(d['df']), block_diag(d)), r[0])
        elif k == 'logprob':
            expect_sym('univariate_normal_log_prob',
                       self.call(model.univariate_normal_log_prob, g('u'), g('m'), g('l')), r, sh)
        elif k == 'nat':
            m, l = self.call(ef.get_uvn_from_natural_parameters, g('e'), g('q'))
            n = len(r) // 2
            expect_sym('get_uvn_from_natural_parameters: mean', np.ldexp(m, -un), r[:n], sh)
            expect_sym('get_uvn_from_natural_parameters: info', np.ldexp(np.broadcast_to(l, np.shape(m)), 2 * un), r[n:], sh)
        elif k == 'draws':
            n = op['n']
            d = model.get_standard_draws(n)
            expect('get_standard_draws', [0.5 * math.erfc(-x / math.sqrt(2)) for x in d],
                   [(i + 1.0) / (n + 1) for i in range(n)], 1e-12)
        else:
            raise KeyError(k)
