"""ExpFam on the implementation."""
import numpy as np

import LinearResponseVariationalBayes.ExponentialFamilies as ef

import params
from arrays import Caller
from common import fl
from params import Mismatch
from sym import expect_sym, flat, num, value


def arr(xs, shape):
    a = np.array(xs, dtype=float).reshape(tuple(shape))
    return float(a) if a.shape == () else a


def block_diag(d):
    k = sum(len(b) for b in d['m'])
    M = np.zeros((k, k))
    o = 0
    for b in d['m']:
        n = len(b)
        M[o:o + n, o:o + n] = np.ldexp(params.mat(b), d['e'])
        o += n
    return M


class ExpFamDriver(object):
    def __init__(self, suite, init, bases):
        self.report(init['h'], init['r'])

    def step(self, op, rec):
        self.report(rec['h'], rec['r'])

    def call(self, name, fn, *args, **kw):
        self.caller = getattr(self, 'caller', None) or Caller()
        r = fn(*[self.caller.lend(a) for a in args], **kw)
        self.caller.settle()
        self.caller.keep(r)
        return r

    def report(self, d, r):
        getattr(self, d['fam'])(d, r['ent'], r['ex'])

    def gamma(self, d, ent, ex):
        a, b = arr([fl(x) for x in d['a']], d['shape']), arr([num(x) for x in d['b']], d['shape'])
        expect_sym('gamma_entropy', self.call('gamma_entropy', ef.gamma_entropy, a, b), ent[0])
        expect_sym('get_e_log_gamma', self.call('get_e_log_gamma', ef.get_e_log_gamma, a, b),
                   ex['elog'], d['shape'])
        # a parameter the whole collection shares may be given once
        for one in self.shared(d, a, b):
            expect_sym('gamma_entropy, one parameter shared', self.call('gamma_entropy', ef.gamma_entropy, *one), ent[0])
            expect_sym('get_e_log_gamma, one parameter shared',
                       self.call('get_e_log_gamma', ef.get_e_log_gamma, *one), ex['elog'], d['shape'])

    def shared(self, d, a, b):
        if not d['shape']:
            return []
        out = []
        if len(set(np.ravel(b))) == 1:
            out.append((a, float(np.ravel(b)[0])))
        if len(set(np.ravel(a))) == 1:
            out.append((float(np.ravel(a)[0]), b))
        return out

    def uvn(self, d, ent, ex):
        b = arr([num(x) for x in d['b']], d['shape'])
        expect_sym('univariate_normal_entropy', self.call('uvn', ef.univariate_normal_entropy, b), ent[0])

    def mvn(self, d, ent, ex):
        expect_sym('multivariate_normal_entropy',
                   self.call('mvn', ef.multivariate_normal_entropy, block_diag(d)), ent[0])

    def dirichlet(self, d, ent, ex):
        a = arr([fl(x) for x in flat(d['a'])], d['shape'])
        expect_sym('dirichlet_entropy', self.call('dirichlet_entropy', ef.dirichlet_entropy, a),
                   ent, d['shape'][1:])
        expect_sym('get_e_dirichlet', self.call('get_e_dirichlet', ef.get_e_dirichlet, a),
                   flat(ex['e']), d['shape'])
        # the mean does not depend on the total
        for e in (-40, 30, 60):
            expect_sym('get_e_dirichlet of parameters 2^%d times as large' % e,
                       self.call('get_e_dirichlet', ef.get_e_dirichlet, np.ldexp(a, e)), flat(ex['e']), d['shape'])
        expect_sym('get_e_log_dirichlet', self.call('get_e_log_dirichlet', ef.get_e_log_dirichlet, a),
                   flat(ex['elog']), d['shape'])

    def beta(self, d, ent, ex):
        t = arr([fl(x) for x in flat(d['a'])], [len(d['a']), 2])
        expect_sym('beta_entropy', self.call('beta_entropy', ef.beta_entropy, t), ent[0])

    def multi(self, d, ent, ex):
        p = arr([fl(x) for x in flat(d['a'])], [len(d['a']), len(d['a'][0])])
        kw = {'min_prob': fl(d['eps'][0])} if d['eps'] else {}
        expect_sym('multinoulli_entropy', self.call('multinoulli', ef.multinoulli_entropy, p, **kw),
                   ent, [len(d['a'])], tol=1e-10)

    def wishart(self, d, ent, ex):
        df, v = fl(d['df']), block_diag(d)
        k = len(v)
        expect_sym('wishart_entropy', self.call('wishart_entropy', ef.wishart_entropy, df, v), ent[0])
        expect_sym('e_log_det_wishart', self.call('e_log_det', ef.e_log_det_wishart, df, v), ex['elogdet'])
        expect_sym('e_log_inv_wishart_diag',
                   self.call('e_log_inv', ef.e_log_inv_wishart_diag, df, v), ex['eloginv'], [k])
        for size in (k, float(k)):
            expect_sym('multivariate_digamma', ef.multivariate_digamma(0.5 * df, size), ex['mpsi'])
            expect_sym('multivariate_gammaln', ef.multivariate_gammaln(0.5 * df, size), ex['mlgam'])

    def lognormal(self, d, ent, ex):
        m, s = arr([fl(x) for x in d['a']], d['shape']), arr([num(x) for x in d['s']], d['shape'])
        e = self.call('get_e_lognormal', ef.get_e_lognormal, m, s)
        v = self.call('get_var_lognormal', ef.get_var_lognormal, m, s)
        if ex['e']:
            expect_sym('get_e_lognormal', e, ex['e'], d['shape'])
            expect_sym('get_var_lognormal', v, ex['var'], d['shape'], tol=1e-9)
        want = np.array([value(x)[0] for x in ex['rel']])
        got = np.reshape(v / e ** 2, -1)
        if not np.all(np.abs(got - want) <= 1e-9 * want):
            raise Mismatch('get_var_lognormal over the squared mean: got %s, expected %s' % (got, want))
