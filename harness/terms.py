"""TermAlgebra on the implementation."""
import autograd.numpy as anp
import numpy as np

import LinearResponseVariationalBayes.ModelSensitivity as lib

import params
import polys
from common import fl
from params import Mismatch, expect

N = 12


class TermsDriver(object):
    def __init__(self, suite, init, bases):
        self.suite = suite
        self.kind = suite['kind']
        if self.kind == 'jvp':
            return
        self.given = {}
        self.ob = ob = suite['ob']
        self.a, self.b, self.deps = [params.floats(ob[k]) for k in ('a', 'b', 'deps')]
        self.H = params.mat(ob['H'])
        n = max(len(ob['u']), N) if not suite['eval'] else len(ob['u'])
        self.g = [[self.gfun(i, j) for j in range(n)] for i in range(n)]
        self.eta0, self.eps0 = np.array([0.5, -1.0]), np.array([2.0, 0.25])
        if self.kind == 'taylor':
            self.terms = lib.get_taylor_base_terms(self.g)
            self.etas = []
        else:
            self.etas = [(lambda k, v: (lambda eta, eps, deps: self.give(('eta', k), v)))(k, params.floats(d))
                         for k, d in enumerate(suite['D'])]
            self.terms = [lib.DerivativeTerm(t['e'], list(t['m']), fl(t['c']), self.etas, self.g)
                          for t in suite['terms']]
        self.old = []
        self.check(init)

    def gfun(self, i, j):
        def g(eta, eps, *vecs):
            if len(vecs) != i + j:
                raise Mismatch('derivative (%d, %d) called with %d directions' % (i, j, len(vecs)))
            if not (np.array_equal(eta, self.eta0) and np.array_equal(eps, self.eps0)):
                raise Mismatch('derivative evaluated away from the base point')
            r = 1.0
            for v in vecs[:i]:
                r = r * np.dot(self.a, v)
            for w in vecs[i:]:
                r = r * np.dot(self.b, w)
            return self.give(('g', i, j, r), params.floats(self.ob['u'][i][j]) * r)
        return g

    def give(self, key, value):
        """The functions supplied to the module keep the arrays they return."""
        if key not in self.given:
            self.given[key] = (value, value.copy())
        return self.given[key][0]

    def unchanged(self):
        for key, (v, keep) in self.given.items():
            if not np.array_equal(v, keep):
                raise Mismatch('an array returned by derivative %s was changed' % (key,))

    @staticmethod
    def summed(terms):
        out = {}
        for t in terms:
            k = (int(t.eps_order), tuple(int(x) for x in t.eta_orders))
            out[k] = out.get(k, 0.0) + t.prefactor
        return out

    @staticmethod
    def freeze(terms):
        return [(int(t.eps_order), tuple(t.eta_orders), t.prefactor, t.order) for t in terms]

    def check(self, rec):
        self.compare(rec)
        self.unchanged()

    def compare(self, rec):
        want = {}
        for t in rec['h']:
            k = (t['e'], tuple(t['m']))
            want[k] = want.get(k, 0.0) + fl(t['c'])
        got = self.summed(self.terms)
        if {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v}:
            raise Mismatch('terms %s, expected %s' % (sorted(got.items()), sorted(want.items())))
        for t in self.terms:
            if t.order != t.eps_order + sum((i + 1) * m for i, m in enumerate(t.eta_orders)):
                raise Mismatch('order of ' + str(t))
        if not self.suite['eval']:
            return
        args = (self.eta0, self.eps0, self.deps)
        vals = {}
        for t, v in zip(rec['h'], rec['r']['terms']):
            k = (t['e'], tuple(t['m']))
            vals[k] = vals.get(k, 0.0) + params.floats(v)
        mine = {}
        if self.kind == 'taylor' and self.terms[0].order > len(self.etas):
            # the highest derivative, as evaluated from these terms
            d = lib.evaluate_dketa_depsk(self.H, self.terms, *args)
            expect('derivative of order %d' % self.terms[0].order, d, params.floats(rec['d'][-1]))
            expect('sum of terms below the highest', lib.evaluate_terms(
                self.terms, *args, include_highest_eta_order=False), params.floats(rec['r']['lower']))
            return
        for t in self.terms:
            k = (t.eps_order, tuple(t.eta_orders))
            mine[k] = mine.get(k, 0.0) + t.evaluate(*args)
        for k in vals:
            expect('value of term %s' % (k,), mine[k], vals[k])
        expect('sum of terms', lib.evaluate_terms(self.terms, *args), params.floats(rec['r']['all']))
        if any(t['m'][-1] == 0 for t in rec['h']):
            expect('sum of terms below the highest', lib.evaluate_terms(
                self.terms, *args, include_highest_eta_order=False), params.floats(rec['r']['lower']))

    def next_eta(self):
        k = self.terms[0].order
        if self.kind == 'taylor':
            ts = self.terms
            return lambda eta, eps, deps: lib.evaluate_dketa_depsk(self.H, ts, eta, eps, deps)
        return lambda eta, eps, deps: self.give(('eta', k - 1), params.floats(self.suite['D'][k - 1]))

    def step(self, op, rec):
        o = op['op']
        if o == 'jvp':
            return self.jvp(op, rec)
        frozen = self.freeze(self.terms)
        before = self.terms
        if o == 'diff':
            if self.kind == 'taylor' and op['module']:
                new = lib.differentiate_terms(self.H, self.terms)
            else:
                f = self.next_eta()
                new = []
                for t in self.terms:
                    new += t.differentiate(f)
                new = lib.consolidate_terms(new)
        elif o == 'rawdiff':
            f = self.next_eta()
            new = []
            for t in self.terms:
                new += t.differentiate(f)
        else:
            ts = list(self.terms)
            new = lib.consolidate_terms(ts)
            if len(ts) != len(self.terms) or any(x is not y for x, y in zip(ts, self.terms)):
                raise Mismatch('consolidation changed the list it was given')
        if o != 'rawdiff':
            if len(self.freeze(new)) != len(set(x[:2] for x in self.freeze(new))):
                raise Mismatch('like terms left after %s: %s' % (o, [str(t) for t in new]))
        self.old.append((before, frozen))
        for ts, fr in self.old:
            if self.freeze(ts) != fr:
                raise Mismatch('%s changed the terms it started from' % o)
        self.terms = new
        if o in ('diff', 'rawdiff') and self.kind == 'taylor':
            self.etas.append(None)
        self.check(rec)

    def jvp(self, op, rec):
        s = self.suite
        sizes = s['sizes']
        at = params.floats(op['at'])
        cuts = np.split(at, np.cumsum(sizes)[:-1])

        def fun(*args):
            v = anp.concatenate(args)
            return anp.hstack([polys.peval(p, v) for p in s['fun']])
        vecs = [params.floats(d['v']) for d in op['dirs']]
        if op['how'] == 'array':
            i = sum(1 for d in op['dirs'] if d['arg'] == 0)
            j = len(op['dirs']) - i
            arr = lib.generate_two_term_derivative_array(fun, op['order'])
            if len(arr) < op['order'] or any(len(r) < op['order'] + 1 for r in arr[:op['order']]):
                raise Mismatch('derivative array of order %d is too small' % op['order'])
            f = arr[i][j]
        else:
            f = fun
            for d in op['dirs']:
                f = lib.append_jvp(f, num_base_args=len(sizes), argnum=d['arg'])
        got = f(*(list(cuts) + vecs))
        want = params.floats(rec['r'])
        expect('directional derivative', np.asarray(got, dtype=float).reshape(want.shape), want)
