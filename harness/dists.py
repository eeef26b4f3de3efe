"""Distribution parameters: moments after every call, their derivatives, and
moment parameterizations set from other parameters."""
import copy

import autograd
import autograd.numpy as agnp
import numpy as np

import LinearResponseVariationalBayes as vb
import params
from params import Mismatch, at, cfg_at, floats, full_shape, prod
from replay import StoreDriver
from sym import expect_sym, value

LKJ = 2.5


RELVAR = 'var_exp/e_exp^2'


def call(d, name):
    if name == RELVAR:
        return d.var_exp() / d.e_exp() ** 2
    return d.e_log_lkj_inv_prior(LKJ) if name == 'e_log_lkj_inv_prior' else getattr(d, name)()


def shape_of(c, name):
    """The shape of the moment `name` of a distribution with config c."""
    cls = c['cls'][0]
    first = full_shape(c['items'][0]['c'])
    if cls in ('UVNParam', 'GammaParam') or name in ('e_log_det', 'e_log_lkj_inv_prior'):
        return ()
    if cls == 'DirichletParamArray':
        return first[1:] if name == 'entropy' else first
    if name == 'entropy':
        return ()
    if cls == 'WishartParam' or name in ('cov', 'e_outer') and cls == 'MVNParam':
        return full_shape(c['items'][1]['c'])
    return first


def scalar(g, shape):
    return np.asarray(g).reshape(()) if shape == () and np.size(g) == 1 else g


def moments(d, c, ms, label):
    for m in ms:
        got = call(d, m['n'])
        shape = shape_of(c, m['n'])
        if not params.is_numeric(got):
            raise Mismatch('%s.%s: not numeric: %r' % (label, m['n'], type(got)))
        if m['n'] == RELVAR:
            relvar(d, c, np.ravel(got), m['v'], label)
            continue
        expect_sym('%s.%s' % (label, m['n']), scalar(got, shape), m['v'], shape, tol=1e-8)
        overwrite(d, m['n'], got, label)
    cls = c['cls'][0]
    if cls == 'UVNParamVector' and int(d.size()) != c['items'][0]['c']['shape'][0]:
        raise Mismatch('%s.size() %s' % (label, d.size()))
    if cls in ('UVNParamArray', 'UVNMomentParamArray') and \
            tuple(d.shape()) != full_shape(c['items'][0]['c']):
        raise Mismatch('%s.shape() %s' % (label, d.shape()))


def overwrite(d, name, got, label):
    """What the caller does to a moment computed for it (and not part of the
    current value) does not change the distribution (now and then)."""
    overwrite.calls += 1
    if overwrite.calls % 3 or not isinstance(got, np.ndarray) or not got.flags.writeable or \
            any(np.shares_memory(got, np.asarray(p.get())) for p in d.param_dict.values()):
        return
    was = np.array(got)
    got[...] = 55.5
    again = call(d, name)
    if not np.array_equal(again, was):
        raise Mismatch('%s.%s: %s, and after the caller overwrote that result %s' % (label, name, was, again))


overwrite.calls = 0


def relvar(d, c, got, syms, label):
    """Relative precision, up to the cancellation in a variance that is itself
    a difference of moments."""
    want = np.array([value(s)[0] for s in syms])
    slack = 1e-9 * np.abs(want) + 1e-15
    if c['cls'][0] == 'UVNMomentParamArray':
        slack = slack + 1e-14 * np.ravel(np.abs(d['e2'].get()))
    if got.shape != want.shape or not np.all(np.abs(got - want) <= slack):
        raise Mismatch('%s: variance over the squared mean of the exponential: got %s, expected %s' % (label, got, want))


def legal(ok, label, f):
    try:
        f()
    except Exception:
        if ok:
            raise
        return
    if not ok:
        raise Mismatch('accepted: ' + label)


class DistDriver(StoreDriver):
    READS = ('vec', 'get', 'free', 'size', 'layout')

    def __init__(self, suite, init, bases):
        StoreDriver.__init__(self, suite, init, bases, self.READS)
        self.dirty = 0
        self.reports(init)
        for o, ob in self.st.obj.items():
            self.construct(ob, self.st.cfg[o])

    def construct(self, p, c):
        if c['kind'] == 'dict' and c.get('cls', [''])[0] == 'DirichletParamArray':
            import distributions
            kw = dict(c['cls'][1])
            lb = kw.pop('min_alpha', [0, 1])
            q = vb.DirichletParamArray('d', min_alpha=params.fl(lb), val=np.array(p['alpha'].get()),
                                       **{k: tuple(v) for k, v in kw.items()})
            params.expect('constructed with a value', q['alpha'].get(), p['alpha'].get())

    def reports(self, rec):
        for o, rep in sorted(rec['m'].items()):
            for r in rep:
                c = cfg_at(self.st.cfg[o], r['path'])
                moments(at(self.st.obj[o], r['path']), c, r['m'], '/'.join([o] + r['path']))

    def step(self, op, rec):
        k = op['op']
        if k in ('from_uvn', 'from_const'):
            p = at(self.st.obj[op['o']], op['path'])
            s = at(self.st.obj[op['src']], op['spath'])
            f = p.set_from_uvn_param_array if k == 'from_uvn' else p.set_from_constant
            if rec['r']['ok']:
                # nothing of what it held before is left, not even the type
                self.dirty += 1
                for q in ('e', 'e2'):
                    if self.dirty % 3 == 0:
                        p[q].set(np.arange(3, 3 + int(np.prod(p.shape()))).reshape(p.shape()))
                    elif self.dirty % 3 == 1:
                        p[q].set(np.broadcast_to(np.float64(7.5), p.shape()))
            legal(rec['r']['ok'], '%s with shapes %s, %s' % (k, p.shape(), s.shape()), lambda: f(s))
            self.st.check(rec['h'])
        elif k == 'ctor':
            a, n = params.fl(op['arg']), op['size']
            legal(rec['r']['ok'], str(op), lambda: vb.WishartParam('w', size=n, min_df=a)
                  if op['cls'] == 'WishartParam' else vb.DirichletParamArray('d', shape=(n, 2), min_alpha=a))
        elif k == 'deriv':
            self.deriv(op, rec['r']['val'])
            self.st.check(rec['h'])
        else:
            StoreDriver.step(self, op, rec)
        self.reports(rec)

    def deriv(self, op, val):
        q = copy.deepcopy(self.st.obj[op['o']])
        d = at(q, op['path'])
        f0 = np.array(d.get_free(), dtype=float)
        for m in val:
            def fun(f):
                d.set_free(f)
                return agnp.reshape(call(d, m['n']), (-1,))
            j = autograd.jacobian(fun)(f0)
            want = [s for e in m['v'] for s in e['g']]
            expect_sym('d %s' % m['n'], j, want, (len(m['v']), len(f0)), tol=1e-7)
            d.set_free(f0)
