"""Exponent on the implementation."""
from fractions import Fraction

import numpy as np
import scipy.sparse
from LinearResponseVariationalBayes.Parameters import convert_vector_to_free_hessian

import params
from gen import tags, scalar, vector, array, simplex, posdef, posdefvec, posdefarr, dct, BOUNDS, FAR
from params import Mismatch

LN2 = float(np.log(2.0))


def two(e):
    return Fraction(2) ** e


def value(t):
    """The exact value of a vector entry."""
    if t['k'] == 'pow':
        return Fraction(*t['off']) + t['s'] * two(t['e'])
    if t['k'] == 'odds':
        o = two(t['e'])
        return (Fraction(*t['lb']) + Fraction(*t['ub']) * o) / (1 + o)
    ks = t['ks']
    return two(ks[t['i'] - 1]) / sum(two(k) for k in ks)


def offsets(ts):
    return np.array([float(Fraction(*t.get('off', t.get('lb', [0, 1])))) for t in ts])


def frees(c, zs):
    return np.array([float(z['s'] * two(z['e'])) if t == 'lin' else z['e'] * LN2
                     for (t, _), z in zip(tags(c), zs)])


def near(label, got, want, off=0., tol=1e-11):
    """Relative, entry by entry; the rounding of an offset is forgiven."""
    got = np.asarray(got, dtype=float).reshape(-1)
    want = np.asarray(want, dtype=float).reshape(-1)
    if got.shape != want.shape:
        raise Mismatch('%s: %d entries, expected %d' % (label, got.size, want.size))
    bad = ~(np.abs(got - want) <= tol * np.abs(want) + 1e-14 * np.abs(off))
    if bad.any():
        i = int(np.argmax(bad))
        raise Mismatch('%s: entry %d is %r, expected %r' % (label, i, got[i], want[i]))


def mono(m):
    v = Fraction(*m['c']) * two(m['e'])
    for ks, i in m['f']:
        v *= two(ks[i - 1]) / sum(two(k) for k in ks)
    return v


def entries(label, got, ents, place, shape):
    """A sparse result: the entries the model lists, relative to the size of
    their terms, and exact zeros elsewhere."""
    got = np.asarray(params.dense(got), dtype=float)
    if got.shape != shape:
        raise Mismatch('%s: shape %s, expected %s' % (label, got.shape, shape))
    want, size = {}, {}
    for t in ents:
        at = place(t)
        for m in t['m']:
            v = mono(m)
            want[at] = want.get(at, 0) + v
            size[at] = size.get(at, 0) + abs(v)
        size[at] += 10 * abs(Fraction(*t['off'])) if 'off' in t else 0
    for i in range(shape[0]):
        for j in range(shape[1]):
            w, s = float(want.get((i, j), 0)), float(size.get((i, j), 0))
            if not abs(got[i, j] - w) <= 1e-11 * abs(w) + 1e-14 * s:
                raise Mismatch('%s: entry %s is %r, expected %r' % (label, (i, j), got[i, j], w))


def full(c, v):
    """The full value from the vector, both flat."""
    if c['kind'] == 'dict':
        out, o = [], 0
        for it in c['items']:
            n = params.vec_size(it['c'])
            out += list(full(it['c'], v[o:o + n]))
            o += n
        return np.array(out)
    if not c['kind'].startswith('posdef'):
        return np.asarray(v)
    m, w, out = c['m'], params.tri(c['m']), []
    for e in range(len(v) // w):
        M = np.zeros((m, m))
        M[np.tril_indices(m)] = v[e * w:(e + 1) * w]
        out += list((M + np.tril(M, -1).T).reshape(-1))
    return np.array(out)


def flat(p, c):
    if c['kind'] == 'dict':
        return np.concatenate([flat(p[it['name']], it['c']) for it in c['items']])
    return np.asarray(p.get(), dtype=float).reshape(-1)


def shaped(c, v):
    return float(v[0]) if c['kind'] == 'scalar' else np.asarray(v).reshape(params.full_shape(c))


class ExponentDriver(object):
    def __init__(self, suite, init, bases):
        self.c = suite['c']
        self.p = params.build(self.c)
        self.p.set_free(frees(self.c, init['h']['z']))
        self.check(init['h'])

    def check(self, h):
        v = np.array([float(value(t)) for t in h['t']])
        near('vector', self.p.get_vector(), v, offsets(h['t']))
        near('value', flat(self.p, self.c), full(self.c, v), full(self.c, offsets(h['t'])))
        want = frees(self.c, h['z'])
        got = np.asarray(self.p.get_free(), dtype=float)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want))):
            raise Mismatch('free value %s, expected %s' % (got, want))

    def derivative(self, op, rec):
        c, p = self.c, self.p
        x, nv, nf = frees(c, op['z']), params.vec_size(c), params.free_size(c)
        self.sole(op['op'], x)
        if op['op'] == 'jac':
            entries('jacobian', p.free_to_vector_jac(x), rec['r'], lambda t: (t['v'] - 1, t['j'] - 1), (nv, nf))
        elif op['op'] == 'hess':
            hs = p.free_to_vector_hess(x)
            if len(hs) != nv:
                raise Mismatch('%d hessians for %d vector entries' % (len(hs), nv))
            for v, h in enumerate(hs):
                entries('hessian of entry %d' % v, h, [t for t in rec['r'] if t['v'] == v + 1],
                        lambda t: (t['i'] - 1, t['j'] - 1), (nf, nf))
        else:
            vg, vh = np.zeros(nv), np.zeros((nv, nv))
            for a, k, e in op['vg']:
                vg[a - 1] = float(Fraction(*k) * two(e))
            for a, b, k, e in op['vh']:
                vh[a - 1, b - 1] = float(Fraction(*k) * two(e))
            h = convert_vector_to_free_hessian(p, x, vg, scipy.sparse.csr_matrix(vh) if op['sparse'] else vh)
            entries('converted hessian', h, rec['r'], lambda t: (t['i'] - 1, t['j'] - 1), (nf, nf))

    def sole(self, o, x):
        """What is asked for depends on the point alone (in the specification,
        on the point of the request): next to one just asked about, it is what
        a parameter nobody has asked anything has."""
        names = [n for n in ('free_to_vector_jac', 'free_to_vector_hess') if n.endswith(o)]
        for name in names:
            getattr(self.p, name)(x)
            # as far as values of this size are told apart
            y = x * (1. + 2. ** -20)
            got, want = [getattr(p, name)(y) for p in (self.p, params.build(self.c))]
            for g, w in zip(*[r if isinstance(r, list) else [r] for r in (got, want)]):
                near(name + ' next to the last point', params.dense(g), params.dense(w), tol=1e-9)

    def step(self, op, rec):
        c, p = self.c, self.p
        if op['op'] in ('jac', 'hess', 'convert'):
            self.derivative(op, rec)
            if op['op'] != 'convert':
                self.check(rec['h'])
            return
        v = np.array([float(value(t)) for t in rec['r']])
        if op['op'] == 'set_free':
            p.set_free(frees(c, op['z']))
        elif op['op'] == 'free_to_vector':
            near('free_to_vector', p.free_to_vector(frees(c, op['z'])), v, offsets(rec['r']))
        elif op['op'] == 'set_vector':
            p.set_vector(v)
        elif op['op'] == 'set':
            p.set(shaped(c, full(c, v)))
        elif op['op'] == 'rt_vector':
            p.set_vector(p.get_vector())
        elif op['op'] == 'rt_free':
            p.set_free(p.get_free())
        elif op['op'] == 'rt_set':
            p.set(p.get())
        else:
            raise KeyError(op['op'])
        self.check(rec['h'])


def rz(rng, c, deriv=False):
    """Random exponents for configuration c, no further out than floating
    point can tell the values apart (not needed where only derivatives are
    asked for)."""
    if c['kind'] == 'dict':
        return [z for it in c['items'] for z in rz(rng, it['c'], deriv)]
    far = 280
    lb, ub = c.get('lb', []), c.get('ub', [])
    zero = [[0, 1]]
    # offsets swallow what is much smaller than they are
    big = max([1] + [abs(b[0][0]) // b[0][1] for b in (lb, ub) if b] + [c.get('dlb', [0, 1])[0]])
    near_ = 18 if big < 100 else 2 if big < 10 ** 5 else 0
    if deriv:
        near_ = 60

    def k(lo, hi):
        return rng.choice([rng.randint(lo, hi), rng.choice([lo, hi]), rng.randint(-4, 4)])
    out = []
    for t, kind in tags(c):
        s = 1
        if kind == 'box':
            if t == 'lin':
                s, e = rng.choice([-1, 1]), k(-far, far)
            elif lb and ub:
                e = k(-far if lb == zero and not deriv else -near_, near_)
            elif lb:
                e = k(-far if lb == zero else -near_, far if lb == zero else max(18, near_))
            else:
                # the value is ub - 2^-e
                e = k(-far if ub == zero else -max(18, near_), far if ub == zero else near_)
        elif kind == 'simplex':
            e = k(-far // 2, far // 2)
        elif t == 'lin':
            s, e = 0, 0
        else:
            b = near_ // 2 if c['dlb'] != [0, 1] else far // 2
            e = k(-b, max(b, 9))
        out.append({'s': s, 'e': e})
    return out


DLBS = [posdef(2, (1000, 1)), posdefvec(1, 2, (1000000, 1)), posdefarr((2,), 1, (1, 1000))]


def moderate(rng, zs):
    return [dict(z, e=max(-2, min(2, z['e']))) for z in zs] if rng.random() < 0.3 else zs


def derivative_suites(rng, n, what):
    """Derivatives of the map to the vector ('jac', 'hess') or conversions."""
    bounds = BOUNDS + FAR
    if what == ['convert']:
        bounds = [b for b in bounds if not (b[0] and b[1])]
    base = [scalar(b) for b in bounds] + [vector(2, b) for b in bounds] + [array((2, 1), b) for b in bounds] + \
        [simplex(1, 2), simplex(2, 2), simplex(2, 3), simplex(1, 5), posdef(1), posdef(2), posdef(3),
         posdef(2, (1, 2)), posdefvec(2, 2), posdefarr((2,), 2), posdefarr((1, 2), 1, (1, 1))] + DLBS
    cfgs = list(base)
    for i in range(n):
        cfgs.append(dct([(nm, rng.choice(base)) for nm in 'abc'[:rng.randint(1, 3)]]))
    out = []
    for c in cfgs:
        ops = []
        for i in range(4):
            op = {'op': what[i % len(what)], 'z': moderate(rng, rz(rng, c, True))}
            if op['op'] == 'convert':
                nv = params.vec_size(c)

                def num():
                    return [[rng.choice([1, -1, 3, -2]), 1], rng.choice([0, 0, 30, -30, 100])]
                op['vg'] = [[a + 1] + num() for a in range(nv) if rng.random() < .8]
                op['vh'] = []
                for a in range(nv):
                    for b in range(a + 1):
                        if rng.random() < .4:
                            t = num()
                            op['vh'] += [[i + 1, j + 1] + t for i, j in {(a, b), (b, a)}]
                op['sparse'] = rng.choice([True, False])
            ops += [op, {'op': 'set_free', 'z': rz(rng, c)}]
        out.append({'mode': 'script', 'name': 'exponents', 'c': c, 'z': rz(rng, c), 'ops': ops})
    return out


def suites(rng, n):
    ends = [b for b in BOUNDS if [0, 1] in b[0] + b[1]]
    cfgs = [scalar(b) for b in BOUNDS + FAR] + DLBS + [vector(3, b) for b in ends] + [array((2, 2), b) for b in ends] + \
        [simplex(1, 2), simplex(2, 2), simplex(2, 3), simplex(3, 4), simplex(1, 6)] + \
        [posdef(1), posdef(2), posdef(3), posdef(2, (1, 2)), posdefvec(2, 2), posdefarr((2,), 2),
         posdefarr((1, 2), 1, (1, 1))]
    base = list(cfgs)
    for i in range(n):
        if i % 3:
            cfgs.append(rng.choice(base))
        else:
            cfgs.append(dct([(nm, rng.choice(base)) for nm in 'abc'[:rng.randint(1, 3)]]))
    out = []
    for c in cfgs:
        ops = []
        for w in ['set_free', 'rt_free', 'set_vector', 'rt_vector', 'set', 'rt_set', 'free_to_vector', 'set_vector',
                  'rt_free', 'set_free', 'rt_set', 'set', 'rt_free', 'set_free', 'rt_vector']:
            if c['kind'] == 'dict' and w.endswith('set'):
                continue
            op = {'op': w}
            if not w.startswith('rt'):
                op['z'] = rz(rng, c)
            ops.append(op)
        out.append({'mode': 'script', 'name': 'exponents', 'c': c, 'z': rz(rng, c), 'ops': ops})
    return out
