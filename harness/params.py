"""Binding of ParamStore to the implementation: building parameters from
configurations, applying the model's calls, projecting the state."""
import copy
import math

import numpy as np
import scipy.sparse

import LinearResponseVariationalBayes as vb
from LinearResponseVariationalBayes import SparseObjectives as obj_lib
from LinearResponseVariationalBayes.Parameters import (
    convert_vector_to_free_hessian, get_free_offset, get_vector_offset)

from arrays import Caller, Mismatch
from common import fl

INF = float('inf')


def bound(b, default):
    return fl(b[0]) if len(b) else default


def tri(m):
    return m * (m + 1) // 2


def prod(s):
    r = 1
    for k in s:
        r *= k
    return r


def kind(c):
    return c['kind']


def vec_size(c):
    k = c['kind']
    if k == 'dict':
        return sum(vec_size(i['c']) for i in c['items'])
    if k == 'scalar':
        return 1
    if k in ('vector', 'array', 'simplex'):
        return prod(c['shape'])
    if k == 'posdef':
        return tri(c['m'])
    if k in ('posdefvec', 'posdefarr'):
        return prod(c['shape']) * tri(c['m'])
    return len(c['A'][0])


def free_size(c):
    k = c['kind']
    if k == 'dict':
        return sum(free_size(i['c']) for i in c['items'])
    if k == 'simplex':
        return c['shape'][0] * (c['shape'][1] - 1)
    if k == 'subspace':
        return len(c['A'][0]) - len(c['A'])
    return vec_size(c)


def ext_size(c):
    k = c['kind']
    if k == 'dict':
        return sum(ext_size(i['c']) for i in c['items'])
    if k == 'simplex':
        return free_size(c)
    return vec_size(c)


def full_shape(c):
    k = c['kind']
    if k == 'scalar':
        return ()
    if k in ('vector', 'array', 'simplex'):
        return tuple(c['shape'])
    if k == 'posdef':
        return (c['m'], c['m'])
    if k in ('posdefvec', 'posdefarr'):
        return tuple(c['shape']) + (c['m'], c['m'])
    return (len(c['A'][0]),)


def full_size(c):
    if c['kind'] == 'dict':
        return sum(full_size(i['c']) for i in c['items'])
    return prod(full_shape(c))


def leaves(c, path=()):
    """(path, cfg, vec offset, free offset, full offset, ext offset)"""
    out = []

    def rec(c, path, offs):
        if c['kind'] == 'dict':
            for it in c['items']:
                offs = rec(it['c'], path + (it['name'],), offs)
            return offs
        out.append((path, c) + offs)
        return (offs[0] + vec_size(c), offs[1] + free_size(c),
                offs[2] + full_size(c), offs[3] + ext_size(c))
    rec(c, path, (0, 0, 0, 0))
    return out


def floats(rs):
    return np.array([fl(r) for r in rs], dtype=float)


def shape_full(c, flat):
    """The python value of a leaf from its flattened full value."""
    v = floats(flat)
    if c['kind'] == 'scalar':
        return float(v[0])
    return v.reshape(full_shape(c))


def rows(c):
    return np.array([[np.ldexp(fl(a), u) for a in row]
                     for row, u in zip(c['A'], c.get('units') or [0] * len(c['A']))])


def build(c, name='p', full=None, with_val=True):
    """Construct the parameter through the public constructors."""
    k = c['kind']
    val = None
    if k != 'dict' and full is not None and with_val:
        val = shape_full(c, full)
    if k == 'scalar':
        return vb.ScalarParam(name, lb=bound(c['lb'], -INF), ub=bound(c['ub'], INF), val=val)
    if k == 'vector':
        return vb.VectorParam(name, c['shape'][0], lb=bound(c['lb'], -INF),
                              ub=bound(c['ub'], INF), val=val)
    if k == 'array':
        return vb.ArrayParam(name, tuple(c['shape']), lb=bound(c['lb'], -INF),
                             ub=bound(c['ub'], INF), val=val)
    if k == 'simplex':
        return vb.SimplexParam(name, tuple(c['shape']), val=val)
    if k == 'posdef':
        return vb.PosDefMatrixParam(name, c['m'], diag_lb=fl(c['dlb']), val=val)
    if k == 'posdefvec':
        return vb.PosDefMatrixParamVector(name, c['shape'][0], c['m'],
                                          diag_lb=fl(c['dlb']), val=val)
    if k == 'posdefarr':
        return vb.PosDefMatrixParamArray(name, tuple(c['shape']), c['m'],
                                         diag_lb=fl(c['dlb']), val=val)
    if k == 'subspace':
        A = rows(c)
        if c.get('default'):
            return vb.SubspaceVectorParam(name, len(c['A'][0]), val=val)
        return vb.SubspaceVectorParam(name, len(c['A'][0]), val=val, perp_subspace=A)
    if 'cls' in c:
        import distributions
        p = distributions.make(c['cls'][0], name, c['cls'][1])
        o = 0
        for it in c['items']:
            n = full_size(it['c'])
            if full is not None and with_val:
                p[it['name']].set(shape_full(it['c'], full[o:o + n]))
            o += n
        return p
    p = vb.ModelParamsDict(name)
    o = 0
    for it in c['items']:
        n = full_size(it['c'])
        p.push_param(build(it['c'], it['name'],
                           None if full is None else full[o:o + n], with_val))
        o += n
    return p


def at(p, path):
    for nm in path:
        p = p[nm]
    return p


def cfg_at(c, path):
    for nm in path:
        c = [it['c'] for it in c['items'] if it['name'] == nm][0]
    return c


class Bases(object):
    """The orthonormal basis each subspace leaf uses, read by setting unit
    free vectors on a fresh parameter."""
    def __init__(self):
        self.cache = {}

    def get(self, c):
        key = repr([c['A'], c.get('units')])
        if key not in self.cache:
            p = build(c)
            n = free_size(c)
            cols = []
            for i in range(n):
                e = np.zeros(n)
                e[i] = 1.0
                p.set_free(e)
                cols.append(np.array(p.get(), dtype=float))
            self.cache[key] = np.array(cols).T
        return self.cache[key]


def ext_value(x):
    return math.log(fl(x['v'])) if x['t'] == 'log' else fl(x['v'])


def free_of(c, x, bases):
    """The free vector (floats) of extended coordinates x."""
    out = []
    for (path, lc, vo, fo, uo, eo) in leaves(c):
        n = ext_size(lc)
        vals = [ext_value(t) for t in x[eo:eo + n]]
        if lc['kind'] == 'subspace':
            vals = list(np.dot(bases.get(lc).T, np.array(vals)))
        out += vals
    return np.array(out, dtype=float)


def ext_matrix(c, bases):
    """E with d/dfree = E' d/dext (rows: ext, columns: free)."""
    E = np.zeros((ext_size(c), free_size(c)))
    for (path, lc, vo, fo, uo, eo) in leaves(c):
        n, f = ext_size(lc), free_size(lc)
        E[eo:eo + n, fo:fo + f] = bases.get(lc) if lc['kind'] == 'subspace' else np.eye(n)
    return E


def mat(rows):
    return np.array([[fl(a) for a in r] for r in rows], dtype=float)


def dense(m):
    return np.asarray(m.todense()) if scipy.sparse.issparse(m) else np.asarray(m)


def is_numeric(v):
    try:
        a = np.asarray(v)
    except Exception:
        return False
    return a.dtype != object and np.issubdtype(a.dtype, np.number) and \
        'Box' not in type(v).__name__


def close(got, want, tol=1e-8, floor=1e-3):
    got = np.asarray(got)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return False
    if got.dtype == object or not np.issubdtype(got.dtype, np.number):
        return False
    got = got.astype(float)
    if got.size == 0:
        return True
    if not np.all(np.isfinite(got)):
        return False
    scale = 1.0 + np.max(np.abs(want))
    return bool(np.all(np.abs(got - want) <= tol * np.abs(want) + floor * tol * scale))


def expect(label, got, want, tol=1e-8, floor=1e-3):
    """Entry by entry; `floor` times the tolerance is allowed relative to the
    largest entry."""
    if not close(got, want, tol, floor):
        raise Mismatch('%s: got %s, expected %s' % (
            label, np.array2string(np.asarray(got), threshold=40),
            np.array2string(np.asarray(want), threshold=40)))


def leaf_names(c, nm):
    """A vector's entries are numbered; any other member goes by its name."""
    if c['kind'] in ('vector', 'subspace'):
        return ['%s_%d' % (nm, k) for k in range(vec_size(c))]
    return [nm]


def layout(p, c, label, ix):
    """The index ranges and names a container reports."""
    if c['kind'] != 'dict':
        return []
    fo = vo = 0
    names = []
    for it in c['items']:
        nm = it['name']
        f, v = free_size(it['c']), vec_size(it['c'])
        if list(p.free_indices_dict[nm]) != list(range(fo, fo + f)):
            raise Mismatch('%s free indices of %s' % (label, nm))
        if list(p.vector_indices_dict[nm]) != list(range(vo, vo + v)):
            raise Mismatch('%s vector indices of %s' % (label, nm))
        fo, vo = fo + f, vo + v
        if it['c']['kind'] == 'dict':
            names += layout(p[nm], it['c'], label + '/' + nm, ix)
        else:
            names += leaf_names(it['c'], nm)
            if list(np.atleast_1d(p[nm].names())) != leaf_names(it['c'], nm):
                raise Mismatch('%s names %s' % (label, p[nm].names()))
            # reading through the values view is reading the member
            if not np.array_equal(np.asarray(p.get()[nm]), np.asarray(p[nm].get())):
                raise Mismatch('%s value of %s' % (label, nm))
    if list(p.names()) != names:
        raise Mismatch('%s names %s != %s' % (label, list(p.names()), names))
    # the members read one after another into a buffer (now and then)
    layout.calls += 1
    if layout.calls % 8 != 1:
        return names
    for put, get, size in [(get_vector_offset, p.get_vector, vo)] + \
            ([] if ix else [(get_free_offset, p.get_free, fo)]):
        buf, o = np.full(size + 2, 7.5), 1
        for it in c['items']:
            o = put(p[it['name']], buf, o)
        if o != size + 1 or buf[0] != 7.5 or buf[-1] != 7.5 or not np.array_equal(buf[1:-1], get()):
            raise Mismatch('%s read at offsets: %s' % (label, buf))
    return names


layout.calls = 0


def pylist(v):
    return v.tolist() if hasattr(v, 'tolist') else v


def nested_dictval(p, c):
    return p.dictval()


def project(p, c, snap, ix, bases, label='', reads=('vec', 'get', 'free', 'size', 'dict')):
    """Compare the complete observable state of parameter p with the model's
    snapshot."""
    if 'size' in reads:
        if int(p.vector_size()) != vec_size(c):
            raise Mismatch('%s vector_size %s != %d' % (label, p.vector_size(), vec_size(c)))
        if int(p.free_size()) != free_size(c):
            raise Mismatch('%s free_size %s != %d' % (label, p.free_size(), free_size(c)))
    if 'layout' in reads:
        layout(p, c, label, ix)
    q = floats(snap['q'])
    if 'vec' in reads:
        v = p.get_vector()
        if not is_numeric(v):
            raise Mismatch('%s get_vector is not numeric: %r' % (label, type(v)))
        expect(label + ' get_vector', v, q)
    for (path, lc, vo, fo, uo, eo) in leaves(c):
        lp = at(p, path)
        lab = label + '/' + '/'.join(path)
        if 'get' in reads:
            g = lp.get()
            if not is_numeric(g):
                raise Mismatch('%s get is not numeric: %r' % (lab, type(g)))
            want = floats(snap['f'][uo:uo + full_size(lc)])
            if path:
                # reading through the values view is reading the member
                w = at(p, path[:-1]).get()[path[-1]]
                if not is_numeric(w) or not np.array_equal(np.asarray(w), np.asarray(g)):
                    raise Mismatch('%s through get(): %s, the member has %s' % (lab, w, g))
            if lc['kind'] == 'scalar':
                expect(lab + ' get', np.asarray(g).reshape(-1), want)
            else:
                expect(lab + ' get', g, want.reshape(full_shape(lc)))
        if 'vec' in reads:
            expect(lab + ' get_vector', lp.get_vector(), q[vo:vo + vec_size(lc)])
        if 'dict' in reads:
            d = p.dictval()
            for nm in path:
                d = d[nm]
            expect(lab + ' dictval', np.asarray(d).reshape(-1),
                   floats(snap['f'][uo:uo + full_size(lc)]))
        if 'size' in reads:
            if int(lp.vector_size()) != vec_size(lc) or int(lp.free_size()) != free_size(lc):
                raise Mismatch('%s sizes %s %s' % (lab, lp.vector_size(), lp.free_size()))
            if lc['kind'] in ('array', 'simplex') and tuple(lp.shape()) != full_shape(lc):
                raise Mismatch('%s shape %s' % (lab, lp.shape()))
            if lc['kind'] in ('posdefvec', 'posdefarr'):
                if int(lp.length()) != prod(lc['shape']) or int(lp.matrix_size()) != lc['m']:
                    raise Mismatch('%s length or matrix size' % lab)
    if not ix and 'free' in reads:
        f = p.get_free()
        if not is_numeric(f):
            raise Mismatch('%s get_free is not numeric: %r' % (label, type(f)))
        want = free_of(c, snap['x'], bases)
        expect(label + ' get_free', f, want)
        for (path, lc, vo, fo, uo, eo) in leaves(c):
            expect(label + '/' + '/'.join(path) + ' get_free', at(p, path).get_free(),
                   want[fo:fo + free_size(lc)])


class Store(object):
    """The implementation side of ParamStore."""
    def __init__(self, init, snap, bases, reads):
        self.bases = bases
        self.reads = reads
        self.obj = {}
        self.cfg = {}
        self.ix = {}
        self.buffers = []
        self.caller = Caller()
        for e in init:
            self.new(e['o'], e['c'], snap[e['o']]['f'])

    def new(self, o, c, full):
        self.obj[o] = build(c, o, full)
        self.cfg[o] = c
        self.ix[o] = False

    def check(self, snap):
        if set(snap) != set(self.obj):
            raise Mismatch('objects %s vs %s' % (sorted(snap), sorted(self.obj)))
        for o in sorted(snap):
            project(self.obj[o], self.cfg[o], snap[o], self.ix[o], self.bases, o, self.reads)

    def apply(self, op, res, snap):
        kindop = op['op']
        if kindop == 'push':
            c0 = self.cfg[op['o']]
            vals = floats(res['val'])
            q = build(op['c'], op['name'])
            q.set_vector(vals)
            self.obj[op['o']].push_param(q)
            self.cfg[op['o']] = {'kind': 'dict', 'items':
                                 c0['items'] + [{'name': op['name'], 'c': op['c']}]}
            return
        if kindop == 'new':
            self.new(op['o'], op['c'], snap[op['o']]['f'])
            return
        o = op['o']
        p = at(self.obj[o], op.get('path', []))
        c = cfg_at(self.cfg[o], op.get('path', []))
        if kindop == 'set_free':
            x = self.caller.lend(free_of(c, op['x'], self.bases), False)
            p.set_free(x)
            self.buffers.append(x)
        elif kindop == 'free_to_vector':
            x = self.caller.lend(free_of(c, op['x'], self.bases), False)
            v = p.free_to_vector(x)
            expect('free_to_vector', np.asarray(v).reshape(-1), floats(res['val']))
            self.buffers.append(x)
        elif kindop == 'set_vector':
            p.set_vector(self.caller.lend(floats(res['val'])))
        elif kindop == 'set':
            v = self.caller.lend(shape_full(c, res['val']))
            how = op.get('how', 'set')
            if how == 'set':
                p.set(v)
            else:
                # through the values view of the enclosing container
                parent = at(self.obj[o], op['path'][:-1])
                parent.get()[op['path'][-1]] = v
        elif kindop == 'copy':
            self.obj[op['to']] = copy.deepcopy(p)
            self.cfg[op['to']] = self.cfg[o]
            self.ix[op['to']] = self.ix[o]
        elif kindop == 'index':
            self.obj[op['to']] = obj_lib.make_index_param(p)
            self.cfg[op['to']] = self.cfg[o]
            self.ix[op['to']] = True
        elif kindop == 'get_free':
            f = p.get_free()
            expect('get_free', f, free_of(c, res['val'], self.bases))
            self.buffers.append(f)
        elif kindop == 'get_vector':
            expect('get_vector', p.get_vector(), floats(res['val']))
        elif kindop == 'rt':
            if op['how'] == 'free':
                p.set_free(p.get_free())
            elif op['how'] == 'vector':
                p.set_vector(p.get_vector())
            else:
                p.set(p.get())
        elif kindop == 'jac':
            x = self.caller.reuse(free_of(c, op['x'], self.bases))
            j = p.free_to_vector_jac(x)
            want = np.dot(mat(res['val']), ext_matrix(c, self.bases))
            expect('jacobian', dense(j), want)
        elif kindop == 'hess':
            x = self.caller.reuse(free_of(c, op['x'], self.bases))
            hs = p.free_to_vector_hess(x)
            if len(hs) != vec_size(c):
                raise Mismatch('%d hessians for %d vector entries' % (len(hs), vec_size(c)))
            E = ext_matrix(c, self.bases)
            for i, h in enumerate(hs):
                want = np.dot(E.T, np.dot(mat(res['val'][i]).reshape(2 * E.shape[:1]), E))
                expect('hessian of vector entry %d' % i, dense(h), want)
        elif kindop == 'convert':
            x = self.caller.reuse(free_of(c, op['x'], self.bases))
            if op['sparse']:
                nv = vec_size(c)
                e = op['vh']
                vh = scipy.sparse.coo_matrix(
                    ([fl(t[2]) for t in e], ([t[0] - 1 for t in e], [t[1] - 1 for t in e])), (nv, nv))
                vh = vh.asformat(op['sparse']) if op['sparse'] != 'coo' else vh
            else:
                vh = self.caller.lend(mat(op['vh']))
            vg = floats(op['vg'])
            # counts are often held as integers
            if op.get('ints'):
                vh = vh.astype(int)
            if op.get('ints') == 'both' and np.all(vg == np.round(vg)):
                vg = vg.astype(int)
            h = convert_vector_to_free_hessian(p, x, self.caller.lend(vg), vh)
            E = ext_matrix(c, self.bases)
            want = np.dot(E.T, np.dot(mat(res['val']), E))
            expect('converted hessian', dense(h), want)
        elif kindop == 'scribble':
            self.caller.settle()
            for b in self.buffers:
                b[...] = 77.25
            self.buffers = []
        elif kindop == 'bad':
            self.bad(p, c, op)
        else:
            raise KeyError(kindop)

    def obj_at(self, op, upto):
        return at(self.obj[op['o']], op['path'][:upto])

    def bad(self, p, c, op):
        if 'arg' not in op:
            raise KeyError('arg')
        arg = op['arg']
        call = op['call']

        def data():
            return self.caller.lend(np.array([fl(t) for t in arg['data']], dtype=float))
        try:
            if call == 'set_free':
                p.set_free(data())
            elif call == 'set_vector':
                p.set_vector(data())
            elif call == 'set':
                if op.get('how') == 'values':
                    self.obj_at(op, -1).get()[op['path'][-1]] = data().reshape(arg['shape'])
                else:
                    p.set(data().reshape(arg['shape']))
            elif call == 'get_free_of':
                q = copy.deepcopy(p)
                q.set(shape_full(c, arg['data']))
                q.get_free()
            elif call == 'construct':
                self.construct(arg)
            else:
                raise AssertionError('call ' + call)
        except Exception:
            return
        raise Mismatch('%s accepted an illegal argument %s' % (call, arg))

    def construct(self, arg):
        c = arg['c']
        if 'val' in arg:
            build(c, 'bad', arg['val'])
        elif c['kind'] == 'subspace':
            A = rows(c)
            vb.SubspaceVectorParam('bad', arg['dim'], perp_subspace=A)
        elif 'shape' in arg:
            val = np.zeros(arg['shape'])
            if arg.get('eye'):
                val[...] = np.eye(arg['shape'][-1])
            k = c['kind']
            if k == 'vector':
                vb.VectorParam('bad', c['shape'][0], val=val)
            elif k == 'array':
                vb.ArrayParam('bad', tuple(c['shape']), val=val)
            elif k == 'simplex':
                vb.SimplexParam('bad', tuple(c['shape']), val=val)
            elif k == 'posdef':
                vb.PosDefMatrixParam('bad', c['m'], val=val)
            elif k == 'posdefvec':
                vb.PosDefMatrixParamVector('bad', c['shape'][0], c['m'], val=val)
            elif k == 'posdefarr':
                vb.PosDefMatrixParamArray('bad', tuple(c['shape']), c['m'], val=val)
        else:
            build(c, 'bad')
