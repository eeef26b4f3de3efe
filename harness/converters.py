"""ConverterModel on the implementation."""
import autograd.numpy as anp
import numpy as np

import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
import polys
from arrays import Caller
from objectives import Boom, bang
from params import Mismatch, expect, is_numeric
from twoparam import check_param


class ConverterDriver(object):
    # the units the parameters are measured in
    ui = uo = 0

    def __init__(self, suite, init, bases):
        ob = self.ob = suite['ob']
        self.bases = bases
        self.caller = Caller()
        self.ci, self.co = ob['ci'], ob['co']
        self.Ei, self.Eo = params.ext_matrix(self.ci, bases), params.ext_matrix(self.co, bases)
        self.pi, self.po = params.build(self.ci, 'pi'), params.build(self.co, 'po')
        self.ui, self.uo = ob.get('ui', 0), ob.get('uo', 0)
        self.pi.set_vector(np.ldexp(params.floats(init['h']['qi']), self.ui))
        self.po.set_vector(np.ldexp(params.floats(init['h']['qo']), self.uo))
        self.tmp = params.build(self.co, 'tmp')
        self.boom = None
        self.tags = tag_list(self.co)
        self.conv = obj_lib.ParameterConverter(self.pi, self.po, self.converter)

    def converter(self):
        if self.boom == 'early':
            raise bang()
        v = polys.read_vector(self.pi, self.ci, self.ob['read']) * 2.0 ** -self.ui
        ext = []
        for t, p in zip(self.tags, self.ob['conv']):
            y = polys.peval(p, v)
            ext.append(anp.reshape(anp.log(1 + y * y) if t == 'log' else y, (1,)))
        free = anp.dot(self.Eo.T, anp.concatenate(ext)) * 2.0 ** self.uo
        how = self.ob['write']
        if how == 'free':
            self.po.set_free(free)
        else:
            self.tmp.set_free(free)
            if how == 'vector':
                self.po.set_vector(self.tmp.get_vector())
            else:
                for (path, lc, vo, fo, uo, eo) in params.leaves(self.co):
                    params.at(self.po, path).set(params.at(self.tmp, path).get())
        if self.boom == 'late':
            raise bang()

    def step(self, op, rec):
        o, h = op['op'], rec['h']
        if o == 'rawout':
            self.po.set_vector(np.ldexp(params.floats(op['v']), self.uo))
            return self.check(h, None, None, False)
        if o == 'setout':
            x = params.free_of(self.co, op['xo'], self.bases)
            if op['fo']:
                self.po.set_free(np.ldexp(x, self.uo))
            else:
                self.po.set_vector(np.ldexp(params.floats(h['qo']), self.uo))
            return self.check(h, None, x if op['fo'] else None, False)
        x = params.free_of(self.ci, op['x'], self.bases)
        arg = np.ldexp(x if op['fi'] else params.floats(h['qi']), self.ui)
        if o == 'setin':
            (self.pi.set_free if op['fi'] else self.pi.set_vector)(arg.copy())
            return self.check(h, x if op['fi'] else None, None, not op['fi'])
        a, b = ('free' if op['fi'] else 'vec'), ('free' if op['fo'] else 'vec')
        name = ('%s_to_%s_jacobian' if o == 'jac' else 'converter_%s_to_%s') % (a, b)
        self.boom = op['when'] if op['boom'] else None
        passed = (self.caller.reuse if op['fi'] else self.caller.lend)(arg)
        try:
            got = getattr(self.conv, name)(passed)
        except Boom:
            if not op['boom']:
                raise
            return self.check(h, x if op['fi'] else None, None, not op['fi'])
        finally:
            self.boom = None
        if op['boom']:
            raise Mismatch(name + ' swallowed the error of the converter')
        self.caller.settle()
        r = rec['r']
        if o == 'conv':
            want = params.free_of(self.co, r, self.bases) if op['fo'] else params.floats(r)
        else:
            want = params.mat(r)
            if op['fo']:
                want = np.dot(self.Eo.T, want)
            if op['fi']:
                want = np.dot(want, self.Ei)
        if not is_numeric(got):
            raise Mismatch(name + ' is not numeric')
        expect(name, np.ldexp(got, -self.uo + (self.ui if o == 'jac' else 0)), want)
        if o == 'jac':
            self.caller.keep(got)
        self.check(h, x if op['fi'] else None, None, not op['fi'])

    def check(self, h, xi, xo, exact):
        check_param(self.pi, self.ci, params.floats(h['qi']), xi, 'input parameter', True, exact, self.ui)
        check_param(self.po, self.co, params.floats(h['qo']), xo, 'output parameter', not h['raw'], u=self.uo)


def tag_list(c):
    import gen
    return [t for t, _ in gen.tags(c)]
