"""SparseMat on the implementation."""
import json
import pickle

import numpy as np
import scipy.sparse as ss

import LinearResponseVariationalBayes.SparseObjectives as obj_lib

import params
from arrays import Caller
from common import fl
from params import Mismatch, expect


def form(A, fmt):
    if fmt == 'dense':
        return A.copy().toarray() if ss.issparse(A) else np.array(A)
    if fmt == 'matrix':
        return np.asmatrix(form(A, 'dense'))
    return ss.csr_matrix(A, copy=True).asformat(fmt)


def dense(A):
    return A.copy().toarray() if ss.issparse(A) else np.asarray(A)


class SparseDriver(object):
    def __init__(self, suite, init, bases):
        self.m = None
        self.caller = Caller()
        self.unit = 2.0 ** suite['e']
        self.dtype = np.float64

    def block(self, op):
        sub = params.mat(op['sub'])
        if op['int']:
            sub = sub.astype(int)
        else:
            sub = sub * self.unit
        if op['matrix']:
            sub = np.asmatrix(sub)
        else:
            sub = self.caller.lend(sub)
        keep = sub.copy()
        fr, fc = op['far']
        if op['hess']:
            fc = fr
        rows = (np.array(op['rows']) - 1) * fr
        cols = (np.array(op['cols']) - 1) * fc
        if op['as'] == 'list':
            rows, cols = [int(a) for a in rows], [int(a) for a in cols]
        elif op['as'] == 'float':
            rows, cols = rows.astype(float), cols.astype(float)
        n, m = (op['n'], op['m']) if op['op'] == 'place' else self.m.shape
        if op['hess']:
            got = obj_lib.get_sparse_sub_hessian(sub, rows, n * fr)
        else:
            got = obj_lib.get_sparse_sub_matrix(sub, rows, cols, n * fr, m * fc)
        self.caller.settle()
        if not np.array_equal(sub, keep):
            raise Mismatch('the block was changed')
        if not ss.issparse(got):
            raise Mismatch('the placed block is not sparse')
        if (fr, fc) != (1, 1):
            # an embedding of the small matrix in the large one
            if got.shape != (n * fr, m * fc):
                raise Mismatch('placed in a matrix of shape %s' % (got.shape,))
            near = got.tocoo()
            if np.any(near.data[(near.row % fr != 0) | (near.col % fc != 0)] != 0):
                raise Mismatch('entries where nothing was placed')
            got = ss.csr_matrix((near.data, (near.row // fr, near.col // fc)), (n, m))
        return got

    def step(self, op, rec):
        o = op['op']
        if o == 'place':
            self.m = self.block(op)
        elif o == 'add':
            self.m = ss.csr_matrix(self.m + self.block(op))
        elif o == 'entries':
            v = [fl(e[2]) * self.unit for e in op['e']]
            self.m = ss.csr_matrix((np.array(v, dtype=op['dtype']), ([e[0] - 1 for e in op['e']], [e[1] - 1 for e in op['e']])),
                                   (op['n'], op['m']))
            if not op['canonical'] and op['e']:
                # entries of a row stored in any order and more than once
                order = sorted(range(len(op['e'])), key=lambda k: op['e'][k][0])
                ptr = [sum(1 for e in op['e'] if e[0] - 1 < i) for i in range(op['n'] + 1)]
                self.m = ss.csr_matrix((np.array([v[k] for k in order], dtype=op['dtype']),
                                        np.array([op['e'][k][1] - 1 for k in order]), np.array(ptr)), (op['n'], op['m']))
        elif o == 'erase':
            # an explicit zero where something is stored
            A = self.m.tocsr().copy()
            A.sum_duplicates()
            for p in range(A.indptr[op['i'] - 1], A.indptr[op['i']]):
                if A.indices[p] == op['j'] - 1:
                    A.data[p] = 0
            self.m = A
        elif o == 'look':
            h = params.mat(rec['h'])
            given = form(self.m, op['fmt'])
            keep = dense(given).copy()
            got = obj_lib.compress(given)
            if type(got) is not np.ndarray or got.shape != np.squeeze(h).shape:
                raise Mismatch('compress gives %s of a matrix of shape %s' % (got, h.shape))
            expect('compressed matrix', np.asarray(got, dtype=float) / self.unit, np.squeeze(h), 1e-12)
            if not np.array_equal(dense(given), keep):
                raise Mismatch('compress changed the matrix')
        elif o == 'times':
            A, B = form(self.m, op['fmt']), form(params.mat(op['B']), op['other'])
            keep = dense(A).copy(), dense(B).copy()
            got = obj_lib.safe_matmul(B, A) if op['left'] else obj_lib.safe_matmul(A, B)
            got = dense(got)
            want = params.mat(rec['r'])
            if got.shape != want.shape:
                raise Mismatch('product of shape %s, expected %s' % (got.shape, want.shape))
            expect('product (%s, %s)' % (op['fmt'], op['other']), np.asarray(got, dtype=float) / self.unit, want, 1e-12)
            if not (np.array_equal(dense(A), keep[0]) and np.array_equal(dense(B), keep[1])):
                raise Mismatch('multiplying changed a factor')
        else:
            src = self.m.tocsr()
            before = src.copy().toarray()
            stored = [src.data.copy(), src.indices.copy(), src.indptr.copy()]
            if o == 'pack':
                given = src if op['fmt'] == 'csr' else src.copy().toarray() if op['fmt'] == 'dense' else src.copy().asformat(op['fmt'])
                d = obj_lib.pack_csr_matrix(given)
                if op['through']:
                    d = pickle.loads(pickle.dumps(d))
                got = obj_lib.unpack_csr_matrix(d)
            else:
                d = obj_lib.json_pack_csr_matrix(src)
                if o == 'text':
                    d = json.loads(json.dumps(d))
                got = obj_lib.json_unpack_csr_matrix(d)
            if not ss.isspmatrix_csr(got):
                raise Mismatch('unpacked as ' + type(got).__name__)
            if got.dtype != src.dtype:
                raise Mismatch('unpacked with type %s, packed %s' % (got.dtype, src.dtype))
            if not np.array_equal(before, src.copy().toarray()):
                raise Mismatch('packing changed the matrix')
            now = [src.data, src.indices, src.indptr]
            if any(a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(stored, now)):
                raise Mismatch('packing changed what the matrix stores: %s, before %s' % (now, stored))
            if op['wrong'] and o != 'pack':
                for bad in ({'type': 'csc_matrix'},):
                    try:
                        obj_lib.json_unpack_csr_matrix(dict(d, **bad))
                    except Exception:
                        pass
                    else:
                        raise Mismatch('unpacked something that is not a packed csr matrix')
            self.m = got
        h = params.mat(rec['h'])
        if self.m.shape != h.shape:
            raise Mismatch('shape %s, expected %s' % (self.m.shape, h.shape))
        # in units
        expect('matrix', np.asarray(self.m.toarray(), dtype=float) / self.unit, h, 1e-12)
        if np.any((np.asarray(self.m.toarray()) != 0) != (h != 0)):
            raise Mismatch('zeros in other places: %s, expected %s' % (self.m.toarray(), h))
        expect('product with the matrix', (self.m * np.arange(1.0, h.shape[1] + 1)) / self.unit, np.dot(h, np.arange(1.0, h.shape[1] + 1)),
               1e-12)
