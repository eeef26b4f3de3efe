"""Arrays as a caller may hold them: the same numbers in memory of another
order, in part of a larger array, or not writable.  What a call is lent must
be the same after it, and what it returned must not change later."""
import random

import numpy as np


class Mismatch(Exception):
    pass


seen = []


class Caller(object):
    def __init__(self):
        self.rng = random.Random(len(seen))
        seen.append(None)
        self.lent = []
        self.got = []
        self.buf = {}

    def lend(self, a, fixed=True):
        """`fixed`: the array may be one that cannot be written."""
        if not isinstance(a, np.ndarray) or a.ndim == 0 or a.size == 0:
            return a
        k = self.rng.choice([0, 1, 1, 2, 3, 4] if a.ndim > 1 else [0, 1, 2, 3, 4])
        if k == 1:
            b = np.array(a, order='F') if a.ndim > 1 else np.repeat(a, 2)[::2]
        elif k == 2:
            b = np.full(tuple(2 * s for s in a.shape), 55.5, dtype=a.dtype)[tuple(slice(1, None, 2) for s in a.shape)]
            b[...] = a
        elif k == 3:
            b = np.array(a[::-1])[::-1]
        else:
            b = np.array(a, order='C')
            if k == 4 and fixed:
                b.flags.writeable = False
        self.lent.append((b, np.array(a)))
        return b

    def reuse(self, a, who=''):
        """One array per size, overwritten for each new call."""
        self.settle()
        if self.rng.random() < 0.2:
            return self.lend(a)
        key = (who, a.shape)
        if key not in self.buf:
            self.buf[key] = np.empty(a.shape)
        self.buf[key][...] = a
        self.lent.append((self.buf[key], np.array(a)))
        return self.buf[key]

    def keep(self, r):
        """A result the caller holds on to."""
        if isinstance(r, np.ndarray):
            self.got = self.got[-5:] + [(r, np.array(r))]

    def settle(self):
        for a, was in self.lent:
            if not np.array_equal(a, was):
                raise Mismatch('the call changed its argument: %s, before %s' % (a, was))
        self.lent = []
        for a, was in self.got:
            if not np.array_equal(a, was):
                raise Mismatch('an array returned earlier was changed: %s, before %s' % (a, was))
