"""Fields on a finite-volume grid with ghost cells."""
from .c14 import *


class Field:
    """f over [nx, ny, nz, comps] with boundary types per side and arbitrary boundary values."""

    def __init__(self, name, comps=1, types=None, vals=None, n=None):
        self.n = n or [dim('n' + x) for x in 'xyz']
        self.c = lift(comps)
        self.f = leaf(name, self.n + [self.c], 'f', 'jnp')
        self.h = [sym('h' + x, positive=True) for x in 'xyz']
        self.dX = A.from_table(self.h)
        self.dX.lib = 'jnp'
        self.types = types
        if types is not None and vals is None:
            vals = []
            for s in range(6):
                sh = list(self.n) + [self.c]
                sh[s // 2] = ONE
                vals.append(leaf('%s:bv%d' % (name, s), sh, 'f', 'jnp'))
        self.vals = vals
        self.BCs = None if types is None else [list(types), list(vals)]

    def at(self, idx):
        return self.f.get(tuple(idx))

    def ghost(self, s, idx):
        """value in the ghost cell beyond side s"""
        ax, up = s // 2, s % 2
        c = [lift(x) for x in idx]
        c[ax] = self.n[ax] - 1 if up else ZERO
        inner = self.at(c)
        if self.types is None:
            return inner
        v = A.asarr(self.vals[s])
        b = list(c)
        b[ax] = ZERO
        val = v.get(tuple(A.bidx(v.shape, b)) if v.ndim == 4 else tuple(A.bidx(v.shape, b[4 - v.ndim:]))) if v.ndim else v.scalar()
        t = self.types[s]
        diri, neu = 2 * val - inner, inner + const(1 if up else -1) * self.h[ax] * val
        if t == 0:
            return diri
        if t == 1:
            return neu
        return ite(T.eq0(c[3] - 2), diri, neu)

    def ext(self, ax, idx):
        """field extended beyond both ends of axis ax by the ghost value"""
        i = lift(idx[ax])
        r = ite(T.ge0(i), ite(T.gt0(self.n[ax] - i), self.inner(idx, ax), self.ghost(2 * ax + 1, idx)), self.ghost(2 * ax, idx))
        return r

    def inner(self, idx, ax):
        return self.at(idx)

    def e(self, ax, idx, k):
        """extended value k cells further along axis ax"""
        c = list(idx)
        c[ax] = lift(c[ax]) + k
        return self.ext(ax, c)

    def call_gc(self, I, ck):
        return I.call(ck.fn(I, CFD, 'get_GC_values'), [self.f, self.BCs, self.dX])


def zero_bcs(I=None):
    return [[1] * 6, [Fraction(0)] * 6]
