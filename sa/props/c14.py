"""Finite-volume meshes: connectivity, geometry and boundary tables for every grid size."""
from .. import terms as T, arrays as A
from ..spec import *
from fractions import Fraction
CFD = 'jax_am.cfd.cfd_am'
H = const(Fraction(1, 2))


class Grid:
    """A mesh2d / mesh3d object over symbolic counts and lengths, with its specification."""

    def __init__(self, ck, d, pre='', call=True, I=None, n=None):
        self.ck, self.d = ck, d
        self.I = I or ck.interp()
        self.n = n or [dim(pre + 'n' + 'xyz'[i]) for i in range(d)]
        self.L = [sym(pre + 'L' + 'xyz'[i], positive=True) for i in range(d)]
        self.name = 'mesh%dd' % d
        self.cls = ck.fn(self.I, CFD, self.name)
        if call:
            self.o = self.I.call(self.cls, [[scal(x, 'f') for x in self.L], [isym(x) for x in self.n]])
        self.h = [l / n for l, n in zip(self.L, self.n)]
        self.vol = T.mul_many(self.h)
        self.cells = A.prod_dim([mkdim(x) for x in self.n])
        self.area = [self.vol / h for h in self.h]

    def cid(self, c):
        r = lift(c[0])
        for k in range(1, self.d):
            r = r * self.n[k] + lift(c[k])
        return r

    def coords(self, i):
        out = []
        i = lift(i)
        for k in range(self.d - 1, 0, -1):
            out.append(T.mod(i, self.n[k]))
            i = T.floordiv(i, self.n[k])
        return [i] + out[::-1]

    def nb(self, c, slot):
        """cell on the other side of face `slot` (1..2d); the cell itself at the boundary"""
        c = list(c)
        if slot:
            ax, up = (slot - 1) // 2, (slot - 1) % 2
            if up:
                c[ax] = ite(T.eq0(c[ax] - self.n[ax] + 1), c[ax], c[ax] + 1)
            else:
                c[ax] = ite(T.eq0(c[ax]), c[ax], c[ax] - 1)
        return self.cid(c)

    def face(self, s):
        """boundary face set s: dims of the remaining axes, and the cell multi-index of its entries"""
        ax, up = s // 2, s % 2
        rest = [k for k in range(self.d) if k != ax]
        dims = [mkdim(self.n[k]) for k in rest]

        def cell(idx):
            c = [None] * self.d
            c[ax] = self.n[ax] - 1 if up else ZERO
            for k, x in zip(rest, idx):
                c[k] = lift(x)
            return c
        return A.prod_dim(dims), dims, cell

    def fcell(self, s, j):
        _, dims, cell = self.face(s)
        j = lift(j)
        if len(dims) == 1:
            return cell([j])
        n1 = dims[1].p
        return cell([T.floordiv(j, n1), T.mod(j, n1)])

    def per_cell(self, f):
        """array over flat cells from f(multi-index)"""
        d = A.prod_dim([mkdim(x) for x in self.n])
        return Arr([d], lambda ix: lift(f(self.coords(ix[0]))), 'f', 'jnp')

    def over_faces(self, f, rank=()):
        """array over all boundary faces in set order from f(set, flat position, *rest)"""
        parts = []
        for s in range(2 * self.d):
            dm = self.face(s)[0]
            parts.append(Arr([dm] + [mkdim(r) for r in rank], lambda ix, s=s: lift(f(s, *ix))))
        return A.concat(parts, 0)

    def centre(self, c, k):
        return (lift(c[k]) + H) * self.h[k]


def run(ck):
    ck.map(lambda x: tables(ck, *x), [(2,), (3,)])


def tables(ck, d):
    tag = '[%dD]' % d

    def go():
        g = Grid(ck, d)
        at = g.o.attrs
        w = g.cls
        m = lambda n: ck.fn(g.I, CFD, '%s.%s' % (g.name, n))
        ck.eq('number of cells ' + tag, at['cell_num'], scal(T.mul_many(g.n), 'i'), m('generate_mesh'))
        ck.eq('shape ' + tag, list(at['shape']), [scal(x, 'i') for x in g.n], w)
        ck.eq('cell sizes ' + tag, at['dX'], A.from_table(g.h), m('generate_mesh'))
        ck.eq('cell volume ' + tag, at['dV'], scal(g.vol), m('generate_mesh'))
        ck.eq('cell centres ' + tag, at['Xc'], Arr([g.cells, mkdim(d)], lambda ix: A.pick(ix[1], [
            g.centre(g.coords(ix[0]), k) for k in range(d)])), m('generate_mesh'))
        ck.eq('every cell lists itself and its neighbour across each face, itself at the boundary ' + tag, at['cell_conn'],
              Arr([g.cells, mkdim(2 * d + 1)], lambda ix: A.pick(ix[1], [
                  g.nb(g.coords(ix[0]), s) for s in range(2 * d + 1)]), 'i'), m('get_neighbor'))
        D, S = A.asarr(at['D']), A.asarr(at['dS'])
        sg = [1 if s % 2 else -1 for s in range(2 * d)]
        ck.eq('signed distances follow the neighbour slots ' + tag, D, A.from_table([const(sg[s]) * g.h[s // 2] for s in range(2 * d)]),
              m('generate_mesh'))
        ck.eq('signed face areas follow the neighbour slots ' + tag, S,
              A.from_table([const(sg[s]) * g.area[s // 2] for s in range(2 * d)]), m('generate_mesh'))
        ms = m('get_surface')
        ck.eq('boundary face cells, side by side ' + tag, at['surf_cell'],
              g.over_faces(lambda s, j: g.cid(g.fcell(s, j))), ms)
        off = ZERO
        sets, nums = [], []
        for s in range(2 * d):
            dm = g.face(s)[0]
            sets.append(Arr([dm], lambda ix, off=off: off + ix[0], 'i'))
            nums.append(scal(dm.p, 'i'))
            off = off + dm.p
        ck.eq('side index ranges tile the boundary faces ' + tag, list(at['surf_sets']), sets, ms)
        ck.eq('side sizes ' + tag, list(at['surf_set_num']), nums, ms)
        ck.eq('side numbers ' + tag, at['surf_orient'], g.over_faces(lambda s, j: const(s)), ms)
        ck.eq('boundary face centres ' + tag, at['surface'], g.over_faces(lambda s, j, k: A.pick(k, [
            g.centre(g.fcell(s, j), q) + (const(sg[s]) * H * g.h[q] if q == s // 2 else ZERO) for q in range(d)]), [d]), ms)
        return True
    ck.ob('mesh tables ' + tag, go, CFD)
