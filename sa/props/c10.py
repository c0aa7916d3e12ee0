"""Element tables: nodal shape functions in mesh node order, quadrature, faces."""
from fractions import Fraction
from .femlib import *
from .. import models2 as M2
GM = 'jax_am.fem.generate_mesh'

HEXV = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
HEXE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
H = Fraction(1, 2)
TETV = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
QV = [(0, 0), (1, 0), (1, 1), (0, 1)]
TV = [(0, 0), (1, 0), (0, 1)]
QE = [(0, 1), (1, 2), (2, 3), (3, 0)]


def mids(V, E):
    return [tuple(Fraction(x + y, 2) for x, y in zip(V[a], V[b])) for a, b in E]


# (cell, facet, family, degree, node positions in meshio / VTK / Abaqus order, least exact quadrature degree, meshio name)
EL = {
    'HEX8': ('hexahedron', 'quadrilateral', 'P', 1, HEXV, 2, 'hexahedron'),
    'HEX20': ('hexahedron', 'quadrilateral', 'serendipity', 2, HEXV + mids(HEXV, HEXE), 2, 'hexahedron20'),
    'HEX27': ('hexahedron', 'quadrilateral', 'P', 2, HEXV + mids(HEXV, HEXE) + [
        (0, H, H), (1, H, H), (H, 0, H), (H, 1, H), (H, H, 0), (H, H, 1), (H, H, H)], 4, 'hexahedron27'),
    'TET4': ('tetrahedron', 'triangle', 'P', 1, TETV, 0, 'tetra'),
    'TET10': ('tetrahedron', 'triangle', 'P', 2,
              TETV + mids(TETV, [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]), 2, 'tetra10'),
    'QUAD4': ('quadrilateral', 'interval', 'P', 1, QV, 2, 'quad'),
    'QUAD8': ('quadrilateral', 'interval', 'serendipity', 2, QV + mids(QV, QE), 2, 'quad8'),
    'TRI3': ('triangle', 'interval', 'P', 1, TV, 0, 'triangle'),
    'TRI6': ('triangle', 'interval', 'P', 2, TV + mids(TV, [(0, 1), (1, 2), (2, 0)]), 2, 'triangle6'),
}


class Ele:
    def __init__(self, t):
        self.cell, self.facet, self.fam, self.deg, self.pos, self.order, self.mio = EL[t]
        self.td = M2.TDIM[self.cell]
        nodes = M2.basis_nodes(self.fam, self.cell, self.deg)
        self.k = [nodes.index(tuple(Fraction(x) for x in p)) for p in self.pos]

    def N(self, a, d, x):
        return M2.basis_at(M2.nodal_poly, self.fam, self.cell, self.deg, self.k[a], d, x)

    def table(self, nq, pt, grads):
        n = len(self.pos)
        if not grads:
            return Arr(nq + [mkdim(n)], lambda ix: A.pick(ix[-1], [self.N(a, 0, pt(ix[:-1])) for a in range(n)])
                       if lift(ix[-1]).const() is None else self.N(int(lift(ix[-1]).const()), 0, pt(ix[:-1])))

        def fn(ix):
            a, d = lift(ix[-2]).const(), lift(ix[-1]).const()
            if a is None or d is None:
                raise T.Undecided('symbolic node')
            return self.N(int(a), int(d) + 1, pt(ix[:-2]))
        return Arr(nq + [mkdim(n), mkdim(self.td)], fn)


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(volume, t) for t in EL] + [(face, t) for t in EL] + [(names,)])


def rule(ck, I, e, cell, t, w, what):
    ev = [x for x in I.events if x.kind == 'quadrature']
    own = [x for x in ev if x.name == cell]
    if len(own) != 1:
        if len(ev) == 1:
            return 'the %s rule is one for %s' % (what, ev[0].name)
        raise T.Undecided('%d quadrature rules' % len(ev))
    o = own[0].args[0]
    ck.holds('%s quadrature strong enough [%s]' % (what, t), o >= e.order,
             'quadrature degree %s, the element needs %s' % (o, e.order), w)
    return o


def volume(ck, t):
    def go():
        I = ck.interp()
        f = ck.fn(I, BASIS, 'get_shape_vals_and_grads')
        e = Ele(t)
        got = I.call(f, [t])
        o = rule(ck, I, e, e.cell, t, f, 'volume')
        if isinstance(o, str):
            return o
        qp, qw = M2.quad_rule(e.cell, o)
        pt = lambda ix: [qp.get((ix[0], const(i))) for i in range(e.td)]
        nq = [qp.shape[0]]
        ck.eq('shape function a is 1 at mesh node a and 0 at the others [%s]' % t, got[0], e.table(nq, pt, False), f)
        ck.eq('reference gradients are theirs [%s]' % t, got[1], e.table(nq, pt, True), f)
        ck.eq('quadrature weights belong to the points [%s]' % t, got[2], qw, f)
        return True
    ck.ob('volume tables [%s]' % t, go, BASIS + '.get_shape_vals_and_grads')


def face(ck, t):
    def go():
        I = ck.interp()
        f = ck.fn(I, BASIS, 'get_face_shape_vals_and_grads')
        e = Ele(t)
        got = I.call(f, [t])
        o = rule(ck, I, e, e.facet, t, f, 'face')
        if isinstance(o, str):
            return o
        qp, qw = M2.quad_rule(e.facet, o)
        facets = M2.SUB[e.cell][e.td - 1]
        G = M2.GEOM[e.cell]
        nv = len(facets[0])

        def pt(ix):
            c = lift(ix[0]).const()
            if c is None:
                raise T.Undecided('symbolic face')
            x = [qp.get((ix[1], const(i))) for i in range(e.td - 1)]
            vs = facets[int(c)]
            s = [M2.basis_at(M2.nodal_poly, 'P', e.facet, 1, j, 0, x) for j in range(nv)]
            return [T.add_many([const(G[v][i]) * s[j] for j, v in enumerate(vs)]) for i in range(e.td)]
        nq = [mkdim(len(facets)), qp.shape[0]]
        ck.eq('shape functions at the face quadrature points [%s]' % t, got[0], e.table(nq, pt, False), f)
        ck.eq('reference gradients at the face quadrature points [%s]' % t, got[1], e.table(nq, pt, True), f)
        area = []
        for J in M2.facet_frame(e.cell):
            c = [[r[k] for r in J] for k in range(e.td - 1)]
            if e.td == 2:
                area.append(T.power(const(sum(x * x for x in c[0])), H))
            else:
                u, v = c
                n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
                area.append(T.power(const(sum(x * x for x in n)), H))
        ck.eq('face weights = rule weights times facet size [%s]' % t, got[2],
              Arr(nq, lambda ix: qw.get((ix[1],)) * A.pick(ix[0], area)), f)
        ck.eq('face normals are the unit outward ones [%s]' % t, got[3], A.from_table(M2.outward(e.cell)), f)
        fi = A.asarr(got[4])
        if fi.ndim != 2 or fi.shape[0].c() != len(facets) or fi.shape[1].c() is None:
            return 'face node table has shape %s' % (fi.shape,)
        for k, vs in enumerate(facets):
            need = {e.k.index(v) for v in vs}
            pl = [tuple(G[v]) for v in vs]
            on = {a for a, p in enumerate(e.pos) if on_facet(p, pl)}
            have = []
            for j in range(fi.shape[1].c()):
                c = fi.get((const(k), const(j))).const()
                if c is None:
                    raise T.Undecided('face node table entry')
                have.append(int(c))
            ok = need <= set(have) and set(have) <= on and len(set(have)) == len(have)
            ck.holds('face %d names its own mesh nodes [%s]' % (k, t), ok,
                     'face %d lists nodes %s, its vertices are mesh nodes %s' % (k, have, sorted(need)), f)
        return True
    ck.ob('face tables [%s]' % t, go, BASIS + '.get_face_shape_vals_and_grads')


def on_facet(p, pl):
    """p in the plane / line of the facet points pl"""
    o = pl[0]
    d = [[a - b for a, b in zip(q, o)] for q in pl[1:]]
    x = [a - b for a, b in zip(p, o)]
    if len(o) == 2:
        return x[0] * d[0][1] - x[1] * d[0][0] == 0
    u, v = d[0], d[1]
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return sum(a * b for a, b in zip(x, n)) == 0


def names(ck):
    I = ck.interp()
    f = ck.fn(I, GM, 'get_meshio_cell_type')
    for t in EL:
        ck.eq('mesh file cell type of %s' % t, lambda: I.call(f, [t]), EL[t][6], f)
