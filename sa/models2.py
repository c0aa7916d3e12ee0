"""Models of basix and other libraries (registered into models.EXT)."""
import itertools
from fractions import Fraction
from . import terms as T, arrays as A
from .arrays import Arr, ProgError, asarr, scal, mkdim
from .terms import Undecided, ZERO, ONE, const, lift, add, mul, neg
from .interp import Model, ExtV, PyFn, Opaque, PyRaise
from .models import EXT, ext, unbox, AR, P

# --------------------------------------------------------------------------
# basix: reference cells, exact polynomial bases, symbolic quadrature rules

TDIM = {'interval': 1, 'triangle': 2, 'quadrilateral': 2, 'tetrahedron': 3, 'hexahedron': 3}
GEOM = {
    'interval': [(0,), (1,)],
    'triangle': [(0, 0), (1, 0), (0, 1)],
    'quadrilateral': [(0, 0), (1, 0), (0, 1), (1, 1)],
    'tetrahedron': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    'hexahedron': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)],
}
SUB = {
    'interval': [[[0], [1]], [[0, 1]]],
    'triangle': [[[0], [1], [2]], [[1, 2], [0, 2], [0, 1]], [[0, 1, 2]]],
    'quadrilateral': [[[0], [1], [2], [3]], [[0, 1], [0, 2], [1, 3], [2, 3]], [[0, 1, 2, 3]]],
    'tetrahedron': [[[0], [1], [2], [3]], [[2, 3], [1, 3], [1, 2], [0, 3], [0, 2], [0, 1]],
                    [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]], [[0, 1, 2, 3]]],
    'hexahedron': [[[i] for i in range(8)],
                   [[0, 1], [0, 2], [0, 4], [1, 3], [1, 5], [2, 3], [2, 6], [3, 7], [4, 5], [4, 6], [5, 7], [6, 7]],
                   [[0, 1, 2, 3], [0, 1, 4, 5], [0, 2, 4, 6], [1, 3, 5, 7], [2, 3, 6, 7], [4, 5, 6, 7]],
                   [list(range(8))]],
}


def cell_name(c):
    if isinstance(c, ExtV):
        n = c.path.rsplit('.', 1)[-1]
        if n in TDIM:
            return n
    raise Undecided('basix cell %r' % (c,))


def fam_name(f):
    if isinstance(f, ExtV):
        n = f.path.rsplit('.', 1)[-1]
        if n in ('P', 'lagrange'):
            return 'P'
        if n == 'serendipity':
            return n
    raise Undecided('basix family %r' % (f,))


def mean_pt(pts):
    n = len(pts)
    return tuple(sum(Fraction(p[i]) for p in pts) / n for i in range(len(pts[0])))


def basis_nodes(fam, cell, deg):
    """node positions of the nodal basis, in basix order"""
    g = GEOM[cell]
    if deg == 1:
        return [tuple(Fraction(x) for x in p) for p in g]
    if deg != 2:
        raise Undecided('basix degree %s' % deg)
    out = [tuple(Fraction(x) for x in p) for p in g]
    td = TDIM[cell]
    for d in range(1, td + 1):
        for e in SUB[cell][d]:
            pts = [g[v] for v in e]
            if fam == 'serendipity' and d > 1:
                continue
            if cell in ('triangle', 'tetrahedron') and d > 1:
                continue
            out.append(mean_pt(pts))
    return out


def lag1(x, t, deg):
    """1D Lagrange factor for node coordinate t"""
    x = lift(x)
    if deg == 1:
        return x if t == 1 else ONE - x
    if t == 0:
        return (ONE - x) * (ONE - 2 * x)
    if t == 1:
        return x * (2 * x - 1)
    return 4 * x * (ONE - x)


def nodal_poly(fam, cell, deg, k, x):
    """the nodal basis function of node k at point x (list of polynomials)"""
    nodes = basis_nodes(fam, cell, deg)
    n = nodes[k]
    if cell in ('triangle', 'tetrahedron'):
        L = [ONE - T.add_many(list(x))] + list(x)
        bc = [1 - sum(n)] + list(n)
        if deg == 1:
            return L[bc.index(1)]
        if 1 in bc:
            l = L[bc.index(1)]
            return l * (2 * l - 1)
        i, j = [q for q, b in enumerate(bc) if b]
        return 4 * L[i] * L[j]
    if fam == 'P':
        r = ONE
        for t, xx in zip(n, x):
            r = r * lag1(xx, t, deg)
        return r
    # serendipity of order 2 on quadrilateral / hexahedron
    half = Fraction(1, 2)
    f = lambda t, xx: (xx if t == 1 else ONE - xx)
    if half in n:
        r = ONE
        for t, xx in zip(n, x):
            r = r * (4 * xx * (ONE - xx) if t == half else f(t, xx))
        return r
    r = ONE
    for t, xx in zip(n, x):
        r = r * f(t, xx)
    s = T.add_many([f(t, xx) for t, xx in zip(n, x)])
    # N_v = prod f * (2 sum f - (2 d - 1))
    return r * (2 * s - const(2 * len(n) - 1))


def basix_poly(fam, cell, deg, k, x):
    """the basis function basix tabulates (serendipity is dual to edge averages)"""
    if fam == 'P' or deg == 1:
        return nodal_poly(fam, cell, deg, k, x)
    nodes = basis_nodes(fam, cell, deg)
    nv = len(GEOM[cell])
    if k >= nv:
        return const(Fraction(3, 2)) * nodal_poly(fam, cell, deg, k, x)
    r = nodal_poly(fam, cell, deg, k, x)
    for e, vs in enumerate(SUB[cell][1]):
        if k in vs:
            r = r - const(Fraction(1, 4)) * nodal_poly(fam, cell, deg, nv + e, x)
    return r


_POLY = {}


def basis_at(poly, fam, cell, deg, k, d, x):
    """value (d = 0) or derivative in direction d - 1 of function k at point x"""
    key = (poly.__name__, fam, cell, deg, k, d)
    if key not in _POLY:
        xs = [T.sym('ref:x%d' % i) for i in range(TDIM[cell])]
        p = poly(fam, cell, deg, k, xs)
        if d:
            p = T.diff(p, T.the_atom(xs[d - 1]))
        _POLY[key] = (p, xs)
    p, xs = _POLY[key]
    return T.subst(p, {T.the_atom(v): lift(t) for v, t in zip(xs, x)})


def quad_size(cell, order):
    return T.dim('nq:%s:%s' % (cell, order))


def quad_rule(cell, order):
    n = quad_size(cell, order)
    return A.leaf('qp:%s:%s' % (cell, order), [n, const(TDIM[cell])]), A.leaf('qw:%s:%s' % (cell, order), [n])


@ext('basix.make_quadrature', 'basix.quadrature.make_quadrature')
def bx_quad(I, a, k):
    d = dict(zip(['celltype', 'degree', 'rule', 'polyset_type'], a))
    d.update(k)
    cell = cell_name(d['celltype'])
    o = unbox(d['degree'])
    I.event('quadrature', cell, [o], {})
    if not isinstance(o, int):
        raise Undecided('quadrature order')
    return quad_rule(cell, o)


@ext('basix.geometry', 'basix.cell.geometry')
def bx_geom(I, a, k):
    return A.from_table([list(p) for p in GEOM[cell_name(a[0])]])


@ext('basix.topology', 'basix.cell.topology')
def bx_topo(I, a, k):
    return [[list(e) for e in d] for d in SUB[cell_name(a[0])]]


@ext('basix.cell.sub_entity_connectivity')
def bx_conn(I, a, k):
    c = cell_name(a[0])
    return [[[list(e)] + [[Opaque('connectivity')] for _ in range(TDIM[c])] for e in d] for d in SUB[c]]


def facet_frame(c):
    td = TDIM[c]
    out = []
    for e in SUB[c][td - 1]:
        p = [GEOM[c][v] for v in e]
        cols = [[p[j + 1][i] - p[0][i] for j in range(td - 1)] for i in range(td)]
        out.append(cols)
    return out


@ext('basix.cell.facet_jacobians')
def bx_fjac(I, a, k):
    c = cell_name(a[0])
    if TDIM[c] < 2:
        raise PyRaise('RuntimeError: Facet jacobians not supported for this cell type.')
    return A.from_table(facet_frame(c))


def outward(c):
    td = TDIM[c]
    mid = mean_pt(GEOM[c])
    out = []
    for e, J in zip(SUB[c][td - 1], facet_frame(c)):
        if td == 2:
            n = [J[1][0], -J[0][0]]
        else:
            u, v = [r[0] for r in J], [r[1] for r in J]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        fm = mean_pt([GEOM[c][v] for v in e])
        if sum(x * (f - m) for x, f, m in zip(n, fm, mid)) < 0:
            n = [-x for x in n]
        l = T.power(const(sum(x * x for x in n)), Fraction(-1, 2))
        out.append([mul(const(x), l) for x in n])
    return out


@ext('basix.cell.facet_outward_normals')
def bx_normals(I, a, k):
    return A.from_table(outward(cell_name(a[0])))


@ext('basix.cell.facet_normals')
def bx_fnormals(I, a, k):
    raise Undecided('facet_normals')


class BasixElement(Model):
    def __init__(self, fam, cell, deg):
        self.fam, self.cell, self.deg = fam, cell, deg
        self.a_dim = len(basis_nodes(fam, cell, deg))
        self.a_degree = deg

    def m_tabulate(self, I, n, pts):
        n = unbox(n)
        pts = A.snapshot(AR(pts))
        td = TDIM[self.cell]
        if n not in (0, 1):
            raise Undecided('derivatives of order %s' % n)
        if pts.ndim != 2:
            raise PyRaise('TypeError: tabulate() expects a two-dimensional array of points')
        A.same_or_fail(pts.shape[1], mkdim(td), 'point dimension')
        nb = self.a_dim

        def fn(idx):
            d, q, k, _ = idx
            x = [pts.get((q, const(i))) for i in range(td)]
            kc, dc = lift(k).const(), lift(d).const()
            ks = range(nb) if kc is None else [int(kc)]
            ds = range(1 + n * td) if dc is None else [int(dc)]
            row = lambda kk: A.pick(d, [basis_at(basix_poly, self.fam, self.cell, self.deg, kk, dd, x) for dd in ds]) \
                if dc is None else basis_at(basix_poly, self.fam, self.cell, self.deg, kk, ds[0], x)
            return A.pick(k, [row(kk) for kk in ks]) if kc is None else row(ks[0])
        return Arr([mkdim(1 + n * td), pts.shape[0], mkdim(nb), mkdim(1)], fn, 'f', 'np')

    def attr(self, I, name):
        if name == 'dim':
            return self.a_dim
        return Model.attr(self, I, name)


@ext('basix.create_element', 'basix.finite_element.create_element')
def bx_elem(I, a, k):
    d = dict(zip(['family_name', 'celltype', 'degree'], a))
    d.update(k)
    fam = fam_name(d.get('family_name', d.get('family')))
    deg = unbox(d['degree'])
    if set(d) - {'family_name', 'family', 'celltype', 'degree'}:
        raise Undecided('element options %s' % sorted(d))
    return BasixElement(fam, cell_name(d['celltype']), deg)


@ext('basix.index')
def bx_index(I, a, k):
    raise Undecided('basix.index')
