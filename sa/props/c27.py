"""Polycrystal geometry, orientations, layers and grain statistics inputs."""
from .meshlib import *
from fractions import Fraction
import re
PU, NEP = 'jax_am.phase_field.utils', 'jax_am.phase_field.neper'


def run(ck):
    items = [(field,), (colors, True), (colors, False), (layers,), (inputs,), (ratios,), (grains,), (neper, True), (neper, False)]
    g = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 2), (2, 3, 2), (3, 2, 4)] + ([(4, 3, 3), (5, 4, 3)] if ck.thorough else [])
    items += [(edges,) + x for x in g]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


OBJ = ['v 0.0 0.0 0.0\n', 'v 1.0 0.5 0.0\n', 'v 0.0 1.0 0.25\n', 'v 0.0 0.0 1.0\n', 'g cell1\n', 'f 1 2 3\n', 'f 1 3 4\n', 'g cell2\n', 'f 2 3 4 1\n']


def field(ck):
    def go():
        I = ck.interp()
        np_, ne, ng, no = dim('np'), dim('ne'), dim('ng'), dim('no')
        L = {'domain_' + c: sym('L' + c, positive=True) for c in 'xyz'}
        pts, cl = leaf('pts', [np_, 3], 'f', positive=True), leaf('cl', [ne, 8], 'i', hi=np_)
        phys = arr([ne], lambda e: T.app('grain', (), (e,), is_int=True, rng=(ZERO, ng)) + 1, 'i')
        log = []
        m = MeshM(log, pts, [('hexahedron', cl)], {}, {'gmsh:physical': [phys], 'gmsh:geometrical': [leaf('geo', [ne], 'i')]})
        io = IO(I, {'DATA/neper/domain.msh': m})
        I.files['DATA/neper/domain.obj'] = OBJ
        a = {k: scal(v, 'f') for k, v in L.items()}
        a.update(data_dir='DATA', num_grains=isym(ng), num_oris=isym(no))
        cls = ck.fn(I, PU, 'Field')
        I.stubs[PU + '.get_unique_ori_colors'] = lambda I, f, x, k: None
        ev0 = len(I.events)
        o = I.call(cls, [a])
        w = ck.fn(I, PU, 'Field.process_neper_mesh')
        at = lambda n: I.getattr(o, n)
        rnd = lambda x: T.app('round', (x,), is_int=True)
        Nx = rnd(L['domain_x'] / pts.get((ONE, ZERO)))
        Ny = rnd(L['domain_y'] / pts.get((Nx + 1, ONE)))
        Nz = rnd(L['domain_z'] / pts.get(((Nx + 1) * (Ny + 1), const(2))))
        ck.eq('grid sizes follow the point spacing along each axis', [a['Nx'], a['Ny'], a['Nz']], [isym(x) for x in (Nx, Ny, Nz)], w)
        ck.eq('cell sizes are domain length over cell count', list(at('mesh_h_xyz')), [scal(L['domain_x'] / Nx), scal(L['domain_y'] / Ny), scal(L['domain_z'] / Nz)], w)
        ck.eq('cell centres are the mean of the corners', at('centroids'), arr([ne, 3], lambda e, k: sm([8], lambda v: pts.get((cl.get((e, v)), k))) / 8), w)
        rd = [e for e in I.events[ev0:] if e.kind == 'random' and e.name.endswith('randint')]
        if len(rd) != 1:
            raise Undecided('%d random draws' % len(rd))
        r = A.asarr(at('cell_ori_inds'))
        draw = A.asarr(rd[0].res)
        if draw.ndim != 1:
            raise Undecided('orientation draw of another shape')
        ck.eq('one orientation is drawn per grain', isym(draw.shape[0].p), isym(ng), w)
        ck.eq('every cell has the orientation drawn for its grain', r, arr([ne], lambda e: draw.get((phys.get((e,)) - 1,)), 'i'), w)
        args = rd[0].args
        hi = args[1] if len(args) > 1 else args[0]
        ck.eq('orientation numbers are drawn from the available ones', hi, isym(no), w)
        ck.eq('grain numbers start at zero', m.cell_data.get('grain_inds', [0])[0], arr([ne], lambda e: phys.get((e,)) - 1, 'i'), w)
        ps = [f['path'] for f in log] + [f['path'] for f in io.writes]
        ck.holds('meshes are written under the data directory', ps == ['DATA/vtk/pf/mesh/fd_mesh.vtu', 'DATA/vtk/pf/mesh/poly_mesh.vtu'] and 'DATA/vtk/pf/mesh' in io.made(),
                 'written %s' % ps, w)
        if io.writes:
            f = io.writes[0]
            ck.eq('polyhedron vertices are those of the file', f['points'], A.from_nested([[0, 0, 0], [1, Fraction(1, 2), 0], [0, 1, Fraction(1, 4)], [0, 0, 1]])
                  if hasattr(A, 'from_nested') else nested([[0, 0, 0], [1, Fraction(1, 2), 0], [0, 1, Fraction(1, 4)], [0, 0, 1]]), w)
            got = [[[int(x) for x in q] for q in c] for c in f['cells'][0][1]]
            ck.holds('polyhedron faces belong to their grain with zero-based vertices', got == [[[0, 1, 2], [0, 2, 3]], [[1, 2, 3, 0]]], 'faces %s' % got, w)
        verified(ck, I, I.events[ev0:], (('grain count', 'ng', eqi(ng, A.asarr(I.call(I.models.ExtV('numpy.max'), [phys])).scalar())),
                                         ('grid size', 'pts', eqi(Nx * Ny * Nz, ne))), w)
        return True
    ck.ob('polycrystal mesh', go, PU + '.Field')


def verified(ck, I, events, wants, w):
    """each condition is enforced by an assertion or a raise"""
    fs = []
    for e in events:
        if e.kind not in ('assert', 'abort'):
            continue
        c = A.asarr(e.args[0]).scalar()
        c = c if e.kind == 'assert' else T.not_(c)
        if len(c.t) == 1 and list(c.t.values()) == [1]:
            fs += [T.of_atom(a, k) for m in c.t for a, k in m]
        else:
            fs.append(c)
    names = lambda p: set(re.findall(r'[A-Za-z_]\w*', T.show(p, 200)))
    for what, mark, want in wants:
        def go(what=what, mark=mark, want=want):
            if any(f is want or f.id == want.id for f in fs):
                return True
            near = [f for f in fs if mark in names(f)]
            if not near:
                return 'the mesh file is never compared with the given %s' % what
            if len(near) > 1:
                raise Undecided('several checks of the %s' % what)
            ck.eq('a mesh file with another %s is refused' % what, scal(near[0], 'b'), scal(want, 'b'), w)
            return True
        ck.ob('%s is verified against the mesh file' % what, go, w)


def nested(x):
    return arr([len(x), len(x[0])], lambda i, j: A.pick(i, [A.pick(j, [const(v) for v in r]) for r in x]))


class Ori(Model):
    def __init__(self, data):
        self.data = data
        self.sym = None

    def attr(self, I, n):
        if n == 'data':
            return self.data
        if n == 'scatter':
            return PyFn(lambda I, a, k: None, n)
        raise Undecided('Orientation.' + n)

    def setattr(self, I, n, v):
        if n == 'data':
            self.data = v


class Rot(Model):
    """rotations from quaternions with the scalar last"""
    def __init__(self, q):
        self.q = A.snapshot(A.asarr(q))

    def attr(self, I, n):
        if n == 'apply':
            return PyFn(self.apply, n)
        raise Undecided('Rotation.' + n)

    def apply(self, I, a, k):
        v = A.snapshot(A.asarr(a[0]))
        q = self.q
        if v.ndim != 1:
            raise Undecided('rotation of several vectors')
        return arr([q.shape[0].p, 3], lambda i, c: rot([q.get((i, const(j))) for j in range(4)], [v.get((const(j),)) for j in range(3)], c))


def rot(q, v, c):
    x, y, z, s = q
    n = x * x + y * y + z * z + s * s
    M = [[s * s + x * x - y * y - z * z, 2 * (x * y - z * s), 2 * (x * z + y * s)],
         [2 * (x * y + z * s), s * s - x * x + y * y - z * z, 2 * (y * z - x * s)],
         [2 * (x * z - y * s), 2 * (y * z + x * s), s * s - x * x - y * y + z * z]]
    return A.pick(c, [T.add_many([M[r][j] * v[j] for j in range(3)]) / n for r in range(3)])


def colors(ck, given):
    tag = '[orientations %s]' % ('given' if given else 'random')

    def go():
        I = ck.interp()
        no = dim('no')
        D = leaf('quat', [no, 4], 'f')
        made = []

        def rand(I, a, k):
            made.append(a)
            return Ori(D)
        I.ext['orix.quaternion.Orientation.random'] = PyFn(rand, 'random')
        I.ext['orix.vector.Vector3d'] = PyFn(lambda I, a, k: ('vec',) + tuple(int(x) for x in a[0]), 'Vector3d')

        class Key(Model):
            def __init__(s, v):
                s.v = v

            def attr(s, I, n):
                if n == 'orientation2color':
                    return PyFn(lambda I, a, k: arr([no, 3], lambda i, c: T.app('ipf%s' % (s.v,), (A.tlam(A.asarr(a[0].data)),), (i, c))), n)
                if n == 'direction':
                    return s.v
                if n == 'plot':
                    return PyFn(lambda I, a, k: None, n)
                raise Undecided('colour key ' + n)
        I.ext['orix.plot.IPFColorKeyTSL'] = PyFn(lambda I, a, k: Key(a[1] if len(a) > 1 else k.get('direction')), 'key')
        I.ext['scipy.spatial.transform.Rotation.from_quat'] = PyFn(lambda I, a, k: Rot(a[0]), 'from_quat')
        I.stubs[PU + '.process_neper_mesh'] = lambda I, f, x, k: None
        a = {'data_dir': 'DATA', 'num_oris': isym(no)}
        cls = ck.fn(I, PU, 'Field')
        o = I.call(cls, [a] + ([Ori(D)] if given else []))
        w = ck.fn(I, PU, 'Field.get_unique_ori_colors')
        if given:
            ck.holds('given orientations are used ' + tag, not made, 'new orientations are drawn', w)
        else:
            ck.eq('one random orientation per number ' + tag, made[0][0] if made else 0, isym(no), w)
        e3 = [[ONE if i == j else ZERO for i in range(3)] for j in range(3)]
        ck.eq('grain axes are the rotated coordinate axes (quaternion with the scalar first) ' + tag, I.getattr(o, 'unique_grain_directions'),
              arr([3, no, 3], lambda d, i, c: A.pick(d, [rot([D.get((i, const(j))) for j in (1, 2, 3, 0)], e3[k], c) for k in range(3)])), w)
        ck.eq('colours are those of the three specimen directions in order ' + tag, I.getattr(o, 'unique_oris_rgb'),
              arr([3, no, 3], lambda d, i, c: A.pick(d, [T.app('ipf%s' % (('vec',) + tuple(int(k == j) for j in range(3)),), (A.tlam(D),), (i, c)) for k in range(3)])), w)
        sv = [e for e in I.events if e.kind == 'io' and e.name == 'numpy.save']
        ck.holds('orientations are saved under the data directory ' + tag, [str(e.args[0]) for e in sv] == ['DATA/numpy/pf/quat.npy'],
                 'saved %s' % [str(e.args[0]) for e in sv], w)
        if len(sv) == 1:
            ck.eq('as the quaternions in use ' + tag, sv[0].args[1], D, w)
        return True
    ck.ob('orientations ' + tag, go, PU + '.Field.get_unique_ori_colors')


def layers(ck):
    def go():
        I = ck.interp()
        np_, ne, no = dim('np'), dim('ne'), dim('no')
        lay = dim('layer')
        Lz = sym('Lz', positive=True)

        def poly(s, n, e):
            m = MeshM([], leaf('pts' + s, [n, 3], 'f'), [('hexahedron', leaf('cl' + s, [e, 8], 'i', hi=n))], {},
                      {'gmsh:physical': [leaf('ph' + s, [e], 'i')], 'gmsh:geometrical': [leaf('ge' + s, [e], 'i')], 'grain_inds': [leaf('gr' + s, [e], 'i')]})
            return dict(mesh=m, centroids=leaf('ce' + s, [e, 3], 'f'), cell_ori_inds=leaf('or' + s, [e], 'i', hi=no))
        on, oe = mul(np_, lay), mul(ne, lay)
        old = obj(**poly('o', on, oe))
        seen = []

        def init(I, f, a, k):
            seen.append(a[1:] + list(k.values()))
            for q, v in poly('n', np_, ne).items():
                a[0].attrs[q] = v
        I.stubs[PU + '.__init__'] = init
        pa = {'domain_z': scal(Lz, 'f')}
        ori = obj()
        w = ck.fn(I, PU, 'generate_new_mesh')
        r = I.call(w, [pa, ori, old, isym(lay)])
        ck.holds('the new layer uses the given parameters and orientations', len(seen) == 1 and seen[0][0] is pa and len(seen[0]) > 1 and seen[0][1] is ori,
                 '%d polycrystals built' % len(seen), w)
        g = lambda n: I.getattr(r, n)
        m = g('mesh')
        up = lambda k: ite(eqi(k, 2), Lz * lay, ZERO)

        def want(name, f=lambda v, *t: v, n1=oe, n2=ne, tail=()):
            a, b = leaf(name + 'o', [n1] + list(tail), 'f'), leaf(name + 'n', [n2] + list(tail), 'f')
            return I.call(I.models.ExtV('numpy.concatenate'), [(a, arr([n2] + list(tail), lambda *ix: f(b.get(ix), *ix)))], {'axis': 0})
        ck.eq('the new layer lies on top of the earlier ones', m.points, want('pts', lambda v, i, k: v + up(k), on, np_, (3,)), w)
        ck.eq('cells of the new layer refer to the points of the new layer', m.cells[0].data, I.call(I.models.ExtV('numpy.concatenate'), [(
            leaf('clo', [oe, 8], 'i', hi=on), arr([ne, 8], lambda e, v: leaf('cln', [ne, 8], 'i', hi=np_).get((e, v)) + on, 'i'))], {'axis': 0}), w)
        ck.eq('cell centres move with the layer', g('centroids'), want('ce', lambda v, i, k: v + up(k), tail=(3,)), w)
        ic = lambda n: I.call(I.models.ExtV('numpy.concatenate'), [(leaf(n + 'o', [oe], 'i'), leaf(n + 'n', [ne], 'i'))], {'axis': 0})
        for q, n in (('gmsh:physical', 'ph'), ('gmsh:geometrical', 'ge'), ('grain_inds', 'gr')):
            ck.eq('%s of all layers is kept in order' % q, m.cell_data[q][0], ic(n), w)
        ck.eq('orientations of all layers are kept in order', g('cell_ori_inds'), I.call(I.models.ExtV('numpy.concatenate'), [(
            leaf('oro', [oe], 'i', hi=no), leaf('orn', [ne], 'i', hi=no))], {'axis': 0}), w)
        om = old.attrs['mesh']
        ck.eq('earlier layers are not modified', [om.points, om.cells[0].data, old.attrs['centroids'], old.attrs['cell_ori_inds']],
              [leaf('ptso', [on, 3], 'f'), leaf('clo', [oe, 8], 'i', hi=on), leaf('ceo', [oe, 3], 'f'), leaf('oro', [oe], 'i', hi=no)], w)
        return True
    ck.ob('layers', go, PU + '.generate_new_mesh')


def edges(ck, nx, ny, nz):
    tag = '[%dx%dx%d]' % (nx, ny, nz)

    def go():
        I = ck.interp()
        w = ck.fn(I, PU, 'compute_edges_in_order')
        r = I.call(w, [{'Nx': nx, 'Ny': ny, 'Nz': nz}])
        bad = []
        at = lambda x, y, z: (z * ny + y) * nx + x
        if len(r) != nx * ny * nz:
            bad.append('%d lists' % len(r))
        else:
            for z in range(nz):
                for y in range(ny):
                    for x in range(nx):
                        want = sorted(at(x + a, y + b, z + c) for a, b, c in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))
                                      if 0 <= x + a < nx and 0 <= y + b < ny and 0 <= z + c < nz)
                        got = sorted(int(A.asarr(v).scalar().const()) for v in r[at(x, y, z)])
                        if got != want:
                            bad.append('cell (%d,%d,%d): %s, expected %s' % (x, y, z, got, want))
        ck.holds('cell adjacency is face adjacency of the grid, listed from both sides ' + tag, not bad, '; '.join(bad[:3]), w)
        return True
    ck.ob('cell adjacency ' + tag, go, PU + '.compute_edges_in_order')


def inputs(ck):
    def go():
        I = ck.interp()
        n = dim('n')
        vol, cen = leaf('vol', [n], 'f'), leaf('cen', [n, 3], 'f')
        ix = leaf('ix', [9], 'i', hi=n)
        g = lambda k: scal(ix.get((const(k),)), 'i')
        grains = [[g(0), g(1), g(2)], [g(3)], [g(4), g(5), g(6), g(7), g(8)]]
        w = ck.fn(I, PU, 'get_aspect_ratio_inputs')
        r = I.call(w, [grains, vol, cen])
        off = [(0, 3), (3, 1), (4, 5)]
        ck.eq('grain volumes are those of its cells', list(r[0]), [arr([c], lambda i, o=o: vol.get((ix.get((i + o,)),))) for o, c in off], w)
        ck.eq('grain points are the centres of its cells', list(r[1]), [arr([c, 3], lambda i, k, o=o: cen.get((ix.get((i + o,)), k))) for o, c in off], w)
        return True
    ck.ob('grain inputs', go, PU + '.get_aspect_ratio_inputs')


class PCA(Model):
    def __init__(self, nc):
        self.nc, self.x = nc, None

    def attr(self, I, n):
        if n == 'fit':
            def fit(I, a, k):
                self.x = A.tlam(A.asarr(a[0]))
                return self
            return PyFn(fit, 'fit')
        if self.x is None:
            raise PyRaise('AttributeError: ' + n)
        if n == 'explained_variance_':
            x = self.x
            return arr([self.nc], lambda i: T.app('pca', (x,), (i,), positive=True))
        if n == 'components_':
            return A.asarr(leaf('comp', [self.nc, 3], 'f'))
        raise Undecided('PCA.' + n)


def ratios(ck):
    def go():
        I = ck.interp()
        I.ext['sklearn.decomposition.PCA'] = PyFn(lambda I, a, k: PCA(k.get('n_components', a[0] if a else None)), 'PCA')
        w = ck.fn(I, PU, 'compute_aspect_ratios_and_vols')
        sz = [7, 2, 5, 4]
        v = [leaf('v%d' % k, [s], 'f') for k, s in enumerate(sz)]
        c = [leaf('c%d' % k, [s, 3], 'f') for k, s in enumerate(sz)]
        r = I.call(w, [v, c])
        ck.eq('one volume per grain, the sum over its cells', list(r[0]), [scal(sm([s], lambda i, q=q: q.get((i,)))) for q, s in zip(v, sz)], w)

        def ar(k):
            if sz[k] < 5:
                return scal(ONE, 'f')
            x = A.tlam(arr([sz[k], 3], lambda i, a: c[k].get((i, a)) * v[k].get((i,))))
            l = [sqrt(T.app('pca', (x,), (const(j),), positive=True)) for j in range(3)]
            return scal(2 * l[0] / (l[1] + l[2]), 'f')
        ck.eq('aspect ratio is the longest principal length over the mean of the others; small grains count as round', list(r[1]), [ar(k) for k in range(4)], w)
        return True
    ck.ob('aspect ratios', go, PU + '.compute_aspect_ratios_and_vols')


def grains(ck):
    def go():
        I = ck.interp()
        np_, ne = dim('np'), dim('ne')
        nx, ny, nz = dim('nx'), dim('ny'), dim('nz')
        ne = mul(mul(nx, ny), nz)
        L = {'domain_' + c: sym('L' + c, positive=True) for c in 'xyz'}
        pts, cl = leaf('pts', [np_, 3], 'f'), leaf('cl', [ne, 8], 'i', hi=np_)
        ori, temp = leaf('ori', [ne], 'i'), leaf('T', [ne, 1], 'f')
        read = []

        def rd(I, x, k):
            read.append(str(x[0]))
            return MeshM([], pts, [('hexahedron', cl)], {}, {'ori_inds': [ori], 'T': [temp]})
        I.ext['meshio.read'] = PyFn(rd, 'read')
        Tl = sym('T_liquidus')
        a = {k: scal(v, 'f') for k, v in L.items()}
        a.update(data_dir='DATA', Nx=isym(nx), Ny=isym(ny), Nz=isym(nz), num_oris=isym(dim('no')), T_liquidus=scal(Tl, 'f'))
        seen = {}

        def st(name):
            tok = obj()

            def f(I, fn, x, k):
                seen[name] = (x, k)
                return (tok, obj()) if name == 'get_aspect_ratio_inputs' else tok
            f.tok = tok
            I.stubs[PU + '.' + name] = f
            return f
        S = {n: st(n) for n in ('compute_edges_in_order', 'BFS', 'get_aspect_ratio_inputs', 'compute_aspect_ratios_and_vols')}
        w = ck.fn(I, PU, 'process_eta')
        r = I.call(w, [a])
        pos = lambda n: list(seen[n][0]) + list(seen[n][1].values())
        if set(seen) != set(S):
            raise Undecided('grain statistics by other functions')
        ck.holds('grain data are read from the solution folder', all(x.startswith('DATA/vtk/pf/sols/') for x in read) and read, 'read %s' % read, w)
        b = pos('BFS')
        ck.holds('grains are searched on the cell adjacency', b[0] is S['compute_edges_in_order'].tok, 'other adjacency', w)
        ck.eq('only cells below liquidus belong to grains', b[1], arr([ne], lambda e: lt(temp.get((e, ZERO)), Tl), 'b'), w)
        ck.eq('grains are searched by orientation', b[2], ori, w)
        g = pos('get_aspect_ratio_inputs')
        ck.holds('statistics are those of the grains found', g[0] is S['BFS'].tok, 'other grains', w)
        ck.eq('every cell has an equal share of the domain volume', g[1], arr([ne], lambda e: L['domain_x'] * L['domain_y'] * L['domain_z'] / ne), w)
        ck.eq('cell centres are the mean of their corners', g[2], arr([ne, 3], lambda e, k: sm([8], lambda v: pts.get((cl.get((e, v)), k))) / 8), w)
        ck.holds('the statistics are returned', r is S['compute_aspect_ratios_and_vols'].tok and pos('compute_aspect_ratios_and_vols')[0] is S['get_aspect_ratio_inputs'].tok,
                 'something else is returned', w)
        return True
    ck.ob('grain statistics', go, PU + '.process_eta')


def neper(ck, there):
    tag = '[mesh file %s]' % ('present' if there else 'missing')

    def go():
        I = ck.interp()
        I.ext['os.path.exists'] = PyFn(lambda I, a, k: there if str(a[0]) == 'DATA/neper/domain.msh' else (_ for _ in ()).throw(Undecided('exists')), 'exists')
        I.ext['os.path.isfile'] = I.ext['os.path.exists']
        w = ck.fn(I, NEP, 'pre_processing')
        I.call(w, [{'data_dir': 'DATA', 'num_grains': 40, 'id': 3, 'domain_x': 2, 'domain_y': 5, 'domain_z': 7}])
        cmd = [' '.join(str(e.args[0]).split()) for e in I.events if e.kind == 'ext' and (e.name == 'os.system' or e.name.startswith(('subprocess.', 'os.popen', 'os.exec', 'os.spawn')))]
        if there:
            ck.holds('an existing polycrystal is not regenerated ' + tag, not cmd, 'runs %s' % cmd, w)
            return True
        if len(cmd) != 3:
            ck.holds('a missing polycrystal is generated and meshed ' + tag, bool(cmd), 'no command is run', w)
            raise Undecided('commands differ')
        mk = [str(e.args[0]) for e in I.events if e.kind == 'ext' and e.name == 'os.makedirs']
        ck.holds('the folder is created first ' + tag, 'DATA/neper' in mk, 'folders %s' % mk, w)
        c0 = cmd[0].replace(' ', '')
        ck.holds('the polycrystal has the requested grains, seed and domain ' + tag, '-n40' in c0 and '-id3' in c0 and 'cube(2,5,7)' in c0 and '-oDATA/neper/domain' in c0,
                 cmd[0], w)
        ck.holds('the generated polycrystal is the one analysed and meshed, with hexahedra ' + tag,
                 'DATA/neper/domain.tess' in cmd[1] and 'DATA/neper/domain.tess' in cmd[2] and '-elttype hex' in cmd[2] and ' -M ' in cmd[2], str(cmd[1:]), w)
        return True
    ck.ob('polycrystal generation ' + tag, go, NEP + '.pre_processing')
