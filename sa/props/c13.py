"""Structured meshes, mesh generation requests and solution files."""
from .meshlib import *
from fractions import Fraction
COM, GEN, UT = 'jax_am.common', 'jax_am.fem.generate_mesh', 'jax_am.fem.utils'
TYPES = {'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX27': 'hexahedron27', 'HEX20': 'hexahedron20', 'TRI3': 'triangle',
         'TRI6': 'triangle6', 'QUAD4': 'quad', 'QUAD8': 'quad8'}
NODES = {'TET4': 4, 'TET10': 10, 'HEX8': 8, 'HEX27': 27, 'HEX20': 20, 'TRI3': 3, 'TRI6': 6, 'QUAD4': 4, 'QUAD8': 8}


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(box,), (rect,), (types,)] + [(gbox, t) for t in ('HEX8', 'TET4', 'TET10', 'HEX27')] +
           [(save, 'HEX8', 'DIR/sub/u.vtu'), (save, 'TRI3', 'u.vtu'), (save, 'TET10', '/abs/u.vtu'), (save, 'QUAD8', 'DIR/u.vtu'), (savebad,),
            (frame, 0), (frame, 1), (frame, 2), (wrap,), (cylinder,), (convert,), (params,), (faces,)])


def box(ck):
    def go():
        I = ck.interp()
        io = IO(I)
        w = ck.fn(I, COM, 'box_mesh')
        n = [dim('n' + c) for c in 'xyz']
        L = [sym('L' + c, positive=True) for c in 'xyz']
        m = I.call(w, [isym(x) for x in n] + [scal(x, 'f') for x in L])
        p = [x + 1 for x in n]
        tot = mul(mul(p[0], p[1]), p[2])

        def pt(q, a):
            c = (T.floordiv(T.floordiv(q, p[2]), p[1]), T.mod(T.floordiv(q, p[2]), p[1]), T.mod(q, p[2]))
            return A.pick(a, [c[k] * L[k] / n[k] for k in range(3)])
        ck.eq('box nodes are the equidistant lattice over the whole domain', m.points, arr([tot, 3], pt), w)
        off = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]

        def cell(e, v):
            c = (T.floordiv(T.floordiv(e, n[2]), n[1]), T.mod(T.floordiv(e, n[2]), n[1]), T.mod(e, n[2]))
            return A.pick(v, [((c[0] + o[0]) * p[1] + c[1] + o[1]) * p[2] + c[2] + o[2] for o in off])
        cells(ck, 'box', m, 'hexahedron', arr([mul(mul(n[0], n[1]), n[2]), 8], cell, 'i'), w)
        return True
    ck.ob('box mesh', go, COM + '.box_mesh')


def cells(ck, what, m, typ, want, w):
    t = [c.type for c in m.cells]
    if ck.holds('%s cells are all of type %s' % (what, typ), t == [typ], 'cell blocks: %s' % t, w):
        ck.eq('%s cells tile the lattice, each with its corner nodes in the order of the element' % what, m.cells[0].data, want, w)


def rect(ck):
    def go():
        I = ck.interp()
        io = IO(I)
        w = ck.fn(I, COM, 'rectangle_mesh')
        n = [dim('n' + c) for c in 'xy']
        L = [sym('L' + c, positive=True) for c in 'xy']
        m = I.call(w, [isym(x) for x in n] + [scal(x, 'f') for x in L])
        p = [x + 1 for x in n]
        ck.eq('rectangle nodes are the equidistant lattice over the whole domain', m.points,
              arr([mul(p[0], p[1]), 2], lambda q, a: A.pick(a, [T.floordiv(q, p[1]) * L[0] / n[0], T.mod(q, p[1]) * L[1] / n[1]])), w)
        off = [(0, 0), (1, 0), (1, 1), (0, 1)]
        cells(ck, 'rectangle', m, 'quad', arr([mul(n[0], n[1]), 4], lambda e, v: A.pick(
            v, [(T.floordiv(e, n[1]) + o[0]) * p[1] + T.mod(e, n[1]) + o[1] for o in off]), 'i'), w)
        return True
    ck.ob('rectangle mesh', go, COM + '.rectangle_mesh')


def types(ck):
    def go():
        I = ck.interp()
        w = ck.fn(I, GEN, 'get_meshio_cell_type')
        bad = []
        for t, want in TYPES.items():
            try:
                got = I.call(w, [t])
            except PyRaise as e:
                got = str(e)
            if got != want:
                bad.append('%s -> %s (expected %s)' % (t, got, want))
        ck.holds('every element type maps to its file cell type', not bad, '; '.join(bad), w)
        try:
            r = I.call(w, ['WEDGE6'])
        except A.ProgError:
            r = None
        ck.holds('an unknown element type is refused', r is None, 'WEDGE6 -> %s' % (r,), w)
        return True
    ck.ob('cell types', go, GEN + '.get_meshio_cell_type')


class Tok:
    def __init__(self, kind, base):
        self.kind, self.base = kind, base


class Gmsh:
    """records requests; entities are tokens (dimension, origin, extent, layers, recombined)"""
    def __init__(self, I):
        self.log = []
        self.ents = {}
        self.calls = []
        names = ['initialize', 'finalize', 'write', 'option.setNumber', 'model.geo.synchronize', 'model.mesh.generate', 'model.mesh.setOrder',
                 'model.mesh.recombine', 'model.add']
        for n in names:
            I.ext['gmsh.' + n] = PyFn(lambda I, a, k, n=n: self.calls.append((n, a, k)), n)
        I.ext['gmsh.model.geo.addPoint'] = PyFn(self.point, 'addPoint')
        I.ext['gmsh.model.geo.extrude'] = PyFn(self.extrude, 'extrude')

    def point(self, I, a, k):
        t = len(self.ents) + 1
        self.ents[(0, t)] = ([lift(A.asarr(x).scalar()) for x in a[:3]], [])
        return t

    def extrude(self, I, a, k):
        names = ['dimTags', 'dx', 'dy', 'dz', 'numElements', 'heights', 'recombine']
        d = dict(zip(names, a))
        d.update(k)
        base = I.iterate(d['dimTags'])
        if len(base) != 1:
            raise Undecided('several entities')
        key = tuple(base[0])
        o, ex = self.ents[key]
        t = len(self.ents) + 1
        new = (key[0] + 1, t)
        v = [lift(A.asarr(d[q]).scalar()) for q in ('dx', 'dy', 'dz')]
        ne = I.iterate(d.get('numElements', []))
        he = [A.asarr(x).scalar().const() for x in I.iterate(d.get('heights', []))]
        if len(ne) != 1 or he not in ([], [1]):
            raise Undecided('graded layers')
        self.ents[new] = (o, ex + [(v, lift(A.asarr(ne[0]).scalar()), d.get('recombine', False))])
        return [(key[0], t + 1000), new]


def gbox(ck, ele):
    def go():
        I = ck.interp()
        n = [dim('n' + c) for c in 'xyz']
        L = [sym('L' + c, positive=True) for c in 'xyz']
        pts, cl = leaf('pts', [dim('np'), 3], 'f'), leaf('cl', [dim('ne'), NODES[ele]], 'i', hi=dim('np'))
        log = []
        io = IO(I, {'DATA/msh/box.msh': lambda: MeshM(log, pts, [('line', leaf('ln', [dim('nl'), 2], 'i')), ('quad', leaf('qd', [dim('nq'), 4], 'i')),
                                                                   (TYPES[ele], cl)])})
        g = Gmsh(I)
        w = ck.fn(I, GEN, 'box_mesh')
        m = I.call(w, [isym(x) for x in n] + [scal(x, 'f') for x in L] + ['DATA'], {'ele_type': ele})
        tag = '[%s]' % ele
        vol = [v for k, v in g.ents.items() if k[0] == 3]
        if len(vol) != 1 or len(vol[0][1]) != 3:
            raise Undecided('volume built differently')
        o, ex = vol[0]
        ck.eq('the generated box starts at the origin ' + tag, [scal(x) for x in o], [scal(ZERO)] * 3, w)
        e3 = [[L[k] if k == a else ZERO for k in range(3)] for a in range(3)]
        ck.eq('the box spans the requested lengths with the requested divisions per axis ' + tag,
              [[[scal(x) for x in v], isym(c)] for v, c, r in ex], [[[scal(x) for x in v], isym(n[a])] for a, v in enumerate(e3)], w)
        hexa = ele.startswith('HEX')
        ck.holds('cells are recombined exactly for hexahedra ' + tag, [bool(r) for v, c, r in ex[1:]] == [hexa, hexa],
                 'recombine flags: %s' % [r for v, c, r in ex], w)
        seq = [c[0] for c in g.calls]
        want = {'TET4': 1, 'TET10': 2, 'HEX8': 1, 'HEX27': 2}[ele]
        so = [c for c in g.calls if c[0] == 'model.mesh.setOrder']
        ck.holds('the mesh has the order of the element ' + tag, len(so) == 1 and A.asarr(so[0][1][0]).scalar().const() == want,
                 'setOrder calls: %s' % [c[1] for c in so], w)
        gen = [c for c in g.calls if c[0] == 'model.mesh.generate']
        ck.holds('a volume mesh is generated ' + tag, len(gen) == 1 and A.asarr(gen[0][1][0]).scalar().const() == 3, 'generate calls: %s' % [c[1] for c in gen], w)
        ok = [x for x in ('model.geo.synchronize', 'model.mesh.generate', 'model.mesh.setOrder', 'write', 'finalize') if x in seq]
        ck.holds('geometry is synchronised before meshing and written before the session ends ' + tag,
                 [x for x in seq if x in ok] == ok and len(ok) == 5, 'call order: %s' % seq, w)
        wr = [str(c[1][0]) for c in g.calls if c[0] == 'write']
        ck.holds('the mesh file is written under the data directory and read back ' + tag, wr == io.reads == ['DATA/msh/box.msh'] and 'DATA/msh' in io.made(),
                 'written %s, read %s, folders %s' % (wr, io.reads, io.made()), w)
        ck.eq('all generated points are kept ' + tag, m.points, pts, w)
        t = [c.type for c in m.cells]
        if ck.holds('only cells of the requested type are kept ' + tag, t == [TYPES[ele]], 'cell blocks %s' % t, w):
            ck.eq('their nodes are those of the file ' + tag, m.cells[0].data, cl, w)
        return True
    ck.ob('generated box [%s]' % ele, go, GEN + '.box_mesh')


def prob(ele):
    np_, ne = dim('np'), dim('ne')
    d = 3 if ele[0] in 'TH' and ele[1] != 'R' else 2
    return obj(ele_type=ele, points=leaf('pts', [np_, d], 'f'), cells=leaf('cl', [ne, NODES[ele]], 'i', hi=np_), num_cells=isym(ne)), np_, ne


def save(ck, ele, path):
    tag = '[%s, %s]' % (ele, path)

    def go():
        import posixpath
        I = ck.interp()
        io = IO(I)
        w = ck.fn(I, UT, 'save_sol')
        p, np_, ne = prob(ele)
        sol = leaf('sol', [np_, dim('vec')], 'f', 'jnp')
        ci, pi = leaf('ci', [ne], 'f', 'jnp'), leaf('pi', [np_, 2], 'f')
        I.call(w, [p, sol, path], {'cell_infos': [('density', ci), ('other', leaf('cj', [ne], 'f'))], 'point_infos': [('aux', pi)]})
        if not ck.holds('one file is written ' + tag, len(io.writes) == 1, '%d files' % len(io.writes), w):
            return True
        f = io.writes[0]
        ck.holds('the file has the requested name ' + tag, f['path'] == path, 'written to %s' % f['path'], w)
        d = posixpath.dirname(path)
        mk = io.made()
        ck.holds('its directory exists by then ' + tag, (d in mk if d else '' not in mk), 'folders created: %s' % mk, w)
        ck.holds('no other directory is created ' + tag, all(x == d for x in mk), 'folders created: %s' % mk, w)
        ck.holds('the file holds exactly the given fields ' + tag, sorted(f['point_data']) == ['aux', 'sol'] and sorted(f['cell_data']) == ['density', 'other'],
                 'fields %s, %s' % (sorted(f['point_data']), sorted(f['cell_data'])), w)
        ck.eq('the file holds the mesh ' + tag, [f['points'], [c[1] for c in f['cells']]], [p.attrs['points'], [p.attrs['cells']]], w)
        ck.holds('with the right cell type ' + tag, [c[0] for c in f['cells']] == [TYPES[ele]], 'cell blocks %s' % [c[0] for c in f['cells']], w)
        ck.eq('the solution is stored per node ' + tag, f['point_data'].get('sol', 0), sol, w)
        ck.eq('extra node fields are stored under their names ' + tag, f['point_data'].get('aux', 0), pi, w)
        ck.eq('cell fields are stored under their names ' + tag, [f['cell_data'].get(q, 0) for q in ('density', 'other')],
              [[ci], [leaf('cj', [ne], 'f')]], w)
        return True
    ck.ob('solution file ' + tag, go, UT + '.save_sol')


def savebad(ck):
    def go():
        for what, kw in (('cell', lambda np_, ne: {'cell_infos': [('a', leaf('ci', [ne + 1], 'f'))]}),
                         ('too short cell', lambda np_, ne: {'cell_infos': [('a', leaf('ci', [ne - 1], 'f'))]}),
                         ('second cell', lambda np_, ne: {'cell_infos': [('b', leaf('cb', [ne], 'f')), ('a', leaf('ci', [ne + 1], 'f'))]}),
                         ('too short node', lambda np_, ne: {'point_infos': [('a', leaf('pi', [np_ - 1], 'f'))]}),
                         ('second node', lambda np_, ne: {'point_infos': [('b', leaf('pb', [np_], 'f')), ('a', leaf('pi', [np_ + 2], 'f'))]}),
                         ('node', lambda np_, ne: {'point_infos': [('a', leaf('pi', [np_ + 1], 'f'))]})):
            I = ck.interp()
            io = IO(I)
            w = ck.fn(I, UT, 'save_sol')
            p, np_, ne = prob('HEX8')
            try:
                I.call(w, [p, leaf('sol', [np_, 3], 'f'), 'DIR/u.vtu'], kw(np_, ne))
                bad = True
            except A.ProgError:
                bad = False
            ck.holds('%s data of the wrong length is refused, nothing is written' % what, not bad and not io.writes, 'accepted', w)
        return True
    ck.ob('solution file checks', go, UT + '.save_sol')


# --------------------------------------------------------------------------
# table export

class Frame(Model):
    def __init__(self, cols, n):
        self.cols, self.n = dict(cols), n
        self.csv = None

    def attr(self, I, name):
        if name == 'rename':
            return PyFn(lambda I, a, k: Frame({a[0]: list(self.cols.values())[0]}, self.n), 'rename')
        if name == 'to_csv':
            return PyFn(lambda I, a, k: I.event('csv', str(a[0]), [self]), 'to_csv')
        if name == 'columns':
            return list(self.cols)
        if name == 'shape':
            return (isym(self.n), len(self.cols))
        if name == 'copy':
            return PyFn(lambda I, a, k: Frame(self.cols, self.n), 'copy')
        raise Undecided('DataFrame.' + name)

    def length(self, I):
        return isym(self.n)

    def setitem(self, I, k, v):
        v = A.asarr(v) if not isinstance(v, Frame) else list(v.cols.values())[0]
        self.cols[k] = A.snapshot(v)

    def getitem(self, I, k):
        return self.cols[k]


def pandas(I):
    def df(I, a, k):
        x = a[0] if a else k['data']
        if isinstance(x, Frame):
            return Frame(x.cols, x.n)
        if isinstance(x, dict):
            c = {q: A.asarr(v) for q, v in x.items()}
            return Frame(c, list(c.values())[0].shape[0].p)
        x = A.snapshot(A.asarr(x))
        cols = k.get('columns') or list(range(x.shape[1].c()))
        return Frame({q: Arr(x.shape[:1], lambda ix, j=j: x.get((ix[0], const(j)))) for j, q in enumerate(cols)}, x.shape[0].p)

    def series(I, a, k):
        x = A.snapshot(A.asarr(a[0]))
        return Frame({k.get('name', 0): x}, x.shape[0].p)

    def concat(I, a, k):
        xs = I.iterate(a[0])
        if k.get('axis', 0) == 1:
            out = {}
            for x in xs:
                out.update(x.cols)
            return Frame(out, xs[0].n)
        return Rows(xs)
    I.ext['pandas.DataFrame'] = PyFn(df, 'DataFrame')
    I.ext['pandas.Series'] = PyFn(series, 'Series')
    I.ext['pandas.concat'] = PyFn(concat, 'concat')


class Rows(Frame):
    """frames stacked below each other"""
    def __init__(self, xs):
        self.parts = list(xs)
        self.n, self.cols = None, {}


def frame(ck, case):
    names = [['u_00020.vtu', 'u_00000.vtu', 'note.txt', 'u_00010.vtu'], ['u_00000.vtu', 'u_00005.vtu', 'u_00010.vtu', 'u_00015.vtu'],
             ['u_00300.vtu', 'u_00200.vtu', 'u_00100.vtu', 'u_00000.vtu', 'video.mp4']][case]
    tag = '[folder listing %s]' % ', '.join(names)

    def go():
        I = ck.interp()
        np_ = dim('np')
        pts = leaf('pts', [np_, 3], 'f')
        files = {'DATA/msh/box.msh': MeshM([], pts, [])}
        for f in names:
            files['DATA/vtk/' + f] = MeshM([], pts, [], {'sol': leaf('sol_' + f, [np_, 1], 'f'), 'disp': leaf('d_' + f, [np_, 3], 'f'),
                                                         'flat': leaf('f_' + f, [np_], 'f'), 'grad': leaf('g_' + f, [np_, 2, 3], 'f')})
        io = IO(I, files)
        pandas(I)
        I.ext['os.listdir'] = PyFn(lambda I, a, k: list(names), 'listdir')
        w = ck.fn(I, COM, 'to_data_frame')
        dt = [Fraction(1, 1000), Fraction(1, 500000), Fraction(1, 500000)][case]
        r = I.call(w, ['DATA'], {'dt': dt})
        if not isinstance(r, Rows):
            raise Undecided('table built differently')
        frames = sorted(f for f in names if f.endswith('.vtu'))
        if not ck.holds('one block of rows per frame ' + tag, len(r.parts) == len(frames), '%d blocks for %d frames' % (len(r.parts), len(frames)), w):
            return True
        step = int(frames[1][-9:-4])
        got = {}
        for p in r.parts:
            t = [p.cols.get(q) for q in ('x', 'y', 'z', 'time')]
            if any(x is None for x in t):
                ck.holds('rows carry position and time ' + tag, False, 'columns %s' % list(p.cols), w)
                return True
        want = []
        for k, f in enumerate(frames):
            c = {'x': arr([np_], lambda i: pts.get((i, ZERO))), 'y': arr([np_], lambda i: pts.get((i, ONE))), 'z': arr([np_], lambda i: pts.get((i, const(2)))),
                 'time': arr([np_], lambda i, k=k: const(k * step * dt)), 'sol_0': arr([np_], lambda i, f=f: leaf('sol_' + f, [np_, 1], 'f').get((i, ZERO))),
                 'flat': leaf('f_' + f, [np_], 'f')}
            for a in range(3):
                c['disp_%d' % a] = arr([np_], lambda i, f=f, a=a: leaf('d_' + f, [np_, 3], 'f').get((i, const(a))))
            for a in range(2):
                for b in range(3):
                    c['grad_%d_%d' % (a, b)] = arr([np_], lambda i, f=f, a=a, b=b: leaf('g_' + f, [np_, 2, 3], 'f').get((i, const(a), const(b))))
            want.append(c)
        ck.holds('every component of every field is a column ' + tag, all(set(p.cols) == set(c) for p, c in zip(r.parts, want)),
                 'columns %s, expected %s' % (sorted(map(str, r.parts[0].cols)), sorted(want[0])), w)
        for k, (p, c) in enumerate(zip(r.parts, want)):
            if set(p.cols) == set(c):
                ck.eq('rows of frame %d hold the nodes, the time of that frame and its fields %s' % (k, tag),
                      [p.cols[q] for q in sorted(c)], [c[q] for q in sorted(c)], w)
        return True
    ck.ob('table ' + tag, go, COM + '.to_data_frame')


def wrap(ck):
    def go():
        for nm, deco in (('timeit', False), ('walltime', True)):
            I = ck.interp()
            w = ck.fn(I, COM, nm)
            d = I.call(w, []) if deco else w
            calls = []

            def user(I, a, k):
                calls.append((a, k))
                return scal(T.app('user', tuple(A.asarr(x).scalar() for x in list(a) + [k[q] for q in sorted(k)])), 'f')
            u = PyFn(user, 'user')
            g = I.call(d, [u])
            ck.eq('%s passes arguments through and returns the result' % nm, lambda: I.call(g, [fsym('a'), fsym('b')], {'c': fsym('c')}),
                  scal(T.app('user', (sym('a'), sym('b'), sym('c'))), 'f'), w)
            ck.holds('%s runs the function once per call' % nm, len(calls) == 1, '%d calls' % len(calls), w)
        return True
    ck.ob('timing wrappers', go, COM)


def cylinder(ck):
    def go():
        I = ck.interp()
        np_, ne = dim('np', lb=16), dim('ne')
        pts = leaf('pts', [np_, 3], 'f')
        raw = leaf('raw', [ne, 8], 'i', hi=np_ - 2)
        # the cells of the file use every node except numbers 0 and 14
        cl = arr([ne, 8], lambda e, v: ite(T.gt0(13 - raw.get((e, v))), raw.get((e, v)) + 1, raw.get((e, v)) + 2), 'i')
        io = IO(I, {'DATA/msh/cylinder.msh': lambda: MeshM([], pts, [('quad', leaf('qd', [dim('nq'), 4], 'i')), ('hexahedron', cl)])})
        w = ck.fn(I, GEN, 'cylinder_mesh')
        m = I.call(w, ['DATA'])
        t = [c.type for c in m.cells]
        if ck.holds('the cylinder consists of hexahedra', t == ['hexahedron'], 'cell blocks %s' % t, w):
            P, C = A.asarr(m.points), A.asarr(m.cells[0].data)
            ck.eq('dropping the unused nodes leaves every cell at its place', arr([ne, 8, 3], lambda e, v, k: P.get((C.get((e, v)), k))),
                  arr([ne, 8, 3], lambda e, v, k: pts.get((cl.get((e, v)), k))), w)
            ck.eq('exactly the two unused nodes are dropped', isym(P.shape[0].p), isym(np_ - 2), w)
        return True
    ck.ob('cylinder mesh', go, GEN + '.cylinder_mesh')


def convert(ck):
    def go():
        I = ck.interp()
        log = []
        src = MeshM(log, leaf('pts', [dim('np'), 3], 'f'), [('tetra', leaf('cl', [dim('ne'), 4], 'i'))])
        io = IO(I, {'in.inp': src})
        w = ck.fn(I, UT, 'read_abaqus_and_write_vtk')
        I.call(w, ['in.inp', 'OUT/m.vtu'])
        ck.holds('conversion writes the mesh it read to the requested file', [f['path'] for f in log] == ['OUT/m.vtu'] and io.reads == ['in.inp'],
                 'read %s, wrote %s' % (io.reads, [f['path'] for f in log]), w)
        return True
    ck.ob('mesh conversion', go, UT + '.read_abaqus_and_write_vtk')


def params(ck):
    def go():
        for mod, nm, lib in ((COM, 'yaml_parse', 'yaml'), (COM, 'json_parse', 'json'), ('jax_am.phase_field.yaml_parser', 'pf_parse', 'yaml')):
            I = ck.interp()
            w = ck.fn(I, mod, nm)
            d = {'dt': fsym('dt'), 'name': 'x'}
            for f in ('load', 'safe_load', 'full_load'):
                I.ext['%s.%s' % (lib, f)] = PyFn(lambda I, a, k: d, f)
            for f in ('dump', 'dumps'):
                I.ext['%s.%s' % (lib, f)] = PyFn(lambda I, a, k: 'text', f)
            r = I.call(w, ['conf.file'])
            op = [str(e.args[0]) for e in I.events if e.kind == 'open']
            ck.holds('%s returns the parameters of the file it is given' % nm, isinstance(r, dict) and set(r) == {'dt', 'name'} and op == ['conf.file'],
                     'returns %r after opening %s' % (r, op), w)
            ck.eq('%s leaves the values as written' % nm, r['dt'], fsym('dt'), w)
            modes = [e.name for e in I.events if e.kind == 'open']
            ck.holds('%s only reads' % nm, all(set(x) <= set('rtb') for x in modes), 'opens with mode %s' % modes, w)
        return True
    ck.ob('parameter files', go, COM)


def faces(ck):
    def go():
        I = ck.interp()
        np_, ne, nv, nf, fv = dim('np'), dim('ne'), dim('nv'), dim('nf'), dim('fv')
        fi = leaf('fi', [nf, fv], 'i', hi=nv)
        I.stubs['jax_am.fem.basis.get_face_shape_vals_and_grads'] = lambda I, f, a, k: (None, None, None, None, fi)
        cls = ck.fn(I, GEN, 'Mesh')
        pts, cl = leaf('pts', [np_, 3], 'f'), leaf('cl', [ne, nv], 'i', hi=np_)
        m = I.call(cls, [pts, cl], {'ele_type': 'HEX8'})
        ck.eq('a mesh keeps its points and cells', [I.getattr(m, 'points'), I.getattr(m, 'cells')], [pts, cl], cls)
        w = ck.fn(I, GEN, 'Mesh.count_selected_faces')
        loc = pred('loc')

        def on(e, f):
            def at(q):
                p = cl.get((e, fi.get((f, q))))
                return 1 - lift(I.models.AR(I.call(loc, [arr([3], lambda k: pts.get((p, k)))])).scalar())
            return eqi(sm([fv], at), 0)
        ck.eq('faces are counted when all their nodes are selected', lambda: I.call(I.getattr(m, 'count_selected_faces'), [loc]),
              lambda: isym(sm([ne, nf], on)), w)
        return True
    ck.ob('face count', go, GEN + '.Mesh.count_selected_faces')
