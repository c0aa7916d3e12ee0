"""meshio, file system and pandas stand-ins for the analyses of meshes and output."""
from ..spec import *
from .. import terms as T, arrays as A
from ..terms import Undecided
from ..interp import PyFn, Model, PyRaise


def frz(x):
    if isinstance(x, (list, tuple)):
        return [frz(y) for y in x]
    if isinstance(x, dict):
        return {k: frz(v) for k, v in x.items()}
    if isinstance(x, (str, int)) or x is None:
        return x
    return A.snapshot(A.asarr(x))


class CellBlock(Model):
    def __init__(self, typ, data):
        self.type, self.data = typ, data

    def attr(self, I, n):
        if n in ('type', 'data'):
            return getattr(self, n)
        raise Undecided('CellBlock.' + n)

    def setattr(self, I, n, v):
        setattr(self, n, v)


class MeshM(Model):
    """a meshio mesh; writes are recorded with their content"""
    def __init__(self, log, points, cells, point_data=None, cell_data=None):
        self.log = log
        self.points = points
        if isinstance(cells, dict):
            cells = list(cells.items())
        self.cells = [c if isinstance(c, CellBlock) else CellBlock(c[0], c[1]) for c in cells]
        self.point_data = dict(point_data or {})
        self.cell_data = dict(cell_data or {})

    def attr(self, I, n):
        if n in ('points', 'point_data', 'cell_data', 'cells'):
            return getattr(self, n)
        if n == 'cells_dict':
            out = {}
            for c in self.cells:
                if c.type in out:
                    raise Undecided('several cell blocks of one type')
                out[c.type] = c.data
            return out
        if n == 'write':
            return PyFn(lambda I, a, k: self.put(str(a[0]), I), 'write')
        raise Undecided('mesh attribute ' + n)

    def setattr(self, I, n, v):
        if n not in ('points', 'point_data', 'cell_data', 'cells'):
            raise Undecided('mesh attribute ' + n)
        setattr(self, n, v)

    def put(self, path, I=None):
        w = {'path': path, 'points': frz(self.points), 'cells': [(c.type, c.data if c.type == 'polyhedron' else frz(c.data)) for c in self.cells],
             'point_data': frz(self.point_data), 'cell_data': frz(self.cell_data)}
        self.log.append(w)
        if I is not None:
            I.event('write', path)


class IO:
    """installs meshio in an interpreter; `files` maps paths to meshes readable there"""
    def __init__(self, I, files=None):
        self.I = I
        self.files = files or {}
        self.writes, self.reads = [], []

        def mesh(I, a, k):
            d = dict(zip(('points', 'cells', 'point_data', 'cell_data'), a))
            d.update(k)
            if set(d) - {'points', 'cells', 'point_data', 'cell_data'}:
                raise Undecided('mesh with %s' % sorted(d))
            return MeshM(self.writes, **d)

        def read(I, a, k):
            p = str(a[0])
            self.reads.append(p)
            f = self.files.get(p)
            if f is None:
                raise Undecided('reads %s' % p)
            return f() if callable(f) else f

        def write(I, a, k):
            p, m = (str(a[0]), a[1]) if isinstance(a[0], str) else (str(a[1]), a[0])
            m.put(p, I)
        I.ext['meshio.Mesh'] = PyFn(mesh, 'Mesh')
        I.ext['meshio.read'] = PyFn(read, 'read')
        I.ext['meshio.write'] = PyFn(write, 'write')

    def made(self):
        return [str(e.args[0]) for e in self.I.events if e.kind == 'ext' and e.name == 'os.makedirs']
