"""Library calls leave the caller's data alone; functional updates are used."""
import ast
from ..lint import *
from ..terms import Undecided
from .c28 import SKIP, LIB, functions, own
from .c29 import last, enclosing, top_of, dotted
from .c30 import Paths

VIEWS = {'reshape', 'ravel', 'view', 'squeeze', 'swapaxes', 'transpose', 'items', 'values', 'get', 'setdefault'}
MUT = {'append', 'extend', 'update', 'pop', 'popitem', 'clear', 'sort', 'fill', 'insert', 'remove', 'setdefault', 'reverse', 'resize', 'put', 'partition', 'itemset', 'add', 'discard', 'eliminate_zeros', 'sum_duplicates', 'sort_indices'}
FIRST = {'copyto', 'put', 'fill_diagonal', 'place', 'putmask', 'shuffle', 'put_along_axis', 'heapify', 'heappush', 'heappop'}
OUTPUT = ('cell_data', 'point_data')
# the one thing the solvers keep on the problem object: its assembled system
STATE = {'A_sp_scipy', 'I', 'J', 'V', 'values', 'precond_values'}
FILLED = {'h', 'stefan_boltzmann', 'emissivity', 'Nx', 'Ny', 'Nz'}
NUMPY = {'points', 'cells', 'cells_dict', 'cell_data', 'point_data'}


class Binds:
    def __init__(self):
        self.d = {}

    def put(self, n, at, r):
        self.d.setdefault(n, []).append((at, r))

    def at(self, e):
        """what the name stands for where it is used: its nearest binding above"""
        r = None
        for at, v in self.d.get(e.id, ()):
            if at[1] == -1 or at[0] < e.lineno or at[0] == e.lineno and at[1] < e.col_offset:
                r = v
        return r


class Effects:
    def __init__(self, L):
        self.L = L
        self.memo = {}
        self.P = Paths(L)

    def of(self, f):
        """{(parameter, path)} the function changes in place, each with a place"""
        if f in self.memo:
            return self.memo[f] or {}
        self.memo[f] = {}
        self.memo[f] = self.scan(f)
        return self.memo[f]

    def alias(self, f):
        """bindings of every name in line order: (line, root or None)"""
        al = Binds()
        a = f.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            al.put(x.arg, (f.lineno, -1), (x.arg, ''))
        todo = sorted([x for x in own(f) if isinstance(x, (ast.Assign, ast.For, ast.withitem, ast.AnnAssign, ast.FunctionDef, ast.Import, ast.ImportFrom)) and hasattr(x, 'lineno')],
                      key=lambda x: (x.lineno, x.col_offset))
        for x in todo:
            at = (getattr(x, 'end_lineno', x.lineno) if not isinstance(x, (ast.For, ast.FunctionDef)) else x.lineno, x.col_offset)
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                al.put(x.targets[0].id, at, self.root(x.value, al))
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)):
                ts, v = x.targets[0].elts, x.value
                if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(ts):
                    rs = [self.root(e, al) for e in v.elts]
                else:
                    r = self.root(v, al)
                    rs = [r and (r[0], r[1] + '[]')] * len(ts)
                for t, r in zip(ts, rs):
                    for n in names_of(t):
                        al.put(n, at, r if isinstance(t, ast.Name) else None)
            elif isinstance(x, ast.For):
                r = self.root(x.iter, al)
                for n in names_of(x.target):
                    al.put(n, at, None)
                if r:
                    t = x.target
                    if isinstance(x.iter, ast.Call) and last(x.iter.func) == 'items' and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                        t = t.elts[1]
                    for n in names_of(t):
                        al.put(n, at, (r[0], r[1] + '[]'))
            else:
                for n in stored(x):
                    al.put(n, at, None)
        return al

    def root(self, e, al):
        if isinstance(e, ast.Name):
            return al.at(e)
        if isinstance(e, ast.Attribute):
            if e.attr in ('at', 'shape', 'dtype', 'size', 'ndim'):
                return None
            r = self.root(e.value, al)
            return (r[0], r[1] if e.attr in ('T', 'flat') else r[1] + '.' + e.attr) if r else None
        if isinstance(e, ast.Subscript):
            ok = isinstance(e.slice, (ast.Slice, ast.Constant)) or isinstance(e.slice, ast.Tuple) and all(isinstance(x, (ast.Slice, ast.Constant)) for x in e.slice.elts)
            r = self.root(e.value, al) if ok else None
            return (r[0], r[1] + '[]') if r else None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEWS:
                return self.root(e.func.value, al)
            if dotted(e.func) in ('onp.asarray', 'numpy.asarray', 'onp.reshape', 'onp.ravel', 'onp.squeeze', 'onp.transpose') and e.args:
                return self.root(e.args[0], al)
        return None

    def scan(self, f):
        al = self.alias(f)
        out = {}

        def hit(r, node, what):
            if r is not None:
                out.setdefault((r[0], r[1]), (node.lineno, what))

        live = lambda e, x: True
        for x in own(f):
            ts = []
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    ts += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                ts = [x.target]
            elif isinstance(x, ast.Delete):
                ts = x.targets
            for t in ts:
                if isinstance(t, ast.Subscript) and live(t, x):
                    r = self.base(t.value, al)
                    k = t.slice.value if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str) and isinstance(x, ast.Assign) else ''
                    hit(r and (r[0], r[1] + '[%s]' % k), x, ast.unparse(x)[:80])
                elif isinstance(t, ast.Attribute) and live(t, x):
                    r = self.base(t.value, al)
                    hit(r and (r[0], r[1] + '.' + t.attr), x, ast.unparse(x)[:80])
                elif isinstance(t, ast.Name) and isinstance(x, ast.AugAssign):
                    r = al.at(t)
                    if r and (r[1].rstrip('[]').split('.')[-1] in NUMPY if r[1] else arrayish(f, t.id)):
                        hit((r[0], r[1] + '[]'), x, ast.unparse(x)[:80])
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr in MUT and live(x.func.value, x) and not in_module(x.func.value, self.L, x):
                    v = x.func.value
                    if not (isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == 'at'):
                        r = self.base(v, al)
                        par = isinstance(x.parent, ast.Expr) or x.func.attr in ('pop', 'popitem', 'setdefault')
                        if x.func.attr == 'setdefault' and x.args and isinstance(x.args[0], ast.Constant):
                            hit(r and (r[0], r[1] + '[%s]' % x.args[0].value), x, ast.unparse(x)[:80])
                        elif x.func.attr == 'update' and not x.args and x.keywords and all(k.arg for k in x.keywords):
                            for k in x.keywords:
                                hit(r and (r[0], r[1] + '[%s]' % k.arg), x, ast.unparse(x)[:80])
                        elif x.func.attr == 'update' and len(x.args) == 1 and isinstance(x.args[0], ast.Dict) and all(isinstance(k, ast.Constant) for k in x.args[0].keys):
                            for k in x.args[0].keys:
                                hit(r and (r[0], r[1] + '[%s]' % k.value), x, ast.unparse(x)[:80])
                        elif par:
                            hit(r and (r[0], r[1] + '[]'), x, ast.unparse(x)[:80])
                if last(x.func) in FIRST and x.args and live(x.args[0], x):
                    r = self.root(x.args[0], al)
                    hit(r and (r[0], r[1] + '[]'), x, ast.unparse(x)[:80])
                if isinstance(x.func, ast.Attribute) and x.func.attr == 'at' and isinstance(x.func.value, ast.Attribute) and x.args and live(x.args[0], x):
                    r = self.root(x.args[0], al)
                    hit(r and (r[0], r[1] + '[]'), x, ast.unparse(x)[:80])
                if last(x.func) == 'setattr' and x.args and len(x.args) > 1:
                    r = self.root(x.args[0], al)
                    hit(r and (r[0], r[1] + '.' + (x.args[1].value if isinstance(x.args[1], ast.Constant) else '?')), x, ast.unparse(x)[:80])
                for k in x.keywords:
                    if k.arg == 'out' and live(k.value, x):
                        r = self.root(k.value, al)
                        hit(r and (r[0], r[1] + '[]'), x, ast.unparse(x)[:80])
                self.through(f, x, al, hit, live)
        return out

    def base(self, e, al):
        """root of a stored-to object; any index may be used on the way down"""
        if isinstance(e, ast.Subscript):
            r = self.base(e.value, al)
            if r is None:
                return None
            ok = isinstance(e.slice, (ast.Slice, ast.Constant, ast.Name)) or isinstance(e.slice, ast.Tuple) and all(isinstance(x, (ast.Slice, ast.Constant, ast.Name)) for x in e.slice.elts)
            return (r[0], r[1] + '[]') if ok else None
        return self.root(e, al)

    def through(self, f, c, al, hit, live):
        g = self.P.target(c)
        if g is None or g is f:
            return
        eff = self.of(g)
        if not eff:
            return
        names = [a.arg for a in g.args.posonlyargs + g.args.args]
        off = 1 if names[:1] == ['self'] and isinstance(c.func, ast.Attribute) else 0
        vals = {}
        for i, v in enumerate(c.args):
            if isinstance(v, ast.Starred):
                return
            if i + off < len(names):
                vals[names[i + off]] = v
        for k in c.keywords:
            vals[k.arg] = k.value
        if off:
            vals['self'] = c.func.value
        for (p, path), (line, what) in eff.items():
            if p in vals and live(vals[p], c):
                r = self.root(vals[p], al)
                hit(r and (r[0], r[1] + path), c, '%s, which runs %s' % (ast.unparse(c)[:60], what))


STRUCT = {'matmul', 'dot', 'take', 'sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'concatenate', 'stack', 'hstack', 'vstack', 'reshape', 'transpose', 'norm', 'einsum', 'ravel',
          'argwhere', 'vmap', 'linspace', 'unique', 'sort', 'argsort', 'cumsum', 'copyto', 'tensordot', 'cross', 'outer', 'repeat'}


def arrayish(f, name):
    """the function itself treats the parameter as an array"""
    for u in own(f):
        if not (isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load)):
            continue
        p = u.parent
        if isinstance(p, ast.Attribute) and p.attr in ('shape', 'T', 'reshape', 'astype', 'ravel', 'flatten', 'ndim', 'dtype', 'transpose'):
            return True
        if isinstance(p, ast.Subscript) and p.value is u and any(isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value is None for x in ast.walk(p.slice)):
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr in STRUCT and u in p.args:
            return True
    return False


def in_module(e, L, x):
    return False


def stored(x):
    if isinstance(x, ast.Assign):
        ts = x.targets
    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
        ts = []
    elif isinstance(x, ast.For):
        ts = [x.target]
    elif isinstance(x, ast.withitem):
        ts = [x.optional_vars] if x.optional_vars is not None else []
    else:
        ts = []
    return [n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]


def given(cls):
    """attributes that hold an object the caller passed in"""
    out = set()
    for f in cls.body:
        if isinstance(f, ast.FunctionDef) and f.name in ('__init__', '__post_init__', 'custom_init'):
            par = {a.arg for a in f.args.args + f.args.kwonlyargs} - {'self'}
            reb = {n for x in own(f) for n in stored(x)}
            for x in own(f):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in par - reb:
                    for t in x.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            out.add(t.attr)
    for s in cls.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
    return out


PURE = {'set', 'add', 'multiply', 'divide', 'min', 'max', 'apply', 'power'}
LIBPURE = {'np', 'jnp'}


def discarded(f, jnp):
    """results of side-effect free operations that are thrown away"""
    out = []
    for x in own(f):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
            c = x.value
            if isinstance(c.func, ast.Attribute):
                v = c.func.value
                if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == 'at' and c.func.attr in PURE:
                    out.append(x)
                elif isinstance(v, ast.Name) and v.id in jnp and c.func.attr not in ('set_printoptions', 'save', 'savez', 'savetxt', 'seterr'):
                    out.append(x)
                elif not any(isinstance(y, ast.Call) for y in ast.walk(v)) and c.func.attr in ('reshape', 'astype', 'transpose', 'flatten', 'ravel', 'copy', 'squeeze', 'tocsr', 'tocsc', 'replace', 'strip', 'lower', 'upper', 'union', 'intersection', 'clip', 'round', 'swapaxes', 'repeat', 'argsort', 'nonzero', 'cumsum', 'conj', 'todense', 'toarray', 'tocoo', 'tolist'):
                    out.append(x)
        elif isinstance(x, ast.Expr) and isinstance(x.value, (ast.BinOp, ast.Compare, ast.Subscript)):
            out.append(x)
    return out


def jnp_names(m):
    out = set()
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name == 'jax.numpy':
                    out.add(a.asname or a.name)
        elif isinstance(s, ast.ImportFrom) and s.module == 'jax':
            for a in s.names:
                if a.name == 'numpy':
                    out.add(a.asname or a.name)
    return out


def run(ck):
    L = Lib(files(LIB, SKIP))
    E = Effects(L)
    nf = 0
    for m in L.mods.values():
        jnp = jnp_names(m)
        for q, f in functions(m):
            nf += 1
            w = '%s:%d (%s)' % (m.rel, f.lineno, q)
            bad = discarded(f, jnp)
            ck.holds('no result of a pure operation is thrown away [%s.%s]' % (m.name, q), not bad,
                     '; '.join('line %d: %s' % (x.lineno, ast.unparse(x)[:80]) for x in bad[:3]), w)
            if f.name.startswith('_') and f.name not in ('__init__', '__post_init__', '__call__') or enclosing(f) is not None and enclosing(f) is not f:
                continue
            cls = next((p for p in parents(f) if isinstance(p, ast.ClassDef)), None)
            own_attrs = given(cls) if cls is not None else set()
            bad = []
            for (p, path), (line, what) in sorted(E.of(f).items()):
                parts = [x for x in path.replace('[', '.[').split('.') if x]
                if any(x in OUTPUT for x in parts):
                    continue
                if p == 'self':
                    if len(parts) < 2 or parts[0] not in own_attrs:
                        continue
                    parts = parts[1:]
                if parts and (parts[0] in STATE or parts[-1] == 'symmetry') or path.endswith(']') and path[:-1].split('[')[-1] in FILLED:
                    continue
                bad.append('line %d changes the caller\'s %s%s: %s' % (line, p, path, what))
            ck.holds('the caller\'s arrays, meshes and parameter tables are left as they were [%s.%s]' % (m.name, q), not bad, '; '.join(bad[:3]), w)
    ck.functions |= {(m.name, q) for m in L.mods.values() for q, _ in functions(m)}
    ck.facts.update(modules=len(L.mods), functions=nf)
