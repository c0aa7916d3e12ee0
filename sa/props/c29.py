"""Computations run in double precision; random draws are seeded."""
import ast
from ..lint import *
from ..terms import Undecided
from .c28 import SKIP, LIB, functions, own

FLOATS = {'float32', 'float16', 'bfloat16', 'half', 'single', 'csingle', 'complex64', 'float8_e4m3fn', 'float8_e5m2'}
INTS = {'int8', 'uint8', 'int16', 'uint16', 'short', 'ushort', 'byte', 'ubyte', 'int4', 'uint4'}
CODES = {'f4', '<f4', '>f4', '=f4', 'f2', '<f2', 'f', 'e', 'c8', 'i2', '<i2', 'i1', 'u1', 'u2', 'h', 'H', 'b', 'B'} | FLOATS | INTS
OUT = {'cell_data', 'point_data', 'field_data', 'cell_sets'}
WRITERS = {'save', 'savez', 'savetxt', 'savez_compressed', 'tofile', 'write', 'print', 'debug', 'info', 'len', 'isinstance', 'str', 'repr', 'set_array'}
SHAPELY = {'reshape', 'ravel', 'flatten', 'transpose', 'squeeze', 'copy', 'tolist', 'block_until_ready'}
META = {'shape', 'ndim', 'size', 'dtype', 'nbytes', 'itemsize'}
ON = ('jax_am.fem.core', 'jax_am.fem.mma', 'jax_am.cfd.cfd_am')
KEY = 'jax_enable_x64'
MAKERS = {'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'zeros', 'ones', 'empty', 'full', 'eye', 'arange', 'zeros_like', 'ones_like', 'full_like', 'empty_like'}


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def enclosing(n):
    for p in parents(n):
        if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            return p
    return None


def top_of(n):
    p = n
    while getattr(p, 'parent', None) is not None:
        p = p.parent
    return p


class Narrow:
    """where values of a narrow type come from and where they go"""

    def __init__(self, L):
        self.L = L
        self.seen = set()

    # -- sources -------------------------------------------------------------------------------------------------
    def sources(self, m):
        """(expression with a narrow value, mention)"""
        out = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in FLOATS | INTS and isinstance(n.ctx, ast.Load):
                if isinstance(n.value, ast.Name) and n.value.id in ('jax', 'self'):
                    continue
                out += self.mention(n, n, 0)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in CODES:
                p = n.parent
                if isinstance(p, ast.keyword) and p.arg == 'dtype' or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and \
                        (p.func.attr in ('astype', 'view') and p.args and p.args[0] is n or p.func.attr == 'dtype' or p.func.attr in MAKERS and n in p.args[1:]):
                    out += self.mention(n, n, 0)
        return out

    def mention(self, n, at, depth):
        p = n.parent
        if depth > 4:
            return []
        if isinstance(p, ast.keyword):
            c = p.parent
            if isinstance(c, ast.Call) and p.arg in ('dtype', 'jnp_dtype', None):
                return [(c, at)]
            return [(c, at)] if isinstance(c, ast.Call) else []
        if isinstance(p, ast.Call):
            f = last(p.func)
            if p.func is n:
                return [(p, at)]
            if f in ('finfo', 'iinfo', 'issubdtype', 'isinstance', 'can_cast', 'print'):
                return []
            if f == 'dtype':
                return self.mention(p, at, depth + 1)
            return [(p, at)]
        if isinstance(p, ast.Assign) and p.value is n:
            out = []
            for t in p.targets:
                if isinstance(t, ast.Name):
                    out += [y for u in self.uses(t) for y in self.mention(u, at, depth + 1)]
            return out
        if isinstance(p, ast.arguments):
            f = p.parent
            a = p.posonlyargs + p.args
            out = []
            if n in p.defaults:
                name = a[len(a) - len(p.defaults) + p.defaults.index(n)].arg
            elif n in p.kw_defaults:
                name = p.kwonlyargs[p.kw_defaults.index(n)].arg
            else:
                return []
            for u in ast.walk(f):
                if isinstance(u, ast.Name) and u.id == name and isinstance(u.ctx, ast.Load):
                    out += self.mention(u, at, depth + 1)
            return out
        if isinstance(p, (ast.IfExp, ast.Tuple)):
            return self.mention(p, at, depth + 1)
        return []

    def uses(self, t):
        f = enclosing(t) or top_of(t)
        return [u for u in ast.walk(f) if isinstance(u, ast.Name) and u.id == t.id and isinstance(u.ctx, ast.Load)]

    # -- sinks ---------------------------------------------------------------------------------------------------
    def bad(self, n, depth=0):
        """text of a computation that consumes the value, or None when it only reaches output"""
        if id(n) in self.seen:
            return None
        self.seen.add(id(n))
        if depth > 14:
            raise Undecided('long flow')
        p = n.parent
        if isinstance(p, ast.keyword):
            if p.arg in OUT:
                return None
            return self.call(p.parent, n, p.arg, depth)
        if isinstance(p, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.IfExp, ast.Starred, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.NamedExpr, ast.Await, ast.FormattedValue, ast.JoinedStr)):
            return self.bad(p, depth + 1)
        if isinstance(p, (ast.Assign, ast.AnnAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            return self.first(self.target(t, depth) for t in ts)
        if isinstance(p, ast.AugAssign):
            return self.say(p)
        if isinstance(p, ast.Expr):
            return None
        if isinstance(p, ast.Attribute):
            if p.attr in META:
                return None
            q = p.parent
            if isinstance(q, ast.Call) and q.func is p:
                if p.attr in SHAPELY:
                    return self.bad(q, depth + 1)
                if p.attr in WRITERS or p.attr in ('append', 'extend', 'update', 'items', 'keys', 'values', 'setdefault', 'get'):
                    return self.bad(q, depth + 1) if p.attr in ('items', 'values', 'get') else None
                if p.attr == 'astype':
                    return self.bad(q, depth + 1)
                return self.say(q)
            if p.attr in ('T', 'at', 'flat'):
                return self.bad(p, depth + 1)
            return self.say(p)
        if isinstance(p, ast.Subscript):
            if p.value is n:
                return self.bad(p, depth + 1) if isinstance(p.ctx, ast.Load) else None
            return None if True else None
        if isinstance(p, ast.Return):
            return self.result(enclosing(p), depth)
        if isinstance(p, ast.Lambda):
            return self.result(p, depth)
        if isinstance(p, ast.Call):
            return self.call(p, n, None, depth)
        if isinstance(p, ast.comprehension):
            return self.first(self.bad(u, depth + 1) for t in ast.walk(p.target) if isinstance(t, ast.Name) for u in self.uses(t))
        if isinstance(p, ast.For):
            return self.first(self.bad(u, depth + 1) for t in ast.walk(p.target) if isinstance(t, ast.Name) for u in self.uses(t))
        if isinstance(p, (ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp)):
            return self.say(p)
        if isinstance(p, (ast.If, ast.While, ast.Assert)):
            return self.say(p)
        raise Undecided('%s at line %d' % (type(p).__name__, getattr(p, 'lineno', 0)))

    def first(self, it):
        for x in it:
            if x:
                return x
        return None

    def say(self, e):
        return 'used at line %d: %s' % (getattr(e, 'lineno', 0), ast.unparse(e)[:90])

    def target(self, t, depth):
        e = t
        while isinstance(e, (ast.Subscript, ast.Starred)):
            e = e.value
        if isinstance(e, ast.Attribute) and e.attr in OUT:
            return None
        if isinstance(e, ast.Tuple):
            return self.first(self.target(x, depth) for x in e.elts)
        if isinstance(e, ast.Name):
            if enclosing(e) is None and not isinstance(t, ast.Subscript):
                pass
            return self.first(self.bad(u, depth + 1) for u in self.uses(e))
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            us = [u for m in self.L.mods.values() for u in ast.walk(m.tree) if isinstance(u, ast.Attribute) and u.attr == e.attr and isinstance(u.ctx, ast.Load)]
            return self.first(self.bad(u, depth + 1) for u in us)
        raise Undecided('target %s' % ast.unparse(t))

    def result(self, f, depth):
        """the value is a result of f: every call of f"""
        name = None
        if isinstance(f, ast.Lambda):
            if isinstance(f.parent, ast.Assign) and isinstance(f.parent.targets[0], ast.Name):
                name = f.parent.targets[0].id
        elif f is not None:
            name = f.name
        if name is None:
            return 'returned by an anonymous function at line %d' % f.lineno if f is not None else None
        cs, refs = [], []
        owner = next((p for p in parents(f) if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Module))), None)
        kinds = ast.Name if isinstance(owner, (ast.FunctionDef, ast.Lambda)) else ast.Attribute if isinstance(owner, ast.ClassDef) else (ast.Name, ast.Attribute)
        for root in [owner] if kinds is ast.Name else [m.tree for m in self.L.mods.values()]:
            for c in ast.walk(root):
                if not isinstance(c, kinds) or last(c) != name or not isinstance(c.ctx, ast.Load):
                    continue
                if isinstance(owner, ast.Module) and isinstance(c, ast.Attribute) and not (isinstance(c.value, ast.Name) and c.value.id != 'self' and isinstance(c.parent, ast.Call) and c.parent.func is c):
                    continue
                if isinstance(owner, ast.ClassDef) and not (isinstance(c.parent, ast.Call) and c.parent.func is c):
                    if not (isinstance(c.value, ast.Name) and c.value.id == 'self'):
                        continue
                if isinstance(c.parent, ast.Call) and c.parent.func is c:
                    cs.append(c.parent)
                else:
                    refs.append(c)
        if refs:
            return 'returned by %s, which is handed on at line %d' % (name, refs[0].lineno)
        if not cs:
            if name.startswith('_'):
                raise Undecided('no caller of %s' % name)
            return 'returned to the caller of %s (line %d)' % (name, f.lineno)
        return self.first(self.bad(c, depth + 1) for c in cs)

    def call(self, c, n, kw, depth):
        f = last(c.func)
        if isinstance(c.func, ast.Attribute):
            if f in ('append', 'extend', 'insert', 'setdefault', 'update'):
                e = c.func.value
                while isinstance(e, ast.Subscript):
                    e = e.value
                if isinstance(e, ast.Attribute) and e.attr in OUT:
                    return None
                if isinstance(e, ast.Name):
                    return self.first(self.bad(u, depth + 1) for u in self.uses(e))
            if f in WRITERS or f == 'Mesh':
                return None
        elif f in WRITERS or f == 'Mesh':
            return None
        elif f in ('list', 'tuple', 'dict', 'zip', 'enumerate', 'reversed', 'sorted'):
            return self.bad(c, depth + 1)
        r = None
        if isinstance(c.func, ast.Name):
            for p in parents(c):
                if isinstance(p, (ast.FunctionDef, ast.Module)):
                    d = [x for x in ast.walk(p) if isinstance(x, ast.FunctionDef) and x.name == f]
                    if len(d) == 1:
                        r = d[0]
                        break
            if r is None:
                for m in self.L.mods.values():
                    if m.tree is top_of(c):
                        q = self.L.resolve(m, f)
                        r = q[1] if q and isinstance(q[1], ast.FunctionDef) else None
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == 'self':
            d = [x for m in self.L.mods.values() for x in ast.walk(m.tree) if isinstance(x, ast.FunctionDef) and x.name == f]
            r = d[0] if len(d) == 1 else None
        if isinstance(r, ast.FunctionDef):
            a = [x.arg for x in r.args.posonlyargs + r.args.args]
            if kw is None and n in c.args:
                k = c.args.index(n) + (1 if isinstance(c.func, ast.Attribute) else 0)
                kw = a[k] if k < len(a) else None
            if kw in a or kw in [x.arg for x in r.args.kwonlyargs]:
                return self.first(self.bad(u, depth + 1) for u in ast.walk(r) if isinstance(u, ast.Name) and u.id == kw and isinstance(u.ctx, ast.Load))
            raise Undecided('argument of %s' % f)
        return self.say(c)


def toggles(m):
    """calls that set the double precision switch: (call, value or None)"""
    out = []
    for c in ast.walk(m.tree):
        if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == KEY:
            v = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg in ('val', 'value')), None)
            out.append((c, bool(v.value) if isinstance(v, ast.Constant) and not isinstance(v.value, str) else None))
    return out


def at_import(m, c):
    """the call runs whenever the module is imported"""
    f = None
    for p in parents(c):
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            f = p
            break
        if isinstance(p, (ast.If, ast.For, ast.While, ast.Try, ast.IfExp, ast.BoolOp, ast.ExceptHandler)):
            if isinstance(p, ast.Try) and c in [x for s in p.body + p.finalbody for x in ast.walk(s)]:
                continue
            return False
    if f is None:
        return True
    if isinstance(f, ast.Lambda):
        return None
    cs = [k for k in ast.walk(m.tree) if isinstance(k, ast.Call) and isinstance(k.func, ast.Name) and k.func.id == f.name]
    return any(at_import(m, k) for k in cs if enclosing(k) is not f)


def imports(L, m):
    out = set()
    for s in m.tree.body:
        if isinstance(s, ast.ImportFrom):
            src = L.source(m, s)
            out.add(src)
            out |= {src + '.' + a.name for a in s.names}
        elif isinstance(s, ast.Import):
            out |= {a.name for a in s.names}
    return [L.mods[x] for x in sorted(out) if x in L.mods]


def reach(L, m):
    seen, todo = [], [m]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        todo += imports(L, x)
    return seen


def switched(L, m):
    ms = reach(L, m)
    for x in ms:
        for c, v in toggles(x):
            if v is True and at_import(x, c):
                return True
    if any(isinstance(n, ast.Constant) and n.value in (KEY, 'JAX_ENABLE_X64') for x in ms for n in ast.walk(x.tree)):
        cs = [(x, c) for x in ms for c, v in toggles(x)]
        if cs and all(v is not None and (v is False or at_import(x, c) is False) for x, c in cs for v in [dict((id(a), b) for a, b in toggles(x))[id(c)]]):
            return 'double precision is switched on only under a condition or inside a function: line %d of %s' % (cs[0][1].lineno, cs[0][0].rel)
        raise Undecided('unusual way of switching to double precision')
    if any(isinstance(n, ast.Attribute) and n.attr in ('enable_x64', 'jax_enable_x64', 'x64_enabled') for x in ms for n in ast.walk(x.tree)):
        raise Undecided('unusual way of switching to double precision')
    return 'importing %s does not switch to double precision' % m.name


def run(ck):
    L = Lib(files(LIB, SKIP))
    for name in ON:
        m = L.mods.get(name)
        if m is not None:
            ck.ob('importing the module switches to double precision [%s]' % name, lambda m=m: switched(L, m), m.rel)
    ns = nd = 0
    for m in L.mods.values():
        offs = [c for c, v in toggles(m) if v is False]
        offs += [c for c in ast.walk(m.tree) if isinstance(c, ast.Call) and last(c.func) in ('enable_x64', 'disable_x64') and
                 (last(c.func) == 'disable_x64' or c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value is False)]
        offs += [c for c in ast.walk(m.tree) if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and
                 c.args[0].value in ('jax_default_dtype_bits', 'jax_default_matmul_precision', 'jax_numpy_dtype_promotion')
                 and any(isinstance(a, ast.Constant) and str(a.value).lower() in ('32', '16', 'bfloat16', 'tensorfloat32', 'fastest', 'default') for a in c.args[1:])]
        ck.holds('double precision is never switched off [%s]' % m.name, not offs, '; '.join('line %d' % c.lineno for c in offs), m.rel)
        N = Narrow(L)
        srcs = N.sources(m)
        ns += len(srcs)

        def go(N=N, srcs=srcs):
            und = None
            for e, at in srcs:
                N.seen = set()
                try:
                    b = N.bad(e)
                except Undecided as u:
                    und = und or u
                    continue
                if b:
                    return '%s at line %d makes narrow numbers, %s' % (ast.unparse(e)[:80], at.lineno, b)
            if und:
                raise und
            return True
        ck.ob('numbers narrower than 64-bit floats and 32-bit integers only reach output files [%s]' % m.name, go, m.rel)
        prec = [c for c in ast.walk(m.tree) if isinstance(c, ast.keyword) and c.arg == 'precision' and isinstance(c.value, (ast.Attribute, ast.Constant))
                and str(last(c.value) or getattr(c.value, 'value', '')).lower() in ('default', 'high', 'bfloat16', 'tensorfloat32', 'fastest')]
        ck.holds('no contraction asks for reduced precision [%s]' % m.name, not prec, '; '.join('line %d' % c.value.lineno for c in prec), m.rel)
        nd += draws(ck, L, m)
    ck.functions |= {(m.name, q) for m in L.mods.values() for q, _ in functions(m)}
    ck.facts.update(modules=len(L.mods), narrow_sources=ns, random_draws=nd)


DRAWS = {'rand', 'randn', 'randint', 'random', 'random_sample', 'choice', 'shuffle', 'permutation', 'uniform', 'normal', 'integers', 'standard_normal', 'exponential', 'sample', 'random_vonmises'}


def dotted(e):
    r = []
    while isinstance(e, ast.Attribute):
        r.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        r.append(e.id)
        return '.'.join(reversed(r))
    return None


def draws(ck, L, m):
    np = {a.asname or a.name for s in ast.walk(m.tree) if isinstance(s, ast.Import) for a in s.names if a.name in ('numpy',)}
    glob, gens = [], []
    for c in ast.walk(m.tree):
        if isinstance(c, ast.Call):
            d = dotted(c.func) or ''
            q = d.split('.')
            if len(q) == 3 and q[0] in np and q[1] == 'random' and q[2] in DRAWS or d in ('Orientation.random', 'Rotation.random'):
                glob.append(c)
            if q[-1] in ('default_rng', 'RandomState') and not c.args and not c.keywords or q[-1] == 'seed' and len(q) == 3 and q[0] in np and not c.args and not c.keywords:
                gens.append(c)
            if q[-1] in ('PRNGKey', 'key', 'default_rng', 'RandomState', 'seed') and len(q) > 1 and any(isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('time', 'time_ns', 'urandom', 'getpid', 'perf_counter', 'now', 'entropy') for a in c.args for x in ast.walk(a)):
                gens.append(c)
    if gens:
        ck.holds('no generator starts from an arbitrary state [%s]' % m.name, False, '; '.join('line %d: %s' % (c.lineno, ast.unparse(c)[:60]) for c in gens), m.rel)
    if glob:
        def go():
            for x in [m] + reach(L, m):
                for c in ast.walk(x.tree):
                    if isinstance(c, ast.Call) and (dotted(c.func) or '').endswith('random.seed') and (c.args or c.keywords):
                        if at_import(x, c) or x is m:
                            a = (c.args + [k.value for k in c.keywords])[0]
                            if any(isinstance(y, ast.Call) for y in ast.walk(a)):
                                raise Undecided('seed computed at run time')
                            f = enclosing(c)
                            if at_import(x, c):
                                return True
                            if f is not None and all(same(f, g, c) for g in glob):
                                return True
            return 'drawn without a fixed seed: ' + '; '.join('line %d' % c.lineno for c in glob)
        ck.ob('random draws follow a fixed seed [%s]' % m.name, go, m.rel)
    return len(glob)


def same(f, g, c):
    return any(p is f for p in parents(g)) and c.lineno < g.lineno
