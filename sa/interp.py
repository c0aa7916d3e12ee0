"""Denotational (abstract) interpreter over Python syntax trees.

Computes, for a function of /repo, the *term* each result denotes as a function
of symbolic inputs and symbolic array sizes.  Joins are gated by Iverson
brackets; nothing of /repo is imported or executed.
"""
import ast
import os
from fractions import Fraction
from . import terms as T
from . import arrays as A
from .arrays import Arr, ProgError, SliceV, asarr, scal
from .terms import Poly, Undecided, ZERO, ONE, const, lift

REPO = os.environ.get('VERIF_REPO', '/repo')
SNAP = A.snapshot


class PyRaise(ProgError):
    """An exception the analysed program raises itself."""

    def __init__(self, name, node=None):
        Exception.__init__(self, name)
        self.name = name
        self.node = node


class AssertFail(ProgError):
    pass


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Top:
    """Join of values the domain cannot represent."""

    def __init__(self, why='join', alts=()):
        self.why = why
        self.alts = alts

    def __repr__(self):
        return '<top %s>' % self.why


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'glob', 'module', 'func', 'globals_decl', 'nonlocal_decl')

    def __init__(self, parent=None, module=None, locals_=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.func = func
        self.globals_decl = ()
        self.nonlocal_decl = ()


class FuncV:
    def __init__(self, node, env, module, name, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.cls = cls
        self.defaults = []
        self.kw_defaults = {}
        self.attrs = {}

    def __repr__(self):
        return '<func %s>' % self.qual()

    def qual(self):
        return '%s.%s' % (self.module.name if self.module else '?', self.name)

    def where(self):
        return '%s:%d' % (self.module.relpath if self.module else '?', getattr(self.node, 'lineno', 0))


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r>' % (self.func,)


class ClassV:
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.dataclass = False
        self.fields = []

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def has(self, n):
        if n in self.ns:
            return True
        return any(isinstance(b, ClassV) and b.has(n) for b in self.bases)

    def all_fields(self):
        out = []
        for b in self.bases:
            if isinstance(b, ClassV):
                out += [f for f in b.all_fields() if f[0] not in [x[0] for x in self.fields]]
        return out + self.fields

    def is_dc(self):
        return self.dataclass or any(isinstance(b, ClassV) and b.is_dc() for b in self.bases)


class ObjV:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<obj %s>' % (self.cls.name if isinstance(self.cls, ClassV) else self.cls)


class ModV:
    def __init__(self, name, relpath):
        self.name = name
        self.relpath = relpath
        self.env = None
        self.tree = None
        self.src = ''

    def __repr__(self):
        return '<module %s>' % self.name


class ExtV:
    """Reference into an external library, by dotted path."""
    _cache = {}

    def __new__(cls, path):
        o = cls._cache.get(path)
        if o is None:
            o = object.__new__(cls)
            o.path = path
            cls._cache[path] = o
        return o

    def __repr__(self):
        return '<ext %s>' % self.path


class PyFn:
    """Host-implemented callable: fn(I, args, kwargs)."""

    def __init__(self, fn, name='pyfn', attrs=None):
        self.fn = fn
        self.name = name
        self.attrs = attrs or {}

    def __repr__(self):
        return '<pyfn %s>' % self.name


class Model:
    """Host-implemented object; subclasses define attr(I,name) / call()."""

    def attr(self, I, name):
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return PyFn(lambda I, a, k: m(I, *a, **k), name)
        if hasattr(self, 'a_' + name):
            return getattr(self, 'a_' + name)
        raise Undecided('attribute %s of %s' % (name, type(self).__name__))

    def setattr(self, I, name, v):
        raise Undecided('store to %s.%s' % (type(self).__name__, name))

    def call(self, I, args, kw):
        raise Undecided('call of %s' % type(self).__name__)


class Opaque(Model):
    """External value about which nothing is known."""

    def __init__(self, name):
        self.name = name

    def attr(self, I, name):
        return Opaque(self.name + '.' + name)

    def call(self, I, args, kw):
        I.event('ext', self.name, args, kw)
        return Opaque(self.name + '()')

    def setattr(self, I, name, v):
        I.event('extset', self.name + '.' + name, [v], {})

    def __repr__(self):
        return '<opaque %s>' % self.name


class OpaqueStr(str):
    pass


class SymSeq:
    """Sequence of symbolic length: element at index var."""

    def __init__(self, n, var, elem):
        self.n = n          # Dim
        self.var = var      # var Poly
        self.elem = elem

    def at(self, i):
        return map_tree(lambda x: subst_val(x, self.var, i), self.elem)


def subst_val(x, var, i):
    if isinstance(x, Arr):
        va = T.the_atom(var)
        i = lift(i)
        y = SNAP(x)
        sh = [A.Dim(T.subst(d.p, {va: i}), d.kind, d.parts) if va in d.p.free else d for d in x.shape]
        return Arr(sh, lambda idx: T.subst(y.get(idx), {va: i}), x.dtype, x.lib)
    return x


def map_tree(f, x):
    if isinstance(x, tuple):
        return tuple(map_tree(f, y) for y in x)
    if isinstance(x, list):
        return [map_tree(f, y) for y in x]
    if isinstance(x, dict):
        return {k: map_tree(f, v) for k, v in x.items()}
    return f(x)


def leaves(x):
    if isinstance(x, (tuple, list)):
        out = []
        for y in x:
            out += leaves(y)
        return out
    if isinstance(x, dict):
        out = []
        for k in sorted(x, key=str):
            out += leaves(x[k])
        return out
    if x is None:
        return []
    return [x]


class Event:
    __slots__ = ('kind', 'name', 'args', 'kw', 'guard', 'node', 'func', 'res')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class LoopRec:
    """Summary of a loop whose trip count is not a constant."""

    def __init__(self):
        self.node = None
        self.func = None
        self.entry = {}
        self.head = {}
        self.after = {}
        self.cond = None
        self.var = None
        self.count = None
        self.events = (0, 0)
        self.breaks = False


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Part:
    """Exit (return / break / continue) taken only when c holds."""
    __slots__ = ('kind', 'c', 'v')

    def __init__(self, kind, c, v=None):
        self.kind = kind
        self.c = c
        self.v = v


def _outcome(o):
    if o is None:
        return None, ZERO, None
    if isinstance(o, Ret):
        return 'ret', ONE, o.v
    if isinstance(o, Part):
        return o.kind, o.c, o.v
    if isinstance(o, Brk):
        return 'brk', ONE, None
    return 'cont', ONE, None


class Brk:
    pass


class Cont:
    pass


BRK, CONT = Brk(), Cont()


def assigned_names(node):
    """Names bound in a function body (not nested functions)."""
    out = set()
    glob = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            # only the first iterable is evaluated in this scope
            self.visit(n.generators[0].iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            glob.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in (node.body if isinstance(node.body, list) else [node.body]):
        v.visit(s)
    return out - glob


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.events = []
        self.trails = []
        self.guards = []
        self.stack = []
        self.loops = []
        self.stubs = {}          # qualified name -> PyFn replacing a repo function
        self.ext = {}            # path -> override
        self.files = {}          # path -> lines of a text file the program may read
        self.steps = 0
        self.max_steps = 4000000
        self.functions_seen = set()
        self.loop_hook = None
        self.maxdepth = 120
        self.call_hook = None
        from . import models, models2
        self.models = models

    # ------------------------------------------------------------------ misc
    peel = None

    def event(self, kind, name, args=(), kw=None, node=None, res=None):
        e = Event()
        e.kind = kind
        e.name = name
        e.args = list(args)
        e.kw = dict(kw or {})
        e.guard = list(self.guards)
        e.node = node
        e.res = res
        e.func = self.stack[-1] if self.stack else None
        self.events.append(e)
        return e

    def where(self):
        if self.stack:
            f, n = self.stack[-1]
            return '%s:%s (%s)' % (f.module.relpath if f.module else '?', getattr(n, 'lineno', '?'), f.name)
        return '?'

    # ------------------------------------------------------------ mutation
    def log(self, kind, cont, key, old):
        if self.trails:
            self.trails[-1].append((kind, cont, key, old))

    rebind = None       # (qualified function, {local name: value -> value}) replaces bindings in one function
    frames = None       # {qualified function: Env of its last call} when requested

    def set_var(self, env, name, v):
        if self.rebind is not None and env.func is not None and name in self.rebind[1] and env.func.qual() == self.rebind[0]:
            v = self.rebind[1][name](v)
        self.log('env', env, name, env.vars.get(name, UNBOUND))
        env.vars[name] = v

    def set_attr(self, obj, name, v):
        self.log('attr', obj, name, obj.attrs.get(name, UNBOUND))
        obj.attrs[name] = v

    def touch_list(self, l):
        self.log('list', l, None, list(l))

    def set_key(self, d, k, v):
        self.log('dict', d, k, d.get(k, UNBOUND))
        d[k] = v

    def store_arr(self, a, new):
        self.log('arr', a, None, (a.fn, a.memo, a.shape, a.dtype))
        A.store(a, new)

    def _loc(self, e):
        k, c, key, old = e
        return (k, id(c), key)

    def _read(self, e):
        k, c, key, _ = e
        if k == 'env':
            return c.vars.get(key, UNBOUND)
        if k == 'attr':
            return c.attrs.get(key, UNBOUND)
        if k == 'list':
            return list(c)
        if k == 'dict':
            return c.get(key, UNBOUND)
        if k == 'arr':
            return (c.fn, c.memo, c.shape, c.dtype)

    def _write(self, e, v):
        k, c, key, _ = e
        if k == 'env':
            if v is UNBOUND:
                c.vars.pop(key, None)
            else:
                c.vars[key] = v
        elif k == 'attr':
            if v is UNBOUND:
                c.attrs.pop(key, None)
            else:
                c.attrs[key] = v
        elif k == 'list':
            c[:] = v
        elif k == 'dict':
            if v is UNBOUND:
                c.pop(key, None)
            else:
                c[key] = v
        elif k == 'arr':
            c.fn, c.memo, c.shape, c.dtype = v

    def speculate(self, thunk):
        """Run thunk, capture modified locations, roll back."""
        self.trails.append([])
        err = None
        out = None
        try:
            out = thunk()
        except ProgError as e:
            err = e
        finally:
            tr = self.trails.pop()
        changes = {}
        for e in tr:
            l = self._loc(e)
            if l not in changes:
                changes[l] = [e, e[3], None]
        for l, ch in changes.items():
            ch[2] = self._read(ch[0])
        for l, ch in changes.items():
            self._write(ch[0], ch[1])
        return out, err, changes

    def commit(self, changes):
        for l, (e, old, new) in changes.items():
            self.log(*(e[0], e[1], e[2], old))
            self._write(e, new)

    def merge_changes(self, cond, c1, c2):
        for l in list(dict.fromkeys(list(c1) + list(c2))):
            ch = c1.get(l) or c2.get(l)
            e, old = ch[0], ch[1]
            v1 = c1[l][2] if l in c1 else old
            v2 = c2[l][2] if l in c2 else old
            if e[0] == 'arr':
                a1 = Arr(v1[2], v1[0], v1[3])
                a2 = Arr(v2[2], v2[0], v2[3])
                m = self.join(cond, a1, a2)
                v = (m.fn, m.memo, m.shape, m.dtype)
            elif e[0] == 'list':
                if len(v1) == len(v2):
                    v = [self.join(cond, x, y) for x, y in zip(v1, v2)]
                else:
                    v = [Top('list of conditional length')]
            else:
                v = self.join(cond, v1, v2)
            self.log(e[0], e[1], e[2], old)
            self._write(e, v)

    def join(self, cond, a, b):
        """cond ? a : b, cond a 0/1 Poly."""
        if a is b:
            return a
        if a is UNBOUND or b is UNBOUND:
            return b if a is UNBOUND else a
        num = (int, Fraction, float, bool, Arr)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Arr) and not isinstance(b, Arr) and type(a) is type(b) and a == b:
                return a
            x, y = asarr(a), asarr(b)
            if len(x.shape) != len(y.shape) or any(p.p is not q.p for p, q in zip(x.shape, y.shape)):
                return Top('join of shapes %s and %s' % (x.shape, y.shape), (cond, a, b))
            x, y = SNAP(x), SNAP(y)
            dt = A.join_dtype(x.dtype, y.dtype)
            return Arr(x.shape, lambda idx: T.ite(cond, x.get(idx), y.get(idx)), dt, A.join_lib(x, y))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join(cond, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.join(cond, x, y) for x, y in zip(a, b)]
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.join(cond, a[k], b[k]) for k in a}
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node:
            return a
        return Top('join', (cond, a, b))

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace('.', '/')
        path = os.path.join(self.repo, rel + '.py')
        if not os.path.exists(path):
            path = os.path.join(self.repo, rel, '__init__.py')
            if not os.path.exists(path):
                raise Undecided('module %s not found' % name)
        m = ModV(name, os.path.relpath(path, self.repo))
        with open(path) as f:
            m.src = f.read()
        m.tree = ast.parse(m.src)
        m.env = Env(None, m)
        m.env.vars['__name__'] = name
        m.env.vars['__file__'] = path
        self.modules[name] = m
        fake = FuncV(ast.parse('def _module(): pass').body[0], m.env, m, '<module>')
        self.stack.append((fake, m.tree))
        try:
            for s in m.tree.body:
                try:
                    self.exec_stmt(s, m.env)
                except (Undecided, ProgError) as e:
                    # module level: names stay unbound, reported when used
                    self.event('module-error', '%s: %s' % (name, e), node=s)
        finally:
            self.stack.pop()
        return m

    def load_src(self, name, src, relpath='<spec>'):
        m = ModV(name, relpath)
        m.src = src
        m.tree = ast.parse(src)
        m.env = Env(None, m)
        m.env.vars['__name__'] = name
        self.modules[name] = m
        fake = FuncV(ast.parse('def _module(): pass').body[0], m.env, m, '<module>')
        self.stack.append((fake, m.tree))
        try:
            for s in m.tree.body:
                self.exec_stmt(s, m.env)
        finally:
            self.stack.pop()
        return m

    def has_repo_module(self, name):
        rel = name.replace('.', '/')
        return os.path.exists(os.path.join(self.repo, rel + '.py')) or \
            os.path.isdir(os.path.join(self.repo, rel))

    def get(self, modname, attr):
        m = self.load(modname)
        v = m.env.vars.get(attr, UNBOUND)
        if v is UNBOUND:
            raise Undecided('%s.%s does not exist' % (modname, attr))
        return v

    def import_name(self, name):
        if name.split('.')[0] in ('jax_am', 'applications', 'demos') and self.has_repo_module(name):
            if os.path.isdir(os.path.join(self.repo, name.replace('.', '/'))) and \
                    not os.path.exists(os.path.join(self.repo, name.replace('.', '/'), '__init__.py')):
                m = ModV(name, name)
                m.env = Env(None, m)
                return m
            return self.load(name)
        return ExtV(self.models.canon(name))

    # ------------------------------------------------------------ lookup
    def lookup(self, env, name):
        e = env
        if e.locals is not None and name in e.locals:
            v = e.vars.get(name, UNBOUND)
            if v is UNBOUND:
                raise PyRaise('UnboundLocalError: local variable %r referenced before assignment' % name)
            if isinstance(v, Top):
                return v
            return v
        while e is not None:
            v = e.vars.get(name, UNBOUND)
            if v is not UNBOUND:
                return v
            if e.locals is not None and name in e.locals:
                raise PyRaise('NameError: free variable %r referenced before assignment' % name)
            e = e.parent
        b = self.models.BUILTINS.get(name)
        if b is not None:
            return b
        raise PyRaise('NameError: name %r is not defined' % name)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for i, s in enumerate(stmts):
            r = self.exec_stmt(s, env)
            if r is not None:
                if isinstance(r, Part):
                    return self.after_part(r, lambda: self.exec_block(stmts[i + 1:], env))
                return r
        return None

    def after_part(self, r, rest):
        """Continue with the remainder where the partial exit did not happen."""
        g = T.not_(r.c)
        self.guards.append(g)
        try:
            o, e, ch = self.speculate(rest)
        finally:
            self.guards.pop()
        if e is not None:
            self.event('abort', str(e), [scal(g, 'b')])
            if r.kind == 'ret':
                return Ret(r.v)
            raise e
        self.merge_changes(r.c, {}, ch)
        if o is None:
            return r
        if r.kind == 'ret':
            if isinstance(o, Ret):
                return Ret(self.join(r.c, r.v, o.v))
            if isinstance(o, Part) and o.kind == 'ret':
                return Part('ret', T.add(r.c, T.mul(g, o.c)), self.join(r.c, r.v, o.v))
        elif r.kind == 'cont':
            if o is CONT:
                return CONT
            if isinstance(o, Part) and o.kind == 'cont':
                return Part('cont', T.add(r.c, T.mul(g, o.c)), None)
        elif r.kind == 'brk':
            if o is BRK:
                return BRK
            if isinstance(o, Part) and o.kind == 'brk':
                return Part('brk', T.add(r.c, T.mul(g, o.c)), None)
        raise Undecided('mixed conditional exits')

    def exec_stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('step budget')
        if self.stack:
            f, _ = self.stack[-1]
            self.stack[-1] = (f, s)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.set_var(env, a.asname, self.import_name(a.name))
            else:
                top = a.name.split('.')[0]
                self.import_name(a.name)
                self.set_var(env, top, self.import_name(top))

    def s_ImportFrom(self, s, env):
        mod = s.module or ''
        if s.level:
            base = env.module.name.split('.')
            if not env.module.relpath.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            tgt = a.asname or a.name
            if self.has_repo_module(mod) and mod.split('.')[0] == 'jax_am':
                if self.has_repo_module(mod + '.' + a.name):
                    self.set_var(env, tgt, self.import_name(mod + '.' + a.name))
                    continue
                m = self.import_name(mod)
                if a.name == '*':
                    for k, v in m.env.vars.items():
                        if not k.startswith('_'):
                            self.set_var(env, k, v)
                    continue
                v = m.env.vars.get(a.name, UNBOUND)
                if v is UNBOUND:
                    raise PyRaise('ImportError: cannot import name %r from %r' % (a.name, mod))
                self.set_var(env, tgt, v)
            else:
                self.set_var(env, tgt, ExtV(self.models.canon(mod + '.' + a.name)))

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dec = self.ev(d, env)
            v = self.call(dec, [v], {}, s)
        self.set_var(env, s.name, v)

    def make_func(self, node, env, name):
        f = FuncV(node, env, env.module, name)
        a = node.args
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kw_defaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env, env.module)
        c = ClassV(s.name, bases, cenv.vars, env.module, s)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.fields.append((st.target.id, st.value is not None))
            self.exec_stmt(st, cenv)
        for v in cenv.vars.values():
            if isinstance(v, FuncV) and v.cls is None:
                v.cls = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {}, s)
        self.set_var(env, s.name, v)

    def s_Return(self, s, env):
        return Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        cur = self.ev(_load(s.target), env)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            self.touch_list(cur)
            cur.extend(self.iterate(v))
            return
        if isinstance(cur, Arr) and cur.shape and cur.lib == 'np':
            new = self.models.binop(self, s.op, cur, v)
            new = A.broadcast_to(new, cur.shape)
            if cur.dtype == 'i' and new.dtype == 'f':
                raise PyRaise('UFuncTypeError: cannot cast in-place result from float to int')
            if isinstance(s.target, ast.Name):
                self.store_arr(cur, new)
                return
        new = self.models.binop(self, s.op, cur, v)
        self.assign(s.target, new, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.log('env', env, t.id, env.vars.get(t.id, UNBOUND))
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, dict):
                    self.log('dict', o, k, o.get(k, UNBOUND))
                    o.pop(k, None)
                elif isinstance(o, list) and isinstance(k, int):
                    self.touch_list(o)
                    del o[k]
                else:
                    raise Undecided('del')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, ObjV):
                    self.log('attr', o, t.attr, o.attrs.get(t.attr, UNBOUND))
                    o.attrs.pop(t.attr, None)

    def s_Global(self, s, env):
        env.globals_decl = tuple(env.globals_decl) + tuple(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocal_decl = tuple(env.nonlocal_decl) + tuple(s.names)

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        t = self.truth(v)
        self.event('assert', ast.unparse(s.test), [v], node=s)
        if t is ZERO:
            raise AssertFail('AssertionError: %s' % ast.unparse(s.test))

    def s_Raise(self, s, env):
        n = 'Exception'
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            n = ast.unparse(x)
        raise PyRaise(n, s)

    def s_Try(self, s, env):
        try:
            r = self.exec_block(s.body, env)
        except PyRaise as e:
            r = None
            for h in s.handlers:
                if h.name:
                    self.set_var(env, h.name, Opaque('exception'))
                r = self.exec_block(h.body, env)
                break
            else:
                if not s.finalbody:
                    raise
        else:
            if r is None and s.orelse:
                r = self.exec_block(s.orelse, env)
        if s.finalbody:
            r2 = self.exec_block(s.finalbody, env)
            if r2 is not None:
                return r2
        return r

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Model) and hasattr(v, 'enter'):
                v2 = v.enter(self)
            else:
                v2 = v
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v2, env)
        return self.exec_block(s.body, env)

    def s_Break(self, s, env):
        return BRK

    def s_Continue(self, s, env):
        return CONT

    # ---- conditionals
    def s_If(self, s, env):
        c = self.truth(self.ev(s.test, env))
        if c is ONE:
            return self.exec_block(s.body, env)
        if c is ZERO:
            return self.exec_block(s.orelse, env)
        return self.fork(c, lambda: self.exec_block(s.body, env), lambda: self.exec_block(s.orelse, env), s)

    def fork(self, c, th, el, node):
        self.guards.append(c)
        try:
            o1, e1, ch1 = self.speculate(th)
        finally:
            self.guards.pop()
        self.guards.append(T.not_(c))
        try:
            o2, e2, ch2 = self.speculate(el)
        finally:
            self.guards.pop()
        if e1 is not None and e2 is not None:
            raise e1
        if e1 is not None or e2 is not None:
            err = e1 or e2
            self.event('abort', str(err), [scal(c if e1 is not None else T.not_(c), 'b')], node=node)
            if e1 is not None:
                self.commit(ch2)
                return o2
            self.commit(ch1)
            return o1
        self.merge_changes(c, ch1, ch2)
        return self.join_outcome(c, o1, o2)

    def join_outcome(self, c, o1, o2):
        if o1 is None and o2 is None:
            return None
        if isinstance(o1, Ret) and isinstance(o2, Ret):
            return Ret(self.join(c, o1.v, o2.v))
        if o1 is o2:
            return o1
        k1, c1, v1 = _outcome(o1)
        k2, c2, v2 = _outcome(o2)
        if k1 is not None and k2 is not None and k1 != k2:
            raise Undecided('mixed conditional exits')
        k = k1 or k2
        cc = T.ite(c, c1, c2)
        if k1 is None:
            v = v2
        elif k2 is None:
            v = v1
        else:
            v = self.join(c, v1, v2)
        return Part(k, cc, v)

    # ---- loops
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        seq = self.iter_spec(it)
        if isinstance(seq, list):
            return self.run_items(s, env, seq)
        n, elem = seq
        return self.sym_loop(s, env, n, elem)

    def run_items(self, s, env, seq):
        for k, x in enumerate(seq):
            self.assign(s.target, x, env)
            r = self.exec_block(s.body, env)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
            if isinstance(r, Part) and r.kind != 'cont':
                o = self.after_part(r, lambda: self.run_items(s, env, seq[k + 1:]))
                return None if isinstance(o, Part) and o.kind == 'brk' else o
        return self.exec_block(s.orelse, env) if s.orelse else None

    def s_While(self, s, env):
        cnt = counted(s)
        for k in range(5000):
            c = self.truth(self.ev(s.test, env))
            if c is ZERO:
                return self.exec_block(s.orelse, env) if s.orelse else None
            if cnt is not None and not s.orelse:
                r = self.count_loop(s, env, cnt)
                if r:
                    return None
            if c is not ONE:
                break
            r = self.exec_block(s.body, env)
            if r is BRK:
                return None
            if isinstance(r, Ret):
                return r
            if isinstance(r, Part) and r.kind != 'cont':
                raise Undecided('conditional exit of a while loop')
        else:
            raise Undecided('while loop does not terminate in the abstraction')
        if self.peel is not None:
            return self.peel_while(s, env, c)
        return self.sym_while(s, env)

    def count_loop(self, s, env, cnt):
        """while v < n: ...; v += 1  with a symbolic bound is  for v in range(v, n)"""
        name, bound, off = cnt
        v0, n = self.ev(ast.copy_location(ast.Name(name, ast.Load()), s), env), self.ev(bound, env)
        try:
            a, b = lift(asarr(v0).scalar()), lift(asarr(n).scalar())
        except (Undecided, PyRaise, AttributeError, TypeError, ValueError):
            return False
        b = T.add(b, const(off))
        m = T.add(b, T.neg(a))
        if m.const() is not None or not is_size(m):
            return False
        loop = ast.copy_location(ast.For(ast.Name(name, ast.Store()), None, s.body[:-1], [], None), s)
        ast.fix_missing_locations(loop)
        self.generic_loop(loop, env, A.mkdim(m), lambda i: scal(T.add(a, lift(i)), 'i'))
        self.assign(loop.target, scal(b, 'i'), env)
        return True

    def peel_while(self, s, env, c):
        """The executions that leave the loop after exactly self.peel iterations."""
        conds = [c]
        rec = (s, conds, self.stack[-1][0] if self.stack else None)
        self.peeled.append(rec)
        ng = len(self.guards)
        try:
            for t in range(self.peel if isinstance(self.peel, int) else self.peel(len(self.peeled))):
                if c is ZERO:
                    break
                self.guards.append(c)
                r = self.exec_block(s.body, env)
                if r is BRK or isinstance(r, Ret) or isinstance(r, Part) and r.kind != 'cont':
                    raise Undecided('conditional exit of a while loop')
                c = self.truth(self.ev(s.test, env))
                conds.append(c)
        finally:
            del self.guards[ng:]
        return None

    def sym_while(self, s, env):
        return self.generic_loop(s, env, None, None)

    def sym_loop(self, s, env, n, elem):
        return self.generic_loop(s, env, n, elem)

    def generic_loop(self, s, env, n, elem):
        """Loop with unknown trip count: closed forms for accumulations and
        appends; other modified state becomes a fresh symbol at the loop head."""
        if n is not None and n.p is ZERO:
            return None
        rec = LoopRec()
        rec.node = s
        rec.func = self.stack[-1][0] if self.stack else None
        rec.count = n
        if n is not None:
            v = T.fresh_var(n.p)
            rec.var = v
        ev0 = len(self.events)

        def step():
            if n is not None:
                self.assign(s.target, elem(v), env)
            r = self.exec_block(s.body, env)
            if r is BRK or isinstance(r, Ret) or isinstance(r, Part) and r.kind != 'cont':
                rec.breaks = True
                if r is BRK or isinstance(r, Ret):
                    raise Undecided('break out of a symbolic loop')
                if r.kind == 'ret':
                    raise Undecided('return out of a symbolic loop')
            return None
        # trial run to find modified locations
        nloops = len(self.loops)
        _, err, ch = self.speculate(step)
        del self.events[ev0:]
        del self.loops[nloops:]
        if err is not None:
            raise err
        tvars = set()
        if n is not None:
            for x in ast.walk(s.target):
                if isinstance(x, ast.Name):
                    tvars.add(x.id)
        # havoc
        plan = []
        for l, (e, old, new) in ch.items():
            if e[0] == 'env' and e[2] in tvars:
                continue
            if old is UNBOUND:
                continue
            plan.append((l, e, old, new))
        for rnd in range(3):
            heads = {}
            for l, e, old, new in plan:
                h = self.havoc(e, old, new)
                heads[l] = h
            ev1 = len(self.events)
            nl = len(self.loops)

            def run():
                for l, e, old, new in plan:
                    self.log(e[0], e[1], e[2], old)
                    self._write(e, heads[l])
                rec.cond = self.truth(self.ev(s.test, env)) if n is None else None
                if n is None:
                    self.guards.append(rec.cond)
                try:
                    return step()
                finally:
                    if n is None:
                        self.guards.pop()
            _, err, ch2 = self.speculate(run)
            if err is not None:
                raise err
            extra = [(l, e, old, new) for l, (e, old, new) in ch2.items()
                     if l not in heads and old is not UNBOUND and not (e[0] == 'env' and e[2] in tvars)
                     and not _same_val(old, new)]
            if not extra:
                break
            plan += extra
            del self.events[ev1:]
            del self.loops[nl:]
        rec.events = (ev1, len(self.events))
        final = {}
        for l, e, old, new in plan:
            after = ch2[l][2] if l in ch2 else heads[l]
            key = e[2] if e[0] in ('env', 'attr', 'dict') else ('%s%d' % (e[0], len(rec.entry)))
            rec.entry[key] = old
            rec.head[key] = heads[l]
            rec.after[key] = after
            final[l] = (e, old, self.close_loop(e, old, heads[l], after, n, rec))
        # names first bound inside the loop: keep last generic value
        for l, (e, old, new) in ch2.items():
            if l not in final and not (e[0] == 'env' and e[2] in tvars):
                final[l] = (e, old, new)
        self.loops.append(rec)
        for l, (e, old, new) in final.items():
            self.log(e[0], e[1], e[2], old)
            self._write(e, new)
        return None

    def havoc(self, e, old, new):
        k = e[0]
        if k == 'list':
            if len(new) > len(old) and all(_same_val(x, y) for x, y in zip(old, new)):
                return list(old)         # append-only
            return [self.hav_val(x) for x in old] if len(old) == len(new) else [Top('list changed in loop')]
        if k == 'arr':
            a = self.hav_val(Arr(old[2], old[0], old[3]))
            return (a.fn, a.memo, a.shape, a.dtype)
        if type(old) is list and type(new) is list and len(new) > len(old) and all(_same_val(x, y) for x, y in zip(old, new)):
            return list(old)
        return self.hav_val(old)

    def hav_val(self, x):
        if isinstance(x, bool):
            return scal(self.fresh_sym('b'), 'b')
        if isinstance(x, int):
            return scal(self.fresh_sym('n', True), 'i')
        if isinstance(x, Fraction):
            return scal(self.fresh_sym('x'), 'f')
        if isinstance(x, Arr):
            T._fresh[0] += 1
            return A.leaf('loop%d' % T._fresh[0], x.shape, x.dtype, x.lib)
        if isinstance(x, tuple):
            return tuple(self.hav_val(y) for y in x)
        if isinstance(x, list):
            return [self.hav_val(y) for y in x]
        if isinstance(x, (ObjV, Model, FuncV, PyFn, ExtV)) or x is None or isinstance(x, str):
            return x if not isinstance(x, Model) else x
        return Top('loop-carried %s' % type(x).__name__)

    def fresh_sym(self, hint, integer=False):
        T._fresh[0] += 1
        return T.sym('loop_%s%d' % (hint, T._fresh[0]), integer=integer)

    def close_loop(self, e, old, head, after, n, rec):
        if n is None:
            if (e[0] == 'list' or type(head) is list and type(after) is list) and not (len(head) == len(after) and all(_same_val(x, y) for x, y in zip(head, after))):
                return [Top('list changed in loop')]
            return head
        v = rec.var
        va = T.the_atom(v)
        if e[0] == 'list' or type(old) is list and type(head) is list and type(after) is list:
            if len(after) > len(head) and len(after) - len(head) == 1 and \
                    all(_same_val(x, y) for x, y in zip(head, after)):
                seq = SymSeq(n, v, after[-1])
                if not head:
                    return [seq]
                return list(old) + [seq]
            if not head and len(after) > 1 and all(isinstance(x, (int, Fraction, Arr)) and not (isinstance(x, Arr) and x.shape) for x in after):
                # a fixed number of scalars per iteration
                c = len(after)
                m = A.mkdim(T.mul(n.p, const(c)))
                wv = T.fresh_var(m.p)
                va0 = T.the_atom(v)
                el = [T.subst(lift(asarr(x).scalar()), {va0: T.floordiv(wv, const(c))}) for x in after]
                dts = [asarr(x).dtype for x in after]
                return [SymSeq(m, wv, scal(A.pick(T.mod(wv, const(c)), el), 'f' if 'f' in dts else 'i'))]
            return [Top('list changed in loop')]
        if e[0] == 'arr':
            h = Arr(head[2], head[0], head[3])
            a = Arr(after[2], after[0], after[3])
            o = Arr(old[2], old[0], old[3])
            r = self.close_acc(h, a, o, n, v)
            if r is None:
                r = self.hav_val(o)
            return (r.fn, r.memo, r.shape, r.dtype)
        if _same_val(head, after):
            return old
        if isinstance(after, (Arr, int, Fraction)) and isinstance(head, (Arr, int, Fraction)) and isinstance(old, (Arr, int, Fraction)):
            r = self.close_acc(asarr(head), asarr(after), asarr(old), n, v)
            if r is None:
                r = self.close_last(asarr(after), n, v)
            if r is not None:
                return r
            return self.hav_val(old)
        return Top('loop result')

    def close_last(self, after, n, v):
        """x <- e(i)  ==>  e(n - 1), when e reads no loop-carried state"""
        gen = tuple(T.fresh_var(d.p) for d in after.shape)
        va = T.the_atom(v)
        try:
            if loop_marks(after.get(gen)) or any(va in d.p.free for d in after.shape):
                return None
        except Undecided:
            return None
        a, end = SNAP(after), T.add(n.p, T.neg(ONE))
        return Arr(after.shape, lambda ix: T.subst(a.get(ix), {va: end}), after.dtype, after.lib)

    def close_acc(self, head, after, old, n, v):
        """x <- x + e(i)  ==>  old + sum_i e(i)."""
        if len(head.shape) != len(after.shape) or any(p.p is not q.p for p, q in zip(head.shape, after.shape)):
            # accumulating concatenation
            return None
        if len(old.shape) != len(after.shape):
            return None
        gen = tuple(T.fresh_var(d.p) for d in head.shape)
        try:
            d = T.add(after.get(gen), T.neg(head.get(gen)))
        except Undecided:
            return None
        hb = head.get(gen)
        hs = _head_marks(hb)
        if _mentions(d, hs):
            return None
        va = T.the_atom(v)
        head, after, old = SNAP(head), SNAP(after), SNAP(old)

        def fn(idx):
            body = T.add(after.get(idx), T.neg(head.get(idx)))
            if va in body.free:
                return T.add(old.get(idx), T.big_sum([(v, n.p)], body))
            return T.add(old.get(idx), T.mul(n.p, body))
        return Arr(after.shape, fn, A.join_dtype(old.dtype, after.dtype), after.lib)

    # ------------------------------------------------------------ iteration
    def iter_spec(self, it):
        """list of items, or (Dim, elem(i)) for symbolic lengths."""
        if isinstance(it, (list, tuple)):
            if len(it) == 1 and isinstance(it[0], SymSeq):
                return it[0].n, it[0].at
            if any(isinstance(x, SymSeq) for x in it):
                raise Undecided('mixed symbolic sequence')
            return list(it)
        if isinstance(it, SymSeq):
            return it.n, it.at
        if isinstance(it, self.models.RangeV):
            c = it.concrete()
            if c is not None:
                return [i for i in c]
            return A.mkdim(it.length()), lambda i: scal(T.add(it.start, T.mul(it.step, lift(i))), 'i')
        if isinstance(it, self.models.ZipV):
            parts = [self.iter_spec(x) for x in it.items]
            if all(isinstance(p, list) for p in parts):
                return [tuple(x) for x in zip(*parts)]
            if all(not isinstance(p, list) for p in parts):
                n = parts[0][0]
                for p in parts[1:]:
                    if p[0].p is not n.p:
                        raise Undecided('zip of different symbolic lengths')
                return n, lambda i: tuple(p[1](i) for p in parts)
            raise Undecided('zip of mixed lengths')
        if isinstance(it, self.models.EnumV):
            p = self.iter_spec(it.item)
            if isinstance(p, list):
                return [(i + it.start, x) for i, x in enumerate(p)]
            return p[0], lambda i: (scal(T.add(lift(i), const(it.start)), 'i'), p[1](i))
        if isinstance(it, Arr):
            if not it.shape:
                raise PyRaise('TypeError: iteration over a 0-d array')
            d = it.shape[0]
            c = d.c()
            if c is not None and c <= 512:
                return [self.models.unbox(A.getitem(it, (k,))) for k in range(c)]
            a = SNAP(it)
            return d, lambda i: A.getitem(a, (scal(lift(i), 'i'),))
        if isinstance(it, dict):
            return list(it.keys())
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Model) and hasattr(it, 'iterate'):
            return it.iterate(self)
        if isinstance(it, (set, frozenset)):
            return sorted(it, key=str)
        raise Undecided('iteration over %s' % type(it).__name__)

    def iterate(self, it):
        s = self.iter_spec(it)
        if not isinstance(s, list):
            n, el = s
            v = T.fresh_var(n.p)
            return [SymSeq(n, v, el(v))]
        return s

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_decl:
                self.set_var(env.module.env, t.id, v)
            elif t.id in env.nonlocal_decl:
                e = env.parent
                while e is not None and not (e.locals is not None and t.id in e.locals):
                    e = e.parent
                if e is None:
                    raise Undecided('nonlocal')
                self.set_var(e, t.id, v)
            else:
                self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, Top):
                if v.alts and len(v.alts) == 3:
                    raise Undecided('unpacking a join')
                raise Undecided('unpacking %r' % v)
            if isinstance(v, Opaque):
                for k, x in enumerate(t.elts):
                    self.assign(x, Opaque('%s[%d]' % (v.name, k)), env)
                return
            items = self.iter_spec(v)
            if not isinstance(items, list):
                raise Undecided('unpacking a symbolic sequence')
            if stars:
                k = stars[0]
                tail = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise('ValueError: not enough values to unpack')
                vals = items[:k] + [items[k:len(items) - tail]] + items[len(items) - tail:]
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(items) != len(t.elts):
                raise PyRaise('ValueError: cannot unpack %d values into %d' % (len(items), len(t.elts)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Undecided('assignment target')

    def setattr(self, o, name, v):
        if isinstance(o, ObjV):
            self.set_attr(o, name, v)
        elif isinstance(o, Model):
            o.setattr(self, name, v)
        elif isinstance(o, (FuncV, PyFn)):
            o.attrs[name] = v
        elif isinstance(o, ClassV):
            self.set_key(o.ns, name, v)
        elif isinstance(o, ModV):
            self.set_var(o.env, name, v)
        elif isinstance(o, Arr) and name == 'shape':
            new = A.reshape(o, list(v))
            o.shape = new.shape
            self.store_arr(o, new)
        else:
            raise Undecided('store to attribute of %s' % type(o).__name__)

    def setitem(self, o, k, v):
        if isinstance(o, list):
            if isinstance(k, Arr):
                k = k.concrete()
            if isinstance(k, int):
                self.touch_list(o)
                if not -len(o) <= k < len(o):
                    raise PyRaise('IndexError: list assignment index out of range')
                o[k] = v
                return
            if isinstance(k, SliceV):
                self.touch_list(o)
                o[slice(k.start, k.stop, k.step)] = self.iterate(v)
                return
            raise Undecided('symbolic list store')
        if isinstance(o, dict):
            self.set_key(o, self.hashable(k), v)
            return
        if isinstance(o, Arr):
            if o.lib == 'jnp':
                raise PyRaise('TypeError: JAX arrays are immutable (item assignment)')
            if o.tag == 'view-readonly':
                raise PyRaise('ValueError: assignment destination is read-only')
            val = asarr(v)
            if o.dtype == 'i' and val.dtype == 'f':
                val = A.emap(lambda p: p if p.is_int() else T.app('trunc', (p,), is_int=True), [val], 'i')
            new = A.at_update(o, k, val)
            self.store_arr(o, new)
            return
        if isinstance(o, Model):
            if hasattr(o, 'setitem'):
                o.setitem(self, k, v)
                return
        raise Undecided('item store into %s' % type(o).__name__)

    def hashable(self, k):
        if isinstance(k, Arr):
            c = k.concrete()
            if c is None:
                raise Undecided('symbolic dictionary key')
            return c
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        return k

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        self.steps += 1
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return Fraction(repr(v))
        return v

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_Tuple(self, n, env):
        return tuple(self.ev_seq(n.elts, env))

    def e_List(self, n, env):
        return list(self.ev_seq(n.elts, env))

    def e_Set(self, n, env):
        return set(self.hashable(x) for x in self.ev_seq(n.elts, env))

    def ev_seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, env)
                if not isinstance(o, dict):
                    raise Undecided('dict unpacking')
                d.update(o)
            else:
                d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.models.binop(self, n.op, a, b)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        return self.models.unop(self, n.op, v)

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        vals = []
        acc = None
        for i, x in enumerate(n.values):
            v = self.ev(x, env)
            t = self.truth(v)
            if is_and:
                if t is ZERO:
                    return v if not vals else False
                if t is ONE:
                    last = v
                    if i == len(n.values) - 1 and not vals:
                        return v
                    continue
            else:
                if t is ONE:
                    return v if not vals else True
                if t is ZERO:
                    if i == len(n.values) - 1 and not vals:
                        return v
                    continue
            vals.append(t)
        if not vals:
            return is_and
        p = vals[0]
        for q in vals[1:]:
            p = T.mul(p, q) if is_and else T.add(p, T.add(q, T.neg(T.mul(p, q))))
        return scal(p, 'b')

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            r = self.models.compare(self, op, left, right)
            if res is None:
                res = r
            else:
                t = T.mul(self.truth(res), self.truth(r))
                res = True if t is ONE else False if t is ZERO else scal(t, 'b')
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, n, env):
        c = self.truth(self.ev(n.test, env))
        if c is ONE:
            return self.ev(n.body, env)
        if c is ZERO:
            return self.ev(n.orelse, env)
        a = self.ev(n.body, env)
        b = self.ev(n.orelse, env)
        return self.join(c, a, b)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Lambda(self, n, env):
        return self.make_func(n, env, '<lambda>')

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        k = self.ev_index(n.slice, env)
        return self.getitem(o, k)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, env)))
                else:
                    out.append(self.ev_index(x, env))
            return tuple(out)
        return self.ev(s, env)

    def e_Slice(self, s, env):
        return self.ev_index(s, env)

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                args.extend(self.iterate(self.ev(x.value, env)))
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict):
                    raise Undecided('** of non-dict')
                for a, b in d.items():
                    kw[a] = b
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw, n, env)

    def e_JoinedStr(self, n, env):
        out = ''
        opaque = False
        for x in n.values:
            if isinstance(x, ast.Constant):
                out += str(x.value)
            else:
                try:
                    v = self.ev(x.value, env)
                except Undecided:
                    out += '{?}'
                    opaque = True
                    continue
                fs = ''
                if x.format_spec is not None:
                    fs = self.ev(x.format_spec, env)
                s = self.models.fmt(v, fs, x.conversion)
                if s is None:
                    out += '{?}'
                    opaque = True
                else:
                    out += s
        return OpaqueStr(out) if opaque else out

    def e_FormattedValue(self, n, env):
        v = self.ev(n.value, env)
        s = self.models.fmt(v, '', n.conversion)
        return OpaqueStr('{?}') if s is None else s

    def e_Starred(self, n, env):
        raise Undecided('starred')

    def e_ListComp(self, n, env):
        return self.comp(n, env)

    def e_GeneratorExp(self, n, env):
        return self.comp(n, env)

    def e_SetComp(self, n, env):
        return set(self.hashable(x) for x in self.comp(n, env))

    def e_DictComp(self, n, env):
        pairs = self.comp(n, env, pair=True)
        return {self.hashable(k): v for k, v in pairs}

    def comp(self, n, env, pair=False):
        out = []
        cenv = Env(env, env.module)
        cenv.globals_decl = ()

        def elem():
            if pair:
                return (self.ev(n.key, cenv), self.ev(n.value, cenv))
            return self.ev(n.elt, cenv)

        def rec(k):
            if k == len(n.generators):
                out.append(elem())
                return
            g = n.generators[k]
            seq = self.iter_spec(self.ev(g.iter, cenv if k else env))
            if not isinstance(seq, list):
                if len(n.generators) != 1 or g.ifs:
                    raise Undecided('symbolic comprehension')
                d, el = seq
                v = T.fresh_var(d.p)
                self.assign(g.target, el(v), cenv)
                out.append(SymSeq(d, v, elem()))
                return
            for x in seq:
                self.assign(g.target, x, cenv)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, cenv))
                    if t is ZERO:
                        ok = False
                        break
                    if t is not ONE:
                        raise Undecided('symbolic comprehension filter')
                if ok:
                    rec(k + 1)
        rec(0)
        return out

    def e_Await(self, n, env):
        raise Undecided('await')

    def e_Yield(self, n, env):
        raise Undecided('generator')

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """0/1 Poly."""
        if v is None or v is False:
            return ZERO
        if v is True:
            return ONE
        if isinstance(v, (int, Fraction)):
            return ONE if v != 0 else ZERO
        if isinstance(v, OpaqueStr):
            return ONE
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, (list, tuple, dict, set)):
            if any(isinstance(x, (SymSeq, Top)) for x in v):
                raise Undecided('truth of a symbolic sequence')
            return ONE if v else ZERO
        if isinstance(v, Arr):
            if v.shape:
                n = ONE
                for d in v.shape:
                    n = T.mul(n, d.p)
                if n is not ONE:
                    raise PyRaise('ValueError: truth value of an array with several elements')
            return A.truth(v.scalar())
        if isinstance(v, Top):
            if len(v.alts) == 3:
                c, a, b = v.alts
                return T.ite(c, self.truth(a) if a is not UNBOUND else ZERO, self.truth(b) if b is not UNBOUND else ZERO)
            raise Undecided('truth of %r' % v)
        if isinstance(v, Opaque):
            return T.app(('bool', 'truth:' + v.name), (), (), is_bool=True)
        if isinstance(v, Model) and hasattr(v, 'truth'):
            return v.truth(self)
        return ONE

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=UNBOUND):
        if isinstance(o, ObjV):
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassV):
                v = o.cls.lookup(name)
                if v is not None or o.cls.has(name):
                    return self.bind(v, o)
            if name == '__dict__':
                return o.attrs
            if name == '__class__':
                return o.cls
            if default is not UNBOUND:
                return default
            if o.cls is None:
                raise Undecided('specification object has no attribute %r' % name)
            raise PyRaise('AttributeError: %r object has no attribute %r' % (
                o.cls.name if isinstance(o.cls, ClassV) else o.cls, name))
        if isinstance(o, ModV):
            v = o.env.vars.get(name, UNBOUND) if o.env else UNBOUND
            if v is not UNBOUND:
                return v
            if self.has_repo_module(o.name + '.' + name):
                return self.import_name(o.name + '.' + name)
            if default is not UNBOUND:
                return default
            raise PyRaise('AttributeError: module %r has no attribute %r' % (o.name, name))
        if isinstance(o, ExtV):
            if name == '__name__':
                return o.path
            return self.models.ext_attr(self, o, name)
        if isinstance(o, Arr):
            return self.models.arr_attr(self, o, name, default)
        if isinstance(o, ClassV):
            v = o.lookup(name)
            if v is not None or o.has(name):
                return v
            if name == '__name__':
                return o.name
            if default is not UNBOUND:
                return default
            raise PyRaise('AttributeError: class %r has no attribute %r' % (o.name, name))
        if isinstance(o, (FuncV, PyFn)):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if default is not UNBOUND:
                return default
            raise Undecided('attribute %s of a function' % name)
        if isinstance(o, BoundV):
            return self.getattr(o.func, name, default)
        if isinstance(o, Model):
            if default is not UNBOUND:
                try:
                    return o.attr(self, name)
                except (Undecided, PyRaise):
                    return default
            return o.attr(self, name)
        if isinstance(o, Top):
            raise Undecided('attribute of %r' % o)
        if o is None:
            if default is not UNBOUND:
                return default
            raise PyRaise('AttributeError: NoneType object has no attribute %r' % name)
        return self.models.py_attr(self, o, name, default)

    def bind(self, v, o):
        if isinstance(v, FuncV):
            return BoundV(v, o)
        if isinstance(v, PyFn) and v.attrs.get('__static__'):
            return v.attrs['__static__']
        if isinstance(v, PyFn) and v.attrs.get('__prop__'):
            return self.call(v.attrs['__prop__'], [o], {})
        if isinstance(v, PyFn) and v.attrs.get('__classm__'):
            f = v.attrs['__classm__']
            return BoundV(f, o.cls)
        if isinstance(v, PyFn):
            return PyFn(lambda I, a, k: v.fn(I, [o] + list(a), k), v.name, v.attrs)
        return v

    def getitem(self, o, k):
        if isinstance(o, Arr):
            return self.models.unbox(A.getitem(o, k))
        if isinstance(o, (list, tuple)):
            if isinstance(k, Arr):
                c = k.concrete()
                if c is None:
                    if len(o) == 1 and isinstance(o[0], SymSeq):
                        return o[0].at(k.scalar())
                    if all(isinstance(x, (Arr, int, Fraction)) for x in o) and o:
                        return A.getitem(A.from_seq(o), (k,))
                    raise Undecided('symbolic index into a list')
                k = c
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if any(isinstance(x, (SymSeq, Top)) for x in o):
                    if isinstance(o[0], SymSeq) and len(o) == 1 and k >= 0:
                        return o[0].at(const(k))
                    if k < len(o) and k >= 0 and not any(isinstance(x, (SymSeq, Top)) for x in o[:k + 1]):
                        return o[k]
                    raise Undecided('index into a symbolic sequence')
                if not -len(o) <= k < len(o):
                    raise PyRaise('IndexError: index %d out of range for a sequence of %d' % (k, len(o)))
                return o[k]
            if isinstance(k, SliceV):
                def c(x):
                    if isinstance(x, Arr):
                        y = x.concrete()
                        if y is None:
                            raise Undecided('symbolic list slice')
                        return y
                    return x
                return o[slice(c(k.start), c(k.stop), c(k.step))]
            if isinstance(k, Fraction):
                raise PyRaise('TypeError: list indices must be integers')
            raise Undecided('list index %s' % type(k).__name__)
        if isinstance(o, dict):
            kk = self.hashable(k)
            if kk not in o:
                raise PyRaise('KeyError: %r' % (kk,))
            return o[kk]
        if isinstance(o, str):
            if isinstance(k, SliceV):
                return o[slice(k.start, k.stop, k.step)]
            return o[k]
        if isinstance(o, Model):
            if hasattr(o, 'getitem'):
                return o.getitem(self, k)
            if isinstance(o, Opaque):
                return Opaque(o.name + '[]')
        if isinstance(o, self.models.RangeV):
            c = o.concrete()
            if c is not None:
                return c[k]
            return scal(T.add(o.start, T.mul(o.step, asarr(k).scalar())), 'i')
        if isinstance(o, ExtV):
            return o
        if o is None:
            raise PyRaise("TypeError: 'NoneType' object is not subscriptable")
        raise Undecided('subscript of %s' % type(o).__name__)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None, node=None, env=None):
        kw = kw or {}
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kw, node, env)
        if isinstance(f, PyFn):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, ExtV):
            return self.models.ext_call(self, f, list(args), dict(kw), node, env)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Model):
            return f.call(self, list(args), dict(kw))
        if isinstance(f, ObjV):
            c = self.getattr(f, '__call__')
            return self.call(c, args, kw)
        if isinstance(f, Top):
            if len(f.alts) == 3 and all(isinstance(x, (FuncV, BoundV, PyFn)) for x in f.alts[1:]):
                c, a, b = f.alts
                return self.join(c, self.call(a, args, kw), self.call(b, args, kw))
            raise Undecided('call of %r' % f)
        if f is None or isinstance(f, (int, str, Fraction, Arr, list, tuple, dict)):
            raise PyRaise('TypeError: %s object is not callable' % type(f).__name__)
        raise Undecided('call of %s' % type(f).__name__)

    def instantiate(self, cls, args, kw):
        o = ObjV(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(self.bind(init, o), args, kw)
            return o
        if cls.is_dc():
            fields = cls.all_fields()
            names = [f[0] for f in fields]
            if len(args) > len(names):
                raise PyRaise('TypeError: too many arguments')
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names:
                    raise PyRaise('TypeError: unexpected keyword argument %r' % k)
                vals[k] = v
            for nme, has in fields:
                if nme in vals:
                    o.attrs[nme] = vals[nme]
                else:
                    d = cls.lookup(nme)
                    if d is None and not cls.has(nme):
                        raise PyRaise('TypeError: missing argument %r' % nme)
                    o.attrs[nme] = d
            post = cls.lookup('__post_init__')
            if post is not None:
                self.call(self.bind(post, o), [], {})
            return o
        if any(isinstance(b, ExtV) for b in cls.bases) or not args and not kw:
            return o
        raise PyRaise('TypeError: %s() takes no arguments' % cls.name)

    def call_func(self, f, args, kw):
        q = f.qual()
        st = self.stubs.get(q)
        if st is not None:
            return st(self, f, args, kw)
        if len(self.stack) > self.maxdepth:
            raise Undecided('recursion depth')
        if f.module is not None and f.module.relpath.startswith('jax_am'):
            self.functions_seen.add((f.module.relpath, f.name))
        env = Env(f.env, f.module, None, f)
        if self.frames is not None and q in self.frames:
            self.frames[q] = env
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        names = set(pos) | set(x.arg for x in a.kwonlyargs)
        bound = {}
        for nme, v in zip(pos, args):
            bound[nme] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise('TypeError: %s() takes %d positional arguments but %d were given' % (f.name, len(pos), len(args)))
            bound[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            bound[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in bound:
                    raise PyRaise('TypeError: %s() got multiple values for argument %r' % (f.name, k))
                bound[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError: %s() got an unexpected keyword argument %r' % (f.name, k))
        if a.kwarg is not None:
            bound[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for k, nme in enumerate(pos):
            if nme not in bound:
                j = k - (len(pos) - nd)
                if j < 0:
                    raise PyRaise('TypeError: %s() missing required argument %r' % (f.name, nme))
                bound[nme] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in bound:
                if x.arg not in f.kw_defaults:
                    raise PyRaise('TypeError: %s() missing keyword argument %r' % (f.name, x.arg))
                bound[x.arg] = f.kw_defaults[x.arg]
        env.vars.update(bound)
        if isinstance(f.node, ast.Lambda):
            env.locals = set(bound)
            self.stack.append((f, f.node))
            try:
                return self.ev(f.node.body, env)
            finally:
                self.stack.pop()
        loc = getattr(f.node, '_sa_locals', None)
        if loc is None:
            loc = assigned_names(f.node)
            f.node._sa_locals = loc
            f.node._sa_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node))
        if f.node._sa_gen:
            raise Undecided('generator function %s' % f.name)
        env.locals = loc | set(bound)
        self.stack.append((f, f.node))
        try:
            r = self.exec_block(f.node.body, env)
            if isinstance(r, Part):
                r = Ret(self.join(r.c, r.v, None))
        except (ProgError, Undecided) as e:
            if not hasattr(e, 'trace'):
                e.trace = [(g.module.relpath if g.module else '?', g.name, getattr(nd_, 'lineno', 0)) for g, nd_ in self.stack]
            raise
        finally:
            self.stack.pop()
        if isinstance(r, Ret):
            return r.v
        return None


def _load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(t.id, ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
    raise Undecided('augmented target')


def _same_val(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Fraction, str)) and isinstance(b, (int, Fraction, str)):
        return type(a) is type(b) and a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        if len(a.shape) != len(b.shape) or any(p.p is not q.p for p, q in zip(a.shape, b.shape)):
            return False
        idx = tuple(T.fresh_var(d.p) for d in a.shape)
        try:
            return a.get(idx) is b.get(idx)
        except Undecided:
            return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
        return all(_same_val(x, y) for x, y in zip(a, b))
    return False


def is_size(p):
    """an integer term without loop-carried symbols"""
    for m in p.t:
        for a, e in m:
            if a.kind == 'sym' and str(a.args[0]).startswith('loop'):
                return False
    return p.is_int()


def counted(s):
    """(variable, bound, offset) of  while v < bound: body; v += 1"""
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or not s.body:
        return None
    l, r, op = t.left, t.comparators[0], type(t.ops[0])
    if op in (ast.Gt, ast.GtE):
        l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
    if op not in (ast.Lt, ast.LtE, ast.NotEq):
        return None
    x = s.body[-1]
    if op is ast.NotEq and not isinstance(l, ast.Name):
        l, r = r, l
    if not isinstance(l, ast.Name):
        return None
    v = l.id
    one = lambda c: isinstance(c, ast.Constant) and c.value == 1 and not isinstance(c.value, bool)
    name = lambda c: isinstance(c, ast.Name) and c.id == v
    if isinstance(x, ast.AugAssign):
        ok = name(x.target) and isinstance(x.op, ast.Add) and one(x.value)
    elif isinstance(x, ast.Assign) and len(x.targets) == 1 and name(x.targets[0]) and isinstance(x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
        ok = name(x.value.left) and one(x.value.right) or one(x.value.left) and name(x.value.right)
    else:
        ok = False
    if not ok:
        return None
    used = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
    if any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) and not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' or isinstance(n, ast.Subscript) or isinstance(n, ast.Attribute) and n.attr in ('shape', 'size')) and not isinstance(n, ast.Attribute) for n in ast.walk(r)):
        return None
    for st in s.body[:-1]:
        for n in ast.walk(st):
            if isinstance(n, (ast.Continue, ast.Break, ast.Return)):
                return None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and (n.id == v or n.id in used):
                return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'pop', 'insert', 'remove', 'clear') and isinstance(n.func.value, ast.Name) and n.func.value.id in used:
                return None
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                return None
    return v, r, 1 if op is ast.LtE else 0


def loop_marks(p, seen=None, out=None):
    """names of the symbols that stand for unsummarised loop state"""
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if isinstance(p, T.Lam):
        return loop_marks(p.body, seen, out)
    if not isinstance(p, Poly) or p.id in seen:
        return out
    seen.add(p.id)
    for m in p.t:
        for a, e in m:
            if a.kind == 'elt' and str(getattr(a.args[0], 'name', '')).startswith('loop'):
                out.add(a.args[0].name)
            elif a.kind == 'sym' and str(a.args[0]).startswith('loop'):
                out.add(a.args[0])
            for x in a.args:
                if isinstance(x, (Poly, T.Lam)):
                    loop_marks(x, seen, out)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Poly, T.Lam)):
                            loop_marks(y, seen, out)
    return out


def _head_marks(p):
    out = set()
    for m in p.t:
        for a, e in m:
            if a.kind == 'elt':
                out.add(a.args[0])
            elif a.kind == 'sym':
                out.add(a)
    return out


def _mentions(p, marks, seen=None):
    """Does a term mention any of the given bases / symbols?"""
    seen = set() if seen is None else seen
    if isinstance(p, T.Lam):
        return _mentions(p.body, marks, seen)
    if not isinstance(p, Poly):
        return False
    if p.id in seen:
        return False
    seen.add(p.id)
    for m in p.t:
        for a, e in m:
            if a in marks:
                return True
            if a.kind == 'elt' and a.args[0] in marks:
                return True
            for x in a.args:
                if isinstance(x, (Poly, T.Lam)):
                    if _mentions(x, marks, seen):
                        return True
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, (Poly, T.Lam)) and _mentions(y, marks, seen):
                            return True
    return False
