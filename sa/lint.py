"""Whole-library syntax-tree facts: scopes, classes, call signatures."""
import ast
import builtins
import os
from . import interp as IP

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__builtins__', '__spec__', '__package__', '__path__', '__class__'}
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Unknown(Exception):
    pass


def repo():
    return os.environ.get('VERIF_REPO', '/repo')


def files(sub, skip=()):
    out = []
    for d, ds, fs in os.walk(os.path.join(repo(), sub)):
        ds[:] = sorted(x for x in ds if x not in skip and not x.startswith('.') and x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py'):
                out.append(os.path.relpath(os.path.join(d, f), repo()))
    return out


class Mod:
    def __init__(self, rel):
        self.rel = rel
        self.name = rel[:-3].replace(os.sep, '.')
        self.pkg = self.name.rsplit('.', 1)[0] if '.' in self.name else ''
        if self.name.endswith('.__init__'):
            self.name = self.name[:-9]
            self.pkg = self.name
        with open(os.path.join(repo(), rel), encoding='utf-8') as f:
            self.tree = ast.parse(f.read(), rel)
        self.star = False
        self.binds = bound(self.tree.body, self)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.binds |= set(n.names)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
        self.tree.parent = None

    def top(self, name):
        """the single definition of a module-level name, or None"""
        r = [n for n in flat(self.tree.body) if name in targets(n)]
        return r[0] if len(r) == 1 else None


def flat(body):
    """statements of a block and of the blocks nested in it, same scope"""
    for s in body:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, FN + (ast.ClassDef,)):
                yield from flat(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
            yield from flat(h.body)
        for c in getattr(s, 'cases', []) or []:
            yield from flat(c.body)


def names_of(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def walk_scope(n):
    """expressions of a statement that run in its own scope"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, FN):
                todo += [d for d in c.args.defaults + c.args.kw_defaults if d is not None] + list(getattr(c, 'decorator_list', []))
                yield c
                continue
            if isinstance(c, ast.ClassDef):
                yield c
                continue
            todo.append(c)


def targets(s):
    """names a statement binds by itself"""
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        return {s.name}
    if isinstance(s, (ast.Import, ast.ImportFrom)):
        return {(a.asname or a.name.split('.')[0]) for a in s.names}
    out = set()
    hd = []
    if isinstance(s, ast.Assign):
        hd = s.targets
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For, ast.AsyncFor)):
        hd = [s.target]
    elif isinstance(s, (ast.With, ast.AsyncWith)):
        hd = [i.optional_vars for i in s.items if i.optional_vars is not None]
    elif isinstance(s, ast.Delete):
        hd = []
    for t in hd:
        out |= names_of(t)
    for h in getattr(s, 'handlers', []) or []:
        if h.name:
            out.add(h.name)
    if isinstance(s, ast.Match):
        for n in ast.walk(s):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            if isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
    for n in ast.walk(s):
        if isinstance(n, ast.NamedExpr):
            out |= names_of(n.target)
    return out


def bound(body, mod=None):
    out = set()
    for s in flat(body):
        if isinstance(s, ast.ImportFrom) and any(a.name == '*' for a in s.names):
            if mod is not None:
                mod.star = True
        out |= targets(s)
    return out


def argnames(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def scope_names(f):
    if isinstance(f, ast.Lambda):
        s = set(argnames(f.args))
        for n in ast.walk(f.body):
            if isinstance(n, ast.NamedExpr):
                s |= names_of(n.target)
        return s
    loc = bound(f.body) | set(argnames(f.args))
    for s in flat(f.body):
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            loc -= set(s.names)
    return loc


def undefined(mod):
    """(function, name, line) of names no enclosing scope binds"""
    if mod.star:
        raise Unknown('star import')
    out = []

    def visit(n, scopes, fn):
        if isinstance(n, FN):
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k] + list(getattr(n, 'decorator_list', [])):
                visit(d, scopes, fn)
            inner = [s for s in scopes if s[0] != 'class'] + [('fn', scope_names(n))]
            name = fn + [getattr(n, 'name', '<lambda>')]
            for c in (n.body if isinstance(n.body, list) else [n.body]):
                visit(c, inner, name)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                visit(d, scopes, fn)
            inner = scopes + [('class', bound(n.body))]
            for c in n.body:
                visit(c, inner, fn + [n.name])
            return
        if isinstance(n, COMP):
            loc = set()
            first = n.generators[0].iter
            visit(first, scopes, fn)
            for g in n.generators:
                loc |= names_of(g.target)
            inner = scopes + [('fn', loc)]
            for g in n.generators:
                if g.iter is not first:
                    visit(g.iter, inner, fn)
                for c in g.ifs:
                    visit(c, inner, fn)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                visit(x, inner, fn)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if n.id not in BUILTINS and not any(n.id in s for _, s in scopes):
                out.append(('.'.join(fn), n.id, n.lineno))
            return
        if isinstance(n, (ast.AnnAssign,)):
            if n.value is not None:
                visit(n.value, scopes, fn)
            visit(n.target, scopes, fn)
            return
        for c in ast.iter_child_nodes(n):
            visit(c, scopes, fn)
    for s in mod.tree.body:
        visit(s, [('mod', mod.binds)], [])
    return out


# -- definite use before assignment -------------------------------------------------

class Flow:
    """names that may be bound at each point of a function body; a load of a local no path has bound is an error"""
    def __init__(self, f):
        self.loc = scope_names(f)
        self.cells = set()
        self.bad = []
        start = set(argnames(f.args))
        self.loops = []
        self.block(f.body, start)

    def use(self, e, st):
        if e is None or st is None:
            return
        todo = [e]
        while todo:
            x = todo.pop()
            if isinstance(x, FN):
                todo += [d for d in x.args.defaults + x.args.kw_defaults if d is not None] + list(getattr(x, 'decorator_list', []))
                continue
            if isinstance(x, COMP):
                todo.append(x.generators[0].iter)
                continue
            if isinstance(x, ast.NamedExpr):
                st |= names_of(x.target)
                todo.append(x.value)
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.loc and x.id not in st:
                self.bad.append((x.id, x.lineno))
            todo += list(ast.iter_child_nodes(x))

    def block(self, body, st):
        """returns the set after the block, or None when its end is unreachable"""
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        J = lambda a, b: a if b is None else b if a is None else a | b
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.args.defaults + [k for k in s.args.kw_defaults if k] + s.decorator_list:
                self.use(d, st)
            return st | {s.name}
        if isinstance(s, ast.ClassDef):
            return st | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return st | targets(s)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, st)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append(set(st))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st)
            return J(self.block(s.body, set(st)), self.block(s.orelse, set(st)))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.use(s.test, st)
            else:
                self.use(s.iter, st)
            inside = set(st)
            if not isinstance(s, ast.While):
                inside |= names_of(s.target)
            inside |= bound(s.body)         # what the body binds may be bound on a later iteration
            self.loops.append([])
            first = self.block(s.body, set(inside))
            outs = self.loops.pop()
            res = set(st) | inside
            for x in [first] + outs:
                if x is not None:
                    res |= x
            e = self.block(s.orelse, set(res)) if s.orelse else res
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not outs:
                return None if first is None else res
            return J(e, res)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = st | names_of(i.optional_vars)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            a = self.block(s.body, set(st))
            every = set(st) | bound(s.body)
            r = self.block(s.orelse, set(a)) if a is not None and s.orelse else a
            for h in s.handlers:
                r = J(r, self.block(h.body, every | ({h.name} if h.name else set())))
            if s.finalbody:
                f = self.block(s.finalbody, every | (r or set()))
                return None if r is None or f is None else r | f
            return r
        if isinstance(s, ast.Match):
            self.use(s.subject, st)
            r = set(st)
            for c in s.cases:
                r = J(r, self.block(c.body, set(st) | targets(s)))
            return r
        if isinstance(s, ast.Delete):
            for t in s.targets:
                for c in ast.iter_child_nodes(t):
                    self.use(c, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                if s.target.id in self.loc and s.target.id not in st:
                    self.bad.append((s.target.id, s.lineno))
            else:
                self.use(s.target, st)
            self.use(s.value, st)
            return st | targets(s)
        for f in ('value', 'test', 'msg', 'exc', 'cause'):
            self.use(getattr(s, f, None), st)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for c in ast.walk(t):
                    if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
                        self.use(c, st)
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return st
            return st | targets(s)
        return st


# -- library model --------------------------------------------------------------------

class Lib:
    def __init__(self, rels):
        self.mods = {}
        self.broken = []
        for r in rels:
            try:
                m = Mod(r)
            except (SyntaxError, UnicodeDecodeError):
                self.broken.append(r)
                continue
            self.mods[m.name] = m

    def resolve(self, mod, name, depth=0):
        """(module, node) a module-level name stands for, following imports between library modules"""
        if depth > 6:
            return None
        d = mod.top(name)
        if isinstance(d, ast.ImportFrom):
            src = self.source(mod, d)
            for a in d.names:
                if (a.asname or a.name) == name and src in self.mods:
                    return self.resolve(self.mods[src], a.name, depth + 1)
            return None
        if isinstance(d, (ast.FunctionDef, ast.ClassDef)):
            return mod, d
        return None

    def source(self, mod, imp):
        if not imp.level:
            return imp.module or ''
        base = mod.pkg.split('.')
        base = base[:len(base) - imp.level + 1]
        return '.'.join(base + ([imp.module] if imp.module else []))

    def bad_imports(self, mod, prefix='jax_am'):
        out = []
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.source(mod, n)
                if src.split('.')[0] != prefix:
                    continue
                guarded = any(isinstance(p, ast.Try) for p in parents(n))
                if guarded:
                    continue
                if src not in self.mods:
                    if not os.path.isdir(os.path.join(repo(), src.replace('.', os.sep))) and not os.path.exists(os.path.join(repo(), src.replace('.', os.sep) + '.py')):
                        out.append((n.lineno, src))
                    continue
                m = self.mods[src]
                for a in n.names:
                    if a.name == '*' or m.star or a.name in m.binds:
                        continue
                    sub = os.path.join(repo(), src.replace('.', os.sep), a.name)
                    if os.path.isdir(sub) or os.path.exists(sub + '.py'):
                        continue
                    out.append((n.lineno, '%s.%s' % (src, a.name)))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == prefix and not any(isinstance(p, ast.Try) for p in parents(n)):
                        p = os.path.join(repo(), a.name.replace('.', os.sep))
                        if not os.path.isdir(p) and not os.path.exists(p + '.py'):
                            out.append((n.lineno, a.name))
        return out

    def bases(self, mod, cls, depth=0):
        """class nodes of the hierarchy upwards, or None when a base lies outside"""
        out = [(mod, cls)]
        for b in cls.bases:
            if isinstance(b, ast.Name) and b.id == 'object':
                continue
            r = self.resolve(mod, b.id) if isinstance(b, ast.Name) else None
            if r is None or not isinstance(r[1], ast.ClassDef) or depth > 5:
                return None
            u = self.bases(r[0], r[1], depth + 1)
            if u is None:
                return None
            out += u
        return out


def parents(n):
    while getattr(n, 'parent', None) is not None:
        n = n.parent
        yield n


def self_name(f):
    for d in f.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod'):
            return None
    a = f.args.posonlyargs + f.args.args
    return a[0].arg if a else None


def class_attrs(cls):
    """attributes a class body and its methods give to instances"""
    out = set(bound(cls.body))
    dyn = False
    for s in cls.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            out.add(s.target.id)
    for f in ast.walk(cls):
        if isinstance(f, (ast.FunctionDef,)) and f.name in ('__getattr__', '__getattribute__'):
            dyn = True
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id in ('setattr', 'vars'):
            dyn = True
        if isinstance(f, ast.Attribute) and f.attr == '__dict__':
            dyn = True
        if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store):
            out.add(f.attr)
    return out, dyn


OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__qualname__'}
KEEP_SIG = {'jit', 'timeit', 'walltime', 'wraps', 'partial', 'jax.jit', 'functools.partial', 'staticmethod', 'njit'}


def deco_ok(f):
    for d in f.decorator_list:
        while isinstance(d, ast.Call):
            d = d.func
        if ast.unparse(d).split('.')[-1] not in {k.split('.')[-1] for k in KEEP_SIG}:
            return False
    return True


def fits(args, call, bound_self):
    """None when a call binds to a signature, else what is wrong"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [a.arg for a in args.posonlyargs + args.args]
    if bound_self:
        pos = pos[1:]
    n = len(call.args)
    if n > len(pos) and not args.vararg:
        return '%d positional arguments for %d parameters' % (n, len(pos))
    given = set(pos[:n])
    kwo = [a.arg for a in args.kwonlyargs]
    for k in call.keywords:
        if k.arg in given:
            return 'parameter %s is given twice' % k.arg
        if k.arg not in pos + kwo and not args.kwarg:
            return 'no parameter %s' % k.arg
        given.add(k.arg)
    nd = len(args.defaults)
    need = pos[:len(pos) - nd] if nd else pos
    miss = [p for p in need if p not in given] + [a.arg for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is None and a.arg not in given]
    if miss:
        return 'missing argument %s' % ', '.join(miss)
    return None


def returns(f):
    """lengths of the tuples a function returns, None when some return is not a tuple display"""
    out = set()
    gen = False
    for s in flat(f.body):
        if isinstance(s, ast.Return):
            if isinstance(s.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in s.value.elts):
                out.add(len(s.value.elts))
            else:
                return None
        for x in walk_scope(s):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                gen = True
    return None if gen or not out else out
