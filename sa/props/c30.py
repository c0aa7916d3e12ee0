"""Files are written and deleted only where the caller said."""
import ast
import fnmatch
import re
from ..lint import *
from ..terms import Undecided
from .c28 import SKIP, LIB, functions
from .c29 import last, enclosing, top_of, dotted, WRITERS

CWD_OK = ('data_frame.csv', 'scatter_sol.*')
DELETE = {'os.remove', 'os.unlink', 'os.rmdir', 'os.removedirs', 'shutil.rmtree', 'os.truncate'}
MOVE = {'os.rename', 'os.replace', 'shutil.move', 'os.renames'}
MAKE = {'os.makedirs', 'os.mkdir'}
COPY = {'shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree'}
PATH_FIRST = {'savefig', 'to_csv', 'save', 'savez', 'savetxt', 'savez_compressed', 'to_parquet', 'to_pickle', 'tofile', 'imsave', 'write_text', 'write_bytes', 'touch', 'mkdir', 'write', 'to_filename'}
SHELL = {'os.system', 'os.popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.Popen', 'subprocess.check_output'}
PASS = {'abspath', 'normpath', 'realpath', 'expanduser', 'str', 'fspath', 'Path', 'PurePath', 'sorted', 'list', 'tuple', 'set', 'reversed', 'resolve', 'absolute', 'as_posix', 'strip', 'rstrip', 'map', 'expandvars'}


class P:
    """a path: who chose its root ('caller', 'cwd', 'abs', 'package', 'tmp', 'name') and the text below it"""

    def __init__(self, root, text):
        self.root, self.text = root, text

    def key(self):
        return self.root, self.text

    def __repr__(self):
        return '<%s>%s' % (self.root, self.text) if self.root in ('caller', 'package', 'tmp', 'above', 'linked') else self.text

    def cat(self, t):
        return P(self.root, self.text + t)

    def join(self, o):
        if o.root in ('abs', 'package', 'tmp') or self.root == 'cwd' and not self.text:
            return o
        t = ('{}' if o.root == 'caller' else '') + o.text      # a caller's name is taken as relative to the first part
        return P(self.root, self.text.rstrip('/') + '/' + t.lstrip('/'))

    def glued(self):
        return self.root == 'caller' and self.text and not self.text.startswith('/') and '/' in self.text

    def parts(self):
        return [x for x in self.text.split('/') if x not in ('', '.')]


def lit(s):
    return P('abs', s) if s.startswith('/') or s.startswith('~') else P('cwd', s)


class Paths:
    def __init__(self, L):
        self.L = L
        self.busy = []

    def ev(self, e, depth=0):
        """all paths the expression may stand for"""
        if depth > 25 or id(e) in self.busy:
            return []
        self.busy.append(id(e))
        try:
            return self.go(e, depth)
        finally:
            self.busy.pop()

    def uniq(self, ps):
        out = {}
        for p in ps:
            out[p.key()] = p
        if len(out) > 60:
            raise Undecided('too many paths')
        return list(out.values())

    def go(self, e, d):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, str):
                return [lit(e.value)]
            return [P('cwd', '{}')]
        if isinstance(e, ast.JoinedStr):
            acc = [P('cwd', '')]
            first = True
            for v in e.values:
                if isinstance(v, ast.Constant):
                    acc = [a.cat(v.value) if not first else lit(v.value) for a in acc]
                else:
                    if first:
                        acc = self.ev(v.value, d + 1)
                    else:
                        acc = [a.cat(t) for a in acc for t in self.piece(v.value, d)]
                first = False
            return self.uniq(acc)
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Div)):
            l = self.ev(e.left, d + 1)
            if isinstance(e.op, ast.Div):
                return self.uniq([a.join(b) for a in l for b in self.ev(e.right, d + 1)])
            return self.uniq([a.cat(t) for a in l for t in self.piece(e.right, d)])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
            return [P(a.root, re.sub(r'%[-0-9.]*[a-z]', '{}', a.text)) for a in self.ev(e.left, d + 1)]
        if isinstance(e, ast.IfExp):
            return self.uniq(self.ev(e.body, d + 1) + self.ev(e.orelse, d + 1))
        if isinstance(e, ast.BoolOp):
            return self.uniq([p for v in e.values for p in self.ev(v, d + 1)])
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return self.uniq([p for v in e.elts for p in self.ev(v, d + 1)])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.ev(e.elt, d + 1)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, d + 1)
        if isinstance(e, ast.Name):
            return self.name(e, d)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                b = e.value
                r = dict_value(b, e.slice.value)
                if r is not None:
                    return self.ev(r, d + 1)
                return [P('caller', '')]
            return self.ev(e.value, d + 1)
        if isinstance(e, ast.Attribute):
            if e.attr == 'parent':
                return [up(p) for p in self.ev(e.value, d + 1)]
            return self.attr(e, d)
        if isinstance(e, ast.Call):
            return self.call(e, d)
        raise Undecided('path expression %s' % ast.unparse(e)[:60])

    def piece(self, e, d):
        """text inserted in the middle of a path"""
        if isinstance(e, ast.Constant):
            return [str(e.value)] if isinstance(e.value, str) else ['{}']
        if isinstance(e, (ast.JoinedStr, ast.BinOp, ast.IfExp, ast.Name)):
            try:
                ps = self.ev(e, d + 1)
            except Undecided:
                return ['{}']
            if ps and all(p.root in ('cwd', 'abs') for p in ps):
                return [p.text for p in ps]
        return ['{}']

    def call(self, e, d):
        f = dotted(e.func) or ''
        n = last(e.func)
        if f.endswith('path.join') or f == 'join':
            acc = None
            for a in e.args:
                ps = self.ev(a, d + 1)
                acc = ps if acc is None else self.uniq([x.join(y) for x in acc for y in ps])
            return acc or []
        if n in ('dirname',):
            if isinstance(e.args[0], ast.Name) and e.args[0].id == '__file__':
                return [P('package', '')]
            return [up(p) for p in self.ev(e.args[0], d + 1)]
        if n == 'basename':
            return [P('cwd', (p.parts() or ['{}'])[-1]) for p in self.ev(e.args[0], d + 1)]
        if n in ('getcwd', 'cwd'):
            return [P('cwd', '')]
        if n in ('mkdtemp', 'TemporaryDirectory', 'gettempdir', 'mkstemp', 'NamedTemporaryFile', 'mktemp'):
            return [P('tmp', 'x')]
        if f in ('glob.glob', 'glob.iglob') or n == 'glob' and isinstance(e.func, ast.Name):
            ps = self.ev(e.args[0], d + 1)
            rd = next((k.value for k in e.keywords if k.arg == 'root_dir'), None)
            if rd is not None:
                raise Undecided('root_dir')
            return ps
        if n in ('glob', 'rglob', 'joinpath', 'iterdir', 'with_name') and isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, d + 1)
            if n == 'iterdir':
                return [b.join(P('cwd', '*')) for b in base]
            if n == 'rglob':
                base = [b.join(P('cwd', '**')) for b in base]
            if n == 'with_name':
                base = [up(b) for b in base]
            for a in e.args:
                ps = self.ev(a, d + 1)
                base = [x.join(y) for x in base for y in ps]
            return self.uniq(base)
        if f in ('os.listdir',):
            return [P('cwd', '*')]
        if n == 'scandir':
            return [p.join(P('cwd', '*')) for p in self.ev(e.args[0], d + 1)]
        if n == 'format' and isinstance(e.func, ast.Attribute):
            kw = {k.arg: k.value for k in e.keywords}
            args = list(e.args)
            out = []
            for p in self.ev(e.func.value, d + 1):
                m = re.match(r'\{(\w*)(:[^}]*)?\}', p.text)
                heads = [P(p.root, '')]
                rest = p.text
                if m:
                    k = m.group(1)
                    x = kw.get(k) if k in kw else (args[int(k) if k.isdigit() else 0] if args else None)
                    if x is not None:
                        heads = self.ev(x, d + 1)
                        rest = p.text[m.end():]
                out += [h.cat(re.sub(r'\{[^}]*\}', '{}', rest)) for h in heads]
            return self.uniq(out)
        if n in ('replace', 'with_suffix', 'removesuffix', 'removeprefix'):
            return [P(p.root, ('/' if p.text.startswith('/') else '') + '/'.join(p.parts()[:-1] + ['{}'])) for p in self.ev(e.func.value, d + 1)]
        if n in ('realpath', 'resolve', 'readlink'):
            inner = self.ev(e.args[0] if e.args else e.func.value, d + 1)
            return [P('linked', p.text) if '*' in p.text or n == 'readlink' else p for p in inner]
        if n in PASS:
            if isinstance(e.func, ast.Attribute) and n in ('strip', 'rstrip', 'resolve', 'absolute', 'as_posix', 'expanduser') and dotted(e.func.value) not in ('os.path',) and not (n == 'expanduser' and e.args):
                return self.ev(e.func.value, d + 1)
            if n == 'map':
                raise Undecided('map')
            if not e.args:
                return [P('cwd', '')]
            acc = self.ev(e.args[0], d + 1)
            if n in ('Path', 'PurePath'):
                for a in e.args[1:]:
                    acc = [x.join(y) for x in acc for y in self.ev(a, d + 1)]
            return acc
        if n == 'get' and e.args and isinstance(e.args[0], ast.Constant):
            return [P('caller', '')]
        r = self.target(e)
        if r is not None:
            rs = [x.value for x in ast.walk(r) if isinstance(x, ast.Return) and x.value is not None and enclosing(x) is r]
            if rs:
                return self.uniq([p for x in rs for p in self.ev(x, d + 1)])
        raise Undecided('path from call %s' % ast.unparse(e)[:60])

    def target(self, e):
        n = last(e.func)
        if isinstance(e.func, ast.Name):
            for p in parents(e):
                if isinstance(p, (ast.FunctionDef, ast.Module)):
                    ds = [x for x in p.body if isinstance(x, ast.FunctionDef) and x.name == n]
                    if ds:
                        return ds[-1]
            for m in self.L.mods.values():
                if m.tree is top_of(e):
                    q = self.L.resolve(m, n)
                    if q and isinstance(q[1], ast.FunctionDef):
                        return q[1]
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            for p in parents(e):
                if isinstance(p, ast.ClassDef):
                    for x in p.body:
                        if isinstance(x, ast.FunctionDef) and x.name == n:
                            return x
        return None

    def name(self, e, d):
        scope = [p for p in parents(e) if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.Module))]
        # comprehension variables
        for p in parents(e):
            if isinstance(p, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in p.generators:
                    if e.id in names_of(g.target):
                        return self.ev(g.iter, d + 1)
        for f in scope:
            params = []
            if isinstance(f, (ast.FunctionDef, ast.Lambda)):
                params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
            vals, other = [], False
            for s in ast.walk(f):
                if s is f or enclosing(s) is not (f if not isinstance(f, ast.Module) else None):
                    continue
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            vals.append(s.value)
                        elif isinstance(t, ast.Tuple) and e.id in names_of(t):
                            if isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(t.elts):
                                vals += [v for x, v in zip(t.elts, s.value.elts) if isinstance(x, ast.Name) and x.id == e.id]
                            else:
                                other = True
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == e.id and s.value is not None:
                    vals.append(s.value)
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == e.id:
                    other = True
                elif isinstance(s, ast.For) and e.id in names_of(s.target):
                    vals.append(s.iter)
                elif isinstance(s, (ast.With,)):
                    for i in s.items:
                        if i.optional_vars is not None and e.id in names_of(i.optional_vars):
                            vals.append(i.context_expr)
                elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ('append', 'extend') and isinstance(s.func.value, ast.Name) and s.func.value.id == e.id:
                    vals += s.args
            if e.id in params:
                out = self.sites(f, e.id, d) if isinstance(f, ast.FunctionDef) else []
                for v in vals:
                    out += self.ev(v, d + 1)
                return self.uniq(out + ([P('caller', '')] if not out or not self.private(f) else []))
            if other:
                raise Undecided('path variable %s' % e.id)
            if vals:
                return self.uniq([p for v in vals for p in self.ev(v, d + 1)])
        raise Undecided('path name %s' % e.id)

    def private(self, f):
        return f.name.startswith('_') or isinstance(enclosing(f), ast.FunctionDef)

    def sites(self, f, name, d):
        """what library callers pass for a parameter"""
        out = []
        a = [x.arg for x in f.args.posonlyargs + f.args.args]
        for m in self.L.mods.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Call) and last(c.func) == f.name and self.target(c) is f:
                    off = 1 if a[:1] == ['self'] else 0
                    v = next((k.value for k in c.keywords if k.arg == name), None)
                    if v is None and name in a:
                        i = a.index(name) - off
                        if 0 <= i < len(c.args):
                            v = c.args[i]
                    if v is not None:
                        out += self.ev(v, d + 1)
        return out

    def attr(self, e, d):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            for p in parents(e):
                if isinstance(p, ast.ClassDef):
                    vs = [s.value for s in ast.walk(p) if isinstance(s, ast.Assign) for t in s.targets
                          if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == 'self']
                    if vs:
                        return self.uniq([x for v in vs for x in self.ev(v, d + 1)])
        if dotted(e) in ('os.curdir',):
            return [P('cwd', '')]
        if isinstance(e.value, ast.Name) and e.value.id == 'os':
            raise Undecided('os.%s' % e.attr)
        return [P('caller', '')]


def up(p):
    q = p.parts()
    if not q:
        return P('above' if p.root == 'caller' else p.root, '')
    return P(p.root, ('/' if p.text.startswith('/') else '') + '/'.join(q[:-1]))


def dict_value(b, key):
    """value of a key in a local dict literal"""
    if not isinstance(b, ast.Name):
        return None
    f = enclosing(b) or top_of(b)
    vs = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in s.targets)]
    if len(vs) == 1 and isinstance(vs[0], ast.Dict):
        for k, v in zip(vs[0].keys, vs[0].values):
            if isinstance(k, ast.Constant) and k.value == key:
                return v
    return None


def opened(m):
    """names bound to open files"""
    out = set()
    for s in ast.walk(m.tree):
        if isinstance(s, ast.withitem) and isinstance(s.context_expr, ast.Call) and last(s.context_expr.func) in ('open', 'fdopen') and s.optional_vars is not None:
            out |= set(names_of(s.optional_vars))
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and last(s.value.func) in ('open', 'fdopen'):
            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return out


def sinks(m):
    """(kind, call, path expression)"""
    fl = opened(m)
    for c in ast.walk(m.tree):
        if not isinstance(c, ast.Call):
            continue
        f, n = dotted(c.func) or '', last(c.func)
        kw = {k.arg: k.value for k in c.keywords}
        arg = lambda i, *names: c.args[i] if len(c.args) > i else next((kw[x] for x in names if x in kw), None)
        if f in DELETE or f in ('remove', 'unlink', 'rmtree', 'rmdir', 'removedirs'):
            yield ('tree' if n in ('rmtree', 'removedirs') else 'delete'), c, arg(0, 'path')
        elif f in MOVE:
            yield 'delete', c, arg(0, 'src')
            yield 'write', c, arg(1, 'dst')
        elif n in ('unlink', 'rmdir') and isinstance(c.func, ast.Attribute):
            yield 'delete', c, c.func.value
        elif f in MAKE:
            yield 'make', c, arg(0, 'name', 'path')
        elif f in COPY:
            yield 'write', c, arg(1, 'dst')
        elif f in SHELL:
            yield 'shell', c, arg(0, 'command', 'args')
        elif f in ('open', 'io.open', 'codecs.open'):
            mo = arg(1, 'mode')
            if mo is None:
                continue
            if not isinstance(mo, ast.Constant):
                yield 'mode', c, arg(0, 'file')
            elif set(str(mo.value)) & set('wax+'):
                yield 'write', c, arg(0, 'file')
        elif isinstance(c.func, ast.Attribute) and n in PATH_FIRST:
            o = c.func.value
            if isinstance(o, ast.Name) and o.id in fl or isinstance(o, ast.Call) and last(o.func) == 'open':
                continue
            if dotted(o) in ('sys.stdout', 'sys.stderr', 'logger', 'tqdm'):
                continue
            if n in ('write_text', 'write_bytes', 'touch', 'mkdir') and dotted(o) != 'os':
                yield ('make' if n == 'mkdir' else 'write'), c, o
                continue
            a = arg(0, 'fname', 'file', 'filename', 'path', 'path_or_buf', 'fileName')
            if a is None or isinstance(a, ast.Name) and a.id in fl:
                continue
            yield 'write', c, a


def wrote(p):
    return p.text and p.parts()


def run(ck):
    L = Lib(files(LIB, SKIP))
    writes = []       # (module, path)
    makes = []
    found = []
    for m in L.mods.values():
        for kind, c, e in sinks(m):
            X = Paths(L)
            w = '%s:%d (%s)' % (m.rel, c.lineno, getattr(enclosing(c), 'name', 'module'))
            ps, err = [], None
            try:
                if e is None:
                    raise Undecided('no path argument')
                if kind == 'mode':
                    raise Undecided('file mode')
                ps = X.ev(e)
                if not ps:
                    raise Undecided('path of %s' % ast.unparse(e)[:60])
            except Undecided as u:
                err = u
            found.append((m, kind, c, e, w, ps, err))
            if kind == 'write':
                writes += [(m, p) for p in ps]
            if kind == 'make' and not skipped(X, c, ps):
                makes += [(m, p) for p in ps]
    ck.functions |= {(m.name, q) for m in L.mods.values() for q, _ in functions(m)}
    ck.facts.update(modules=len(L.mods), sinks=len(found), writes=len(writes))
    for m, kind, c, e, w, ps, err in found:
        q = '%s.%s' % (m.name, getattr(enclosing(c), 'name', 'module'))
        if err is not None:
            ck.ob('%s [%s]' % (kind, q), lambda err=err: und(err), w)
            continue
        src = ast.unparse(c)[:90]
        if kind in ('write', 'make'):
            ck.holds('writes stay below a folder the caller named [%s: %s]' % (q, src), not [p for p in ps if not inside(p, kind == 'make')],
                     '%s writes to %s' % (src, ', '.join(map(repr, [p for p in ps if not inside(p, kind == 'make')]))), w)
        if kind == 'write':
            miss = [p for p in ps if p.root == 'caller' and len(p.parts()) > 1 and not any(a.pkg == m.pkg and covers(g, up(p)) for a, g in makes)]
            ck.holds('the folder written to is created by the same part of the library [%s: %s]' % (q, src), not miss,
                     '%s writes to %s, which nothing in %s creates' % (src, ', '.join(map(repr, miss)), m.pkg), w)
        if kind in ('delete', 'tree'):
            ck.ob('deletions stay inside the own solution folder [%s: %s]' % (q, src), lambda: deletes(m, kind, c, ps, writes), w)
        if kind == 'shell':
            ck.ob('shell commands delete nothing and write below a folder the caller named [%s]' % q, lambda: shell(ps), w)


def skipped(X, c, ps):
    """the folder is made only depending on whether some other path exists, or only if it exists already"""
    n = c
    for p in parents(c):
        if isinstance(p, ast.FunctionDef):
            break
        if isinstance(p, ast.If) and n is not p.test:
            t, pos = p.test, n in p.body
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, pos = t.operand, not pos
            if isinstance(t, ast.Call) and last(t.func) in ('exists', 'isdir', 'is_dir', 'isfile', 'lexists'):
                try:
                    qs = X.ev(t.args[0] if t.args else t.func.value)
                except Undecided:
                    return False
                if pos or qs and not {q.key() for q in qs} & {q.key() for q in ps}:
                    return True
        n = p
    return False


def und(e):
    raise e


def covers(g, p):
    return g.root == p.root and g.parts()[:len(p.parts())] == p.parts()


def inside(p, make=False):
    if '..' in p.parts() or p.glued():
        return False
    if p.root == 'above':
        return make and not p.parts()
    if p.root == 'cwd':
        return any(fnmatch.fnmatch(p.text, x) for x in CWD_OK)
    return p.root in ('caller', 'tmp')


def match(pat, p):
    a, b = pat.parts(), p.parts()
    if '**' in a:
        i = a.index('**')
        return b[:i] == a[:i] and len(b) >= len(a) - 1
    return len(a) == len(b) and all(fnmatch.fnmatch(y.replace('{}', '000'), x.replace('{}', '*')) for x, y in zip(a, b))


def deletes(m, kind, c, ps, writes):
    for p in ps:
        q = p.parts()
        if p.root not in ('caller', 'tmp'):
            return 'removes %r, which the caller did not name' % p
        if p.root == 'tmp':
            continue
        if '..' in q or p.glued():
            return 'removes %r, outside the folder named by the caller' % p
        if not q or not fixed(q[0]) or kind == 'delete' and len(q) == 1 and not fixed(q[0]):
            return 'removes from the caller\'s folder itself: %r' % p
        if any(ch in x for x in q[:-1] for ch in '*?[') and '**' not in q:
            return 'removes from several folders: %r' % p
        for a, w in writes:
            if w.root != 'caller' or a.pkg == m.pkg:
                continue
            if (kind == 'tree' and w.parts()[:len(q)] == q) or kind == 'delete' and match(p, w):
                return 'removes %r, which %s writes' % (w, a.name)
        if kind == 'tree':
            raise Undecided('whole folder %r' % p)
        own = [w for a, w in writes if a.pkg == m.pkg and w.root == 'caller']
        if any(not fixed(x) for x in q) and own and not any(match(p, w) for w in own):
            return 'removes %r, where this part of the library writes nothing' % p
    return True


def fixed(x):
    return not any(ch in x for ch in '*?[{')


def shell(ps):
    for p in ps:
        t = p.text if p.root != 'caller' else '{}' + p.text
        words = re.split(r'[\s;&|]+', t)
        bad = [x for x in words if x in ('rm', 'rmdir', 'mv', 'dd', 'mkfs', 'truncate', 'unlink', 'shred', 'chmod', 'chown', 'sudo') or x.endswith('/rm') or x == '-delete']
        if bad:
            return 'runs %s: %s' % (bad[0], t[:100])
        for a, b in zip(words, words[1:]):
            if a in ('-o', '>', '>>') and not b.startswith('{}') and b not in ('/dev/null', '&1'):
                return 'writes to %s: %s' % (b, t[:100])
    return True
