"""Names, attributes, calls and results fit together across the library."""
import ast
from ..lint import *

SKIP = ('experiments', 'archive', 'old', 'tests')
LIB = 'jax_am'


def functions(m):
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = [n.name] + [p.name for p in parents(n) if isinstance(p, (ast.FunctionDef, ast.ClassDef))]
            yield '.'.join(reversed(q)), n


def own(f):
    """nodes of a function body outside nested functions and classes"""
    todo = list(f.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(x))


def run(ck):
    L = Lib(files(LIB, SKIP))
    for r in L.broken:
        ck.holds('source parses [%s]' % r, False, 'syntax error', r)
    ck.functions |= {(m.name, q) for m in L.mods.values() for q, _ in functions(m)}
    ck.facts['modules'] = len(L.mods)
    users = Lib([r for d in ('applications', 'demos', 'tests_for_fem') for r in files(d, SKIP)])
    users.mods.update(L.mods)
    outer = {n.attr for m in users.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    for m in users.mods.values():
        if m.name not in L.mods:
            bad = users.bad_imports(m)
            if any(isinstance(n, (ast.Import, ast.ImportFrom)) and 'jax_am' in ast.unparse(n) for n in ast.walk(m.tree)):
                ck.holds('shipped examples import what the library has [%s]' % m.name, not bad, '; '.join('line %d: %s' % b for b in bad), m.rel)
    nf = nc = na = nr = 0
    for m in L.mods.values():
        names(ck, m)
        bad = L.bad_imports(m)
        ck.holds('imports from the library resolve [%s]' % m.name, not bad, '; '.join('line %d: %s' % b for b in bad), m.rel)
        for q, f in functions(m):
            nf += 1
            bad = Flow(f).bad
            w = '%s:%d (%s)' % (m.rel, f.lineno, q)
            ck.holds('no local is read before every assignment [%s.%s]' % (m.name, q), not bad,
                     '; '.join('line %d: %s is unbound on every path' % (l, v) for v, l in bad[:3]), w)
            bad, n = calls(L, m, f)
            nc += n
            if n:
                ck.holds('calls fit the functions they reach [%s.%s]' % (m.name, q), not bad, '; '.join(bad[:3]), w)
            bad, n = unpacks(L, m, f)
            nr += n
            if n:
                ck.holds('results are unpacked into as many names as there are [%s.%s]' % (m.name, q), not bad, '; '.join(bad[:3]), w)
        for c in ast.walk(m.tree):
            if isinstance(c, ast.ClassDef):
                na += attrs(ck, L, users, m, c, outer)
    na += problem(ck, L, users, outer)
    ck.facts.update(functions=nf, calls_resolved=nc, attributes=na, unpackings=nr)


def names(ck, m):
    def go():
        try:
            bad = undefined(m)
        except Unknown as e:
            from ..terms import Undecided
            raise Undecided(str(e))
        return True if not bad else '; '.join('line %d: %s is not defined (%s)' % (l, v, f or 'module') for f, v, l in bad[:4])
    ck.ob('every name is bound in some enclosing scope [%s]' % m.name, go, m.rel)


def shadowed(f, name):
    """the name is rebound in a function around the call"""
    for p in [f] + list(parents(f)):
        if isinstance(p, FN) and name in scope_names(p):
            return p
    return None


def local_def(p, name):
    d = [s for s in flat(p.body) if name in targets(s)] if isinstance(p.body, list) else []
    if len(d) == 1 and isinstance(d[0], ast.FunctionDef) and name not in argnames(p.args):
        return d[0]
    return None


def callee(L, m, f, call):
    """(function node, bound) of a call inside f, or None"""
    c = call.func
    if isinstance(c, ast.Name):
        p = shadowed(f, c.id)
        if p is not None:
            d = local_def(p, c.id)
            return (d, False) if d is not None and deco_ok(d) else None
        r = L.resolve(m, c.id)
        if r is None:
            return None
        if isinstance(r[1], ast.ClassDef):
            up = L.bases(*r)
            if up is None or r[1].decorator_list or r[1].keywords:
                return None
            for _, k in up:
                if k.decorator_list:
                    return None
                for s in k.body:
                    if isinstance(s, ast.FunctionDef) and s.name == '__new__':
                        return None
                    if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                        return (s, True) if deco_ok(s) else None
            return None
        return (r[1], False) if deco_ok(r[1]) else None
    if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name):
        meth, cls = None, None
        for p in [f] + list(parents(f)):
            if isinstance(p, ast.FunctionDef) and isinstance(p.parent, ast.ClassDef):
                meth, cls = p, p.parent
                break
        if cls is None or self_name(meth) != c.value.id or shadowed(f, c.value.id) is not meth:
            return None
        up = L.bases(m, cls)
        if up is None:
            return None
        for _, k in up:
            d = [s for s in flat(k.body) if c.attr in targets(s)]
            if d:
                if len(d) == 1 and isinstance(d[0], ast.FunctionDef):
                    if any(isinstance(x, ast.Attribute) and x.attr == c.attr and isinstance(x.ctx, ast.Store) for _, kk in up for x in ast.walk(kk)):
                        return None
                    st = any(isinstance(x, ast.Name) and x.id == 'staticmethod' for x in d[0].decorator_list)
                    return (d[0], not st) if deco_ok(d[0]) else None
                return None
    return None


def calls(L, m, f):
    bad, n = [], 0
    for x in own(f):
        if isinstance(x, ast.Call):
            r = callee(L, m, f, x)
            if r is None:
                continue
            n += 1
            e = fits(r[0].args, x, r[1])
            if e:
                bad.append('line %d: %s: %s' % (x.lineno, ast.unparse(x.func), e))
    return bad, n


def unpacks(L, m, f):
    bad, n = [], 0
    for x in own(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Tuple, ast.List)) and isinstance(x.value, ast.Call):
            t = x.targets[0].elts
            if any(isinstance(e, ast.Starred) for e in t):
                continue
            r = callee(L, m, f, x.value)
            if r is None or r[0].name == '__init__':
                continue
            if r[1] and r[0].name.startswith(('custom', 'get_')):
                continue            # meant to be overridden by users
            k = returns(r[0])
            if k is None:
                continue
            n += 1
            if len(t) not in k:
                bad.append('line %d: %s returns %s values, %d names' % (x.lineno, ast.unparse(x.value.func), sorted(k), len(t)))
    return bad, n


def attrs(ck, L, users, m, c, outer):
    up = L.bases(m, c)
    if up is None:
        return 0
    have, dyn = set(OBJECT) | outer, False
    for _, k in up:
        a, d = class_attrs(k)
        have |= a
        dyn |= d
    if dyn:
        return 0
    for u in users.mods.values():           # methods subclasses provide
        for k in ast.walk(u.tree):
            if isinstance(k, ast.ClassDef):
                have |= bound(k.body)
    n, bad = 0, []
    for f in c.body:
        if not isinstance(f, ast.FunctionDef):
            continue
        s = self_name(f)
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == s:
                n += 1
                if x.attr not in have:
                    bad.append('line %d: %s.%s is never set (%s)' % (x.lineno, s, x.attr, f.name))
    ck.holds('instances have every attribute their methods read [%s.%s]' % (m.name, c.name), not bad, '; '.join(bad[:3]), '%s:%d (%s)' % (m.rel, c.lineno, c.name))
    return n


def problem(ck, L, users, outer):
    """functions taking `problem` read attributes the finite element problem has"""
    r = L.resolve(L.mods['jax_am.fem.core'], 'FEM') if 'jax_am.fem.core' in L.mods else None
    if r is None:
        return 0
    up = L.bases(*r)
    if up is None:
        return 0
    have, dyn = set(OBJECT) | outer, False
    for _, k in up:
        a, d = class_attrs(k)
        have |= a
        dyn |= d
    for u in users.mods.values():
        for k in ast.walk(u.tree):
            if isinstance(k, ast.ClassDef):
                have |= bound(k.body)
    if dyn:
        return 0
    n = 0
    for m in L.mods.values():
        if not m.name.startswith('jax_am.fem'):
            continue
        for q, f in functions(m):
            bad, k = [], 0
            for x in own(f):
                for y in ast.walk(x) if isinstance(x, ast.Lambda) else [x]:
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name) and y.value.id == 'problem':
                        k += 1
                        if y.attr not in have:
                            bad.append('line %d: problem.%s is never set' % (y.lineno, y.attr))
            n += k
            if k:
                ck.holds('the problem has every attribute that is read [%s.%s]' % (m.name, q), not bad, '; '.join(bad[:3]), '%s:%d (%s)' % (m.rel, f.lineno, q))
    return n
