"""Grains are the connected sets of solid cells of one orientation: typestate of cells in the worklist search."""
import ast
from ..lint import Lib, Mod
from ..terms import Undecided
from . import c27
PU = 'jax_am.phase_field.utils'
REL = 'jax_am/phase_field/utils.py'
PURE = {'len', 'int', 'range', 'min', 'max', 'enumerate', 'list', 'tuple', 'sorted', 'set', 'bool'}


class Bad(Exception):
    pass


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(c27.edges,) + s for s in ((3, 3, 3), (2, 3, 4), (4, 1, 2))] + [(c27.grains,), (search,)])


def search(ck):
    m = Mod(REL)
    f = m.top('BFS')
    if not isinstance(f, ast.FunctionDef):
        ck.ob('grain search', lambda: (_ for _ in ()).throw(Undecided('no function BFS')), REL)
        return
    ck.functions.add((REL, 'BFS'))

    def rule(name, thunk):
        def go():
            try:
                thunk()
            except Bad as e:
                return '%s:%s' % (REL, e)
            return True
        ck.ob(name, go, REL + ':%d (BFS)' % f.lineno)
    S = None
    try:
        S = Search(f)
    except Undecided as e:
        err = e

        def lost():
            raise err
        ck.ob('shape of the grain search', lost, REL + ':%d (BFS)' % f.lineno)
        return
    rule('every solid unseen cell starts a grain', S.seeds)
    rule('exactly the solid, unseen neighbours of equal orientation are queued', S.queued)
    rule('all neighbours of the cell taken are looked at', S.neighbours)
    rule('a queued cell is marked as seen before the next look', S.marked)
    rule('each cell taken is recorded once, in the grain opened for its seed and orientation', S.recorded)
    rule('all grains are returned', S.returned)


def key(e):
    return ast.dump(e)


def const(e):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value
    return None


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))


def literals(t, pos):
    """conjunction of (expression, polarity) the test amounts to"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, (ast.Not, ast.Invert)):
        return literals(t.operand, not pos)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if pos else ast.Or):
        return [x for v in t.values for x in literals(v, pos)]
    if isinstance(t, ast.BinOp) and isinstance(t.op, ast.BitAnd if pos else ast.BitOr):
        return literals(t.left, pos) + literals(t.right, pos)
    if isinstance(t, ast.Compare) and len(t.ops) > 1 and pos:
        xs = [t.left] + t.comparators
        return [(ast.Compare(left=a, ops=[o], comparators=[b]), True) for a, o, b in zip(xs, t.ops, xs[1:])]
    if isinstance(t, ast.Constant) and bool(t.value) == pos:
        return []
    return [(t, pos)]


class Search:
    def __init__(self, f):
        self.f = f
        a = [x.arg for x in f.args.posonlyargs + f.args.args]
        if len(a) < 4:
            raise Undecided('other parameters')
        self.adj, self.solid, self.ori = a[:3]
        self.flag = a[4] if len(a) > 4 else None
        count = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                count[n.id] = count.get(n.id, 0) + 1
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Try, ast.With)) and n is not f:
                raise Undecided('nested function or block')
            if isinstance(n, (ast.Return,)) and n not in f.body and not any(n in getattr(p, 'body', []) + getattr(p, 'orelse', []) for p in f.body if isinstance(p, ast.If)):
                raise Undecided('return inside the search')
        if any(x in count for x in (self.adj, self.solid, self.ori)):
            raise Undecided('parameters are rebound')
        self.alias = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and count[n.targets[0].id] == 1 \
                    and self.pure(n.value):
                self.alias[n.targets[0].id] = n.value
        self.events = []      # (statement, conditions, loops)
        self.walk(f.body, [], [])
        self.shape()

    def pure(self, e):
        return all(not isinstance(n, ast.Call) or last(n.func) in PURE for n in ast.walk(e)) and \
            not any(isinstance(n, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set, ast.SetComp, ast.GeneratorExp)) or
                    isinstance(n, ast.Call) and not n.args for n in ast.walk(e))

    def ex(self, e):
        """expression with local abbreviations written out"""
        me = self

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return me.ex(me.alias[n.id]) if n.id in me.alias else ast.Name(id=n.id, ctx=ast.Load())

            def visit_Call(self, n):
                if isinstance(n.func, ast.Name) and n.func.id in ('int', 'bool') and len(n.args) == 1 and not n.keywords:
                    return self.visit(n.args[0])
                return self.generic_visit(n)
        return R().visit(ast.parse(ast.unparse(e), mode='eval').body)

    def walk(self, body, conds, loops):
        conds = list(conds)
        for s in body:
            if isinstance(s, ast.If):
                self.walk(s.body, conds + literals(s.test, True), loops)
                self.walk(s.orelse, conds + literals(s.test, False), loops)
                if leaves(s.body):
                    conds += literals(s.test, False)
                if leaves(s.orelse):
                    conds += literals(s.test, True)
            elif isinstance(s, (ast.For, ast.While)):
                if s.orelse:
                    raise Undecided('loop with else')
                self.walk(s.body, conds, loops + [s])
            elif isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)) or isinstance(s, ast.Pass):
                pass
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (
                    last(s.value.func) in ('print', 'info', 'debug', 'warning') or self.pure(s.value)):
                pass
            else:
                self.events.append((s, list(conds), list(loops)))

    # -- what plays which part ----------------------------------------------
    def shape(self):
        whiles = [n for n in ast.walk(self.f) if isinstance(n, ast.While)]
        if len(whiles) != 1:
            raise Undecided('%d while loops' % len(whiles))
        self.loop = w = whiles[0]
        t = w.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and last(t.left.func) == 'len' and \
                isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and const(t.comparators[0]) == 0:
            t = t.left
        if isinstance(t, ast.Call) and last(t.func) == 'len' and len(t.args) == 1:
            t = t.args[0]
        if not isinstance(t, ast.Name):
            raise Undecided('loop condition')
        self.q = t.id
        pops = [n for n in ast.walk(self.f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                and n.func.value.id == self.q and n.func.attr in ('pop', 'popleft')]
        first = [e for e in self.events if w in e[2]]
        if len(pops) != 1 or not first or not isinstance(first[0][0], ast.Assign) or first[0][0].value is not pops[0] \
                or not isinstance(first[0][0].targets[0], ast.Name) or first[0][2][-1] is not w:
            raise Undecided('how cells are taken')
        self.s = first[0][0].targets[0].id
        self.base = first[0][1]
        outer = first[0][2][:-1]
        if len(outer) != 1 or not isinstance(outer[0], ast.For):
            raise Undecided('no single seed loop')
        self.outer = outer[0]
        self.seedvar()
        inner = [n for n in ast.walk(w) if isinstance(n, ast.For)]
        if len(inner) != 1 or not isinstance(inner[0].target, ast.Name):
            raise Undecided('%d neighbour loops' % len(inner))
        self.inner = inner[0]
        self.n = inner[0].target.id
        if any(isinstance(n, ast.Break) for n in ast.walk(self.outer) if not self.within(n, self.inner)):
            raise Undecided('break in the search')
        self.seen = None
        for s, c, l in self.events:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not l and self.blank(s.value):
                if any(self.mark(e[0], s.targets[0].id) for e in self.events):
                    if self.seen:
                        raise Undecided('two kinds of marks')
                    self.seen = s.targets[0].id
        if self.seen is None:
            raise Undecided('no marks')
        self.enq = []
        for s, c, l in self.events:
            x = self.put(s)
            if x is not None:
                self.enq.append((s, x, c, l))
            elif self.touches(s, self.q) and not (w in l and s is first[0][0]) and not (self.empty(s, self.q)):
                raise Undecided('another use of the queue: ' + ast.unparse(s)[:60])
        self.first = [e for e in self.enq if w not in e[3]]
        self.more = [e for e in self.enq if w in e[3]]
        if len(self.first) != 1 or not self.more:
            raise Undecided('how cells are queued')
        for s, x, c, l in self.first:
            if self.outer not in l or l[-1] is not self.outer or not (isinstance(x, ast.Name) and x.id == self.i):
                raise Undecided('start of a grain')
        for s, x, c, l in self.more:
            if l[-1] is not self.inner or not (isinstance(x, ast.Name) and x.id == self.n):
                raise Undecided('what is queued')
        for s, c, l in self.events:
            m = self.mark(s, self.seen)
            if m is None and self.touches(s, self.seen) and not (not l and isinstance(s, ast.Assign)):
                raise Undecided('another use of the marks')

    def within(self, n, loop):
        return any(x is n for x in ast.walk(loop))

    def touches(self, s, name):
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s))

    def empty(self, s, name):
        return isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and \
            (isinstance(s.value, ast.List) and not s.value.elts or isinstance(s.value, ast.Call) and not s.value.args)

    def blank(self, v):
        if isinstance(v, ast.Call) and last(v.func) in ('zeros', 'zeros_like', 'full', 'full_like', 'set', 'array', 'asarray', 'bytearray'):
            if last(v.func) in ('full', 'full_like'):
                return len(v.args) > 1 and const(v.args[1]) in (0, False)
            if last(v.func) in ('array', 'asarray'):
                return bool(v.args) and self.blank(v.args[0])
            return last(v.func) != 'set' or not v.args
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
            l = v.left if isinstance(v.left, ast.List) else v.right
            return isinstance(l, ast.List) and len(l.elts) == 1 and const(l.elts[0]) in (0, False) and const(l.elts[0]) is not None
        if isinstance(v, ast.ListComp):
            return const(v.elt) in (0, False) and const(v.elt) is not None
        return False

    def mark(self, s, name):
        """cell a statement marks as seen"""
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and \
                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == name:
            return self.ex(s.targets[0].slice) if const(s.value) in (1, True) else None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                s.value.func.attr == 'add' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name and len(s.value.args) == 1:
            return self.ex(s.value.args[0])
        return None

    def put(self, s):
        """cell a statement queues"""
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == self.q:
            v = s.value
            if isinstance(v, ast.Call) and last(v.func) in ('deque', 'list') and len(v.args) == 1:
                v = v.args[0]
            if isinstance(v, (ast.List, ast.Tuple)) and len(v.elts) == 1:
                return self.ex(v.elts[0])
            return None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == self.q and s.value.func.attr in ('append', 'appendleft') \
                and len(s.value.args) == 1:
            return self.ex(s.value.args[0])
        return None

    def seedvar(self):
        t, it = self.outer.target, self.ex(self.outer.iter)
        self.known = []          # literals the iteration itself ensures
        self.short = None
        if isinstance(it, ast.Call) and last(it.func) == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name) \
                and len(it.args) == 1 and isinstance(it.args[0], ast.Name) and it.args[0].id in (self.solid, self.ori, self.adj):
            self.i = t.elts[0].id
            if not isinstance(t.elts[1], ast.Name):
                raise Undecided('seed loop')
            self.alias[t.elts[1].id] = ast.parse('%s[%s]' % (it.args[0].id, self.i), mode='eval').body
            return
        if not isinstance(t, ast.Name):
            raise Undecided('seed loop')
        self.i = t.id
        if isinstance(it, ast.Call) and last(it.func) in ('range', 'arange') and not it.keywords:
            a = it.args
            lo = a[0] if len(a) > 1 else ast.Constant(value=0)
            hi = a[1] if len(a) > 1 else a[0]
            self.short = self.span(lo, hi, a[2] if len(a) > 2 else None)
            return
        if isinstance(it, ast.Subscript) and const(it.slice) == 0:
            it = it.value
            if not (isinstance(it, ast.Call) and last(it.func) in ('where', 'nonzero')):
                raise Undecided('seed loop')
        elif not (isinstance(it, ast.Call) and last(it.func) == 'flatnonzero'):
            raise Undecided('seed loop')
        if len(it.args) != 1 or not isinstance(it.args[0], ast.Name) or it.args[0].id != self.solid:
            raise Undecided('seed loop')
        self.known = ['solid']

    def span(self, lo, hi, step):
        """None when the range covers every cell, else what is wrong"""
        off = 0
        if isinstance(hi, ast.BinOp) and isinstance(hi.op, (ast.Add, ast.Sub)) and isinstance(const(hi.right), int):
            off = const(hi.right) if isinstance(hi.op, ast.Add) else -const(hi.right)
            hi = hi.left
        ok = isinstance(hi, ast.Call) and last(hi.func) == 'len' and isinstance(hi.args[0], ast.Name) or \
            isinstance(hi, ast.Attribute) and hi.attr == 'size' or \
            isinstance(hi, ast.Subscript) and isinstance(hi.value, ast.Attribute) and hi.value.attr == 'shape' and const(hi.slice) == 0
        if not ok:
            raise Undecided('extent of the seed loop')
        if isinstance(hi, ast.Call) and hi.args[0].id not in (self.solid, self.ori, self.adj) and not self.sized(hi.args[0].id):
            raise Undecided('extent of the seed loop')
        if not isinstance(const(lo), int) or step is not None and not isinstance(const(step), int):
            raise Undecided('extent of the seed loop')
        if const(lo) > 0 or off < 0 or step is not None and const(step) > 1:
            return 'the seed loop leaves out cells: ' + ast.unparse(self.outer.iter)
        if const(lo) < 0 or off > 0 or step is not None and const(step) != 1:
            raise Undecided('extent of the seed loop')
        return None

    def sized(self, name):
        """a local container with one entry per cell"""
        for s, c, l in self.events:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                v = s.value
                if isinstance(v, ast.Call) and v.args and last(v.func) in ('zeros', 'full'):
                    n = self.ex(v.args[0])
                    return isinstance(n, ast.Call) and last(n.func) == 'len' and isinstance(n.args[0], ast.Name) and \
                        n.args[0].id in (self.solid, self.ori, self.adj)
                if isinstance(v, ast.Call) and v.args and last(v.func) in ('zeros_like', 'full_like'):
                    return isinstance(v.args[0], ast.Name) and v.args[0].id in (self.solid, self.ori)
        return False

    # -- conditions -----------------------------------------------------------
    def kind(self, e, pos):
        """('seen'/'solid', cell, polarity) or ('ori', a, b, polarity); None when unknown"""
        e = self.ex(e)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            o, a, b = e.ops[0], e.left, e.comparators[0]
            if isinstance(o, (ast.In, ast.NotIn)) and isinstance(b, ast.Name) and b.id == self.seen:
                return ('seen', key(a), pos == isinstance(o, ast.In))
            if isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                eq = isinstance(o, (ast.Eq, ast.Is))
                for x, y in ((a, b), (b, a)):
                    if const(y) in (0, 1, True, False) and const(y) is not None:
                        k = self.kind(x, True)
                        if k is not None and k[0] != 'ori':
                            return (k[0], k[1], (pos == eq) == bool(const(y)))
                ia, ib = self.item(a, self.ori), self.item(b, self.ori)
                if ia and ib:
                    return ('ori', ia, ib, pos == eq)
            return None
        for n in ('seen', 'solid'):
            k = self.item(e, self.seen if n == 'seen' else self.solid)
            if k:
                return (n, k, pos)
        return None

    def item(self, e, name):
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == name:
            return key(e.slice)
        return None

    def cell(self, name):
        return key(ast.Name(id=name, ctx=ast.Load()))

    def judge(self, conds, x, need, s):
        """the conditions are exactly that x is unseen, solid (and of the seed's orientation)"""
        got, odd = set(), []
        same = {self.cell(self.i), self.cell(self.s)}
        for e, pos in conds:
            if isinstance(e, ast.BoolOp):
                if all(self.kind(v, pos) is not None for b in e.values for v, _ in literals(b, True)):
                    odd.append((e, 'weak'))
                    continue
            k = self.kind(e, pos)
            if k is None:
                odd.append((e, 'unknown'))
            elif k[0] == 'ori':
                o = {k[1], k[2]}
                if self.cell(x) in o and o - {self.cell(x)} <= same and len(o) == 2:
                    if not k[3]:
                        raise Bad('%d: cells of another orientation are taken' % s.lineno)
                    got.add('ori')
                elif k[3] and o <= same:
                    pass
                else:
                    odd.append((e, 'unknown'))
            elif k[1] == self.cell(x):
                want = k[0] == 'solid'
                if k[2] != want:
                    raise Bad('%d: only cells that are %s are taken' % (s.lineno, {'solid': 'liquid', 'seen': 'already seen'}[k[0]]))
                got.add(k[0])
            elif k[1] in same and x == self.n and k[2]:
                pass        # the cell taken is solid and seen already
            else:
                odd.append((e, 'unknown'))
        if x == self.i:
            got |= set(self.known)
        miss = [n for n in need if n not in got]
        if any(w == 'unknown' for _, w in odd):
            raise Undecided('condition ' + ast.unparse(next(e for e, w in odd if w == 'unknown'))[:80])
        if miss:
            raise Bad('%d: %s without testing %s' % (s.lineno, ast.unparse(s), ', '.join(
                {'seen': 'that the cell is unseen', 'solid': 'that the cell is solid', 'ori': 'its orientation'}[n] for n in miss)))
        if odd:
            raise Undecided('condition ' + ast.unparse(odd[0][0])[:80])

    def rest(self, conds):
        """conditions beyond those of the seed"""
        return conds[len(self.base):] if conds[:len(self.base)] == self.base else conds

    # -- rules ------------------------------------------------------------------
    def seeds(self):
        s, x, c, l = self.first[0]
        self.judge(c, self.i, ('seen', 'solid'), s)
        if self.short:
            raise Bad('%d: %s' % (self.outer.lineno, self.short))

    def lazy(self):
        """cells seen meanwhile are skipped when taken: (condition, mark) right after the take"""
        return [e for e in self.events if self.loop in e[2] and e[2][-1] is self.loop and self.is_mark(e[0], self.s) and
                any(self.kind(a, p) == ('seen', self.cell(self.s), False) for a, p in self.rest(e[1]))]

    def is_mark(self, s, name):
        m = self.mark(s, self.seen)
        return m is not None and key(m) == self.cell(name)

    def queued(self):
        for s, x, c, l in self.more:
            c = self.rest(c)
            if self.lazy():
                c = [(a, p) for a, p in c if self.kind(a, p) != ('seen', self.cell(self.s), False)]
                self.judge(c, self.n, ('solid', 'ori'), s)
            else:
                self.judge(c, self.n, ('seen', 'solid', 'ori'), s)
        if len(self.more) > 1:
            raise Undecided('several places queue cells')

    def neighbours(self):
        it = self.ex(self.inner.iter)
        while isinstance(it, ast.Call) and last(it.func) in ('list', 'tuple', 'set', 'sorted', 'reversed') and len(it.args) == 1:
            it = it.args[0]
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
            lo, hi, st = it.slice.lower, it.slice.upper, it.slice.step
            if (lo is None or const(lo) == 0) and hi is None and (st is None or const(st) in (1, -1)):
                it = it.value
            elif self.item(it.value, self.adj):
                raise Bad('%d: only %s is looked at' % (self.inner.lineno, ast.unparse(self.inner.iter)))
        k = self.item(it, self.adj)
        if k is None:
            raise Undecided('neighbours')
        if k != self.cell(self.s):
            raise Bad('%d: the neighbours looked at are not those of the cell taken' % self.inner.lineno)
        for b, c, l in self.events:
            if isinstance(b, ast.Break) and self.inner in l:
                if all(self.kind(e, p) is not None for e, p in c):
                    raise Bad('%d: the remaining neighbours are not looked at' % b.lineno)
                raise Undecided('break in the search')
        for e, p in self.rest(self.cond_of(self.inner)):
            if not (self.lazy() and self.kind(e, p) == ('seen', self.cell(self.s), False)):
                raise Undecided('neighbours are looked at under a condition')

    def cond_of(self, loop):
        ev = [c for s, c, l in self.events if loop in l]
        inside = set()
        for s in ast.walk(loop):
            if isinstance(s, ast.If):
                inside |= {key(a) for a, _ in literals(s.test, True) + literals(s.test, False)}
        return [(a, p) for a, p in ev[0] if key(a) not in inside] if ev else []

    def marked(self):
        s, x, c, l = self.first[0]
        if self.lazy():
            return
        if not any(self.is_mark(e[0], self.i) and e[2] and e[2][-1] is self.outer and e[1] == c and e[0].lineno < self.loop.lineno for e in self.events):
            if any(self.is_mark(e[0], self.i) for e in self.events) or any(self.is_mark(e[0], self.s) for e in self.events):
                if not any(self.is_mark(e[0], self.s) and self.loop in e[2] and e[2][-1] is self.loop and e[0].lineno < self.inner.lineno for e in self.events):
                    raise Undecided('where the first cell is marked')
            else:
                raise Bad('%d: the first cell of a grain is never marked as seen' % s.lineno)
        for s, x, c, l in self.more:
            if not any(self.is_mark(e[0], self.n) and e[2] == l and e[1] == c for e in self.events):
                late = [e for e in self.events if self.is_mark(e[0], self.n)]
                if late:
                    raise Undecided('where queued cells are marked')
                raise Bad('%d: a cell stays unseen while queued, so it can be queued twice' % s.lineno)

    def recorded(self):
        opened = {}            # component reference -> seed-block opening
        o = '%s[%s]' % (self.ori, self.i)
        comp, groups, files = [], set(), []
        for s, c, l in self.events:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and
                    s.value.func.attr == 'append' and len(s.value.args) == 1):
                continue
            r, v = self.ex(s.value.func.value), s.value.args[0]
            if isinstance(r, ast.Name) and r.id == self.q:
                continue
            if self.outer not in l:
                continue
            if self.loop in l:
                comp.append((s, r, self.ex(v), c, l))
            else:
                files.append((s, r, v, c, l))
        if len(files) != 1 or len(comp) != 1:
            if not comp and not any(self.s in [n.id for n in ast.walk(e[0]) if isinstance(n, ast.Name)] and not self.is_mark(e[0], self.s)
                                    for e in self.events if self.loop in e[2] and not isinstance(e[0], ast.Assign)):
                raise Undecided('no record of the cells taken')
            raise Undecided('records of cells')
        s, r, v, c, l = files[0]
        if not (isinstance(r, ast.Subscript) and isinstance(r.value, ast.Name)):
            raise Undecided('where grains are filed')
        if self.item(r.slice, self.ori) != self.cell(self.i):
            raise (Bad('%d: the grain is not filed under the orientation of its seed' % s.lineno)
                   if self.item(r.slice, self.ori) or isinstance(r.slice, (ast.BinOp, ast.Constant)) or
                   isinstance(r.slice, ast.Name) and r.slice.id == self.i else Undecided('where grains are filed'))
        self.groups = r.value.id
        for e in self.events:
            if isinstance(e[0], ast.Assign) and isinstance(e[0].targets[0], ast.Name) and e[0].targets[0].id == self.groups:
                v0 = e[0].value
                if isinstance(v0, ast.BinOp) and isinstance(v0.op, ast.Mult) and any(
                        isinstance(x, ast.List) and any(isinstance(y, ast.List) for y in x.elts) for x in (v0.left, v0.right)):
                    raise Bad('%d: all orientations share one list of grains' % e[0].lineno)
        if l[-1] is not self.outer or c != self.first[0][2]:
            raise Undecided('when grains are filed')
        s2, r2, v2, c2, l2 = comp[0]
        if isinstance(v, (ast.List,)) and not v.elts or isinstance(v, ast.Call) and last(v.func) == 'list' and not v.args:
            if s.lineno > self.loop.lineno:
                raise Bad('%d: the grain is opened after its cells were recorded' % s.lineno)
            if not (isinstance(r2, ast.Subscript) and const(r2.slice) is not None and key(r2.value) == key(r)):
                raise (Bad('%d: the cell is recorded in another grain' % s2.lineno) if isinstance(r2, ast.Subscript) and
                       isinstance(r2.value, ast.Subscript) and isinstance(r2.value.value, ast.Name) and r2.value.value.id == self.groups and
                       self.item(r2.value.slice, self.ori) not in (self.cell(self.s), self.cell(self.n)) and const(r2.slice) is not None
                       else Undecided('where cells are recorded')) if not (
                    isinstance(r2, ast.Subscript) and const(r2.slice) == -1 and isinstance(r2.value, ast.Subscript) and
                    self.item(r2.value.slice, self.ori) == self.cell(self.s)) else Undecided('where cells are recorded')
            if const(r2.slice) != -1:
                raise Bad('%d: the cell is recorded in another grain' % s2.lineno)
        elif isinstance(v, ast.Name) and isinstance(r2, ast.Name) and r2.id == v.id:
            new = [e for e in self.events if isinstance(e[0], ast.Assign) and isinstance(e[0].targets[0], ast.Name) and e[0].targets[0].id == v.id]
            if len(new) != 1:
                raise Undecided('where cells are recorded')
            if not (isinstance(new[0][0].value, ast.List) and not new[0][0].value.elts):
                raise Undecided('what a grain starts with')
            if self.outer not in new[0][2]:
                raise Bad('%d: all grains share one list' % new[0][0].lineno)
            if new[0][2][-1] is not self.outer:
                raise Undecided('where cells are recorded')
        else:
            raise Undecided('where cells are recorded')
        if l2[-1] is self.inner:
            raise Undecided('cells are recorded when queued')
        if not (isinstance(v2, ast.Name) and v2.id == self.s):
            raise (Bad('%d: the cell recorded is not the cell taken' % s2.lineno) if isinstance(v2, ast.Name) and v2.id == self.i
                   else Undecided('what is recorded'))
        left = [(a, p) for a, p in self.rest(c2) if not (self.lazy() and self.kind(a, p) == ('seen', self.cell(self.s), False))]
        if left:
            raise Undecided('cells are recorded under a condition')
        if self.lazy() and len(left) == len(self.rest(c2)):
            raise Bad('%d: a cell queued twice is recorded twice' % s2.lineno)

    def returned(self):
        rets = [(s, c) for s, c, l in self.events if isinstance(s, ast.Return)]
        if not rets or not all(isinstance(s.value, (ast.Name, ast.ListComp, ast.IfExp)) for s, c in rets):
            raise Undecided('what is returned')
        pairs = []
        for s, c in rets:
            if isinstance(s.value, ast.IfExp):
                pairs += [(s, s.value.body, c + literals(s.value.test, True)), (s, s.value.orelse, c + literals(s.value.test, False))]
            else:
                pairs.append((s, s.value, c))
        groups = getattr(self, 'groups', None)
        if groups is None:
            raise Undecided('where grains are filed')
        for s, v, c in pairs:
            f = [p for e, p in c if isinstance(e, ast.Name) and e.id == self.flag]
            if len(f) != 1 or len(c) != 1:
                raise Undecided('what is returned when')
            if isinstance(v, ast.Name) and v.id == groups:
                if f[0]:
                    raise Bad('%d: grains by orientation are returned where one list was asked for' % s.lineno)
            elif not f[0]:
                if isinstance(v, ast.Name) and self.flat(v.id, groups):
                    raise Bad('%d: one list is returned where grains by orientation were asked for' % s.lineno)
                raise Undecided('what is returned')
            elif isinstance(v, ast.Name):
                if not self.flat(v.id, groups):
                    raise Undecided('how grains are joined')
            else:
                self.comprehension(v, groups)

    def full(self, it, over):
        """the iteration runs over all of `over`: 'index' or 'item'"""
        it = self.ex(it)
        if key(it) == over:
            return 'item'
        if isinstance(it, ast.Call) and last(it.func) == 'range' and not it.keywords:
            a = it.args
            lo, hi = (a[0], a[1]) if len(a) > 1 else (ast.Constant(value=0), a[0])
            off = 0
            if isinstance(hi, ast.BinOp) and isinstance(hi.op, ast.Sub) and isinstance(const(hi.right), int):
                off, hi = const(hi.right), hi.left
            if isinstance(hi, ast.Call) and last(hi.func) == 'len' and key(hi.args[0]) == over and isinstance(const(lo), int) and len(a) < 3:
                if const(lo) > 0 or off > 0:
                    raise Bad('%d: some grains are left out' % getattr(it, 'lineno', self.f.lineno))
                if const(lo) == 0 and off == 0:
                    return 'index'
        if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and key(it.value) == over:
            lo, hi = it.slice.lower, it.slice.upper
            if lo is not None and isinstance(const(lo), int) and const(lo) > 0 or hi is not None and isinstance(const(hi), int) and const(hi) < 0:
                raise Bad('%d: some grains are left out' % self.f.lineno)
        raise Undecided('how grains are joined')

    def flat(self, name, groups):
        new = [e for e in self.events if isinstance(e[0], ast.Assign) and isinstance(e[0].targets[0], ast.Name) and e[0].targets[0].id == name]
        if len(new) != 1 or new[0][2]:
            raise Undecided('how grains are joined')
        v = new[0][0].value
        if isinstance(v, ast.ListComp):
            self.comprehension(v, groups)
            return True
        if not (isinstance(v, ast.List) and not v.elts):
            raise Undecided('how grains are joined')
        adds = [e for e in self.events if isinstance(e[0], ast.Expr) and isinstance(e[0].value, ast.Call) and isinstance(e[0].value.func, ast.Attribute)
                and isinstance(e[0].value.func.value, ast.Name) and e[0].value.func.value.id == name]
        if len(adds) != 1 or len(adds[0][0].value.args) != 1:
            raise Undecided('how grains are joined')
        s, c, l = adds[0]
        if c:
            raise Undecided('grains are joined under a condition')
        what = s.value.func.attr
        if self.outer in l or len(l) != {'append': 2, 'extend': 1}.get(what, 0):
            raise Undecided('how grains are joined')
        cur = ast.Name(id=groups, ctx=ast.Load())
        for lp in l:
            if not isinstance(lp.target, ast.Name):
                raise Undecided('how grains are joined')
            how = self.full(lp.iter, key(cur))
            t = ast.Name(id=lp.target.id, ctx=ast.Load())
            cur = t if how == 'item' else ast.parse('%s[%s]' % (ast.unparse(cur), lp.target.id), mode='eval').body
        if key(self.ex(s.value.args[0])) != key(self.ex(cur)):
            raise Undecided('how grains are joined')
        return True

    def comprehension(self, v, groups):
        cur = ast.Name(id=groups, ctx=ast.Load())
        if len(v.generators) != 2:
            raise Undecided('how grains are joined')
        for g in v.generators:
            if g.ifs or not isinstance(g.target, ast.Name):
                raise Undecided('how grains are joined')
            how = self.full(g.iter, key(cur))
            cur = ast.Name(id=g.target.id, ctx=ast.Load()) if how == 'item' else \
                ast.parse('%s[%s]' % (ast.unparse(cur), g.target.id), mode='eval').body
        if key(self.ex(v.elt)) != key(self.ex(cur)):
            raise Undecided('how grains are joined')
