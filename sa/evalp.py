"""Interpretation of terms under random valuations (polynomial identity test).

Only used to *withdraw* a mismatch between two normal forms: terms that differ
syntactically but agree under every sampled interpretation are treated as equal.
The terms are evaluated, never the program.
"""
import hashlib
import itertools
import math
import random
from . import terms as T
from .terms import Poly, Lam, Undecided


class EvalBudget(Undecided):
    pass


def _h(*xs):
    s = '|'.join(map(str, xs)).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), 'big')


def _u(*xs):
    return _h(*xs) / float(1 << 64)


class Interp:
    def __init__(self, seed, size_extra=2, fixed=None, budget=3000000):
        self.seed = seed
        self.env = {}
        self.cache = {}
        self.fixed = fixed or {}
        self.size_extra = size_extra
        self.budget = budget
        self.lamc = {}
        self.over = None

    # -- leaves
    def sym(self, a):
        v = self.env.get(a)
        if v is not None:
            return v
        name = a.args[0]
        if a in self.fixed:
            v = self.fixed[a]
        elif name == 'pi':
            v = math.pi
        elif a.is_int:
            lb, ub = a.rng if a.rng else (None, None)
            lo = lb if lb is not None else 0
            hi = lo + self.size_extra
            if name == 'N':             # node counts exceed the sizes of boundary groups
                lo, hi = lo + self.size_extra, hi + self.size_extra
            if ub is not None:
                hi = min(hi, ub - 1)
            v = int(lo) + _h(self.seed, 'sym', name) % (int(hi) - int(lo) + 1)
        elif a.positive:
            lb = a.rng[0] if a.rng and a.rng[0] is not None else 0
            v = float(lb) + 0.3 + _u(self.seed, 'sym', name)
        else:
            v = 3.0 * _u(self.seed, 'sym', name) - 1.4
        self.env[a] = v
        return v

    def elt(self, a):
        b = a.args[0]
        idx = tuple(self.p(i) for i in a.args[1:])
        idx = tuple(int(round(i)) if isinstance(i, float) and abs(i - round(i)) < 1e-9 else i for i in idx)
        if self.over:
            v = self.over.get((b.name, idx))
            if v is not None:
                return v
        if b.is_bool:
            return _h(self.seed, b.name, idx) & 1
        if b.is_int:
            lo = int(self.p(T.lift(b.lo)))
            if b.hi is None:
                return _h(self.seed, b.name, idx) % 5
            hi = int(self.p(T.lift(b.hi)))
            if hi <= lo:
                return lo
            if b.name.startswith('uniq:') and len(idx) == 1:
                perm = list(range(lo, hi))
                random.Random(_h(self.seed, b.name)).shuffle(perm)
                return perm[idx[0] % len(perm)]
            return lo + _h(self.seed, b.name, idx) % (hi - lo)
        u = _u(self.seed, b.name, idx)
        if b.positive:
            return 0.2 + u * 1.3
        return 2.6 * u - 1.1

    # -- polynomials
    def p(self, q):
        c = self.cache.get(q.id) if not q.free_vars_bound() else None
        if c is not None:
            return c
        tot = 0
        for m, k in q.t.items():
            v = int(k) if k.denominator == 1 else float(k)
            for a, e in m:
                x = self.a(a)
                if e == 1:
                    pass
                elif e.denominator == 1:
                    if e < 0:
                        x = self._inv(x, int(e))
                    else:
                        x = x ** int(e)
                else:
                    x = abs(x)
                    if x < 1e-300:
                        x = 1e-300 if e < 0 else 0.0
                    x = x ** float(e)
                v = v * x
                if v == 0:
                    break
            tot = tot + v
        if isinstance(tot, float) and not math.isfinite(tot):
            raise EvalBudget('non-finite')
        if not q.free_vars_bound():
            self.cache[q.id] = tot
        return tot

    def _inv(self, x, e):
        if x == 0:
            raise EvalBudget('division by zero')
        return float(x) ** e

    def a(self, a):
        k = a.kind
        if k == 'sym':
            return self.sym(a)
        if k in ('var', 'bv'):
            v = self.env.get(a)
            if v is None:
                if k == 'var':
                    lo = int(self.p(a.rng[0]))
                    hi = int(self.p(a.rng[1]))
                    v = lo + _h(self.seed, 'var', a.args) % max(1, hi - lo)
                    self.env[a] = v
                    return v
                raise Undecided('unbound bv')
            return v
        fr = a.free
        key = (a.id,) + tuple(self.env.get(x) for x in _sorted_bound(a))
        v = self.lamc.get(key)
        if v is not None:
            return v
        self.budget -= 1
        if self.budget < 0:
            raise EvalBudget('evaluation budget')
        v = self._a(a)
        self.lamc[key] = v
        return v

    def _a(self, a):
        k = a.kind
        A = a.args
        if k == 'elt':
            return self.elt(a)
        if k in ('pow', 'frz'):
            return self.p(A[0])
        if k == 'ge':
            x = self.p(A[0])
            return 1 if x >= (-1e-12 if isinstance(x, float) else 0) else 0
        if k == 'gt':
            x = self.p(A[0])
            return 1 if x > (1e-12 if isinstance(x, float) else 0) else 0
        if k == 'eq':
            x = self.p(A[0])
            return 1 if abs(x) <= (1e-12 if isinstance(x, float) else 0) else 0
        if k == 'div':
            return self._fi(self.p(A[0])) // self._fi(self.p(A[1]))
        if k == 'mod':
            return self._fi(self.p(A[0])) % self._fi(self.p(A[1]))
        if k == 'sum':
            tot = 0
            for _, v in self.iter_lam(A[0]):
                tot = tot + v
            return tot
        if k == 'red':
            vals = list(self.iter_lam(A[1]))
            return _reduce(A[0], vals)
        if k == 'nz':
            n = self._fi(self.p(A[1]))
            lst = self.nonzero(A[0])
            if 0 <= n < len(lst):
                return lst[n][A[2]]
            return 0
        if k == 'app':
            return self.app(a)
        raise Undecided('eval ' + k)

    def _fi(self, x):
        if isinstance(x, float):
            r = round(x)
            if abs(x - r) > 1e-9:
                return x
            return int(r)
        return x

    def nonzero(self, lam):
        key = ('nz', lam.id) + tuple(self.env.get(x) for x in _sorted_bound(lam))
        v = self.lamc.get(key)
        if v is None:
            v = [i for i, x in self.iter_lam(lam) if abs(x) > 1e-12]
            self.lamc[key] = v
        return v

    def iter_lam(self, lam):
        dims = lam.dims
        bvs = [T._mk('bv', (lam.h + 1 + k,), is_int=True, height=lam.h + 1 + k) for k in range(len(dims))]
        saved = [self.env.get(b) for b in bvs]

        def rec(k, idx):
            if k == len(dims):
                self.budget -= 1
                if self.budget < 0:
                    raise EvalBudget('evaluation budget')
                yield idx, self.p(lam.body)
                return
            n = int(self.p(dims[k]))
            for i in range(n):
                self.env[bvs[k]] = i
                yield from rec(k + 1, idx + (i,))
        try:
            return list(rec(0, ()))
        finally:
            for b, v in zip(bvs, saved):
                if v is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = v

    def linalg(self, f, args, out):
        ent = dict(self.iter_lam(args[0]))
        n = 1 + max((k[0] for k in ent), default=-1)
        if any(len(k) != 2 for k in ent) or n == 0 or len(ent) != n * n:
            return None
        M = [[float(ent[(i, j)]) for j in range(n)] for i in range(n)]
        if f == 'det':
            return _gauss(M, None)
        o = [self._fi(self.p(x)) for x in out]
        if f == 'inv':
            b = [float(i == o[1]) for i in range(n)]
        else:
            if len(args) != 2 or not isinstance(args[1], Lam):
                return None
            be = dict(self.iter_lam(args[1]))
            if any(len(k) != 1 for k in be) or len(be) != n:
                return None
            b = [float(be[(i,)]) for i in range(n)]
        if not 0 <= o[0] < n or len(o) != (2 if f == 'inv' else 1):
            return None
        try:
            x = _gauss(M, b)
        except EvalBudget:      # singular sample: any function of the operands will do
            return None
        return x[o[0]]

    def _phases(self, a, name, args):
        """contribution of the arguments, the same for every output component"""
        ps = [x for x in args if isinstance(x, (Poly, Lam))]
        key = ('ph', name, tuple((type(x).__name__, x.id) if isinstance(x, (Poly, Lam)) else str(x) for x in args)) + \
            tuple(tuple(self.env.get(b) for b in _sorted_bound(x)) for x in ps)
        r = self.lamc.get(key)
        if r is None:
            flat = []
            consts = []
            for i, x in enumerate(args):
                if isinstance(x, Poly):
                    flat.append((i, (), self.p(x)))
                elif isinstance(x, Lam):
                    for J, v in self.iter_lam(x):
                        flat.append((i, J, v))
                else:
                    consts.append((i, str(x)))
            r = (tuple(consts), [sum((0.4 + _u(self.seed, name, 'w', t, i, J)) * v for i, J, v in flat) for t in range(2)])
            self.lamc[key] = r
        return r

    def app(self, a):
        f, args, out = a.args
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'bool' and f[1] in ('isfinite', 'isnan', 'isinf') and len(args) == 1 \
                and isinstance(args[0], Poly):
            try:
                self.p(args[0])
                return int(f[1] == 'isfinite')
            except EvalBudget as e:
                if 'zero' in str(e):
                    return int(f[1] == 'isnan')
                raise
        if f == 'lastwrite':
            hit = [i for i, x in self.iter_lam(args[0]) if abs(x) > 1e-12]
            return dict(self.iter_lam(args[1]))[hit[-1]] if hit else 0
        if f == 'bigand':
            return int(all(abs(self.p(x)) > 1e-12 for x in args))
        if isinstance(f, str) and len(args) == 1 and isinstance(args[0], Poly) and not out:
            x = self.p(args[0])
            try:
                r = _known(f, x)
            except (OverflowError, ValueError):
                raise EvalBudget('domain')
            if r is not None:
                return r
        if f in ('det', 'inv', 'linsolve') and isinstance(args[0], Lam):
            r = self.linalg(f, args, out)
            if r is not None:
                return r
        # derivative chain
        ders = []
        g = f
        o = [self._fi(self.p(x)) for x in out]
        while isinstance(g, tuple) and len(g) == 4 and g[0] == 'D':
            _, i, r, g2 = g
            if r:
                J = tuple(o[-r:])
                o = o[:-r]
            else:
                J = ()
            ders.append((i, J))
            g = g2
        o = tuple(o)
        tot = 0.0
        name = T.show_f(g)
        consts, bases = self._phases(a, name, args)
        n = len(ders)
        for t in range(2):
            ph = 6.28 * _u(self.seed, name, consts, 'ph', t, o) + bases[t]
            amp = 0.5 + _u(self.seed, name, consts, 'A', t, o)
            w = 1.0
            for i, J in ders:
                w *= (0.4 + _u(self.seed, name, 'w', t, i, J))
            tot += amp * w * (math.sin(ph + n * math.pi / 2))
        if a.is_bool:
            return 1 if tot > 0 else 0
        if a.is_int:
            if a.rng is not None and a.rng[1] is not None:
                lo = int(self.p(T.lift(a.rng[0]))) if a.rng[0] is not None else 0
                hi = int(self.p(T.lift(a.rng[1])))
                return lo + int(abs(tot) * 1e4) % max(1, hi - lo)
            return int(abs(tot) * 1e4) % 4
        if a.positive:
            return abs(tot) + 0.1
        return tot


def _gauss(M, b):
    """determinant (b is None) or solution"""
    n = len(M)
    M = [r[:] for r in M]
    x = b[:] if b is not None else None
    det = 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-9:
            if b is None:
                return 0.0
            raise EvalBudget('singular sample')
        if p != c:
            M[c], M[p] = M[p], M[c]
            det = -det
            if x is not None:
                x[c], x[p] = x[p], x[c]
        det *= M[c][c]
        for r in range(c + 1, n):
            g = M[r][c] / M[c][c]
            if g:
                for k in range(c, n):
                    M[r][k] -= g * M[c][k]
                if x is not None:
                    x[r] -= g * x[c]
    if x is None:
        return det
    for c in range(n - 1, -1, -1):
        x[c] = (x[c] - sum(M[c][k] * x[k] for k in range(c + 1, n))) / M[c][c]
    return x


def _known(f, x):
    if f == 'exp':
        return math.exp(min(x, 50.0)) if x > -700 else 0.0
    if f == 'log':
        return math.log(abs(x)) if abs(x) > 1e-300 else -690.0
    if f == 'sin':
        return math.sin(x)
    if f == 'cos':
        return math.cos(x)
    if f == 'tan':
        return math.tan(x)
    if f == 'tanh':
        return math.tanh(x)
    if f == 'abs':
        return abs(x)
    if f == 'sign':
        return (x > 0) - (x < 0)
    if f == 'floor':
        return math.floor(x + 1e-9)
    if f == 'ceil':
        return math.ceil(x - 1e-9)
    if f == 'arctan':
        return math.atan(x)
    return None


def _reduce(kind, vals):
    vs = [v for _, v in vals]
    if kind == 'max':
        return max(vs)
    if kind == 'min':
        return min(vs)
    if kind == 'all':
        return 1 if all(abs(v) > 1e-12 for v in vs) else 0
    if kind == 'any':
        return 1 if any(abs(v) > 1e-12 for v in vs) else 0
    if kind == 'prod':
        r = 1
        for v in vs:
            r = r * v
        return r
    if kind in ('argmax', 'argmin'):
        best = None
        for n, v in enumerate(vs):
            if best is None or (v > best[1] if kind == 'argmax' else v < best[1]):
                best = (n, v)
        return best[0]
    raise Undecided('reduce ' + kind)


_bound_cache = {}


def _sorted_bound(x):
    k = id(x)
    r = _bound_cache.get(k)
    if r is None:
        r = (x, tuple(sorted((b for b in x.free if b.kind in ('bv', 'var')), key=lambda b: b.id)))
        _bound_cache[k] = r
    return r[1]


def _free_vars_bound(self):
    """Does the value depend on variables assigned during evaluation?"""
    r = _fvb.get(self.id)
    if r is None:
        r = any(b.kind in ('bv', 'var') for b in self.free)
        _fvb[self.id] = r
    return r


_fvb = {}
Poly.free_vars_bound = _free_vars_bound


def same(p, q, trials=6, seed=1, fixed=None, tol=1e-7):
    """None: no evidence either way;  True: agree on all trials; False: differ.
    Returns (verdict, detail)."""
    if p is q:
        return True, None
    ok = 0
    for k in range(trials * 3):
        it = Interp(seed * 1000 + k, size_extra=(1 if k % 2 else 2), fixed=fixed)
        try:
            a = it.p(p)
            b = it.p(q)
        except EvalBudget:
            continue
        except RecursionError:
            return None, 'recursion'
        s = max(abs(a), abs(b), 1e-3)
        if abs(a - b) > tol * s:
            return False, (a, b)
        ok += 1
        if ok >= trials:
            break
    if ok == 0:
        return None, 'no evaluation'
    return True, ok


def same_all(p, q, binders, trials=6, seed=1, fixed=None, tol=1e-7, cap=40, secs=3.0):
    """As same(), evaluating every value of the index binders (small sizes)."""
    import itertools
    if p is q:
        return True, None
    ok = 0
    why = 'no evaluation'
    for k in range(trials * 3):
        it = Interp(seed * 1000 + k, size_extra=(1 if k % 2 else 3), fixed=fixed)
        try:
            rngs = []
            for v, hi in binders:
                rngs.append(range(int(it.p(hi))))
            combos = list(itertools.product(*rngs))
            if not combos:
                continue
            if len(combos) > cap:
                combos = random.Random(seed + k).sample(combos, cap)
            for c in combos:
                for (v, _), x in zip(binders, c):
                    it.env[T.the_atom(v)] = x
                a = it.p(p)
                b = it.p(q)
                s = max(abs(a), abs(b), 1e-3)
                if abs(a - b) > tol * s:
                    val = {x.args[0]: y for x, y in it.env.items() if x.kind == 'sym'}
                    return False, 'index %s, sizes/parameters %s: %.6g vs %.6g' % (
                        list(c), {n: (round(y, 3) if isinstance(y, float) else y)
                                  for n, y in sorted(val.items())[:12]}, a, b)
        except EvalBudget as e:
            why = str(e)
            continue
        except RecursionError:
            return None, 'recursion'
        ok += 1
        if ok >= trials:
            break
    if ok == 0:
        return None, why
    d = guided(p, q, binders, seed, fixed, tol, secs)
    if d is not None:
        return False, d
    d = poisoned(p, q, binders, seed, fixed)
    if d is not None:
        return False, d
    return True, ok


# --------------------------------------------------------------------------
# valuations with entries that are not finite


class Poisoned(Interp):
    """some entries of the arrays whose finiteness the expected term asks about are nan or infinite; a condition on a value
    that is not finite is given up"""

    def __init__(self, names, kind, *a, **k):
        super().__init__(*a, **k)
        self.names, self.kind_, self.bad = names, kind, {}
        self.spread = False     # an unknown function of a value that is not finite is nan

    def elt(self, a):
        v = super().elt(a)
        b = a.args[0]
        if b.name in self.names and isinstance(v, float):
            idx = tuple(self._fi(self.p(i)) for i in a.args[1:])
            if _u(self.seed, 'poison', b.name, idx) < 0.3:
                v = self.kind_[_h(self.seed, 'pk', b.name, idx) % len(self.kind_)]
                self.bad[(b.name, idx)] = v
        return v

    def p(self, q):
        c = self.cache.get(q.id) if not q.free_vars_bound() else None
        if c is not None:
            return c
        groups = {}
        for m, k in q.t.items():
            co, key, val = float(k) if k.denominator != 1 else int(k), [], 1.0
            for a, e in m:
                x = self.a(a)
                if isinstance(x, float) and not math.isfinite(x):
                    key.append((a.id, e))
                    val = val * (x if e == 1 else x ** float(e) if e > 0 else (0.0 if math.isinf(x) else x))
                elif e.denominator == 1:
                    co = co * (self._inv(x, int(e)) if e < 0 else x ** int(e))
                else:
                    co = co * abs(x) ** float(e)
            g = groups.setdefault(tuple(key), [0, val])
            g[0] = g[0] + co
        tot = 0
        for key, (co, val) in groups.items():
            if not key:
                tot = tot + co
            elif abs(co) > 1e-12:
                tot = tot + co * val
        if not q.free_vars_bound():
            self.cache[q.id] = tot
        return tot

    def _a(self, a):
        if a.kind in ('ge', 'gt', 'eq', 'div', 'mod'):
            for x in a.args[:2 if a.kind in ('div', 'mod') else 1]:
                v = self.p(x)
                if isinstance(v, float) and not math.isfinite(v):
                    raise EvalBudget('condition on a value that is not finite')
        if a.kind == 'red':
            vals = list(self.iter_lam(a.args[1]))
            if any(isinstance(v, float) and not math.isfinite(v) for _, v in vals):
                if a.args[0] not in ('max', 'min', 'prod'):
                    raise EvalBudget('reduction over values that are not finite')
                if any(v != v for _, v in vals):
                    return math.nan
            return _reduce(a.args[0], vals)
        return super()._a(a)

    def app(self, a):
        f, args, out = a.args
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'bool' and f[1] in ('isfinite', 'isnan', 'isinf') and len(args) == 1 \
                and isinstance(args[0], Poly):
            v = float(self.p(args[0]))
            return int(getattr(math, f[1])(v))
        if ('app', T.show_f(f)) in self.names and not a.is_bool and not a.is_int:
            key = (T.show_f(f),) + tuple(self._fi(self.p(x)) for x in out)
            if _u(self.seed, 'poison', key) < 0.3:
                self.bad[(T.show_f(f), key)] = v = self.kind_[_h(self.seed, 'pk', key) % len(self.kind_)]
                return v
        for x in args:
            for v in ([self.p(x)] if isinstance(x, Poly) else [v for _, v in self.iter_lam(x)] if isinstance(x, Lam) else []):
                if isinstance(v, float) and not math.isfinite(v):
                    if f == 'abs':
                        return abs(v)
                    if self.spread and not a.is_bool and not a.is_int:
                        return math.nan
                    raise EvalBudget('function of a value that is not finite')
        return super().app(a)


_PLAIN = ('abs', 'exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sign', 'floor', 'ceil', 'arctan')


def lets_through(guards, want, seed=1, fixed=None):
    """a valuation in which `want` fails although every guard holds: (True, example), (False, None) none found, (None, None)"""
    names = _finite_bases(want, set())
    nan, inf = math.nan, math.inf
    seen = 0
    each = sorted(names, key=str)
    for k in range(24 + (4 * len(each) if len(each) > 1 else 0)):
        kind = [(nan,), (inf,), (-inf,), (nan, inf, -inf)][k % 4]
        it = Poisoned(names if k < 24 else {each[(k - 24) // 4]}, kind, seed * 1000 + k, size_extra=(1 if k % 2 else 2), fixed=fixed, budget=200000)
        try:
            it.spread = True
            w = it.p(want)
            if w:
                continue
            g = 1
            for x in guards:
                if not it.p(x):
                    g = 0
                    break
        except (EvalBudget, RecursionError, OverflowError, ValueError, ZeroDivisionError):
            continue
        seen += 1
        if g:
            return True, ', '.join('%s = %s' % (n, v) for (n, i), v in sorted(it.bad.items(), key=str)[:3])
    return (False, None) if seen else (None, None)


def _finite_bases(p, out, inside=False, seen=None):
    seen = set() if seen is None else seen
    if isinstance(p, Lam):
        p = p.body
    if not isinstance(p, Poly) or (p.id, inside) in seen:
        return out
    seen.add((p.id, inside))
    for m in p.t:
        for a, _ in m:
            if a.kind == 'elt' and inside:
                out.add(a.args[0].name)
            elif a.kind == 'app' and inside and not a.is_bool and not a.is_int and not (isinstance(a.args[0], str) and a.args[0] in _PLAIN):
                out.add(('app', T.show_f(a.args[0])))
                continue
            deep = inside or (a.kind == 'app' and isinstance(a.args[0], tuple) and len(a.args[0]) == 2
                              and a.args[0][1] in ('isfinite', 'isnan', 'isinf'))
            for x in a.args:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, (Poly, Lam)):
                        _finite_bases(y, out, deep, seen)
    return out


def poisoned(p, q, binders, seed, fixed):
    names = _finite_bases(q, set())
    if not names:
        return None
    nan, inf = math.nan, math.inf
    for k in range(16):
        kind = [(nan,), (inf,), (-inf,), (nan, inf, -inf)][k % 4]
        it = Poisoned(names, kind, seed * 1000 + k, size_extra=(1 if k % 2 else 2), fixed=fixed, budget=200000)
        try:
            for v, hi in binders:
                n = int(it.p(hi))
                if n < 1:
                    raise EvalBudget('empty')
                it.env[T.the_atom(v)] = _h(seed, k, str(v)) % n
            a, b = it.p(p), it.p(q)
        except (EvalBudget, RecursionError, OverflowError, ValueError, ZeroDivisionError):
            continue
        if math.isfinite(a) and math.isfinite(b) and abs(a - b) > 1e-9 and it.bad:
            return 'with %s: %.6g vs %.6g' % (', '.join('%s%s = %s' % (n, list(i), v) for (n, i), v in sorted(it.bad.items(), key=str)[:3]), a, b)
    return None


# --------------------------------------------------------------------------
# valuations steered towards the conditions in which two terms differ


def _conds(p, out, depth=0):
    """comparison atoms, free of bound variables, inside p"""
    if depth > 12 or len(out) > 400:
        return
    for m in p.t:
        for a, _ in m:
            _cond_atom(a, out, depth)


def _cond_atom(a, out, depth):
    if a in out or any(x.kind == 'bv' for x in a.free):
        return
    k = a.kind
    if k in ('ge', 'gt', 'eq'):
        out[a] = True
        _conds(a.args[0], out, depth + 1)
    elif k in ('pow', 'frz'):
        _conds(a.args[0], out, depth + 1)
    elif k == 'app':
        if a.args[0] == 'bigand':
            out[a] = True
        for x in a.args[1]:
            if isinstance(x, Poly):
                _conds(x, out, depth + 1)


def _leaves(it, p, out, depth=0):
    if depth > 8 or len(out) > 60:
        return
    for m in p.t:
        for a, _ in m:
            k = a.kind
            if any(x.kind == 'bv' for x in a.free):
                continue
            if k == 'sym':
                if not a.is_int and a.args[0] != 'pi':
                    out[('s', a)] = a
            elif k == 'elt':
                if a.args[0].name.startswith('uniq:'):
                    continue
                idx = tuple(it._fi(it.p(i)) for i in a.args[1:])
                out[('e', a.args[0].name, idx)] = a
            elif k in ('ge', 'gt', 'eq', 'pow', 'frz'):
                _leaves(it, a.args[0], out, depth + 1)
            elif k == 'app':
                for x in a.args[1]:
                    if isinstance(x, Poly):
                        _leaves(it, x, out, depth + 1)


class _Point:
    """a valuation that can be adjusted leaf by leaf"""

    def __init__(self, seed, extra, fixed, binders, rnd):
        self.seed, self.extra, self.rnd = seed, extra, rnd
        self.fixed = dict(fixed or {})
        self.over = {}
        self.binders = binders
        it = Interp(seed, extra, self.fixed)
        self.idx = []
        for v, hi in binders:
            n = int(it.p(hi))
            if n < 1:
                raise EvalBudget('empty')
            self.idx.append(rnd.randrange(n))

    def it(self):
        it = Interp(self.seed, self.extra, self.fixed, budget=300000)
        it.over = self.over
        for (v, _), x in zip(self.binders, self.idx):
            it.env[T.the_atom(v)] = x
        return it

    def put(self, key, v):
        if key[0] == 's':
            self.fixed[key[1]] = v
        else:
            self.over[key[1:]] = v

    def cur(self, key, a):
        return self.it().a(a)

    def ok(self, a, v):
        if a.positive and v < 1e-3:
            return False
        if a.kind == 'sym' and a.rng and a.rng[0] is not None and v <= float(a.rng[0]):
            return False
        return abs(v) < 1e4


def _move(pt, g, rnd, delta):
    """change one leaf of g (a truth-valued poly): resample integers, bring a comparison to its threshold"""
    it = pt.it()
    cs = {}
    _conds(g, cs)
    cs = [c for c in cs if c.kind != 'app']
    rnd.shuffle(cs)
    for c in cs[:3] or [None]:
        lv = {}
        _leaves(it, c.args[0] if c is not None else g, lv)
        keys = list(lv)
        if not keys:
            continue
        key = rnd.choice(keys)
        a = lv[key]
        if a.kind == 'elt' and a.args[0].is_bool:
            pt.put(key, 1 - it.a(a))
            return True
        if a.is_int:
            b = a.args[0]
            lo = int(it.p(T.lift(b.lo)))
            hi = int(it.p(T.lift(b.hi))) if b.hi is not None else lo + 5
            if hi <= lo:
                continue
            pt.put(key, rnd.randrange(lo, hi))
            return True
        if c is None or c.kind == 'eq' and delta != 0:
            continue
        v0 = float(it.a(a))
        f = lambda v: (pt.put(key, v), float(pt.it().p(c.args[0])))[1] - delta
        save = v0
        try:
            x0, x1 = v0, v0 + 0.5
            y0, y1 = f(x0), f(x1)
            for _ in range(12):
                if y1 == y0:
                    break
                x2 = x1 - y1 * (x1 - x0) / (y1 - y0)
                x0, y0, x1 = x1, y1, x2
                y1 = f(x1)
                if abs(y1) < (1e-10 if delta else 1e-14):
                    break
            if abs(y1) < (1e-9 if delta else 5e-13) and pt.ok(a, x1):
                pt.put(key, x1)
                return True
        except (EvalBudget, OverflowError, ZeroDivisionError):
            pass
        pt.put(key, save)
    return False


def guided(p, q, binders, seed=1, fixed=None, tol=1e-7, secs=3.0):
    """A valuation on which p and q differ, searched for near the conditions only one of them has."""
    import time
    end = time.time() + secs
    cp, cq = {}, {}
    _conds(p, cp)
    _conds(q, cq)
    only = [c for c in cp if c not in cq] + [c for c in cq if c not in cp]
    if not only:
        return None
    diff = T.add(p, T.neg(q))
    rnd = random.Random(seed)
    by = {}
    for m in list(diff.t)[:4000]:
        for a, _ in m:
            if a.is_bool:
                by.setdefault(a, []).append(m)
    for k in range(2000):
        if time.time() > end:
            return None
        try:
            pt = _Point(seed * 7919 + k, rnd.choice((1, 2, 3)), fixed, binders, rnd)
            c = rnd.choice(only)
            ms = by.get(c) or rnd.choice(list(by.values()) or [[()]])
            goals = []
            for a, _ in rnd.choice(ms):
                if a.is_bool:
                    if a.kind == 'app' and a.args[0] == 'bigand':
                        goals += [(g, True) for g in a.args[1]]
                    else:
                        goals.append((T.of_atom(a), True))
            if rnd.random() < 0.6 and goals:
                j = rnd.randrange(len(goals))
                goals[j] = (goals[j][0], False)
            for step in range(40):
                if time.time() > end:
                    return None
                d = _differ(pt, p, q, tol)
                if d:
                    return d
                if step == 0 and c.kind != 'app':
                    _move(pt, T.of_atom(c), rnd, rnd.choice((1e-6, -1e-6, 0.0)))
                    continue
                it = pt.it()
                bad = [g for g, v in goals if (abs(it.p(g)) > 1e-12) != v]
                if not bad:
                    break
                _move(pt, rnd.choice(bad), rnd, rnd.choice((1e-6, -1e-6, 0.0)))
        except (EvalBudget, OverflowError):
            continue
        except (RecursionError, Undecided):
            return None
    return None


def _differ(pt, p, q, tol):
    try:
        it = pt.it()
        a, b = it.p(p), it.p(q)
    except EvalBudget:
        return None
    if abs(a - b) > max(tol, 1e-5) * max(abs(a), abs(b), 1e-3):
        return 'index %s at a steered valuation: %.6g vs %.6g' % (pt.idx, a, b)
    return None
