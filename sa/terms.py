"""Value terms for the denotational analysis.

A value is a polynomial with rational coefficients over interned *atoms*
(symbolic sizes, index variables, array elements, opaque applications, Iverson
brackets, big sums, ...).  All arithmetic is exact real arithmetic.  Two terms
with the same normal form are the same interned object.

No solver is involved: order facts are decided by interval arithmetic over the
declared ranges of index variables and sizes.
"""
from fractions import Fraction
import itertools
import math
import hashlib


def _fast_hash(self, _orig=Fraction.__hash__):
    return hash(self._numerator) if self._denominator == 1 else _orig(self)


def _fast_eq(a, b, _orig=Fraction.__eq__):
    if type(b) is Fraction:
        return a._numerator == b._numerator and a._denominator == b._denominator
    return _orig(a, b)


Fraction.__hash__ = _fast_hash
Fraction.__eq__ = _fast_eq


class Undecided(Exception):
    """The analysis cannot decide something it needs (never a violation)."""


class TooBig(Undecided):
    pass


LIMIT_EXPAND = 4000          # maximal number of monomials produced by one product

# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = ('id', 'kind', 'args', 'free', 'height', 'is_int', 'is_bool',
                 'positive', 'deps', 'rng')

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_atom_list = []
EMPTY = frozenset()


def _mk(kind, args, free=EMPTY, height=0, is_int=False, is_bool=False,
        positive=False, rng=None):
    key = (kind, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(_atom_list)
    a.kind = kind
    a.args = args
    a.height = height
    a.is_int = is_int or is_bool
    a.is_bool = is_bool
    a.positive = positive
    a.rng = rng
    a.free = free
    if kind in ('sym', 'var', 'bv'):
        a.free = frozenset((a,))
    _atoms[key] = a
    _atom_list.append(a)
    return a


def _cat_free(ps):
    s = set()
    for p in ps:
        s |= p.free
    return frozenset(s)


def _cat_h(ps):
    h = 0
    for p in ps:
        if p.height > h:
            h = p.height
    return h


class Poly:
    __slots__ = ('t', '_free', '_height', 'id', '_int')

    def __init__(self, t):
        self.t = t
        self._free = None
        self._height = None
        self._int = None

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.free
            self._free = frozenset(s)
        return self._free

    @property
    def height(self):
        if self._height is None:
            h = 0
            for m in self.t:
                for a, _ in m:
                    if a.height > h:
                        h = a.height
            self._height = h
        return self._height

    # -- constants
    def const(self):
        """Fraction value when constant, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1:
            c = self.t.get(())
            if c is not None:
                return c
        return None

    def is_int(self):
        if self._int is None:
            ok = True
            for m, c in self.t.items():
                if c.denominator != 1:
                    ok = False
                    break
                for a, e in m:
                    if not a.is_int or e.denominator != 1 or e < 0:
                        ok = False
                        break
                if not ok:
                    break
            self._int = ok
        return self._int

    # -- operators
    def __add__(self, o):
        return add(self, lift(o))
    __radd__ = __add__

    def __sub__(self, o):
        return add(self, neg(lift(o)))

    def __rsub__(self, o):
        return add(lift(o), neg(self))

    def __neg__(self):
        return neg(self)

    def __mul__(self, o):
        return mul(self, lift(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), Fraction(-1)))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, Fraction(-1)))

    def __pow__(self, n):
        return power(self, n)

    def __repr__(self):
        return show(self)


_polys = {}
_poly_n = [0]


def _intern(t):
    key = frozenset(t.items())
    p = _polys.get(key)
    if p is None:
        p = Poly(t)
        p.id = _poly_n[0]
        _poly_n[0] += 1
        _polys[key] = p
    return p


ZERO = _intern({})
ONE = _intern({(): Fraction(1)})


def const(c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return _intern({(): c})


def frac_of_float(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Undecided('non-finite literal')
        return Fraction(repr(x))
    raise TypeError(x)


def lift(x):
    if isinstance(x, Poly):
        return x
    return const(frac_of_float(x))


def of_atom(a, e=1):
    return _intern({((a, Fraction(e)),): Fraction(1)})


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        c2 = t.get(m)
        if c2 is None:
            t[m] = c
        else:
            c2 = c2 + c
            if c2 == 0:
                del t[m]
            else:
                t[m] = c2
    return _intern(t)


def add_many(ps):
    t = {}
    for p in ps:
        for m, c in p.t.items():
            c2 = t.get(m)
            if c2 is None:
                t[m] = c
            else:
                c2 = c2 + c
                if c2 == 0:
                    del t[m]
                else:
                    t[m] = c2
    return _intern(t)


def neg(a):
    return _intern({m: -c for m, c in a.t.items()})


def scale(a, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return _intern({m: c * d for m, d in a.t.items()})


_mono_cache = {}


def _mul_mono(m1, m2):
    """Product of two monomials.  Returns (monomial or None for zero, extra)
    where extra is a list of polys that must be multiplied in."""
    if not m1:
        return m2, ()
    if not m2:
        return m1, ()
    key = (m1, m2) if id(m1) < id(m2) else (m2, m1)
    d = dict(m1)
    extra = []
    for a, e in m2:
        if a in d:
            if a.is_bool:
                continue
            n = d[a] + e
            if n == 0:
                del d[a]
            else:
                d[a] = n
        else:
            d[a] = e
    for a in list(d):
        if a.kind == 'pow':
            e = d[a]
            if e.denominator == 1 and e > 0:
                del d[a]
                extra.append(power(a.args[0], e))
    # simple contradictions / implications between brackets
    cmp_atoms = [a for a in d if a.kind in ('ge', 'gt', 'eq')]
    if len(cmp_atoms) > 1:
        if not _simplify_cmps(d, cmp_atoms):
            return None, ()
    return tuple(sorted(d.items(), key=_akey)), tuple(extra)


def _akey(it):
    return it[0].id


def _simplify_cmps(d, cs):
    """Drops implied brackets, returns False when contradictory."""
    groups = {}
    for a in cs:
        p = a.args[0]
        c = p.t.get((), Fraction(0))
        base = add(p, const(-c))
        groups.setdefault(base, []).append((a, c))
    for base, lst in groups.items():
        if len(lst) < 2:
            continue
        # base >= -c  / base > -c / base == -c
        eqs = [(a, c) for a, c in lst if a.kind == 'eq']
        if len(eqs) > 1:
            return False
        if eqs:
            ea, ec = eqs[0]
            for a, c in lst:
                if a is ea:
                    continue
                v = -ec + c
                if (a.kind == 'ge' and v >= 0) or (a.kind == 'gt' and v > 0):
                    d.pop(a, None)
                else:
                    return False
            continue
        # all lower bounds on base: keep the strongest
        best = None
        for a, c in lst:
            k = (-c, 1 if a.kind == 'gt' else 0)
            if best is None or k > best[0]:
                best = (k, a)
        for a, c in lst:
            if a is not best[1]:
                d.pop(a, None)
    return True


def freeze(p):
    """Turn a polynomial into a single opaque-looking atom (still expandable)."""
    if len(p.t) <= 1:
        return p
    a = _mk('frz', (p,), p.free, p.height, p.is_int())
    return of_atom(a)


def unfreeze(p, limit=20000):
    return p


_mul_cache = {}


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    key = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _mul_cache.get(key)
    if r is not None:
        return r
    if len(a.t) * len(b.t) > LIMIT_EXPAND:
        if len(a.t) > 1 and len(b.t) > 1:
            if len(a.t) >= len(b.t):
                r = mul(freeze(a), b)
            else:
                r = mul(a, freeze(b))
            _mul_cache[key] = r
            return r
    t = {}
    rest = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, extra = _mul_mono(m1, m2)
            if m is None:
                continue
            c = c1 * c2
            if extra:
                q = _intern({m: c})
                for x in extra:
                    q = mul(q, x)
                rest.append(q)
                continue
            c0 = t.get(m)
            if c0 is None:
                t[m] = c
            else:
                c0 += c
                if c0 == 0:
                    del t[m]
                else:
                    t[m] = c0
    r = _intern(t)
    for q in rest:
        r = add(r, q)
    _mul_cache[key] = r
    return r


def mul_many(ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


def power(p, n):
    n = Fraction(n)
    if n == 0:
        return ONE
    if n == 1:
        return p
    c = p.const()
    if c is not None:
        if c == 0:
            if n > 0:
                return ZERO
            return of_atom(_mk('pow', (ZERO,), EMPTY, 0), n)
        if n.denominator == 1:
            return const(c ** int(n))
        # rational root of a constant
        if c > 0:
            k = n.denominator
            rn = _iroot(c.numerator, k)
            rd = _iroot(c.denominator, k)
            if rn is not None and rd is not None:
                return const(Fraction(rn, rd) ** int(n.numerator))
        return of_atom(_mk('pow', (p,), EMPTY, 0, positive=c > 0), n)
    if n.denominator == 1 and n > 0:
        r = ONE
        b = p
        k = int(n)
        if k > 60:
            return of_atom(_mk('pow', (p,), p.free, p.height), n)
        while k:
            if k & 1:
                r = mul(r, b)
            k >>= 1
            if k:
                b = mul(b, b)
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if n.denominator == 1:
            # negative integer power of a monomial
            t = []
            extra = []
            for a, e in m:
                if a.is_bool:
                    return of_atom(_mk('pow', (p,), p.free, p.height), n)
                ne = e * n
                if a.kind == 'pow' and ne.denominator == 1 and ne > 0:
                    extra.append(power(a.args[0], ne))
                else:
                    t.append((a, ne))
            r = _intern({tuple(t): Fraction(c) ** int(n)})
            for x in extra:
                r = mul(r, x)
            return r
        if c > 0 and (len(m) == 1 and m[0][1] == 1 or
                      all(a.positive or (a.kind == 'pow' and e.denominator == 2)
                          for a, e in m)):
            r = power(const(c), n)
            for a, e in m:
                ne = e * n
                if a.kind == 'pow' and ne.denominator == 1 and ne > 0:
                    r = mul(r, power(a.args[0], ne))
                else:
                    r = mul(r, of_atom(a, ne))
            return r
    # general base: normalise by leading coefficient
    lead = p.t[_lead(p)]
    if n.denominator == 1:
        q = scale(p, 1 / lead)
        return scale(of_atom(_mk('pow', (q,), q.free, q.height), n), lead ** int(n))
    lead = abs(lead)
    q = scale(p, 1 / lead)
    a = _mk('pow', (q,), q.free, q.height)
    return mul(of_atom(a, n), power(const(lead), n))


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 300 else None
    if r is None:
        return None
    for x in (r - 1, r, r + 1):
        if x >= 0 and x ** k == n:
            return x
    return None


def _lead(p):
    return max(p.t, key=_mkey)


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


# --------------------------------------------------------------------------
# constructors

_fresh = [0]


def sym(name, lb=None, ub=None, integer=False, positive=False):
    a = _mk('sym', (name,), is_int=integer, positive=positive or (lb is not None and lb > 0), rng=(lb, ub))
    if a.rng != (lb, ub) or a.is_int != integer:
        raise ValueError('symbol %s declared twice with different ranges' % name)
    return of_atom(a)


def dim(name, lb=1):
    """A symbolic size: an integer >= lb."""
    return sym(name, lb=lb, integer=True)


def fresh_var(hi, lo=ZERO, hint='i'):
    """Integer index variable in [lo, hi)."""
    _fresh[0] += 1
    a = _mk('var', (hint, _fresh[0]), is_int=True, rng=(lift(lo), lift(hi)))
    return of_atom(a)


def the_atom(p):
    (m, c), = p.t.items()
    (a, e), = m
    assert c == 1 and e == 1
    return a


class Base:
    """A leaf array: name, element kind and range of integer elements."""
    __slots__ = ('name', 'is_int', 'is_bool', 'hi', 'positive', 'rank', 'lo')

    def __init__(self, name, is_int=False, is_bool=False, hi=None, positive=False, lo=None):
        self.name = name
        self.is_int = is_int
        self.is_bool = is_bool
        self.hi = hi
        self.lo = ZERO if lo is None else lo
        self.positive = positive

    def __repr__(self):
        return self.name


_bases = {}


def base(name, **kw):
    key = (name,) + tuple(sorted((k, v) for k, v in kw.items() if v is not None and v is not False)) \
        if not any(isinstance(v, Poly) for v in kw.values()) else \
        (name,) + tuple((k, v.id if isinstance(v, Poly) else v) for k, v in sorted(kw.items())
                        if v is not None and v is not False)
    b = _bases.get(key)
    if b is None:
        b = Base(name, **kw)
        _bases[key] = b
    return b


def elt(b, idx):
    idx = tuple(lift(i) for i in idx)
    rng = None
    if b.is_int and b.hi is not None:
        rng = (b.lo, b.hi)
    a = _mk('elt', (b,) + idx, _cat_free(idx), _cat_h(idx), b.is_int, b.is_bool,
            b.positive, rng)
    return of_atom(a)


class Lam:
    """Closed array-valued argument: dims and a body over bound variables."""
    __slots__ = ('dims', 'body', 'h', 'free', 'height', 'id')

    def __repr__(self):
        return 'lam[%s].%s' % (','.join(map(show, self.dims)), show(self.body))


_lams = {}


def make_lam(vars_, dims, body):
    """vars_: list of var polys (index variables), dims: sizes, body: Poly."""
    h = body.height
    bvs = [of_atom(_mk('bv', (h + 1 + k,), is_int=True, height=h + 1 + k)) for k in range(len(vars_))]
    closed = subst(body, {the_atom(v): b for v, b in zip(vars_, bvs)})
    key = (tuple(dims), closed, h)
    l = _lams.get(key)
    if l is None:
        l = Lam()
        l.dims = tuple(dims)
        l.body = closed
        l.h = h
        bset = set(the_atom(b) for b in bvs)
        f = set(closed.free) - bset
        for d in dims:
            f |= d.free
        l.free = frozenset(f)
        l.height = h + len(vars_)
        l.id = len(_lams)
        _lams[key] = l
    return l


def open_lam(l, vals):
    m = {}
    for k, v in enumerate(vals):
        m[_mk('bv', (l.h + 1 + k,), is_int=True, height=l.h + 1 + k)] = lift(v)
    return subst(l.body, m)


# functions with special algebra
ODD = {'sin', 'tan', 'tanh', 'arctan', 'sinh', 'erf'}
EVEN = {'cos', 'cosh', 'abs'}


def app(fname, args, out=(), is_int=False, is_bool=False, positive=False, rng=None):
    """Opaque application; args: Poly | Lam | str/int constants."""
    args = tuple(args)
    if fname == 'bigand':
        return bigand(args)
    out = tuple(lift(o) for o in out)
    if len(args) == 1 and isinstance(args[0], Poly) and not out:
        r = _simp_fun(fname, args[0])
        if r is not None:
            return r
    fr = [x for x in args if isinstance(x, (Poly, Lam))] + list(out)
    a = _mk('app', (fname, args, out), _cat_free(fr), _cat_h(fr), is_int, is_bool,
            positive or fname in ('exp', 'cosh'), rng)
    return of_atom(a)


def _simp_fun(f, p):
    c = p.const()
    if f == 'exp':
        if c == 0:
            return ONE
        # exp(log(x)) not simplified
        if len(p.t) == 1:
            (m, k), = p.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'app' and m[0][0].args[0] == 'log' and k == 1:
                return m[0][0].args[1][0]
    if f == 'log':
        if c == 1:
            return ZERO
    if f in ('sin', 'tan', 'arctan', 'sinh', 'tanh', 'arcsin') and c == 0:
        return ZERO
    if f in ('cos', 'cosh') and c == 0:
        return ONE
    if f in ('sin', 'cos') and c is None and len(p.t) == 1:
        (m, k), = p.t.items()
        if len(m) == 1 and m[0][0] is PI_ATOM and m[0][1] == 1:
            q = k % 2
            tab = {('sin', Fraction(0)): 0, ('sin', Fraction(1, 2)): 1, ('sin', Fraction(1)): 0,
                   ('sin', Fraction(3, 2)): -1, ('cos', Fraction(0)): 1, ('cos', Fraction(1, 2)): 0,
                   ('cos', Fraction(1)): -1, ('cos', Fraction(3, 2)): 0}
            if (f, q) in tab:
                return const(tab[(f, q)])
    if f == 'abs':
        if c is not None:
            return const(abs(c))
        if lower_nonneg(p):
            return p
        if lower_nonneg(neg(p)):
            return neg(p)
    if f == 'sign':
        if c is not None:
            return const((c > 0) - (c < 0))
    if f in ODD or f in EVEN or f == 'sign':
        if p.t and p.t[_lead(p)] < 0:
            r = app(f, (neg(p),))
            return neg(r) if f in ODD or f == 'sign' else r
    if f == 'floor' and p.is_int():
        return p
    return None


PI_ATOM = _mk('sym', ('pi',), positive=True, rng=(None, None))
PI = of_atom(PI_ATOM)

# --------------------------------------------------------------------------
# order decisions by interval arithmetic


def _coef(p, a):
    """Split p = c*a + r with a not in r; None when a occurs otherwise."""
    c = {}
    r = {}
    for m, k in p.t.items():
        hit = False
        for b, e in m:
            if b is a:
                if e != 1:
                    return None
                hit = True
            elif a in b.free:
                return None
        if hit:
            mm = tuple(x for x in m if x[0] is not a)
            c[mm] = k
        else:
            r[m] = k
    return _intern(c), _intern(r)


_lb_cache = {}


def lower_nonneg(p):
    """True when p >= 0 is certain."""
    c = p.const()
    if c is not None:
        return c >= 0
    r = _lb_cache.get(p)
    if r is None:
        if _nn_state[0] == 0:
            _nn_state[1] = {}
            _nn_state[2] = 0
        _nn_state[0] += 1
        try:
            r = _nonneg(p, 0)
        finally:
            _nn_state[0] -= 1
        _lb_cache[p] = r
    return r


_nn_state = [0, {}, 0]


def _nonneg(p, depth):
    c = p.const()
    if c is not None:
        return c >= 0
    r = _lb_cache.get(p)
    if r is not None:
        return r
    if depth > 12:
        return False
    memo = _nn_state[1]
    d = memo.get(p)
    if d is not None and d <= depth:
        return False
    _nn_state[2] += 1
    if _nn_state[2] > 4000:
        return False
    r = _nonneg0(p, depth)
    if r:
        _lb_cache[p] = True
    else:
        memo[p] = depth
    return r


def _nonneg0(p, depth):
    # all monomials manifestly nonnegative?
    ok = True
    for m, k in p.t.items():
        if k < 0 or not all(_atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0) for a, e in m):
            ok = False
            break
    if ok:
        return True
    if len(p.t) > 300:      # out of proportion for an interval argument
        return False
    cands = []
    seen = set()
    for m in p.t:
        for a, e in m:
            if a not in seen:
                seen.add(a)
                if a.rng is not None and a.kind in ('var', 'elt', 'app', 'div', 'mod') and \
                        (a.rng[0] is not None or a.rng[1] is not None):
                    cands.append(a)
    for a in sorted(cands, key=lambda x: -x.id):
        s = _coef(p, a)
        if s is None:
            continue
        co, r = s
        lo, hi = a.rng
        if lo is not None and _nonneg(co, depth + 1):
            if _nonneg(add(mul(co, lift(lo)), r), depth + 1):
                return True
        elif hi is not None and _nonneg(neg(co), depth + 1):
            if _nonneg(add(mul(co, lift(hi) - 1), r), depth + 1):
                return True
    # integer quotients by a constant: p1/c - (c-1)/c <= p1//c <= p1/c
    for a in sorted((a for a in seen if a.kind == 'div' and a.args[1].const() is not None
                     and a.args[1].const() > 0), key=lambda x: -x.id):
        s = _coef(p, a)
        if s is None:
            continue
        co, r = s
        k = a.args[1].const()
        if _nonneg(co, depth + 1):
            b = scale(a.args[0] - (k - 1), 1 / k) if a.args[0].is_int() else scale(a.args[0] - k, 1 / k)
        elif _nonneg(neg(co), depth + 1):
            b = scale(a.args[0], 1 / k)
        else:
            continue
        if _nonneg(add(mul(co, b), r), depth + 1):
            return True
    # bool atoms in [0,1]
    bools = [a for a in seen if a.is_bool]
    for a in sorted(bools, key=lambda x: -x.id)[:3]:
        s = _coef(p, a)
        if s is None:
            continue
        co, r = s
        if _nonneg(r, depth + 1) and _nonneg(add(co, r), depth + 1):
            return True
    # sizes: substitute sym = lb + s', s' >= 0
    syms = [a for a in seen if a.kind == 'sym' and a.rng is not None and a.rng[0] not in (None, 0)]
    if syms:
        q = p
        for a in syms:
            q = _shift(q, a, a.rng[0])
        for m, k in q.t.items():
            if k < 0 or not all(_atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0) for a, e in m):
                return False
        return True
    return False


def _shift(p, a, lb):
    s = add(of_atom(a), const(lb))
    out = ZERO
    for m, k in p.t.items():
        e0 = None
        rest = []
        for b, e in m:
            if b is a:
                e0 = e
            else:
                rest.append((b, e))
        q = _intern({tuple(rest): k})
        if e0 is not None:
            if e0.denominator != 1 or e0 < 0:
                q = _intern({m: k})
            else:
                q = mul(q, power(s, e0))
        out = add(out, q)
    return out


def _atom_nonneg(a):
    if a.is_bool or a.positive:
        return True
    if a.kind == 'app' and a.args[0] in ('abs', 'exp'):
        return True
    if a.kind == 'pow':
        return True if a.args[0] is not ZERO and False else a.positive
    if a.rng is not None and a.rng[0] is not None:
        lo = a.rng[0]
        if isinstance(lo, Poly):
            c = lo.const()
            return c is not None and c >= 0 or (c is None and lower_nonneg(lo))
        return lo >= 0
    if a.kind == 'sum':
        l = a.args[0]
        return all(_atom_nonneg(b) for m in l.body.t for b, e in m)
    return False


def lower_pos(p):
    c = p.const()
    if c is not None:
        return c > 0
    if p.is_int():
        return lower_nonneg(add(p, const(-1)))
    # p >= 0 with a strictly positive monomial
    pos = False
    for m, k in p.t.items():
        if k < 0:
            pos = False
            break
        if k > 0 and all(a.positive for a, e in m):
            pos = True
        elif not all(_atom_nonneg(a) or (e.denominator == 1 and e % 2 == 0) for a, e in m):
            pos = False
            break
    return pos


def ge0(p):
    """Iverson bracket [p >= 0] as a 0/1 polynomial."""
    c = p.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    if lower_nonneg(p):
        return ONE
    if lower_pos(neg(p)):
        return ZERO
    if p.is_int():
        if p.t[_lead(p)] < 0:
            # [-q >= 0] = 1 - [q >= 1]
            return add(ONE, neg(ge0(add(neg(p), const(-1)))))
        # normalise by gcd
        g = 0
        for m, k in p.t.items():
            if m:
                g = math.gcd(g, int(k))
        if g > 1:
            c0 = p.t.get((), Fraction(0))
            q = _intern({m: k / g for m, k in p.t.items() if m})
            return ge0(add(q, const(c0.__floor__() // g)))
        return of_atom(_mk('ge', (p,), p.free, p.height, is_bool=True))
    lead = p.t[_lead(p)]
    if lead < 0:
        return add(ONE, neg(gt0(neg(p))))
    p = scale(p, 1 / lead)
    return of_atom(_mk('ge', (p,), p.free, p.height, is_bool=True))


def gt0(p):
    c = p.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if p.is_int():
        return ge0(add(p, const(-1)))
    if lower_pos(p):
        return ONE
    if lower_nonneg(neg(p)):
        return ZERO
    lead = p.t[_lead(p)]
    if lead < 0:
        return add(ONE, neg(ge0(neg(p))))
    p = scale(p, 1 / lead)
    return of_atom(_mk('gt', (p,), p.free, p.height, is_bool=True))


def eq0(p):
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if lower_pos(p) or lower_pos(neg(p)):
        return ZERO
    lead = p.t[_lead(p)]
    # boolean-valued p - b
    if len(p.t) == 1:
        (m, k), = p.t.items()
        if all(a.is_bool for a, _ in m):
            return add(ONE, neg(_intern({m: Fraction(1)})))
    if len(p.t) == 2 and () in p.t:
        (m, k), = [(m, k) for m, k in p.t.items() if m]
        if all(a.is_bool for a, _ in m):
            v = -p.t[()] / k
            if v == 1:
                return _intern({m: Fraction(1)})
            if v != 0:
                return ZERO
    if p.is_int():
        g = 0
        for m, k in p.t.items():
            if m:
                g = math.gcd(g, int(k))
        c0 = p.t.get((), Fraction(0))
        if g > 1:
            if int(c0) % g:
                return ZERO
            return eq0(scale(p, Fraction(1, g)))
        if lead < 0:
            p = neg(p)
        if len(p.t) <= 2:
            r = _eq_last(p)
            if r is not None:
                return r
        if len(p.t) == 2:
            r = _eq_uniq(p)
            if r is not None:
                return r
        if len(p.t) >= 2:
            r = _eq_radix(p)
            if r is not None:
                return r
    else:
        p = scale(p, 1 / lead)
    return of_atom(_mk('eq', (p,), p.free, p.height, is_bool=True))


def _eq_last(p):
    """x == last value of a small range: none of the others"""
    c = p.t.get((), Fraction(0))
    ms = [(m, k) for m, k in p.t.items() if m]
    if len(ms) != 1 or ms[0][1] != 1 or len(ms[0][0]) != 1:
        return None
    (a, e), = ms[0][0]
    if e != 1 or a.kind != 'elt' or a.args[0].hi is None or a.args[0].is_bool:
        return None
    hi, lo = lift(a.args[0].hi).const(), lift(a.args[0].lo).const()
    if hi is None or lo is None or not 2 <= hi - lo <= 5 or -c != hi - 1:
        return None
    x = of_atom(a)
    return add(ONE, neg(add_many([eq0(add(x, const(-v))) for v in range(int(lo), int(hi) - 1)])))


def _eq_uniq(p):
    """u[i] == u[j] <=> i == j for an array without duplicates."""
    (m1, k1), (m2, k2) = p.t.items()
    if k1 + k2 != 0 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = m1[0][0], m2[0][0]
    if a.kind == b.kind == 'elt' and a.args[0] is b.args[0] and len(a.args) == 2 and a.args[0].name.startswith('uniq:'):
        return eq0(add(a.args[1], neg(b.args[1])))
    return None


_radix_cache = {}


def _eq_radix(p):
    """q*a + b == 0 with |b| < q  <=>  a == 0 and b == 0."""
    r = _radix_cache.get(p, False)
    if r is not False:
        return r
    _radix_cache[p] = None
    out = None
    ks = sorted({abs(int(k)) for m, k in p.t.items() if m and abs(k) > 1})
    for q in ks:
        a = {m: k / q for m, k in p.t.items() if m and int(k) % q == 0}
        b = {m: k for m, k in p.t.items() if m not in a}
        if not a or not b:
            continue
        b = _intern(b)
        if lower_pos(add(const(q), neg(b))) and lower_pos(add(const(q), b)):
            out = mul(eq0(_intern(a)), eq0(b))
            break
    if out is None:
        atoms = []
        for m in p.t:
            for x, e in m:
                if x.kind == 'sym' and e == 1 and x.is_int and x not in atoms:
                    atoms.append(x)
        for x in atoms:
            a, b = {}, {}
            for m, k in p.t.items():
                if any(y is x for y, _ in m):
                    a[tuple(z for z in m if z[0] is not x)] = k
                else:
                    b[m] = k
            if not b or any(y is x for m in a for y, _ in m):
                continue
            a, b = _intern(a), _intern(b)
            if a.const() is not None:
                continue
            q = of_atom(x)
            if lower_pos(add(q, neg(b))) and lower_pos(add(q, b)):
                out = mul(eq0(a), eq0(b))
                break
    _radix_cache[p] = out
    return out


def not_(b):
    return add(ONE, neg(b))


def bigand(ps):
    """Conjunction of many truth values, kept as one atom instead of an expanded product."""
    fs = {}

    def put(p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and all(a.is_bool for a, _ in m):
                for a, _ in m:
                    if a.kind == 'app' and a.args[0] == 'bigand':
                        for q in a.args[1]:
                            fs[q.id] = q
                    else:
                        q = of_atom(a)
                        fs[q.id] = q
                return
        fs[p.id] = p
    for p in ps:
        if p is ZERO:
            return ZERO
        if p is not ONE:
            put(p)
    n = 1
    for q in fs.values():
        n *= len(q.t)
    if n <= 32:
        r = ONE
        for q in sorted(fs.values(), key=lambda q: len(q.t)):
            r = mul(r, q)
        return r
    xs = tuple(sorted(fs.values(), key=lambda q: q.id))
    return of_atom(_mk('app', ('bigand', xs, ()), _cat_free(xs), _cat_h(xs), True, True, False, None))


def ite(c, a, b):
    if a is b:
        return a
    if c is ONE:
        return a
    if c is ZERO:
        return b
    return add(b, mul(c, add(a, neg(b))))


def floordiv(p, q):
    p, q = lift(p), lift(q)
    cq = q.const()
    cp = p.const()
    if cq is not None and cp is not None and cq != 0:
        return const((cp / cq).__floor__())
    if not p.is_int() or not q.is_int():
        return app('floor', (mul(p, power(q, -1)),), is_int=True)
    quo, rem = _split_div(p, q)
    if rem is not None:
        if lower_nonneg(rem) and lower_pos(add(q, neg(rem))):
            return quo
        if quo is not ZERO:
            return add(quo, floordiv_atom(rem, q))
    return floordiv_atom(p, q)


def floordiv_atom(p, q):
    rng = None
    if lower_nonneg(p):
        rng = (ZERO, None)
    a = _mk('div', (p, q), _cat_free((p, q)), _cat_h((p, q)), is_int=True, rng=rng)
    return of_atom(a)


def _split_div(p, q):
    """p = quo*q + rem where quo collects monomials divisible by q."""
    if len(q.t) != 1:
        # try whole-multiple: p = k*q + rem using q's leading monomial
        lm = max(q.t, key=lambda m: (sum(e for _, e in m), m is _lead(q), [a.id for a, _ in m]))
        lc = q.t[lm]
        quo = ZERO
        rem = p
        for _ in range(8):
            done = True
            for m, k in list(rem.t.items()):
                f = _mono_div(m, lm)
                if f is None:
                    continue
                kk = k / lc
                if kk.denominator != 1:
                    continue
                t = _intern({f: kk})
                quo = add(quo, t)
                rem = add(rem, neg(mul(t, q)))
                done = False
                break
            if done:
                break
        return quo, rem
    (qm, qc), = q.t.items()
    quo = {}
    rem = {}
    for m, k in p.t.items():
        f = _mono_div(m, qm)
        if f is None:
            rem[m] = k
            continue
        n = (k / qc).__floor__()
        if n:
            quo[f] = quo.get(f, 0) + Fraction(n)
        r = k - n * qc
        if r:
            rem[m] = r
    return _intern({m: k for m, k in quo.items() if k}), _intern(rem)


def _mono_div(m, d):
    if not d:
        return m
    dm = dict(m)
    for a, e in d:
        if dm.get(a, 0) < e:
            return None
        dm[a] -= e
        if dm[a] == 0:
            del dm[a]
    return tuple(sorted(dm.items(), key=_akey))


def mod(p, q):
    p, q = lift(p), lift(q)
    cp, cq = p.const(), q.const()
    if cp is not None and cq is not None and cq != 0:
        return const(cp - cq * (cp / cq).__floor__())
    if not p.is_int() or not q.is_int():
        return add(p, neg(mul(q, app('floor', (mul(p, power(q, -1)),), is_int=True))))
    quo, rem = _split_div(p, q)
    if rem is not None:
        if lower_nonneg(rem) and lower_pos(add(q, neg(rem))):
            return rem
        p = rem
    a = _mk('mod', (p, q), _cat_free((p, q)), _cat_h((p, q)), is_int=True, rng=(ZERO, q))
    return of_atom(a)


# --------------------------------------------------------------------------
# substitution

_sub_cache = {}


def subst(p, m):
    if not m:
        return p
    fr = p.free
    rel = {a: q for a, q in m.items() if a in fr}
    if not rel:
        return p
    key = (p.id, frozenset((a.id, q.id) for a, q in rel.items()))
    r = _sub_cache.get(key)
    if r is not None:
        return r
    parts = []
    for mono, c in p.t.items():
        q = None
        keep = []
        for a, e in mono:
            if a.free.isdisjoint(rel):
                keep.append((a, e))
            else:
                x = _sub_atom(a, rel)
                if e != 1:
                    x = power(x, e)
                q = x if q is None else mul(q, x)
        kp = _intern({tuple(keep): c})
        parts.append(kp if q is None else mul(kp, q))
    r = add_many(parts)
    if len(_sub_cache) > 3000000:
        _sub_cache.clear()
    _sub_cache[key] = r
    return r


def sub_lam(l, m):
    rel = {a: q for a, q in m.items() if a in l.free}
    if not rel:
        return l
    dims = [subst(d, rel) for d in l.dims]
    vs = [fresh_var(d) for d in dims]
    body = subst(open_lam(l, vs), rel)
    return make_lam(vs, dims, body)


def _sub_arg(x, m):
    if isinstance(x, Poly):
        return subst(x, m)
    if isinstance(x, Lam):
        return sub_lam(x, m)
    return x


_subatom_cache = {}


def _sub_atom(a, m):
    k = a.kind
    if k in ('sym', 'var', 'bv'):
        return m.get(a) if a in m else of_atom(a)
    key = (a.id, frozenset((b.id, q.id) for b, q in m.items() if b in a.free))
    r = _subatom_cache.get(key)
    if r is None:
        r = _sub_atom0(a, m)
        _subatom_cache[key] = r
    return r


def _sub_atom0(a, m):
    k = a.kind
    A = a.args
    if k == 'elt':
        return elt(A[0], [subst(i, m) for i in A[1:]])
    if k == 'app':
        return app(A[0], [_sub_arg(x, m) for x in A[1]], [subst(o, m) for o in A[2]],
                   a.is_int, a.is_bool, a.positive, a.rng)
    if k == 'ge':
        return ge0(subst(A[0], m))
    if k == 'gt':
        return gt0(subst(A[0], m))
    if k == 'eq':
        return eq0(subst(A[0], m))
    if k == 'pow':
        # caller raises to the exponent
        return subst(A[0], m)
    if k == 'frz':
        return freeze(subst(A[0], m))
    if k == 'div':
        return floordiv(subst(A[0], m), subst(A[1], m))
    if k == 'mod':
        return mod(subst(A[0], m), subst(A[1], m))
    if k == 'sum':
        l = A[0]
        dims = [subst(d, m) for d in l.dims]
        vs = [fresh_var(d) for d in dims]
        body = subst(open_lam(l, vs), m)
        return big_sum(list(zip(vs, dims)), body)
    if k == 'red':
        return red(A[0], sub_lam(A[1], m))
    if k == 'nz':
        return nz(sub_lam(A[0], m), subst(A[1], m), A[2])
    raise Undecided('subst ' + k)


# --------------------------------------------------------------------------
# sums


def big_sum(binders, body, depth=0):
    """Sum over index variables; binders: list of (var poly, size poly)."""
    out = []
    for mono, c in body.t.items():
        out.append(scale(_sum_mono(list(binders), mono, depth), c))
    return add_many(out)


UNROLL = 64


def _sum_mono(binders, mono, depth):
    if depth > 60:
        raise Undecided('sum nesting')
    bset = {}
    for v, n in binders:
        bset[the_atom(v)] = (v, n)
    keys = set(bset)
    indep = []
    dep = []
    for a, e in mono:
        if a.free.isdisjoint(keys):
            indep.append((a, e))
        else:
            dep.append((a, e))
    pre = _intern({tuple(indep): Fraction(1)})
    # expand frozen atoms that depend on binders
    for i, (a, e) in enumerate(dep):
        if a.kind == 'frz' and len(a.args[0].t) <= 600 and e.denominator == 1 and e > 0:
            rest = _intern({tuple(x for j, x in enumerate(dep) if j != i): Fraction(1)})
            b = mul(rest, power(a.args[0], e)) if len(rest.t) * len(a.args[0].t) ** int(e) <= LIMIT_EXPAND else None
            if b is not None:
                return mul(pre, big_sum(binders, b, depth + 1))
    # open nested sums
    for i, (a, e) in enumerate(dep):
        if a.kind == 'sum' and e.denominator == 1 and 0 < e <= 3:
            l = a.args[0]
            nb = []
            prod = _intern({tuple(x for j, x in enumerate(dep) if j != i): Fraction(1)})
            for _ in range(int(e)):
                vs = [fresh_var(d) for d in l.dims]
                nb += list(zip(vs, l.dims))
                prod = mul(prod, open_lam(l, vs))
            return mul(pre, big_sum(binders + nb, prod, depth + 1))
    # constant trip counts: unroll small ones
    for v, n in binders:
        c = n.const()
        if c is not None:
            va = the_atom(v)
            if c <= 0:
                return ZERO
            if c == 1 or (c <= UNROLL and len(binders) == 1):
                rest = [(w, k) for w, k in binders if w is not v]
                b = _intern({tuple(dep): Fraction(1)})
                return mul(pre, add_many([
                    big_sum([(w, subst(k, {va: const(t)})) for w, k in rest], subst(b, {va: const(t)}), depth + 1)
                    if rest else subst(b, {va: const(t)}) for t in range(int(c))]))
    # delta elimination
    for a, e in dep:
        if a.kind != 'eq':
            continue
        p = a.args[0]
        if not p.is_int():
            continue
        cand = None
        for v, n in reversed(binders):
            va = the_atom(v)
            if va not in p.free:
                continue
            s = _coef(p, va)
            if s is None:
                continue
            co = s[0].const()
            if co in (1, -1):
                cand = (v, n, va, scale(s[1], -co))
                break
        if cand is None:
            continue
        v, n, va, val = cand
        if any(va in k.free for w, k in binders if w is not v):
            continue
        rd = _radix_solve(val, n, keys, va)
        if rd is not None:
            # v + n*W == t  <=>  v == t mod n and W == t div n
            W, t = rd
            b = _intern({tuple(x for x in dep if x[0] is not a): Fraction(1)})
            b = mul(b, mul(eq0(add(v, neg(mod(t, n)))), eq0(add(W, neg(floordiv(t, n))))))
            return mul(pre, big_sum(binders, b, depth + 1))
        rest = [(w, k) for w, k in binders if w is not v]
        b = _intern({tuple(x for x in dep if x[0] is not a): Fraction(1)})
        b = subst(b, {va: val})
        b = mul(b, mul(ge0(val), gt0(add(n, neg(val)))))
        if rest:
            return mul(pre, big_sum(rest, b, depth + 1))
        return mul(pre, b)
    # binders that do not occur
    used = set()
    for a, e in dep:
        used |= (a.free & keys)
    for v, n in binders:
        used |= (n.free & keys)
    for v, n in binders:
        va = the_atom(v)
        if va not in used:
            rest = [(w, k) for w, k in binders if w is not v]
            b = _intern({tuple(dep): Fraction(1)})
            b = mul(b, n)
            if rest:
                return mul(pre, big_sum(rest, b, depth + 1))
            return mul(pre, b)
    if not binders:
        return mul(pre, _intern({tuple(dep): Fraction(1)}))
    # connected components
    comp = {va: va for va in keys}

    def find(x):
        while comp[x] is not x:
            x = comp[x]
        return x
    for a, e in dep:
        vs = [x for x in a.free if x in keys]
        for x in vs[1:]:
            comp[find(x)] = find(vs[0])
    for v, n in binders:
        for x in n.free & keys:
            comp[find(x)] = find(the_atom(v))
    groups = {}
    for v, n in binders:
        groups.setdefault(find(the_atom(v)), []).append((v, n))
    res = pre
    for root, bs in groups.items():
        ks = set(the_atom(v) for v, _ in bs)
        atoms = tuple(x for x in dep if not x[0].free.isdisjoint(ks))
        res = mul(res, of_atom(_canon_sum(bs, atoms)))
    return res


def _radix_solve(val, n, keys, va):
    """val = t - n*W with W the part that depends on other binders; or None."""
    cn = n.const()
    if cn is not None:
        if cn <= 1:
            return None
    elif len(n.t) != 1:
        return None
    W, t = {}, {}
    for m, k in val.t.items():
        if not any(not x.free.isdisjoint(keys) for x, _ in m):
            t[m] = k
            continue
        if cn is not None:
            if k % cn:
                return None
            W[m] = -k / cn
        else:
            q = mul(_intern({m: k}), power(n, -1))
            if len(q.t) != 1:
                return None
            (m2, k2), = q.t.items()
            if any(e < 0 for _, e in m2):
                return None
            W[m2] = -k2
    if not W:
        return None
    t = _intern(t)
    if t.const() is not None and cn is None:
        return None
    return _intern(W), t


def _canon_sum(bs, atoms):
    body = _intern({atoms: Fraction(1)})
    # signatures to cut down permutations
    if len(bs) == 1:
        perms = [bs]
    else:
        sig = {}
        ks = [the_atom(v) for v, _ in bs]
        ph = of_atom(_mk('sym', ('?ph',), is_int=True, rng=(None, None)))
        ot = of_atom(_mk('sym', ('?ot',), is_int=True, rng=(None, None)))
        for v, n in bs:
            va = the_atom(v)
            m = {k: ot for k in ks}
            m[va] = ph
            try:
                s = subst(body, m).id
            except Undecided:
                s = 0
            sig[va] = (n.id, s)
        groups = {}
        for v, n in bs:
            groups.setdefault(sig[the_atom(v)], []).append((v, n))
        parts = [groups[k] for k in sorted(groups)]
        cnt = 1
        for g in parts:
            cnt *= math.factorial(len(g))
        if cnt > 130:
            perms = [[x for g in parts for x in g]]
        else:
            perms = []
            for combo in itertools.product(*[list(itertools.permutations(g)) for g in parts]):
                perms.append([x for g in combo for x in g])
    best = None
    for perm in perms:
        l = make_lam([v for v, _ in perm], [n for _, n in perm], body)
        k = (tuple(d.id for d in l.dims), l.body.id)
        if best is None or k < best[0]:
            best = (k, l)
    l = best[1]
    isint = body.is_int()
    return _mk('sum', (l,), l.free, l.height, is_int=isint)


def red(kind, lam):
    """Order-insensitive reduction (max/min/all/any...) over a closed array."""
    a = _mk('red', (kind, lam), lam.free, lam.height, is_bool=kind in ('all', 'any'))
    return of_atom(a)


def nz(mask, k, axis):
    """axis-th coordinate of the k-th nonzero entry (row-major) of a mask."""
    k = lift(k)
    a = _mk('nz', (mask, k, axis), mask.free | k.free, max(mask.height, k.height),
            is_int=True, rng=(ZERO, mask.dims[axis]))
    return of_atom(a)


# --------------------------------------------------------------------------
# differentiation with respect to a scalar symbol

_diff_cache = {}


def diff(p, x):
    """d p / d x for x a sym/var atom."""
    assert not isinstance(x, Poly)
    if x not in p.free:
        return ZERO
    key = (p.id, x.id)
    r = _diff_cache.get(key)
    if r is not None:
        return r
    parts = []
    for mono, c in p.t.items():
        for i, (a, e) in enumerate(mono):
            if x not in a.free:
                continue
            d = diff_atom(a, x)
            if not d.t:
                continue
            rest = list(mono)
            if e == 1:
                rest.pop(i)
            else:
                rest[i] = (a, e - 1)
            rp = _intern({(): c * e})
            q = rp
            # rebuild through mul to renormalise powers
            for b, f in rest:
                q = mul(q, _pw_atom(b, f))
            parts.append(mul(q, d))
    r = add_many(parts)
    _diff_cache[key] = r
    return r


def _pw_atom(b, f):
    if b.kind == 'pow':
        return power(b.args[0], f)
    return of_atom(b, f) if True else None


def diff_atom(a, x):
    k = a.kind
    A = a.args
    if a is x:
        return ONE
    if k in ('ge', 'gt', 'eq', 'div', 'mod', 'nz', 'sym', 'var', 'bv'):
        return ZERO
    if k == 'elt':
        return ZERO
    if k in ('pow', 'frz'):
        return diff(A[0], x)
    if k == 'sum':
        l = A[0]
        if any(x in d.free for d in l.dims):
            raise Undecided('diff of a symbolic range')
        vs = [fresh_var(d) for d in l.dims]
        return big_sum(list(zip(vs, l.dims)), diff(open_lam(l, vs), x))
    if k == 'app':
        return _diff_app(a, x)
    if k == 'red':
        if A[0] in ('all', 'any'):
            return ZERO
        raise Undecided('diff of reduction')
    raise Undecided('diff ' + k)


def _diff_app(a, x):
    f, args, out = a.args
    if a.is_int or a.is_bool:
        return ZERO
    if f == 'lastwrite':
        raise Undecided('derivative of an assignment with repeated indices')
    if len(args) == 1 and isinstance(args[0], Poly) and not out and isinstance(f, str):
        u = args[0]
        du = diff(u, x)
        if f == 'exp':
            return mul(of_atom(a), du)
        if f == 'log':
            return mul(du, power(u, -1))
        if f == 'sin':
            return mul(app('cos', (u,)), du)
        if f == 'cos':
            return neg(mul(app('sin', (u,)), du))
        if f == 'tan':
            return mul(add(ONE, power(of_atom(a), 2)), du)
        if f == 'tanh':
            return mul(add(ONE, neg(power(of_atom(a), 2))), du)
        if f == 'abs':
            return mul(app('sign', (u,)), du)
        if f in ('sign', 'floor', 'stop_gradient', 'isnan', 'isfinite', 'round', 'rint'):
            return ZERO
    if isinstance(f, tuple) and f and f[0] == 'bool':
        return ZERO
    if f in ('det', 'inv') and len(args) == 1 and isinstance(args[0], Lam) and len(args[0].dims) == 2 \
            and not any(x in o.free for o in out):
        l = args[0]
        if x not in l.free:
            return ZERO
        i, j = fresh_var(l.dims[0]), fresh_var(l.dims[1])
        dm = diff(open_lam(l, [i, j]), x)
        bs = [(i, l.dims[0]), (j, l.dims[1])]
        if f == 'det':
            return mul(of_atom(a), big_sum(bs, mul(app('inv', args, (j, i)), dm)))
        return neg(big_sum(bs, mul_many([app('inv', args, (out[0], i)), dm, app('inv', args, (j, out[1]))])))
    parts = []
    for i, u in enumerate(args):
        if isinstance(u, Poly):
            if x in u.free:
                du = diff(u, x)
                parts.append(mul(app(('D', i, 0, f), args, out), du))
        elif isinstance(u, Lam):
            if x in u.free:
                vs = [fresh_var(d) for d in u.dims]
                du = diff(open_lam(u, vs), x)
                parts.append(big_sum(list(zip(vs, u.dims)),
                                     mul(app(('D', i, len(vs), f), args, tuple(out) + tuple(vs)), du)))
    for o in out:
        if x in o.free:
            raise Undecided('diff through index')
    return add_many(parts)


# --------------------------------------------------------------------------
# printing


_show = [0, 0]


def show(p, limit=30):
    if not p.t:
        return '0'
    if _show[0] == 0:
        _show[1] = 0
    _show[0] += 1
    try:
        _show[1] += 1
        if _show[1] > 1500:
            return '...'
        return _show1(p, limit)
    finally:
        _show[0] -= 1


def _show1(p, limit):
    out = []
    items = sorted(p.t.items(), key=lambda it: _mkey(it[0]))
    for i, (m, c) in enumerate(items):
        if i >= limit:
            out.append('... (%d terms)' % len(items))
            break
        s = '*'.join(show_atom(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_atom(a):
    k = a.kind
    A = a.args
    if k == 'sym':
        return str(A[0])
    if k == 'var':
        return '%s%d' % A
    if k == 'bv':
        return '#%d' % A[0]
    if k == 'elt':
        return '%s[%s]' % (A[0].name, ','.join(show(i) for i in A[1:]))
    if k == 'app':
        f = A[0]
        return '%s(%s)%s' % (show_f(f), ', '.join(show(x) if isinstance(x, Poly) else repr(x) for x in A[1]),
                             '[%s]' % ','.join(map(show, A[2])) if A[2] else '')
    if k == 'ge':
        return '[%s>=0]' % show(A[0])
    if k == 'gt':
        return '[%s>0]' % show(A[0])
    if k == 'eq':
        return '[%s==0]' % show(A[0])
    if k in ('pow', 'frz'):
        return '(%s)' % show(A[0])
    if k == 'div':
        return '((%s)//(%s))' % (show(A[0]), show(A[1]))
    if k == 'mod':
        return '((%s)%%(%s))' % (show(A[0]), show(A[1]))
    if k == 'sum':
        l = A[0]
        return 'SUM{%s}(%s)' % (','.join('#%d<%s' % (l.h + 1 + i, show(d)) for i, d in enumerate(l.dims)), show(l.body))
    if k == 'red':
        return '%s(%r)' % A
    if k == 'nz':
        return 'nonzero%d(%r)[%s]' % (A[2], A[0], show(A[1]))
    return k


def show_f(f):
    if isinstance(f, tuple):
        return '.'.join(show_f(x) for x in f)
    return str(f)
