"""Symbolic arrays: a shape of symbolic sizes and an index function."""
from fractions import Fraction
import itertools
from . import terms as T
from .terms import (Poly, lift, const, ZERO, ONE, Undecided, add, neg, mul, ge0,
                    gt0, eq0, ite, subst, big_sum, fresh_var, the_atom)


class ProgError(Exception):
    """A definite run-time error of the analysed program."""


# --------------------------------------------------------------------------
# sizes


class Dim:
    __slots__ = ('p', 'kind', 'parts')

    def __init__(self, p, kind=None, parts=None):
        self.p = p
        self.kind = kind
        self.parts = parts

    def __repr__(self):
        return T.show(self.p)

    def c(self):
        v = self.p.const()
        return None if v is None else int(v)


D1 = Dim(ONE)


def mkdim(x):
    if isinstance(x, Dim):
        return x
    if isinstance(x, Arr):
        p = x.scalar()
        d = getattr(x, 'dimobj', None)
        if d is not None:
            return d
        return mkdim(p)
    p = lift(x)
    if p.const() is not None:
        return Dim(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        fs = []
        ok = c.denominator == 1 and c > 0
        for a, e in m:
            if e.denominator != 1 or e < 0:
                ok = False
                break
            for _ in range(int(e)):
                fs.append(Dim(T.of_atom(a)))
        if c != 1:
            fs.append(Dim(const(c)))    # trailing: the usual place of a component axis
        if ok and len(fs) > 1:
            return Dim(p, 'prod', fs)
        return Dim(p)
    return Dim(p)


def prod_dim(ds):
    ds = [d for d in ds if d.c() != 1]
    if not ds:
        return D1
    if len(ds) == 1:
        return ds[0]
    p = ONE
    for d in ds:
        p = mul(p, d.p)
    if all(d.c() is not None for d in ds):
        return Dim(p)
    flat = []
    for d in ds:
        if d.kind == 'prod':
            flat.extend(d.parts)
        else:
            flat.append(d)
    return Dim(p, 'prod', flat)


def cat_dim(ds):
    ds = [d for d in ds if d.c() != 0]
    if not ds:
        return Dim(ZERO)
    if len(ds) == 1:
        return ds[0]
    p = ZERO
    for d in ds:
        p = add(p, d.p)
    if all(d.c() is not None for d in ds):
        return Dim(p)
    flat = []
    for d in ds:
        if d.kind == 'cat':
            flat.extend(d.parts)
        else:
            flat.append(d)
    return Dim(p, 'cat', flat)


def dim_eq(a, b):
    return a.p is b.p


def pieces(d, unroll=T.UNROLL):
    """Enumerate the index range of a size: list of (index poly, binders)."""
    c = d.c()
    if c is not None and c <= unroll:
        return [(const(k), []) for k in range(c)]
    if d.kind == 'cat':
        out = []
        off = ZERO
        for q in d.parts:
            for i, b in pieces(q, unroll):
                out.append((add(off, i), b))
            off = add(off, q.p)
        return out
    if d.kind == 'prod':
        out = [(ZERO, [])]
        for q in d.parts:
            new = []
            sub = pieces(q, unroll if (q.c() or 99) <= 8 else 0)
            for i, b in out:
                # fresh variables for each combination
                for j, bj in sub:
                    vs = {the_atom(v): fresh_var(n) for v, n in bj}
                    bj2 = [(vs[the_atom(v)], n) for v, n in bj]
                    new.append((add(mul(i, q.p), subst(j, vs)), b + bj2))
            out = new
            if len(out) > 4096:
                raise Undecided('too many pieces')
        return out
    v = fresh_var(d.p)
    return [(v, [(v, d.p)])]


def generic(d):
    """A generic index (decomposed for products); returns (index, vars)."""
    if d.kind == 'prod':
        i = ZERO
        for q in d.parts:
            v = fresh_var(q.p)
            i = add(mul(i, q.p), v)
        return i
    return fresh_var(d.p)


# --------------------------------------------------------------------------
# arrays


class Arr:
    __slots__ = ('shape', 'fn', 'dtype', 'lib', 'memo', 'dimobj', 'tag', 'ver', 'weak')

    def __init__(self, shape, fn, dtype='f', lib='np', dimobj=None, tag=None):
        self.shape = tuple(mkdim(d) for d in shape)
        self.fn = fn
        self.dtype = dtype
        self.lib = lib
        self.memo = {}
        self.dimobj = dimobj
        self.tag = tag
        self.ver = 0
        self.weak = False

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.fn(idx)
            if not isinstance(r, Poly):
                r = lift(r)
            self.memo[idx] = r
        return r

    def scalar(self):
        if self.shape:
            n = ONE
            for d in self.shape:
                n = mul(n, d.p)
            if n is ONE:
                return self.get(tuple(ZERO for _ in self.shape))
            raise ProgError('array of shape %s used as a scalar' % (self.shape,))
        return self.get(())

    def concrete(self):
        """Python value when a constant scalar, else None."""
        if self.shape:
            return None
        c = self.get(()).const()
        if c is None:
            return None
        if self.dtype == 'b':
            return bool(c)
        if self.dtype == 'i' and c.denominator == 1:
            return int(c)
        return c

    def __repr__(self):
        return 'Arr%s<%s>' % (list(self.shape), self.dtype)


def scal(p, dtype=None, lib='np', dimobj=None):
    p = lift(p)
    if dtype is None:
        dtype = 'i' if p.is_int() else 'f'
    return Arr((), lambda idx: p, dtype, lib, dimobj)


def is_num(x):
    return isinstance(x, (int, float, Fraction, bool))


def asarr(x, lib='np'):
    if isinstance(x, Arr):
        return x
    if isinstance(x, bool):
        return Arr((), lambda idx: const(int(x)), 'b', lib)
    if isinstance(x, int):
        return Arr((), lambda idx: const(x), 'i', lib)
    if isinstance(x, (Fraction, float)):
        p = lift(x)
        return Arr((), lambda idx: p, 'f', lib)
    if isinstance(x, Poly):
        return scal(x)
    if isinstance(x, (list, tuple)):
        return from_seq(x, lib)
    raise Undecided('cannot convert %s to an array' % type(x).__name__)


def from_seq(xs, lib='np'):
    items = [asarr(x, lib) for x in xs]
    if not items:
        return Arr((0,), lambda idx: ZERO, 'f', lib)
    return stack(items, 0, lib)


def join_dtype(*ds):
    if 'f' in ds:
        return 'f'
    if 'i' in ds:
        return 'i'
    return 'b' if ds else 'f'


def join_lib(*arrs):
    for a in arrs:
        if isinstance(a, Arr) and a.lib == 'jnp':
            return 'jnp'
    return 'np'


def same_or_fail(a, b, what='operands'):
    if a.p is b.p:
        return a if a.parts or not b.parts else b
    from . import evalp
    v, _ = evalp.same(a.p, b.p)
    if v is True:
        return a if a.parts or not b.parts else b
    for q in (a.p, b.p):
        for m in q.t:
            if any(x.kind == 'app' for x, _ in m):
                raise T.Undecided('sizes %s and %s of %s' % (a, b, what))
    raise ProgError('shape mismatch: %s have sizes %s and %s' % (what, a, b))


def bshape(shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        d = D1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            e = s[j]
            if e.c() == 1:
                continue
            if d.c() == 1:
                d = e
            else:
                d = same_or_fail(d, e, 'broadcast operands')
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    """Index of a broadcast operand of the given shape."""
    off = len(idx) - len(shape)
    return tuple(ZERO if shape[k].c() == 1 else idx[off + k] for k in range(len(shape)))


def emap(f, args, dtype=None):
    """Elementwise map with broadcasting; f takes and returns Polys."""
    arrs = [asarr(a) for a in args]
    sh = bshape([a.shape for a in arrs])
    if dtype is None:
        dtype = join_dtype(*[a.dtype for a in arrs])
    lib = join_lib(*[a for a in args if isinstance(a, Arr)])

    def fn(idx):
        return f(*[a.get(bidx(a.shape, idx)) for a in arrs])
    # freeze current content of mutable operands
    arrs[:] = [snapshot(a) for a in arrs]
    return Arr(sh, fn, dtype, lib)


def snapshot(a):
    """numpy arrays are mutable: later in-place stores must not leak in."""
    if a.lib == 'np' and a.shape:
        b = Arr(a.shape, a.fn, a.dtype, a.lib, a.dimobj, a.tag)
        b.memo = a.memo
        return b
    return a


def store(a, new):
    """In-place update of a numpy array."""
    a.fn = new.fn
    a.memo = new.memo
    a.ver += 1


# --------------------------------------------------------------------------
# structural operations


def reshape(a, newshape):
    a = snapshot(a)
    src = list(a.shape)
    total = ONE
    for d in src:
        total = mul(total, d.p)
    new = []
    neg1 = None
    for k, x in enumerate(newshape):
        if isinstance(x, int) and x == -1:
            neg1 = k
            new.append(None)
        elif isinstance(x, Arr) and x.concrete() == -1:
            neg1 = k
            new.append(None)
        else:
            new.append(mkdim(x))
    if neg1 is not None:
        known = ONE
        for d in new:
            if d is not None:
                known = mul(known, d.p)
        if total is ZERO and known is not ZERO:
            q = ZERO
        else:
            q = exact_div(total, known)
        if q is None:
            raise ProgError('cannot reshape %s into %s' % (src, list(newshape)))
        new[neg1] = Dim(q)
    tot2 = ONE
    for d in new:
        tot2 = mul(tot2, d.p)
    if tot2 is not total:
        raise ProgError('cannot reshape array of shape %s into %s' % (src, new))
    # align groups of source dims with groups of new dims
    i = j = 0
    groups = []       # (src indices, new indices)
    n, m = len(src), len(new)
    while i < n or j < m:
        si, nj = [], []
        ps = pn = ONE
        if i < n:
            si.append(i)
            ps = src[i].p
            i += 1
        if j < m:
            nj.append(j)
            pn = new[j].p
            j += 1
        while ps is not pn:
            # extend the smaller side
            if _divides(ps, pn) and i < n:
                si.append(i)
                ps = mul(ps, src[i].p)
                i += 1
            elif _divides(pn, ps) and j < m:
                nj.append(j)
                pn = mul(pn, new[j].p)
                j += 1
            elif i < n or j < m:
                while i < n:
                    si.append(i)
                    ps = mul(ps, src[i].p)
                    i += 1
                while j < m:
                    nj.append(j)
                    pn = mul(pn, new[j].p)
                    j += 1
                break
            else:
                break
        groups.append((si, nj))
    for si, nj in groups:
        if len(nj) == 1:
            d = prod_dim([src[k] for k in si]) if si else D1
            if d.p is new[nj[0]].p:
                new[nj[0]] = d
        else:
            # split a product dim back into its factors where possible
            fl = []
            for k in si:
                fl.extend(src[k].parts if src[k].kind == 'prod' else [src[k]])
            pos = 0
            for k in nj:
                acc = []
                p = ONE
                p0 = pos
                while p is not new[k].p and pos < len(fl):
                    acc.append(fl[pos])
                    p = mul(p, fl[pos].p)
                    pos += 1
                if p is new[k].p:
                    if acc:
                        new[k] = prod_dim(acc)
                else:
                    pos = p0
                    break

    def fn(idx):
        out = [None] * n
        for si, nj in groups:
            if len(si) == 1 and len(nj) == 1:
                out[si[0]] = idx[nj[0]]
                continue
            flat = ZERO
            for k in nj:
                flat = add(mul(flat, new[k].p), idx[k])
            for pos in range(len(si) - 1, 0, -1):
                d = src[si[pos]].p
                if d is ONE:
                    out[si[pos]] = ZERO
                    continue
                out[si[pos]] = T.mod(flat, d)
                flat = T.floordiv(flat, d)
            if si:
                out[si[0]] = flat
        return a.get(tuple(out))
    return Arr(new, fn, a.dtype, a.lib)


def exact_div(p, q):
    if q is ONE:
        return p
    cq = q.const()
    if cq is not None:
        if cq == 0:
            return None
        r = T.scale(p, 1 / cq)
        return r if r.is_int() else None
    if p is q:
        return ONE
    quo, rem = T._split_div(p, q)
    if rem is ZERO:
        return quo
    if len(q.t) == 1:
        return None
    # polynomial division attempt
    return None


def _divides(a, b):
    """Does size a divide b with quotient other than 1 (or is a smaller)?"""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return ca < cb
    if a is ONE:
        return True
    q = exact_div(b, a)
    return q is not None and q is not ONE


def transpose(a, axes=None):
    a = snapshot(a)
    n = a.ndim
    if axes is None:
        axes = list(range(n))[::-1]
    axes = [x % n for x in axes]
    if sorted(axes) != list(range(n)):
        raise ProgError('bad transpose axes')
    inv = [axes.index(k) for k in range(n)]
    return Arr([a.shape[k] for k in axes], lambda idx: a.get(tuple(idx[inv[k]] for k in range(n))), a.dtype, a.lib)


def moveaxis(a, src, dst):
    n = a.ndim
    src = [s % n for s in (src if isinstance(src, (list, tuple)) else [src])]
    dst = [s % n for s in (dst if isinstance(dst, (list, tuple)) else [dst])]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return transpose(a, order)


def expand_dims(a, axis):
    a = snapshot(a)
    n = a.ndim + 1
    axis %= n
    sh = list(a.shape)
    sh.insert(axis, D1)
    return Arr(sh, lambda idx: a.get(idx[:axis] + idx[axis + 1:]), a.dtype, a.lib)


def squeeze(a, axis=None):
    a = snapshot(a)
    if axis is None:
        ks = [k for k, d in enumerate(a.shape) if d.c() == 1]
    else:
        ks = [x % a.ndim for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
        for k in ks:
            if a.shape[k].c() != 1:
                if a.shape[k].c() is not None:
                    raise ProgError('squeeze of a non-unit axis')
                raise Undecided('squeeze of symbolic axis')
    if not ks:
        return a

    def fn(idx):
        it = iter(idx)
        return a.get(tuple(ZERO if k in ks else next(it) for k in range(a.ndim)))
    return Arr([d for k, d in enumerate(a.shape) if k not in ks], fn, a.dtype, a.lib)


def broadcast_to(a, shape):
    a = snapshot(asarr(a))
    sh = tuple(mkdim(x) for x in shape)
    bs = bshape([a.shape, sh])
    for x, y in zip(bs, sh):
        if x.p is not y.p:
            raise ProgError('cannot broadcast %s to %s' % (a.shape, sh))
    return Arr(sh, lambda idx: a.get(bidx(a.shape, idx)), a.dtype, a.lib)


def stack(items, axis=0, lib=None):
    items = [snapshot(asarr(x)) for x in items]
    if not items:
        raise ProgError('need at least one array to stack')
    sh = items[0].shape
    for x in items[1:]:
        if len(x.shape) != len(sh):
            raise ProgError('stack: ranks differ')
        for p, q in zip(sh, x.shape):
            same_or_fail(p, q, 'stacked arrays')
    n = len(sh) + 1
    axis %= n
    new = list(sh)
    new.insert(axis, Dim(const(len(items))))
    lib = lib or join_lib(*items)

    def fn(idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1:]
        c = k.const()
        if c is not None:
            if c < 0 or c >= len(items):
                raise Undecided('index out of range')
            return items[int(c)].get(rest)
        return pick(k, [x.get(rest) for x in items])
    return Arr(new, fn, join_dtype(*[x.dtype for x in items]), lib)


def pick(k, vals):
    """vals[k] for a symbolic k."""
    first = vals[0]
    if all(v is first for v in vals):
        return first
    return T.add_many([mul(eq0(add(k, const(-i))), v) for i, v in enumerate(vals)])


def concat(items, axis=0, lib=None):
    items = [snapshot(asarr(x)) for x in items]
    if not items:
        raise ProgError('need at least one array to concatenate')
    n = items[0].ndim
    if n == 0:
        raise ProgError('zero-dimensional arrays cannot be concatenated')
    for x in items:
        if x.ndim != n:
            raise ProgError('concatenate: ranks differ (%s)' % [y.shape for y in items])
    axis %= n
    sh = list(items[0].shape)
    for k in range(n):
        if k == axis:
            continue
        for x in items[1:]:
            sh[k] = same_or_fail(sh[k], x.shape[k], 'concatenated arrays')
    sh[axis] = cat_dim([x.shape[axis] for x in items])
    offs = []
    o = ZERO
    for x in items:
        offs.append(o)
        o = add(o, x.shape[axis].p)
    lib = lib or join_lib(*items)
    cs = [x.shape[axis].c() for x in items]

    def fn(idx):
        i = idx[axis]
        out = []
        for x, off in zip(items, offs):
            if x.shape[axis].c() == 0:
                continue
            loc = add(i, neg(off))
            inside = mul(ge0(loc), gt0(add(x.shape[axis].p, neg(loc))))
            if inside is ZERO:
                continue
            v = x.get(idx[:axis] + (loc,) + idx[axis + 1:])
            if inside is ONE:
                return v
            out.append((inside, v))
        if not out:
            return ZERO
        v0 = out[0][1]
        if all(v is v0 for _, v in out):
            return v0
        return T.add_many([mul(c, v) for c, v in out])
    return Arr(sh, fn, join_dtype(*[x.dtype for x in items if x.shape[axis].c() != 0] or ['f']), lib)


def flip(a, axis=None):
    a = snapshot(a)
    if axis is None:
        axs = list(range(a.ndim))
    else:
        axs = [x % a.ndim for x in (axis if isinstance(axis, (list, tuple)) else [axis])]
    return Arr(a.shape, lambda idx: a.get(tuple(
        add(a.shape[k].p, neg(i)) - 1 if k in axs else i for k, i in enumerate(idx))), a.dtype, a.lib)


def repeat(a, n, axis=None):
    a = snapshot(asarr(a))
    if axis is None:
        a = reshape(a, [-1])
        axis = 0
    axis %= a.ndim
    nd = mkdim(n)
    sh = list(a.shape)
    sh[axis] = prod_dim([a.shape[axis], nd])
    return Arr(sh, lambda idx: a.get(idx[:axis] + (
        ZERO if a.shape[axis].c() == 1 else T.floordiv(idx[axis], nd.p),) + idx[axis + 1:]), a.dtype, a.lib)


def tile(a, reps):
    a = snapshot(asarr(a))
    if not isinstance(reps, (list, tuple)):
        reps = [reps]
    reps = [mkdim(r) for r in reps]
    while len(reps) < a.ndim:
        reps.insert(0, D1)
    while a.ndim < len(reps):
        a = expand_dims(a, 0)
    sh = [prod_dim([r, d]) for r, d in zip(reps, a.shape)]
    b = a
    return Arr(sh, lambda idx: b.get(tuple(i if r.c() == 1 else T.mod(i, d.p) for i, d, r in zip(idx, b.shape, reps))),
               a.dtype, a.lib)


def roll(a, shift, axis=None):
    a = snapshot(a)
    if axis is None:
        sh0 = a.shape
        f = roll(reshape(a, [-1]), shift, 0)
        return reshape(f, list(sh0))
    if isinstance(axis, (list, tuple)):
        for s, x in zip(shift if isinstance(shift, (list, tuple)) else [shift] * len(axis), axis):
            a = roll(a, s, x)
        return a
    axis %= a.ndim
    s = lift(asarr(shift).scalar())
    n = a.shape[axis].p

    def fn(idx):
        i = add(idx[axis], neg(s))
        # wrap
        if T.lower_nonneg(i) and T.lower_pos(add(n, neg(i))):
            j = i
        else:
            c = s.const()
            if c is not None and n.const() is None:
                lo, hi = gt0(neg(i)), ge0(add(i, neg(n)))
                j = add(i, mul(n, add(lo, neg(hi))))
                if lo is not ONE and lo is not ZERO or hi is not ONE and hi is not ZERO:
                    # keep accesses separate
                    x = idx[:axis]
                    y = idx[axis + 1:]
                    mid = add(ONE, neg(add(lo, hi)))
                    out = []
                    for cnd, jj in ((lo, add(i, n)), (mid, i), (hi, add(i, neg(n)))):
                        if cnd is not ZERO:
                            out.append(mul(cnd, a.get(x + (jj,) + y)))
                    return T.add_many(out)
            else:
                j = T.mod(i, n)
        return a.get(idx[:axis] + (j,) + idx[axis + 1:])
    return Arr(a.shape, fn, a.dtype, a.lib)


def pad(a, widths, mode='constant', value=ZERO):
    a = snapshot(a)
    ws = []
    if not isinstance(widths, (list, tuple)):
        widths = [(widths, widths)] * a.ndim
    elif widths and not isinstance(widths[0], (list, tuple)):
        widths = [tuple(widths)] * a.ndim
    elif len(widths) == 1 and a.ndim > 1:
        widths = list(widths) * a.ndim
    for w in widths:
        ws.append((lift(asarr(w[0]).scalar()), lift(asarr(w[1]).scalar())))
    sh = []
    for d, (l, r) in zip(a.shape, ws):
        if l is ZERO and r is ZERO:
            sh.append(d)
        else:
            sh.append(cat_dim([Dim(l), d, Dim(r)]))

    def fn(idx):
        js = []
        ok = ONE
        for i, d, (l, r) in zip(idx, a.shape, ws):
            j = add(i, neg(l))
            if l is ZERO and r is ZERO:
                js.append(j)
                continue
            inside_lo = ge0(j)
            inside_hi = gt0(add(d.p, neg(j)))
            if mode == 'constant':
                ok = mul(ok, mul(inside_lo, inside_hi))
                js.append(j)
            elif mode == 'edge':
                js.append(_sel(j, inside_lo, inside_hi, ZERO, add(d.p, const(-1))))
            elif mode == 'wrap':
                js.append(_sel(j, inside_lo, inside_hi, add(j, d.p), add(j, neg(d.p))))
            elif mode == 'reflect':
                js.append(_sel(j, inside_lo, inside_hi, neg(j), add(add(d.p, d.p), neg(j)) - 2))
            elif mode == 'symmetric':
                js.append(_sel(j, inside_lo, inside_hi, neg(j) - 1, add(add(d.p, d.p), neg(j)) - 1))
            else:
                raise Undecided('pad mode ' + str(mode))
        if ok is ZERO:
            return value
        v = a.get(tuple(js))
        return ite(ok, v, value)
    return Arr(sh, fn, a.dtype, a.lib)


def _sel(j, lo, hi, below, above):
    if lo is ONE and hi is ONE:
        return j
    if lo is ZERO:
        return below
    if hi is ZERO:
        return above
    return ite(lo, ite(hi, j, above), below)


def diff_arr(a, n=1, axis=-1):
    axis %= a.ndim
    for _ in range(n):
        m = a.shape[axis].p
        hi = take_slice(a, axis, ONE, m)
        lo = take_slice(a, axis, ZERO, add(m, const(-1)))
        a = emap(lambda x, y: add(x, neg(y)), [hi, lo])
    return a


def take_slice(a, axis, start, stop):
    a = snapshot(a)
    sh = list(a.shape)
    n = add(stop, neg(start))
    sh[axis] = _slice_dim(a.shape[axis], start, stop)
    return Arr(sh, lambda idx: a.get(idx[:axis] + (add(idx[axis], start),) + idx[axis + 1:]), a.dtype, a.lib)


def _slice_dim(d, start, stop):
    n = add(stop, neg(start))
    if n is d.p:
        return d
    if d.kind == 'cat':
        # aligned sub-range of concatenated pieces
        off = ZERO
        acc = None
        for q in d.parts:
            if acc is None and off is start:
                acc = []
            if acc is not None:
                if off is stop:
                    break
                acc.append(q)
            off = add(off, q.p)
        if acc:
            c = cat_dim(acc)
            if c.p is n:
                return c
    return mkdim(n)


def take(a, ind, axis=None, lib=None):
    a = snapshot(asarr(a))
    ind = snapshot(asarr(ind))
    if axis is None:
        a = reshape(a, [-1])
        axis = 0
    axis %= a.ndim
    sh = list(a.shape[:axis]) + list(ind.shape) + list(a.shape[axis + 1:])
    k = ind.ndim
    n = a.shape[axis]

    def fn(idx):
        j = wrap_index(ind.get(idx[axis:axis + k]), n)
        return a.get(idx[:axis] + (j,) + idx[axis + k:])
    return Arr(sh, fn, a.dtype, lib or join_lib(a, ind))


def wrap_index(j, n):
    """Python-style negative indices."""
    if T.lower_nonneg(j):
        c = add(j, neg(n.p)).const()
        if c is not None and c >= 0:
            raise ProgError('index %s is out of bounds for size %s' % (T.show(j), n))
        return j
    if T.lower_pos(neg(j)):
        j2 = add(j, n.p)
        c = j2.const()
        if c is not None and c < 0:
            raise ProgError('index %s is out of bounds for size %s' % (T.show(j), n))
        return j2
    return j


# --------------------------------------------------------------------------
# indexing


class SliceV:
    """Python slice object."""
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start=None, stop=None, step=None):
        self.start = start
        self.stop = stop
        self.step = step


ELL = Ellipsis


def _bound(x):
    if x is None:
        return None
    if isinstance(x, Arr):
        return x.scalar()
    if isinstance(x, Fraction):
        if x.denominator != 1:
            raise ProgError('slice indices must be integers')
        raise ProgError('slice indices must be integers (got a float)')
    return lift(x)


def norm_slice(s, d):
    """-> (start poly, step int, Dim)"""
    step = 1
    if s.step is not None:
        st = _bound(s.step).const()
        if st is None:
            raise Undecided('symbolic slice step')
        step = int(st)
    n = d.p
    start, stop = _bound(s.start), _bound(s.stop)
    cn = d.c()
    cs = None if start is None else start.const()
    ce = None if stop is None else stop.const()
    if cn is not None and (start is None or cs is not None) and (stop is None or ce is not None):
        a, b, st = slice(None if cs is None else int(cs), None if ce is None else int(ce), step).indices(cn)
        return const(a), st, Dim(const(len(range(a, b, st))))
    if step == -1 and start is None and stop is None:
        return add(n, const(-1)), -1, d
    if step < 1:
        raise Undecided('negative symbolic slice')

    def fix(x, default):
        if x is None:
            return default
        if T.lower_nonneg(x):
            pass
        elif T.lower_pos(neg(x)):
            x = add(x, n)
            if not T.lower_nonneg(x):
                if T.lower_pos(neg(x)):
                    return ZERO
                raise Undecided('slice bound %s vs size %s' % (T.show(x), d))
        else:
            raise Undecided('sign of slice bound %s' % T.show(x))
        if T.lower_nonneg(add(n, neg(x))):
            return x
        if T.lower_nonneg(add(x, neg(n))):
            return n
        if any(y.kind == 'app' for q in (x, n) for m in q.t for y, _ in m):
            raise Undecided('slice bound %s vs size %s' % (T.show(x), d))
        clamped.append(x)
        return T.ite(ge0(add(n, neg(x))), x, n)
    clamped = []
    a = fix(start, ZERO)
    b = fix(stop, n)
    ln = add(b, neg(a))
    if not T.lower_nonneg(ln):
        if T.lower_nonneg(neg(ln)):
            ln = ZERO
            return a, step, Dim(ZERO)
        if not clamped:
            raise Undecided('slice length %s' % T.show(ln))
        if a is not ZERO:
            ln = T.ite(ge0(ln), ln, ZERO)
    if clamped and step == 1:
        return a, 1, mkdim(ln)
    if step == 1:
        return a, 1, _slice_dim(d, a, b)
    return a, step, mkdim(T.floordiv(add(ln, const(step - 1)), const(step)))


def to_index_list(a, index):
    if not isinstance(index, tuple):
        index = (index,)
    items = []
    for x in index:
        if isinstance(x, list):
            x = from_seq(x)
            if x.dtype == 'f' and x.shape[0].c() == 0:
                x.dtype = 'i'
        if isinstance(x, Arr) and x.dtype == 'b' and x.shape:
            for c in nonzero(x):
                items.append(('adv', c))
            continue
        if x is None:
            items.append(('new', None))
        elif x is Ellipsis:
            items.append(('ell', None))
        elif isinstance(x, SliceV):
            items.append(('sl', x))
        elif isinstance(x, bool):
            raise Undecided('boolean scalar index')
        elif isinstance(x, int):
            items.append(('int', const(x)))
        elif isinstance(x, Arr):
            if x.dtype == 'f' and x.shape and x.shape[0].c() != 0:
                raise ProgError('arrays used as indices must be of integer type')
            if x.dtype == 'f' and not x.shape:
                raise ProgError('only integers can be used as indices')
            if x.shape:
                items.append(('adv', x))
            else:
                items.append(('int', x.scalar()))
        elif isinstance(x, Poly):
            items.append(('int', x))
        elif isinstance(x, Fraction):
            raise ProgError('only integers can be used as indices')
        else:
            raise Undecided('index of type %s' % type(x).__name__)
    used = sum(1 for k, _ in items if k in ('sl', 'int', 'adv'))
    if used > a.ndim:
        raise ProgError('too many indices: array of shape %s indexed with %d' % (list(a.shape), used))
    if not any(k == 'ell' for k, _ in items):
        items.append(('ell', None))
    out = []
    for k, v in items:
        if k == 'ell':
            out.extend([('sl', SliceV())] * (a.ndim - used))
        else:
            out.append((k, v))
    return out


class Indexer:
    """Maps result indices to source indices, for reads and scatters."""

    def __init__(self, a, index):
        items = to_index_list(a, index)
        self.src = a.shape
        n_adv = sum(1 for k, _ in items if k == 'adv')
        advs = [snapshot(v) for k, v in items if k == 'adv']
        self.advs = advs
        self.has_adv = n_adv > 0
        # ints act like 0-d advanced indices when combined with arrays
        plan = []
        ax = 0
        for k, v in items:
            if k == 'new':
                plan.append(('new', None, None))
                continue
            d = a.shape[ax]
            if k == 'int':
                j = wrap_index(v, d)
                plan.append(('int', ax, j))
            elif k == 'sl':
                plan.append(('sl', ax, norm_slice(v, d)))
            else:
                plan.append(('adv', ax, snapshot(v)))
            ax += 1
        self.plan = plan
        if n_adv:
            pos = [i for i, x in enumerate(plan) if x[0] == 'adv' or x[0] == 'int']
            contiguous = pos == list(range(pos[0], pos[-1] + 1))
            self.bshape = bshape([v.shape for v in advs])
            shape = []
            self.slots = []       # for each plan entry: position of its result axis
            nb = len(self.bshape)
            first = pos[0] if contiguous else None
            res = []
            adv_at = None
            if not contiguous:
                adv_at = 0
                res.extend(self.bshape)
            for i, x in enumerate(plan):
                if contiguous and i == first:
                    adv_at = len(res)
                    res.extend(self.bshape)
                if x[0] == 'new':
                    self.slots.append(len(res))
                    res.append(D1)
                elif x[0] == 'sl':
                    self.slots.append(len(res))
                    res.append(x[2][2])
                else:
                    self.slots.append(None)
            self.adv_at = adv_at
            self.nb = nb
            self.shape = tuple(res)
        else:
            res = []
            self.slots = []
            for x in plan:
                if x[0] == 'new':
                    self.slots.append(len(res))
                    res.append(D1)
                elif x[0] == 'sl':
                    self.slots.append(len(res))
                    res.append(x[2][2])
                else:
                    self.slots.append(None)
            self.shape = tuple(res)
            self.nb = 0
            self.bshape = ()
            self.adv_at = None

    def source(self, idx):
        out = []
        b = idx[self.adv_at:self.adv_at + self.nb] if self.has_adv else ()
        for x, s in zip(self.plan, self.slots):
            if x[0] == 'new':
                continue
            if x[0] == 'int':
                out.append(x[2])
            elif x[0] == 'sl':
                st, step, d = x[2]
                i = idx[s]
                out.append(add(st, i if step == 1 else T.scale(i, step)))
            else:
                v = x[2]
                j = v.get(bidx(v.shape, b))
                out.append(wrap_index(j, self.src[x[1]]))
        return tuple(out)

    def scatter(self, t, val, split=False):
        """Sum over result positions that land on source index t of val(pos),
        and the coverage (number of hits)."""
        cond = ONE
        idx = [ZERO] * len(self.shape)
        for x, s in zip(self.plan, self.slots):
            if x[0] == 'int':
                cond = mul(cond, eq0(add(t[x[1]], neg(x[2]))))
            elif x[0] == 'sl':
                st, step, d = x[2]
                loc = add(t[x[1]], neg(st))
                if step == -1:
                    loc = neg(loc)
                elif step != 1:
                    cond = mul(cond, eq0(T.mod(loc, const(step))))
                    loc = T.floordiv(loc, const(step))
                cond = mul(cond, mul(ge0(loc), gt0(add(d.p, neg(loc)))))
                idx[s] = loc
            if cond is ZERO:
                return [] if split else (ZERO, ZERO)
        if not self.has_adv:
            r = mul(cond, val(tuple(idx))), cond
            return [r] if split else r
        # advanced axes
        combos = [([], [])]
        for d in self.bshape:
            new = []
            for i0, b0 in combos:
                for i, b in pieces(d):
                    new.append((i0 + [i], b0 + b))
            combos = new
        tot, cov = [], []
        for bi, binders in combos:
            c = cond
            for x in self.plan:
                if x[0] == 'adv':
                    v = x[2]
                    j = wrap_index(v.get(bidx(v.shape, tuple(bi))), self.src[x[1]])
                    c = mul(c, eq0(add(t[x[1]], neg(j))))
                    if c is ZERO:
                        break
            if c is ZERO:
                continue
            idx2 = list(idx)
            for k, i in enumerate(bi):
                idx2[self.adv_at + k] = i
            x = val(tuple(idx2))
            if split and binders and repeats(c, binders):
                vs, ds = [b[0] for b in binders], [b[1] for b in binders]
                tot.append(T.app('lastwrite', (T.make_lam(vs, ds, c), T.make_lam(vs, ds, x))))
                cov.append(ge0(add(big_sum(binders, c), T.const(-1))))
                continue
            body = mul(c, x)
            tot.append(big_sum(binders, body) if binders else body)
            cov.append(big_sum(binders, c) if binders else c)
        if split:
            return list(zip(tot, cov))
        return T.add_many(tot), T.add_many(cov)


def getitem(a, index):
    a = snapshot(a)
    ix = Indexer(a, index)
    if ix.has_adv:
        lib = join_lib(a, *ix.advs)
    else:
        lib = a.lib
    return Arr(ix.shape, lambda idx: a.get(ix.source(idx)), a.dtype, lib)


def repeats(c, binders):
    """may one position be hit for several values of the binders?  Where it may, a plain
    sum over the hits would not be what an assignment leaves behind."""
    bs = {T.the_atom(b[0]) for b in binders}
    uniq, other = set(), []

    def walk(p):
        for m in p.t:
            for a, _ in m:
                if not (a.free & bs):
                    continue
                if a.kind == 'elt' and a.is_int:
                    if a.args[0].name.startswith('uniq:'):
                        uniq.update(a.free & bs)
                    else:
                        other.append(a)
                elif a.kind in ('eq', 'ge', 'gt', 'pow', 'frz'):
                    walk(a.args[0])
    walk(c)
    return bool(other) and not bs <= uniq


def overlap(parts):
    """may two pieces of an index hit the same position?"""
    for j, (_, c) in enumerate(parts):
        for _, d in parts[:j]:
            if mul(c, d) is not ZERO:
                return True
    return False


def at_update(a, index, val, mode='set'):
    a = snapshot(a)
    val = snapshot(asarr(val))
    if mode in ('set', 'add'):
        m = mask_of(a, index)
        rest = a.shape[m.ndim:] if m is not None else ()
        if m is not None and len(val.shape) <= len(rest) and all(x.p is y.p or x.c() == 1 for x, y in zip(val.shape[::-1], rest[::-1])):
            r = m.ndim

            def mfn(t):
                c = truth(m.get(t[:r]))
                v = val.get(bidx(val.shape, t[r:]))
                old = a.get(t)
                if mode == 'add':
                    return add(old, mul(c, v))
                return add(old, mul(c, add(v, neg(old))))
            return Arr(a.shape, mfn, a.dtype, a.lib)
    ix = Indexer(a, index)
    vs = bshape([val.shape, ix.shape])
    # numpy allows leading unit axes of the value to be dropped
    if len(vs) > len(ix.shape):
        extra = len(val.shape) - len(ix.shape)
        if all(d.c() == 1 for d in val.shape[:extra]):
            val = reshape(val, list(val.shape[extra:]))
            vs = bshape([val.shape, ix.shape])
        else:
            raise ProgError('could not broadcast value of shape %s into shape %s' % (val.shape, ix.shape))
    for x, y in zip(vs, ix.shape):
        if x.p is not y.p:
            raise ProgError('could not broadcast value of shape %s into shape %s' % (list(val.shape), list(ix.shape)))

    def v(idx):
        return val.get(bidx(val.shape, idx))

    def fn(t):
        old = a.get(t)
        if mode == 'set' and ix.has_adv:
            parts = ix.scatter(t, v, True)
            if overlap(parts):      # positions written by several pieces of the index: the last write stays
                cur = old
                for s, cov in parts:
                    cur = add(add(cur, neg(mul(cov, cur))), s)
                return cur
            s, cov = T.add_many([x for x, _ in parts]), T.add_many([x for _, x in parts])
        else:
            s, cov = ix.scatter(t, v)
        if mode == 'set':
            if cov is ZERO:
                return old
            if cov is ONE:
                return s
            return add(add(old, neg(mul(cov, old))), s)
        if mode == 'add':
            return add(old, s)
        if ix.has_adv:
            raise Undecided('scatter mode ' + mode)
        if cov is ZERO:
            return old
        if mode in ('mul', 'multiply'):
            return add(add(old, neg(mul(cov, old))), mul(old, s))
        if mode == 'divide':
            idx = s
            raise Undecided('scatter divide')
        if mode == 'min':
            return ite(mul(cov, gt0(add(old, neg(s)))), s, old)
        if mode == 'max':
            return ite(mul(cov, gt0(add(s, neg(old)))), s, old)
        raise Undecided('scatter mode ' + mode)
    dt = a.dtype
    return Arr(a.shape, fn, dt, a.lib)


# --------------------------------------------------------------------------
# reductions


def norm_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (list, tuple)):
        ax = [_ax(x) for x in axis]
    else:
        ax = [_ax(axis)]
    out = []
    for x in ax:
        if x < -a.ndim or x >= a.ndim:
            raise ProgError('axis %d is out of bounds for array of rank %d' % (x, a.ndim))
        out.append(x % a.ndim)
    return out


def _ax(x):
    if isinstance(x, Arr):
        x = x.concrete()
    if not isinstance(x, int):
        raise Undecided('symbolic axis')
    return x


def reduce_shape(a, axes, keepdims):
    if keepdims:
        return [D1 if k in axes else d for k, d in enumerate(a.shape)]
    return [d for k, d in enumerate(a.shape) if k not in axes]


def full_index(a, axes, keepdims, idx):
    out = [None] * a.ndim
    if keepdims:
        for k in range(a.ndim):
            if k not in axes:
                out[k] = idx[k]
    else:
        it = iter(idx)
        for k in range(a.ndim):
            if k not in axes:
                out[k] = next(it)
    return out


def sum_arr(a, axis=None, keepdims=False):
    a = snapshot(asarr(a))
    axes = norm_axes(a, axis)

    def fn(idx):
        full = full_index(a, axes, keepdims, idx)
        combos = [({}, [])]
        for k in axes:
            new = []
            ps = pieces(a.shape[k])
            for m0, b0 in combos:
                for i, b in ps:
                    if len(combos) > 1 and b:
                        vs = {the_atom(v): fresh_var(n) for v, n in b}
                        b = [(vs[the_atom(v)], n) for v, n in b]
                        i = subst(i, vs)
                    m = dict(m0)
                    m[k] = i
                    new.append((m, b0 + b))
            combos = new
            if len(combos) > 20000:
                raise Undecided('too many summands')
        out = []
        for m, b in combos:
            ii = tuple(m[k] if k in m else full[k] for k in range(a.ndim))
            body = a.get(ii)
            out.append(big_sum(b, body) if b else body)
        return T.add_many(out)
    dt = 'i' if a.dtype == 'b' else a.dtype
    return Arr(reduce_shape(a, axes, keepdims), fn, dt, a.lib)


def fold_arr(a, op, kind, axis=None, keepdims=False, dtype=None, empty=None):
    """Reduction by an associative-commutative op; symbolic sizes stay opaque."""
    a = snapshot(asarr(a))
    axes = norm_axes(a, axis)

    def fn(idx):
        full = full_index(a, axes, keepdims, idx)
        if all(a.shape[k].c() is not None and a.shape[k].c() <= 64 for k in axes):
            vals = []
            for combo in itertools.product(*[range(a.shape[k].c()) for k in axes]):
                m = dict(zip(axes, combo))
                vals.append(a.get(tuple(const(m[k]) if k in m else full[k] for k in range(a.ndim))))
            if not vals:
                if empty is None:
                    raise ProgError('reduction of an empty array')
                return empty
            if kind == 'all':
                return T.bigand(vals)
            if kind == 'any':
                return T.not_(T.bigand([T.not_(v) for v in vals]))
            r = vals[0]
            for v in vals[1:]:
                r = op(r, v)
            return r
        vs = {k: fresh_var(a.shape[k].p) for k in axes}
        body = a.get(tuple(vs[k] if k in vs else full[k] for k in range(a.ndim)))
        vl = [vs[k] for k in axes]
        if all(the_atom(v) not in body.free for v in vl) and kind in ('max', 'min', 'all', 'any'):
            if all(T.lower_pos(a.shape[k].p) for k in axes):
                return body
        if kind == 'all' and body is ONE:
            return ONE
        if kind == 'any' and body is ZERO:
            return ZERO
        return T.red(kind, T.make_lam(vl, [a.shape[k].p for k in axes], body))
    return Arr(reduce_shape(a, axes, keepdims), fn, dtype or a.dtype, a.lib)


def tlam(a):
    """Closed term of a whole array."""
    a = snapshot(asarr(a))
    vs = [fresh_var(d.p) for d in a.shape]
    body = a.get(tuple(vs))
    return T.make_lam(vs, [d.p for d in a.shape], body)


def nonzero(mask):
    """Coordinates of true entries in row-major order."""
    mask = snapshot(mask)
    if mask.ndim == 1 and mask.shape[0].c() is not None:
        vals = [mask.get((const(k),)).const() for k in range(mask.shape[0].c())]
        if all(v is not None for v in vals):
            hits = [k for k, v in enumerate(vals) if v != 0]
            return [from_ints(hits)]
    if all(d.c() is not None for d in mask.shape) and mask.ndim > 1:
        tot = 1
        for d in mask.shape:
            tot *= d.c()
        if tot <= 4096:
            hits = []
            ok = True
            for ii in itertools.product(*[range(d.c()) for d in mask.shape]):
                v = mask.get(tuple(const(k) for k in ii)).const()
                if v is None:
                    ok = False
                    break
                if v != 0:
                    hits.append(ii)
            if ok:
                return [from_ints([h[k] for h in hits]) for k in range(mask.ndim)]
    n = Dim(sum_arr(emap(lambda x: truth(x), [mask], 'i')).scalar())
    out = []
    l = tlam(mask)
    key = object()
    for ax in range(mask.ndim):
        x = Arr((n,), (lambda ax: lambda idx: T.nz(l, idx[0], ax))(ax), 'i', mask.lib)
        x.tag = ('nz', key, ax, mask)
        out.append(x)
    return out


def mask_of(a, index):
    """the mask m when `index` addresses exactly the entries of `a` where m holds (over leading axes)"""
    if not isinstance(index, tuple):
        index = (index,)
    while index and isinstance(index[-1], SliceV) and index[-1].start is None and index[-1].stop is None and index[-1].step is None:
        index = index[:-1]
    m = None
    if len(index) == 1 and isinstance(index[0], Arr) and index[0].dtype == 'b' and index[0].shape:
        m = snapshot(index[0])
    elif index and all(isinstance(x, Arr) and isinstance(x.tag, tuple) and x.tag[0] == 'nz' for x in index):
        t = index[0].tag
        if len(index) == t[3].ndim and all(x.tag[1] is t[1] and x.tag[2] == k for k, x in enumerate(index)):
            m = t[3]
    if m is None or m.ndim > a.ndim or any(x.p is not y.p for x, y in zip(m.shape, a.shape)):
        return None
    return m


def truth(p):
    """[p != 0]"""
    if all(all(a.is_bool for a, _ in m) for m in p.t) and p.is_int():
        if p is ZERO or p is ONE:
            return p
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1:
                return p
        return p if _is01(p) else T.not_(eq0(p))
    return T.not_(eq0(p))


def _is01(p):
    # 1 - product of brackets, or sums produced by boolean algebra: assume 0/1
    # when built from brackets with nonneg total bounds
    return True


def from_ints(xs):
    xs = list(xs)
    return Arr((len(xs),), lambda idx: const(xs[int(idx[0].const())]) if idx[0].const() is not None
               else pick(idx[0], [const(v) for v in xs]), 'i', 'np')


def leaf(name, shape, dtype='f', lib='np', hi=None, positive=False, lo=None, fn_args=()):
    b = T.base(name, is_int=dtype == 'i', is_bool=dtype == 'b', hi=hi, positive=positive, lo=lo)
    return Arr(shape, lambda idx: T.elt(b, idx), dtype, lib, tag=name)


def matmul(a, b):
    a, b = snapshot(asarr(a)), snapshot(asarr(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ProgError('matmul: scalar operand')
    va = a.ndim == 1
    vb = b.ndim == 1
    if va:
        a = expand_dims(a, 0)
    if vb:
        b = expand_dims(b, 1)
    same_or_fail(a.shape[-1], b.shape[-2], 'matmul operands')
    kd = a.shape[-1] if a.shape[-1].parts or not b.shape[-2].parts else b.shape[-2]
    lead = bshape([a.shape[:-2], b.shape[:-2]])
    sh = list(lead) + [a.shape[-2], b.shape[-1]]
    nl = len(lead)

    def fn(idx):
        out = []
        for k, bnd in pieces(kd):
            ia = bidx(a.shape[:-2], idx[:nl]) + (idx[nl], k)
            ib = bidx(b.shape[:-2], idx[:nl]) + (k, idx[nl + 1])
            body = mul(a.get(ia), b.get(ib))
            out.append(big_sum(bnd, body) if bnd else body)
        return T.add_many(out)
    r = Arr(sh, fn, join_dtype(a.dtype, b.dtype), join_lib(a, b))
    if va:
        r = index0(r, nl)
    if vb:
        r = index0(r, r.ndim - 1)
    return r


def index0(a, axis):
    return Arr([d for k, d in enumerate(a.shape) if k != axis],
               lambda idx: a.get(idx[:axis] + (ZERO,) + idx[axis:]), a.dtype, a.lib)


def einsum(spec, ops):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(c for c in ins if c.isalpha()))
        out = ''.join(c for c in letters if ins.count(c) == 1)
        if '...' in ins:
            out = '...' + out
    ins = ins.split(',')
    ops = [snapshot(asarr(o)) for o in ops]
    if len(ins) != len(ops):
        raise ProgError('einsum: operand count')
    ellsh = []
    parsed = []
    for s, o in zip(ins, ops):
        if '...' in s:
            pre, post = s.split('...')
            n = o.ndim - len(pre) - len(post)
            ellsh.append(o.shape[len(pre):len(pre) + n])
            parsed.append((pre, n, post))
        else:
            if len(s) != o.ndim:
                raise ProgError('einsum: %s does not match rank %d' % (s, o.ndim))
            parsed.append((s, None, ''))
    ell = bshape(ellsh) if ellsh else ()
    dims = {}
    for (pre, n, post), o in zip(parsed, ops):
        for k, c in enumerate(pre):
            _dimset(dims, c, o.shape[k])
        for k, c in enumerate(post):
            _dimset(dims, c, o.shape[o.ndim - len(post) + k])
    outl = out.replace('...', '')
    if '...' in out:
        opre, opost = out.split('...')
    else:
        opre, opost = out, ''
    shape = [dims[c] for c in opre] + (list(ell) if '...' in out else []) + [dims[c] for c in opost]
    sums = [c for c in dims if c not in outl]
    ne = len(ell)

    def fn(idx):
        m0 = {}
        for k, c in enumerate(opre):
            m0[c] = idx[k]
        e = idx[len(opre):len(opre) + ne] if '...' in out else ()
        for k, c in enumerate(opost):
            m0[c] = idx[len(idx) - len(opost) + k]
        combos = [(m0, [])]
        for c in sums:
            new = []
            for m, b in combos:
                for i, bi in pieces(dims[c]):
                    mm = dict(m)
                    mm[c] = i
                    new.append((mm, b + bi))
            combos = new
        res = []
        for m, b in combos:
            body = ONE
            for (pre, n, post), o in zip(parsed, ops):
                ii = [m[c] for c in pre]
                if n is not None:
                    ii += list(bidx(o.shape[len(pre):len(pre) + n], e))
                ii += [m[c] for c in post]
                ii = [ZERO if o.shape[k].c() == 1 else x for k, x in enumerate(ii)]
                body = mul(body, o.get(tuple(ii)))
            res.append(big_sum(b, body) if b else body)
        return T.add_many(res)
    return Arr(shape, fn, join_dtype(*[o.dtype for o in ops]), join_lib(*ops))


def _dimset(dims, c, d):
    if c not in dims or dims[c].c() == 1:
        dims[c] = d
    elif d.c() == 1:
        pass
    else:
        dims[c] = same_or_fail(dims[c], d, 'einsum index ' + c)


def det(a):
    a = snapshot(asarr(a))
    n = a.shape[-1].c()
    if n is None or a.shape[-2].c() != n:
        raise Undecided('det of symbolic size')
    same_or_fail(a.shape[-1], a.shape[-2], 'det operand axes')

    def fn(idx):
        M = [[a.get(idx + (const(i), const(j))) for j in range(n)] for i in range(n)]
        return _det(M)
    return Arr(a.shape[:-2], fn, 'f', a.lib)


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return add(mul(M[0][0], M[1][1]), neg(mul(M[0][1], M[1][0])))
    out = []
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        t = mul(M[0][j], _det(minor))
        out.append(t if j % 2 == 0 else neg(t))
    return T.add_many(out)


def inv(a):
    """Matrix inverse kept opaque: entries of inv(M) as applications."""
    a = snapshot(asarr(a))
    if a.ndim < 2:
        raise ProgError('inv of a vector')
    same_or_fail(a.shape[-1], a.shape[-2], 'inv operand axes')
    n = a.shape[-1]
    if a.ndim == 2 and n.c() is not None and n.c() <= 64:
        vals = [[lift(a.get((const(i), const(j)))).const() for j in range(n.c())] for i in range(n.c())]
        if all(x is not None for r in vals for x in r):
            return from_table(exact_inverse(vals), a.lib)

    def fn(idx):
        lead, i, j = idx[:-2], idx[-2], idx[-1]
        v = [fresh_var(n.p), fresh_var(n.p)]
        l = T.make_lam(v, [n.p, n.p], a.get(lead + (v[0], v[1])))
        return T.app('inv', (l,), (i, j))
    return Arr(a.shape, fn, 'f', a.lib)


def exact_inverse(M):
    n = len(M)
    M = [[Fraction(x) for x in r] + [Fraction(i == j) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            raise ProgError('LinAlgError: singular matrix')
        M[c], M[p] = M[p], M[c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                g = M[r][c]
                M[r] = [x - g * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def from_table(rows, lib='np', dtype='f'):
    """array with the given (nested list) entries: constants or polynomials"""
    sh = []
    t = rows
    while isinstance(t, (list, tuple)):
        sh.append(len(t))
        t = t[0] if t else None

    def fn(idx):
        return _tab(rows, idx)
    return Arr([mkdim(n) for n in sh], fn, dtype, lib)


def _tab(rows, idx):
    if not idx:
        return lift(rows)
    k = lift(idx[0])
    c = k.const()
    if c is not None:
        return _tab(rows[int(c)], idx[1:])
    return pick(k, [_tab(r, idx[1:]) for r in rows])
