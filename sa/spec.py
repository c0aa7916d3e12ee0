"""Vocabulary for specifications in index notation."""
from . import terms as T, arrays as A
from .terms import ZERO, ONE, const, lift, sym, dim, ite, ge0, gt0, eq0, not_, mul, add, neg
from .arrays import Arr, leaf, mkdim, scal
from .interp import PyFn, ObjV


def sm(dims, f):
    """sum over index tuples: sm([n, m], lambda i, j: body)."""
    out = []
    combos = [((), [])]
    for d in dims:
        new = []
        d = mkdim(d)
        for idx, b in combos:
            for p, bb in A.pieces(d):
                vs = {T.the_atom(v): T.fresh_var(n) for v, n in bb}
                b2 = [(vs[T.the_atom(v)], n) for v, n in bb]
                new.append((idx + (T.subst(p, vs),), b + b2))
        combos = new
    for idx, b in combos:
        body = lift(f(*idx))
        out.append(T.big_sum(b, body) if b else body)
    return T.add_many(out)


def arr(shape, f, dtype='f', lib='np'):
    return Arr([mkdim(s) for s in shape], lambda idx: lift(f(*idx)), dtype, lib)


def eqi(a, b):
    return T.eq0(lift(a) - lift(b))


def land(*xs):
    return T.bigand([lift(x) for x in xs])


def lor(*xs):
    return T.not_(T.bigand([T.not_(lift(x)) for x in xs]))


def lt(a, b):
    return T.gt0(lift(b) - lift(a))


def le(a, b):
    return T.ge0(lift(b) - lift(a))


def sqrt(x):
    from fractions import Fraction
    return T.power(lift(x), Fraction(1, 2))


def ifn(name, *args, **kw):
    return T.app(name, tuple(args), **kw)


def lam(dims, f):
    """closed array argument for an uninterpreted application"""
    return A.tlam(arr(dims, f))


def user_fn(name, outdims, dtype='f', is_bool=False, positive=False, rng=None):
    """An arbitrary user-supplied function: uninterpreted."""
    od = [mkdim(d) for d in outdims]

    def f(I, args, kw):
        ls = []
        for a in args:
            a = A.asarr(a)
            ls.append(A.tlam(a) if a.ndim else a.scalar())
        ls = tuple(ls)
        return Arr(od, lambda idx: T.app(name, ls, idx, is_bool=is_bool, positive=positive, rng=rng),
                   'b' if is_bool else dtype, 'jnp')
    return PyFn(f, name)


def ew_fn(name, **kw):
    """An arbitrary user function applied element-wise (numpy broadcasting)."""
    def f(I, args, k):
        return A.emap(lambda *ps: T.app(name, tuple(ps), (), **kw), [A.asarr(a) for a in args], 'f')
    return PyFn(f, name)


def pred(name):
    return user_fn(name, [], 'b', True)


def obj(**kw):
    o = ObjV(None)
    o.attrs.update(kw)
    return o


def isym(p):
    """an int valued program value"""
    if isinstance(p, int):
        return p
    return scal(lift(p), 'i')


def fsym(name, positive=False):
    return scal(sym(name, positive=positive), 'f')
