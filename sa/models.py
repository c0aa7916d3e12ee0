"""Models of Python built-ins, NumPy / jax.numpy, JAX transformations, SciPy
sparse, PETSc and a few I/O libraries for the denotational interpreter."""
import ast
import operator
import itertools
import math
from fractions import Fraction
from . import terms as T
from . import arrays as A
from .arrays import Arr, ProgError, SliceV, asarr, scal, SliceV as SV, Dim, mkdim, emap
from .terms import Poly, Undecided, ZERO, ONE, const, lift, add, neg, mul, power, ge0, gt0, eq0, ite
from .interp import (PyFn, ExtV, Model, Opaque, OpaqueStr, FuncV, BoundV, ClassV, ObjV, ModV,
                     PyRaise, Top, SymSeq, UNBOUND, map_tree, leaves, subst_val)

NUM = (int, Fraction, float)


def num(x):
    """Is x a numeric value of the analysed program?"""
    return isinstance(x, (int, Fraction, float, Arr)) and True


def unbox(x):
    if isinstance(x, Arr) and not x.shape:
        c = x.concrete()
        if c is not None:
            return c
    return x


def P(x):
    return asarr(x).scalar()


# --------------------------------------------------------------------------
# operators

OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul}


def p_floordiv(a, b):
    return T.floordiv(a, b)


def p_div(a, b):
    return mul(a, power(b, -1))


def p_pow(a, b):
    c = b.const()
    if c is not None:
        return power(a, c)
    ca = a.const()
    if ca == 1:
        return ONE
    return T.app('powf', (a, b))


def binop(I, op, a, b):
    t = type(op)
    if isinstance(a, Top) or isinstance(b, Top):
        raise Undecided('operation on %r' % (a if isinstance(a, Top) else b))
    if isinstance(a, bool):
        a = int(a) if not isinstance(b, (Arr, bool)) else a
    if isinstance(b, bool):
        b = int(b) if not isinstance(a, (Arr, bool)) else b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        r = _pynum(t, a, b)
        if r is not None:
            return r
    if isinstance(a, (Arr, int, Fraction)) and isinstance(b, (Arr, int, Fraction)):
        return unbox(arr_binop(t, a, b))
    if t is ast.MatMult or isinstance(a, Model) or isinstance(b, Model):
        if isinstance(a, Model) and hasattr(a, 'binop'):
            return a.binop(I, t, b, False)
        if isinstance(b, Model) and hasattr(b, 'binop'):
            return b.binop(I, t, a, True)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('(%s op)' % (a.name if isinstance(a, Opaque) else b.name))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and t is ast.Add:
        if type(a) is not type(b):
            raise PyRaise('TypeError: can only concatenate list to list')
        return a + b
    if isinstance(a, (list, tuple)) and t is ast.Mult:
        n = unbox(b)
        if isinstance(n, int):
            return a * n
        if isinstance(n, Arr) and not n.shape and len(a) == 1 and isinstance(a, list):
            d = mkdim(n)
            return [SymSeq(d, T.fresh_var(d.p), a[0])]
        raise Undecided('list repetition')
    if isinstance(b, (list, tuple)) and t is ast.Mult:
        return binop(I, op, b, a)
    if isinstance(a, (list, tuple)) and isinstance(b, Arr) or isinstance(b, (list, tuple)) and isinstance(a, Arr):
        return unbox(arr_binop(t, asarr(a), asarr(b)))
    if isinstance(a, str):
        if t is ast.Mod:
            try:
                vals = b if isinstance(b, tuple) else (b,)
                conv = []
                for v in vals:
                    v = unbox(v)
                    if isinstance(v, Fraction):
                        v = float(v)
                    if isinstance(v, (Arr, Opaque, OpaqueStr)):
                        return OpaqueStr('?' + a)
                    conv.append(v)
                return a % tuple(conv)
            except TypeError:
                raise PyRaise('TypeError: string formatting')
        if t is ast.Add and isinstance(b, str):
            r = str.__add__(a, b)
            return OpaqueStr(r) if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr) else r
        if t is ast.Mult and isinstance(b, int):
            return a * b
    if isinstance(a, str) and isinstance(b, Opaque) or isinstance(b, str) and isinstance(a, Opaque):
        return OpaqueStr('?')
    if isinstance(a, set) and isinstance(b, set):
        if t is ast.Sub:
            return a - b
        if t is ast.BitOr:
            return a | b
        if t is ast.BitAnd:
            return a & b
    if isinstance(a, RangeV) or isinstance(b, RangeV):
        raise PyRaise('TypeError: unsupported operand range')
    if a is None or b is None:
        raise PyRaise("TypeError: unsupported operand type(s): NoneType")
    if isinstance(a, ObjV):
        nm = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__'}.get(t)
        if nm:
            return I.call(I.getattr(a, nm), [b], {})
    if isinstance(a, (list, tuple, dict, str)) and isinstance(b, (list, tuple, dict, str)) and t in (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow, ast.MatMult):
        raise PyRaise('TypeError: unsupported operand type(s): %s and %s' % (type(a).__name__, type(b).__name__))
    raise Undecided('operation %s on %s and %s' % (t.__name__, type(a).__name__, type(b).__name__))


def _pynum(t, a, b):
    try:
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            return a * b
        if t is ast.Div:
            return Fraction(a) / Fraction(b)
        if t is ast.FloorDiv:
            r = a // b
            if isinstance(a, Fraction) or isinstance(b, Fraction):
                return Fraction(r)
            return r
        if t is ast.Mod:
            return a % b
        if t is ast.Pow:
            if isinstance(b, int) or b.denominator == 1:
                if isinstance(a, int) and isinstance(b, int) and b < 0:
                    return Fraction(a) ** b
                r = a ** int(b)
                return Fraction(r) if isinstance(b, Fraction) else r
            return unbox(scal(power(lift(a), b), 'f'))
        if t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift) and isinstance(a, int) and isinstance(b, int):
            f = {ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
                 ast.LShift: operator.lshift, ast.RShift: operator.rshift}[t]
            return f(a, b)
    except ZeroDivisionError:
        raise PyRaise('ZeroDivisionError')
    return None


def arr_binop(t, a, b):
    a, b = asarr(a), asarr(b)
    dt = A.join_dtype(a.dtype, b.dtype)
    if t is ast.Add:
        if dt == 'b':
            return emap(p_or, [a, b], 'b')
        return emap(add, [a, b], dt)
    if t is ast.Sub:
        return emap(lambda x, y: add(x, neg(y)), [a, b], 'i' if dt == 'b' else dt)
    if t is ast.Mult:
        return emap(mul, [a, b], dt)
    if t is ast.Div:
        return emap(p_div, [a, b], 'f')
    if t is ast.FloorDiv:
        return emap(p_floordiv, [a, b], dt)
    if t is ast.Mod:
        return emap(T.mod, [a, b], dt)
    if t is ast.Pow:
        return emap(p_pow, [a, b], dt if dt != 'b' else 'i')
    if t is ast.MatMult:
        return A.matmul(a, b)
    if t is ast.BitAnd:
        if dt == 'b':
            return emap(mul, [a, b], 'b')
    if t is ast.BitOr:
        if dt == 'b':
            return emap(p_or, [a, b], 'b')
    if t is ast.BitXor:
        if dt == 'b':
            return emap(lambda x, y: add(add(x, y), T.scale(mul(x, y), -2)), [a, b], 'b')
    raise Undecided('array operation ' + t.__name__)


def p_or(x, y):
    if len(x.t) * len(y.t) > 32:
        return T.not_(T.bigand([T.not_(x), T.not_(y)]))
    return add(x, add(y, neg(mul(x, y))))


def unop(I, op, v):
    if isinstance(op, ast.Not):
        t = I.truth(v)
        if t is ONE:
            return False
        if t is ZERO:
            return True
        return scal(T.not_(t), 'b')
    if isinstance(v, bool):
        v = int(v) if not isinstance(op, ast.Invert) else v
    if isinstance(v, (int, Fraction)):
        if isinstance(op, ast.USub):
            return -v
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, int):
                return ~v
            raise PyRaise('TypeError: bad operand for ~')
    if isinstance(v, Arr):
        if isinstance(op, ast.USub):
            return emap(neg, [v])
        if isinstance(op, ast.UAdd):
            return v
        if v.dtype == 'b':
            return emap(T.not_, [v], 'b')
        if v.dtype == 'i':
            return emap(lambda p: add(neg(p), const(-1)), [v], 'i')
        raise PyRaise('TypeError: ufunc invert not supported for floats')
    if isinstance(v, (list, tuple)):
        raise PyRaise('TypeError: bad operand type for unary operator')
    raise Undecided('unary on %s' % type(v).__name__)


CMP = {
    ast.Lt: lambda x, y: gt0(add(y, neg(x))),
    ast.LtE: lambda x, y: ge0(add(y, neg(x))),
    ast.Gt: lambda x, y: gt0(add(x, neg(y))),
    ast.GtE: lambda x, y: ge0(add(x, neg(y))),
    ast.Eq: lambda x, y: eq0(add(x, neg(y))),
    ast.NotEq: lambda x, y: T.not_(eq0(add(x, neg(y)))),
}
PYCMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
         ast.Eq: operator.eq, ast.NotEq: operator.ne}


def compare(I, op, a, b):
    t = type(op)
    if t in (ast.Is, ast.IsNot):
        r = None
        if isinstance(a, Top) and len(a.alts) == 3:
            c, x, y = a.alts
            p = ite(c, I.truth(compare(I, ast.Is(), x, b)), I.truth(compare(I, ast.Is(), y, b)))
            return unbox(scal(p if t is ast.Is else T.not_(p), 'b'))
        if isinstance(a, Top):
            raise Undecided('is on %r' % a)
        if a is None or b is None:
            r = a is b
        elif isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Undecided('identity of arrays')
            r = a is b
        elif isinstance(a, (str, int)) and isinstance(b, (str, int)):
            r = a == b
        else:
            r = a is b
        return r if t is ast.Is else not r
    if t in (ast.In, ast.NotIn):
        r = contains(I, b, a)
        if isinstance(r, bool):
            return r if t is ast.In else not r
        return unbox(scal(r if t is ast.In else T.not_(r), 'b'))
    if isinstance(a, Top) or isinstance(b, Top):
        x, y = (a, b) if isinstance(a, Top) else (b, a)
        if len(x.alts) == 3 and x is a:
            c, u, v = x.alts
            p = ite(c, I.truth(compare(I, op, u, b)), I.truth(compare(I, op, v, b)))
            return unbox(scal(p, 'b'))
        raise Undecided('comparison with %r' % x)
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return PYCMP[t](a, b)
    if isinstance(a, (Arr, int, Fraction)) and isinstance(b, (Arr, int, Fraction)):
        return unbox(emap(CMP[t], [a, b], 'b'))
    if isinstance(a, Arr) and isinstance(b, (list, tuple)) or isinstance(b, Arr) and isinstance(a, (list, tuple)):
        return unbox(emap(CMP[t], [asarr(a), asarr(b)], 'b'))
    if isinstance(a, (list, tuple)) and a and isinstance(b, int) and all(isinstance(x, (int, Fraction)) for x in a):
        # numbers taken out of arrays are NumPy scalars: comparison with a list is element-wise
        return unbox(emap(CMP[t], [asarr(a), b], 'b'))
    if isinstance(b, (list, tuple)) and b and isinstance(a, int) and all(isinstance(x, (int, Fraction)) for x in b):
        return unbox(emap(CMP[t], [a, asarr(b)], 'b'))
    if t in (ast.Eq, ast.NotEq):
        r = py_eq(I, a, b)
        if isinstance(r, bool):
            return r if t is ast.Eq else not r
        return unbox(scal(r if t is ast.Eq else T.not_(r), 'b'))
    if isinstance(a, str) and isinstance(b, str):
        return PYCMP[t](str(a), str(b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return scal(T.app(('bool', 'cmp', t.__name__, getattr(a, 'name', str(a)), getattr(b, 'name', str(b))), (), (), is_bool=True), 'b')
    if a is None or b is None:
        raise PyRaise('TypeError: comparison with NoneType')
    raise Undecided('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def py_eq(I, a, b):
    """True/False/Poly."""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        p = ONE
        for x, y in zip(a, b):
            r = compare(I, ast.Eq(), x, y)
            p = mul(p, I.truth(r))
        return True if p is ONE else False if p is ZERO else p
    if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        return T.app(('bool', 'streq', str(a), str(b)), (), (), is_bool=True)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return T.app(('bool', 'streq', getattr(a, 'name', str(a)), getattr(b, 'name', str(b))), (), (), is_bool=True)
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    if a is None or b is None:
        return False
    if isinstance(a, ExtV) and isinstance(b, ExtV):
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        p = ONE
        for k in a:
            p = mul(p, I.truth(compare(I, ast.Eq(), a[k], b[k])))
        return True if p is ONE else False if p is ZERO else p
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return T.app(('bool', 'eq', getattr(a, 'name', str(a)), getattr(b, 'name', str(b))), (), (), is_bool=True)
    if isinstance(a, Model) or isinstance(b, Model):
        return False
    return False


def contains(I, c, x):
    if isinstance(c, (dict,)):
        return I.hashable(x) in c
    if isinstance(c, str):
        if isinstance(c, OpaqueStr) or isinstance(x, OpaqueStr):
            return T.app(('bool', 'in', str(x), str(c)), (), (), is_bool=True)
        return x in c
    if isinstance(c, (list, tuple, set)):
        p = ZERO
        for y in c:
            r = I.truth(compare(I, ast.Eq(), x, y))
            if r is ONE:
                return True
            p = p_or(p, r)
        return False if p is ZERO else p
    if isinstance(c, Arr):
        r = fold_any(emap(CMP[ast.Eq], [c, asarr(x)], 'b'))
        v = unbox(r)
        if isinstance(v, bool):
            return v
        return r.scalar()
    if isinstance(c, RangeV):
        cc = c.concrete()
        v = unbox(x)
        if cc is not None and isinstance(v, int):
            return v in cc
    if isinstance(c, Opaque):
        return T.app(('bool', 'in', c.name, str(x)), (), (), is_bool=True)
    raise Undecided('membership test in %s' % type(c).__name__)


def fold_any(a, axis=None, keepdims=False):
    return A.fold_arr(emap(A.truth, [a], 'b'), p_or, 'any', axis, keepdims, 'b', ZERO)


def fold_all(a, axis=None, keepdims=False):
    return A.fold_arr(emap(A.truth, [a], 'b'), mul, 'all', axis, keepdims, 'b', ONE)


def fmt(v, spec='', conv=-1):
    v = unbox(v)
    if isinstance(v, OpaqueStr):
        return None
    if isinstance(v, str):
        return format(str(v), spec) if isinstance(spec, str) else str(v)
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        try:
            return format(v, spec or '')
        except ValueError:
            return None
    if isinstance(v, Fraction):
        try:
            return format(float(v), spec) if spec else repr(float(v))
        except ValueError:
            return None
    if v is None:
        return 'None'
    return None


# --------------------------------------------------------------------------
# small helper values


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def concrete(self):
        a, b, c = self.start.const(), self.stop.const(), self.step.const()
        if None in (a, b, c):
            return None
        return range(int(a), int(b), int(c))

    def length(self):
        if self.step is ONE:
            n = add(self.stop, neg(self.start))
            if not T.lower_nonneg(n):
                if T.lower_nonneg(neg(n)):
                    return ZERO
                raise Undecided('range length %s' % T.show(n))
            return n
        c = self.step.const()
        if c is None:
            raise Undecided('symbolic range step')
        if c > 0:
            n = T.floordiv(add(add(self.stop, neg(self.start)), self.step) - 1, self.step)
        else:
            n = T.floordiv(add(add(self.start, neg(self.stop)), neg(self.step)) - 1, neg(self.step))
        return n

    def arr(self):
        n = self.length()
        s, st = self.start, self.step
        return Arr((n,), lambda idx: add(s, mul(st, idx[0])), 'i', 'np')


class ZipV:
    def __init__(self, items):
        self.items = items


class EnumV:
    def __init__(self, item, start=0):
        self.item = item
        self.start = start


class AtV(Model):
    def __init__(self, a, index=None):
        self.a = a
        self.index = index

    def getitem(self, I, k):
        return AtV(self.a, k)

    def attr(self, I, name):
        a, k = self.a, self.index
        if name == 'get':
            return PyFn(lambda I, ar, kw: A.getitem(a, k))
        if name in ('set', 'add', 'multiply', 'mul', 'min', 'max', 'divide', 'power', 'apply', 'subtract'):
            if name == 'divide':
                def dv(I, ar, kw):
                    v = asarr(ar[0])
                    return A.at_update(a, k, emap(p_div, [A.getitem(a, k), v], 'f'))
                return PyFn(dv)

            def f(I, ar, kw):
                v = asarr(ar[0])
                if a.dtype == 'i' and v.dtype == 'f':
                    v = emap(lambda p: p if p.is_int() else T.app('trunc', (p,), is_int=True), [v], 'i')
                return A.at_update(a, k, v, name)
            return PyFn(f, name)
        raise Undecided('.at[].' + name)


# --------------------------------------------------------------------------
# built-ins


def b_len(I, a, k):
    x = a[0]
    if isinstance(x, (list, tuple)):
        if len(x) == 1 and isinstance(x[0], SymSeq):
            return unbox(scal(x[0].n.p, 'i', dimobj=x[0].n))
        if any(isinstance(y, (SymSeq, Top)) for y in x):
            raise Undecided('len of symbolic sequence')
        return len(x)
    if isinstance(x, (str, dict, set)):
        return len(x)
    if isinstance(x, Arr):
        if not x.shape:
            raise PyRaise('TypeError: len() of unsized object')
        return dimval(x.shape[0])
    if isinstance(x, RangeV):
        return unbox(scal(x.length(), 'i'))
    if isinstance(x, Model) and hasattr(x, 'length'):
        return x.length(I)
    if isinstance(x, Opaque):
        return Opaque('len(%s)' % x.name)
    if isinstance(x, (int, Fraction)) or x is None:
        raise PyRaise('TypeError: object has no len()')
    if isinstance(x, ObjV):
        return I.call(I.getattr(x, '__len__'), [])
    raise Undecided('len of %s' % type(x).__name__)


def dimval(d):
    c = d.c()
    if c is not None:
        return c
    return scal(d.p, 'i', dimobj=d)


def b_range(I, a, k):
    xs = []
    for x in a:
        if isinstance(x, Fraction) or isinstance(x, Arr) and x.dtype == 'f':
            raise PyRaise('TypeError: range() needs integers')
        xs.append(P(x))
    if len(xs) == 1:
        return RangeV(ZERO, xs[0], ONE)
    if len(xs) == 2:
        return RangeV(xs[0], xs[1], ONE)
    return RangeV(xs[0], xs[1], xs[2])


def b_int(I, a, k):
    x = unbox(a[0]) if a else 0
    if isinstance(x, (int, Fraction)):
        return int(x)
    if isinstance(x, str) and not isinstance(x, OpaqueStr):
        return int(x)
    if isinstance(x, Arr):
        p = x.scalar()
        if p.is_int():
            return unbox(scal(p, 'i'))
        return scal(T.app('trunc', (p,), is_int=True), 'i')
    if isinstance(x, (OpaqueStr, Opaque)):
        return Opaque('int()')
    raise Undecided('int()')


def b_float(I, a, k):
    x = unbox(a[0])
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, Arr):
        return scal(x.scalar(), 'f')
    if isinstance(x, str) and not isinstance(x, OpaqueStr):
        if x in ('inf', '-inf', 'nan'):
            return Opaque(x)
        return Fraction(x)
    if isinstance(x, (OpaqueStr, Opaque)):
        return Opaque('float()')
    raise Undecided('float()')


def b_bool(I, a, k):
    t = I.truth(a[0])
    return True if t is ONE else False if t is ZERO else scal(t, 'b')


def b_isinstance(I, a, k):
    x, c = a
    cs = c if isinstance(c, tuple) else (c,)
    for t in cs:
        if isinstance(t, ClassV):
            if isinstance(x, ObjV) and isinstance(x.cls, ClassV) and is_sub(x.cls, t):
                return True
        elif isinstance(t, PyFn):
            n = t.name
            m = {'int': (int,), 'float': (Fraction,), 'list': (list,), 'tuple': (tuple,), 'str': (str,), 'dict': (dict,),
                 'bool': (bool,), 'set': (set,)}.get(n)
            if m and isinstance(x, m) and not (n == 'int' and isinstance(x, bool) and False):
                return True
            if n in ('int', 'float') and isinstance(x, Arr) and not x.shape:
                if (n == 'int') == (x.dtype == 'i') and x.lib == 'np':
                    return True
        elif isinstance(t, ExtV):
            if t.path in ('numpy.ndarray',) and isinstance(x, Arr) and x.lib == 'np':
                return True
            if t.path in ('jax.numpy.ndarray', 'jax.Array') and isinstance(x, Arr) and x.lib == 'jnp':
                return True
    if isinstance(x, Opaque):
        raise Undecided('isinstance of opaque')
    return False


def is_sub(c, t):
    if c is t:
        return True
    return any(isinstance(b, ClassV) and is_sub(b, t) for b in c.bases)


def b_hasattr(I, a, k):
    o, n = a
    v = I.getattr(o, n, None) if not isinstance(o, ObjV) else (
        o.attrs.get(n, UNBOUND) if n in o.attrs else (True if isinstance(o.cls, ClassV) and o.cls.has(n) else UNBOUND))
    if isinstance(o, ObjV):
        return v is not UNBOUND
    return v is not None


def b_getattr(I, a, k):
    if len(a) == 3:
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_minmax(kind):
    def f(I, a, k):
        if 'key' in k or 'default' in k:
            if 'key' in k and len(a) == 1:
                items = I.iterate(a[0])
                ks = [unbox(I.call(k['key'], [x])) for x in items]
                if all(isinstance(x, (int, Fraction, str)) for x in ks):
                    return (min if kind == 'min' else max)(zip(ks, range(len(ks)), items))[2] if kind == 'min' else \
                        items[max(range(len(ks)), key=lambda i: (ks[i], -i))]
            raise Undecided('min/max with key')
        items = I.iterate(a[0]) if len(a) == 1 else list(a)
        if len(items) == 1 and isinstance(items[0], SymSeq):
            s = items[0]
            return A.fold_arr(asarr_seq(s), p_min if kind == 'min' else p_max, kind)
        items = [unbox(x) for x in items]
        if not items:
            raise PyRaise('ValueError: %s() arg is an empty sequence' % kind)
        if all(isinstance(x, (int, Fraction)) for x in items) or all(isinstance(x, str) for x in items):
            return min(items) if kind == 'min' else max(items)
        r = asarr(items[0])
        for x in items[1:]:
            r = emap(p_min if kind == 'min' else p_max, [r, asarr(x)])
        return unbox(r)
    return f


def p_max(x, y):
    if x is y:
        return x
    d = add(x, neg(y))
    if len(d.t) < 6 and d.is_int():
        if T.lower_nonneg(d):
            return x
        if T.lower_nonneg(neg(d)):
            return y
    return ite(gt0(d), x, y) if x.id > y.id else ite(gt0(neg(d)), y, x)


def p_min(x, y):
    if x is y:
        return x
    d = add(x, neg(y))
    if len(d.t) < 6 and d.is_int():
        if T.lower_nonneg(d):
            return y
        if T.lower_nonneg(neg(d)):
            return x
    return ite(gt0(d), y, x) if x.id > y.id else ite(gt0(neg(d)), x, y)


def asarr_seq(s):
    """SymSeq -> Arr"""
    e = s.elem
    if isinstance(e, (list, tuple)):
        e = A.from_seq(e)
    e = asarr(e)
    va = T.the_atom(s.var)
    for d in e.shape:
        if va in d.p.free:
            # numpy needs equal lengths; rows of length one are the only ones that
            # keep one entry per iteration, so that is what the analysis assumes
            if e.ndim != 1:
                raise Undecided('ragged sequence')
            y = A.snapshot(e)
            return Arr((s.n, A.D1), lambda idx: T.subst(y.get((ZERO,)), {va: idx[0]}), e.dtype, e.lib)
    x = A.snapshot(e)
    return Arr((s.n,) + e.shape, lambda idx: T.subst(x.get(idx[1:]), {va: idx[0]}), e.dtype, e.lib)


def b_sum(I, a, k):
    items = I.iterate(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if len(items) == 1 and isinstance(items[0], SymSeq):
        return binop(I, ast.Add(), start, unbox(A.sum_arr(asarr_seq(items[0]), 0)))
    r = start
    for x in items:
        r = binop(I, ast.Add(), r, x)
    return r


def b_abs(I, a, k):
    x = a[0]
    if isinstance(x, (int, Fraction)):
        return abs(x)
    return unbox(emap(lambda p: T.app('abs', (p,)), [x]))


def b_sorted(I, a, k):
    x = a[0]
    if isinstance(x, Model) and hasattr(x, 'sorted'):
        return x.sorted(I)
    if isinstance(x, Opaque):
        I.event('sorted', x.name, a, k)
        return SortedOpaque(x.name)
    items = I.iterate(x)
    if 'key' in k and k['key'] is not None:
        ks = [unbox(I.call(k['key'], [y])) for y in items]
    else:
        ks = [unbox(y) for y in items]
    if any(isinstance(y, (Arr, Opaque, OpaqueStr)) for y in ks):
        raise Undecided('sorting symbolic values')
    order = sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(k.get('reverse', False)))
    return [items[i] for i in order]


class SortedOpaque(Opaque):
    pass


def b_list(I, a, k):
    if not a:
        return []
    if isinstance(a[0], Opaque):
        return a[0]
    return list(I.iterate(a[0]))


def b_tuple(I, a, k):
    return tuple(I.iterate(a[0])) if a else ()


def b_dict(I, a, k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in I.iterate(a[0]):
                kk, v = I.iterate(x)
                d[I.hashable(kk)] = v
    d.update(k)
    return d


def b_map(I, a, k):
    f = a[0]
    cols = [I.iter_spec(x) for x in a[1:]]
    if any(not isinstance(c, list) for c in cols):
        if len(cols) == 1:
            n, el = cols[0]
            v = T.fresh_var(n.p)
            return [SymSeq(n, v, I.call(f, [el(v)]))]
        raise Undecided('map over symbolic sequences')
    return [I.call(f, list(xs)) for xs in zip(*cols)]


def b_print(I, a, k):
    return None


def b_type(I, a, k):
    x = a[0]
    if isinstance(x, ObjV):
        return x.cls
    names = {int: 'int', Fraction: 'float', str: 'str', list: 'list', tuple: 'tuple', dict: 'dict', bool: 'bool'}
    n = names.get(type(x))
    if n:
        return BUILTINS[n]
    if isinstance(x, Arr):
        return ExtV('numpy.ndarray' if x.lib == 'np' else 'jax.Array')
    return Opaque('type')


def b_open(I, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    f = FileV(a[0], mode)
    I.event('open', str(mode), a, k)
    return f


class FileV(Model):
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode

    def enter(self, I):
        return self

    def attr(self, I, name):
        def f(I, a, k):
            I.event('file', name, [self.path] + list(a), k)
            if name in ('readlines', 'read') and str(self.path) in I.files:
                t = I.files[str(self.path)]
                return list(t) if name == 'readlines' else ''.join(t)
            return Opaque('file.' + name)
        return PyFn(f, name)

    def iterate(self, I):
        if str(self.path) in I.files:
            return list(I.files[str(self.path)])
        raise Undecided('iteration over a file')


def b_super(I, a, k):
    f, _ = I.stack[-1]
    raise Undecided('super()')


def b_str(I, a, k):
    if not a:
        return ''
    s = fmt(a[0])
    return OpaqueStr('?') if s is None else s


def b_round(I, a, k):
    x = unbox(a[0])
    if isinstance(x, (int, Fraction)):
        if len(a) > 1:
            return Fraction(round(x, a[1]))
        return round(x)
    return emap(lambda p: p if p.is_int() else T.app('round', (p,), is_int=True), [x], 'i')


def b_reversed(I, a, k):
    return list(I.iterate(a[0]))[::-1]


def b_any(I, a, k):
    p = ZERO
    for x in I.iterate(a[0]):
        p = p_or(p, I.truth(x))
    return True if p is ONE else False if p is ZERO else scal(p, 'b')


def b_all(I, a, k):
    p = ONE
    for x in I.iterate(a[0]):
        p = mul(p, I.truth(x))
    return True if p is ONE else False if p is ZERO else scal(p, 'b')


def b_pow(I, a, k):
    return binop(I, ast.Pow(), a[0], a[1])


def _exc(name):
    return PyFn(lambda I, a, k: Opaque('exc:' + name), name)


def b_filter(I, a, k):
    out = []
    for x in I.iterate(a[1]):
        t = I.truth(I.call(a[0], [x]) if a[0] is not None else x)
        if t is ONE:
            out.append(x)
        elif t is not ZERO:
            raise Undecided('symbolic filter')
    return out


def b_next(I, a, k):
    raise Undecided('next()')


BUILTINS = {
    'len': PyFn(b_len, 'len'), 'range': PyFn(b_range, 'range'), 'int': PyFn(b_int, 'int'),
    'float': PyFn(b_float, 'float'), 'bool': PyFn(b_bool, 'bool'), 'isinstance': PyFn(b_isinstance, 'isinstance'),
    'hasattr': PyFn(b_hasattr, 'hasattr'), 'getattr': PyFn(b_getattr, 'getattr'), 'setattr': PyFn(b_setattr, 'setattr'),
    'min': PyFn(b_minmax('min'), 'min'), 'max': PyFn(b_minmax('max'), 'max'), 'sum': PyFn(b_sum, 'sum'),
    'abs': PyFn(b_abs, 'abs'), 'sorted': PyFn(b_sorted, 'sorted'), 'list': PyFn(b_list, 'list'),
    'tuple': PyFn(b_tuple, 'tuple'), 'dict': PyFn(b_dict, 'dict'), 'map': PyFn(b_map, 'map'),
    'set': PyFn(lambda I, a, k: set(I.hashable(x) for x in I.iterate(a[0])) if a else set(), 'set'),
    'print': PyFn(b_print, 'print'), 'type': PyFn(b_type, 'type'), 'open': PyFn(b_open, 'open'),
    'enumerate': PyFn(lambda I, a, k: EnumV(a[0], a[1] if len(a) > 1 else k.get('start', 0)), 'enumerate'),
    'zip': PyFn(lambda I, a, k: ZipV(list(a)), 'zip'), 'str': PyFn(b_str, 'str'), 'repr': PyFn(b_str, 'repr'),
    'round': PyFn(b_round, 'round'), 'reversed': PyFn(b_reversed, 'reversed'), 'any': PyFn(b_any, 'any'),
    'all': PyFn(b_all, 'all'), 'pow': PyFn(b_pow, 'pow'), 'filter': PyFn(b_filter, 'filter'),
    'callable': PyFn(lambda I, a, k: isinstance(a[0], (FuncV, BoundV, PyFn, ClassV)), 'callable'),
    'divmod': PyFn(lambda I, a, k: (binop(I, ast.FloorDiv(), *a), binop(I, ast.Mod(), *a)), 'divmod'),
    'super': PyFn(b_super, 'super'), 'object': ExtV('builtins.object'), 'next': PyFn(b_next, 'next'),
    'iter': PyFn(lambda I, a, k: a[0], 'iter'), 'id': PyFn(lambda I, a, k: Opaque('id'), 'id'),
    'staticmethod': PyFn(lambda I, a, k: PyFn(lambda I, x, y: I.call(a[0], x[1:], y), 'static', {'__static__': a[0]}), 'staticmethod'),
    'classmethod': PyFn(lambda I, a, k: PyFn(None, 'classm', {'__classm__': a[0]}), 'classmethod'),
    'property': PyFn(lambda I, a, k: PyFn(None, 'prop', {'__prop__': a[0]}), 'property'),
    'slice': PyFn(lambda I, a, k: SliceV(*([None] + list(a) if len(a) == 1 else list(a))), 'slice'),
    'True': True, 'False': False, 'None': None, 'NotImplemented': Opaque('NotImplemented'), 'Ellipsis': Ellipsis,
    'vars': PyFn(lambda I, a, k: a[0].attrs, 'vars'), 'input': PyFn(lambda I, a, k: OpaqueStr('?'), 'input'),
    'exit': PyFn(lambda I, a, k: (_ for _ in ()).throw(PyRaise('SystemExit')), 'exit'),
    'bytes': PyFn(lambda I, a, k: OpaqueStr('?'), 'bytes'),
    '__import__': PyFn(lambda I, a, k: I.import_name(a[0]), '__import__'),
}
for _e in ('Exception', 'ValueError', 'NotImplementedError', 'RuntimeError', 'TypeError', 'KeyError', 'IndexError',
           'AssertionError', 'OSError', 'IOError', 'FileNotFoundError', 'StopIteration', 'ZeroDivisionError',
           'AttributeError', 'ArithmeticError', 'ImportError', 'KeyboardInterrupt', 'NameError', 'FileExistsError', 'Warning',
           'DeprecationWarning', 'UserWarning', 'BaseException'):
    BUILTINS[_e] = _exc(_e)


# --------------------------------------------------------------------------
# methods of Python values


def py_attr(I, o, name, default):
    if isinstance(o, list):
        return list_attr(I, o, name)
    if isinstance(o, dict):
        if name == 'keys':
            return PyFn(lambda I, a, k: list(o.keys()))
        if name == 'values':
            return PyFn(lambda I, a, k: list(o.values()))
        if name == 'items':
            return PyFn(lambda I, a, k: list(o.items()))
        if name == 'get':
            return PyFn(lambda I, a, k: o.get(I.hashable(a[0]), a[1] if len(a) > 1 else k.get('default')))
        if name == 'update':
            def upd(I, a, k):
                for kk, v in (a[0].items() if a else ()):
                    I.set_key(o, kk, v)
                for kk, v in k.items():
                    I.set_key(o, kk, v)
            return PyFn(upd)
        if name == 'setdefault':
            def sd(I, a, k):
                kk = I.hashable(a[0])
                if kk not in o:
                    I.set_key(o, kk, a[1] if len(a) > 1 else None)
                return o[kk]
            return PyFn(sd)
        if name == 'pop':
            def dp(I, a, k):
                kk = I.hashable(a[0])
                if kk in o:
                    v = o[kk]
                    I.log('dict', o, kk, v)
                    del o[kk]
                    return v
                if len(a) > 1:
                    return a[1]
                raise PyRaise('KeyError: %r' % (kk,))
            return PyFn(dp)
        if name == 'copy':
            return PyFn(lambda I, a, k: dict(o))
        if hasattr(o, 'default_attr'):
            return o.default_attr(name)
    if isinstance(o, str):
        def sm(I, a, k):
            if isinstance(o, OpaqueStr):
                return OpaqueStr('?')
            a = [unbox(x) for x in a]
            if name == 'join':
                items = I.iterate(a[0])
                if any(not isinstance(x, str) or isinstance(x, OpaqueStr) for x in items):
                    return OpaqueStr('?')
                return o.join(items)
            if name == 'format':
                conv = [fmt(x) for x in a]
                if any(c is None for c in conv):
                    return OpaqueStr(o)
                return OpaqueStr('?' + o)
            return getattr(str(o), name)(*a)
        if hasattr(str, name):
            return PyFn(sm, name)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            return PyFn(lambda I, a, k: getattr(o, name)(unbox(a[0])))
        if hasattr(o, '_fields') and name in o._fields:
            return getattr(o, name)
    if isinstance(o, (int, Fraction)):
        if name == 'is_integer':
            return PyFn(lambda I, a, k: Fraction(o).denominator == 1)
        if name in ('real',):
            return o
        return arr_attr(I, asarr(o), name, default)
    if isinstance(o, set):
        if name == 'add':
            def sa(I, a, k):
                o.add(I.hashable(a[0]))
            return PyFn(sa)
    if isinstance(o, RangeV) and default is not UNBOUND:
        return default
    if isinstance(o, AtV):
        return o.attr(I, name)
    if default is not UNBOUND:
        return default
    if isinstance(o, (list, dict, str, tuple, int, Fraction)):
        raise PyRaise('AttributeError: %s has no attribute %r' % (type(o).__name__, name))
    raise Undecided('attribute %s of %s' % (name, type(o).__name__))


def list_attr(I, o, name):
    def app(I, a, k):
        I.touch_list(o)
        o.append(a[0])

    def ext(I, a, k):
        it = I.iterate(a[0])
        I.touch_list(o)
        o.extend(it)

    def ins(I, a, k):
        I.touch_list(o)
        o.insert(a[0], a[1])

    def pop(I, a, k):
        I.touch_list(o)
        try:
            return o.pop(*[unbox(x) for x in a])
        except IndexError:
            raise PyRaise('IndexError: pop')

    def rev(I, a, k):
        I.touch_list(o)
        o.reverse()

    def clear(I, a, k):
        I.touch_list(o)
        o.clear()

    def idx(I, a, k):
        for i, x in enumerate(o):
            t = I.truth(compare(I, ast.Eq(), x, a[0]))
            if t is ONE:
                return i
            if t is not ZERO:
                raise Undecided('list.index')
        raise PyRaise('ValueError: not in list')

    def rem(I, a, k):
        i = idx(I, a, k)
        I.touch_list(o)
        del o[i]

    def srt(I, a, k):
        r = b_sorted(I, [list(o)], k)
        I.touch_list(o)
        o[:] = r
    m = {'append': app, 'extend': ext, 'insert': ins, 'pop': pop, 'reverse': rev, 'clear': clear, 'index': idx,
         'remove': rem, 'sort': srt, 'copy': lambda I, a, k: list(o),
         'count': lambda I, a, k: sum(1 for x in o if I.truth(compare(I, ast.Eq(), x, a[0])) is ONE)}
    if name in m:
        return PyFn(m[name], 'list.' + name)
    raise PyRaise('AttributeError: list has no attribute %r' % name)


# --------------------------------------------------------------------------
# array attributes


def dtype_of(x):
    if x is None:
        return None
    if isinstance(x, ExtV):
        n = x.path.rsplit('.', 1)[-1]
    elif isinstance(x, PyFn):
        n = x.name
    elif isinstance(x, str):
        n = x
    elif isinstance(x, DType):
        return x.kind
    else:
        return None
    if 'bool' in n:
        return 'b'
    if 'int' in n or n in ('IntType', 'long', 'i', 'i4', 'i8'):
        return 'i'
    if 'float' in n or n in ('double', 'f', 'f8', 'd', 'single', 'half'):
        return 'f'
    return None


class DType(Model):
    def __init__(self, kind):
        self.kind = kind

    def attr(self, I, name):
        if name == 'name':
            return {'f': 'float64', 'i': 'int64', 'b': 'bool'}[self.kind]
        if name == 'kind':
            return self.kind
        return Opaque('dtype.' + name)


def cast(a, dt):
    if dt is None or dt == a.dtype:
        return Arr(a.shape, A.snapshot(a).fn, a.dtype, a.lib) if a.shape else a
    if dt == 'f':
        return emap(lambda p: p, [a], 'f')
    if dt == 'i':
        return emap(lambda p: p if p.is_int() else T.app('trunc', (p,), is_int=True), [a], 'i')
    if dt == 'b':
        return emap(A.truth, [a], 'b')
    return a


def shape_arg(x):
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            if isinstance(y, SymSeq):
                raise Undecided('symbolic rank')
            if isinstance(y, Fraction):
                raise PyRaise('TypeError: float in shape')
            out.append(y)
        return out
    if isinstance(x, Arr) and x.ndim == 1:
        n = x.shape[0].c()
        if n is None:
            raise Undecided('symbolic rank')
        return [unbox(A.getitem(x, (i,))) for i in range(n)]
    return [x]


METHODS_NP = {'sum', 'mean', 'max', 'min', 'prod', 'all', 'any', 'argmax', 'argmin', 'cumsum', 'dot', 'repeat', 'squeeze',
              'swapaxes', 'clip', 'round', 'std', 'var', 'nonzero', 'argsort', 'sort', 'trace', 'diagonal', 'take', 'ravel', 'conj'}


def arr_attr(I, a, name, default=UNBOUND):
    if name == 'shape':
        return tuple(dimval(d) for d in a.shape)
    if name == 'ndim':
        return a.ndim
    if name == 'size':
        p = A.prod_dim(a.shape)
        return dimval(p)
    if name == 'T':
        return A.transpose(a)
    if name == 'at':
        if a.lib == 'np' and not a.weak:
            raise PyRaise("AttributeError: 'numpy.ndarray' object has no attribute 'at'")
        return AtV(a)
    if name == 'dtype':
        return DType(a.dtype)
    if name in ('real',):
        return a
    if name == 'flat':
        return A.reshape(a, [-1])
    if name == 'reshape':
        def rs(I, ar, kw):
            if 'order' in kw and kw['order'] not in ('C', None):
                if kw['order'] == 'F':
                    s = shape_arg(ar[0]) if len(ar) == 1 else list(ar)
                    return A.transpose(A.reshape(A.transpose(a), s[::-1]))
                raise Undecided('reshape order')
            s = shape_arg(ar[0]) if len(ar) == 1 else shape_arg(list(ar))
            return A.reshape(a, s)
        return PyFn(rs, 'reshape')
    if name == 'flatten' or name == 'ravel':
        return PyFn(lambda I, ar, kw: A.reshape(a, [-1]), name)
    if name == 'transpose':
        def tr(I, ar, kw):
            ax = kw.get('axes')
            if ar:
                ax = ar[0] if isinstance(ar[0], (list, tuple)) else list(ar)
            return A.transpose(a, None if ax is None else [A._ax(x) for x in ax])
        return PyFn(tr)
    if name == 'astype':
        def at(I, ar, kw):
            d = ar[0] if ar else kw.get('dtype')
            n = getattr(d, 'path', str(d))
            if 'float32' in n or 'float16' in n or n.endswith('single'):
                I.event('precision', n, [a])
            return cast(a, dtype_of(d))
        return PyFn(at)
    if name == 'copy' or name == 'block_until_ready':
        return PyFn(lambda I, ar, kw: cast(a, a.dtype))
    if name == 'item':
        def item(I, ar, kw):
            return unbox(Arr((), lambda idx, p=a.scalar(): p, a.dtype, 'np'))
        return PyFn(item)
    if name == 'tolist':
        def tl(I, ar, kw):
            return to_list(a)
        return PyFn(tl)
    if name == 'fill':
        def fill(I, ar, kw):
            I.store_arr(a, A.broadcast_to(asarr(ar[0]), a.shape))
        return PyFn(fill)
    if name == 'nbytes':
        return Opaque('nbytes')
    if name in METHODS_NP:
        f = NP[name]
        return PyFn(lambda I, ar, kw: unbox_np(f(Ctx(I, a.lib), a, *ar, **kw)), name)
    if name == 'device':
        return PyFn(lambda I, ar, kw: Opaque('device'))
    if default is not UNBOUND:
        return default
    raise PyRaise('AttributeError: array has no attribute %r' % name)


def unbox_np(x):
    return x


def to_list(a):
    if not a.shape:
        return unbox(a)
    c = a.shape[0].c()
    if c is None:
        x = A.snapshot(a)
        v = T.fresh_var(a.shape[0].p)
        return [SymSeq(a.shape[0], v, unbox(A.getitem(x, (scal(v, 'i'),))))]
    return [to_list(A.getitem(a, (k,))) for k in range(c)]


# --------------------------------------------------------------------------
# external namespaces

ALIASES = {
    'np': 'numpy', 'jnp': 'jax.numpy', 'onp': 'numpy',
}


def canon(path):
    if path == 'jax.config.config':
        return 'jax.config'
    return path


class Ctx:
    __slots__ = ('I', 'lib')

    def __init__(self, I, lib):
        self.I = I
        self.lib = lib


def ext_attr(I, o, name):
    path = o.path + '.' + name
    if path in I.ext:
        return I.ext[path]
    for pre, lib in (('numpy.', 'np'), ('jax.numpy.', 'jnp')):
        if path.startswith(pre):
            sub = path[len(pre):]
            if sub in NPCONST:
                v = NPCONST[sub]
                return v
            break
    if path in ('math.pi', 'scipy.constants.pi', 'numpy.math.pi'):
        return NPCONST['pi']
    if path == 'math.e':
        return scal(T.app('exp', (ONE,)), 'f')
    return ExtV(path)


NPCONST = {'pi': scal(T.PI, 'f'), 'newaxis': None, 'inf': Opaque('inf'), 'nan': Opaque('nan'),
           'e': scal(T.app('exp', (ONE,)), 'f')}
NPCONST['inf'].isinf = True


def ext_call(I, f, args, kw, node=None, env=None):
    path = f.path
    o = I.ext.get(path)
    if o is not None:
        return I.call(o, args, kw)
    for pre, lib in (('numpy.', 'np'), ('jax.numpy.', 'jnp')):
        if path.startswith(pre):
            sub = path[len(pre):]
            g = NP.get(sub)
            if g is None:
                if sub.startswith('random.'):
                    return rand_call(I, sub, args, kw)
                d = dtype_of(f)
                if d is not None and len(args) == 1:
                    if sub in ('float32', 'float16'):
                        I.event('precision', sub, args)
                    return unbox(cast(asarr(args[0]), d))
                if sub in ('set_printoptions', 'seterr'):
                    return None
                if sub in ('save', 'savetxt', 'load', 'loadtxt', 'savez', 'genfromtxt'):
                    I.event('io', path, args, kw)
                    return Opaque(path + '()')
                raise Undecided('no model for %s' % path)
            return finish_np(g(Ctx(I, lib), *args, **kw), lib)
    g = EXT.get(path)
    if g is not None:
        return g(I, args, kw)
    if path.startswith(('jax.', 'scipy.', 'functools.', 'itertools.')):
        if path.startswith('jax.config') or path in ('jax.devices', 'jax.lib.xla_bridge.get_backend', 'jax.default_backend', 'jax.local_devices'):
            I.event('ext', path, args, kw)
            return Opaque(path)
        if path.startswith('jax.random.'):
            return rand_call(I, path, args, kw)
        raise Undecided('no model for %s' % path)
    e = I.event('ext', path, args, kw, node)
    return Opaque(path + '()')


def finish_np(x, lib):
    if isinstance(x, Arr):
        return unbox(x)
    return x


RAND = [0]


def rand_call(I, sub, args, kw):
    ev = I.event('random', sub, args, kw)
    last = sub.rsplit('.', 1)[-1]
    if last in ('seed',):
        return None
    if last in ('PRNGKey', 'split', 'key', 'RandomState', 'default_rng'):
        return Opaque('rng')
    shape = ()
    if last in ('rand', 'randn'):
        shape = list(args)
    elif 'shape' in kw:
        shape = shape_arg(kw['shape'])
    elif 'size' in kw:
        shape = shape_arg(kw['size'])
    elif sub.startswith('jax.') and len(args) > 1:
        shape = shape_arg(args[1])
    elif last in ('uniform', 'normal', 'choice', 'randint') and len(args) > 2:
        shape = shape_arg(args[2])
    elif last in ('random', 'random_sample') and args:
        shape = shape_arg(args[0])
    RAND[0] += 1
    r = unbox(A.leaf('rand%d' % RAND[0], shape, 'i' if last in ('randint', 'choice') else 'f',
                     'jnp' if sub.startswith('jax') else 'np'))
    if ev is not None:
        ev.res = r
    return r


# --------------------------------------------------------------------------
# numpy

NP = {}


def npf(*names):
    def dec(f):
        for n in names:
            NP[n] = f
        return f
    return dec


def AR(x, c=None):
    if isinstance(x, Model) and hasattr(x, 'as_array'):
        return x.as_array()
    if isinstance(x, RangeV):
        return x.arr()
    if isinstance(x, SymSeq):
        return asarr_seq(x)
    if isinstance(x, (list, tuple)):
        return seq_arr(x)
    if isinstance(x, Top):
        raise Undecided('array from %r' % x)
    if isinstance(x, ZipV):
        raise Undecided('array from zip')
    if x is None:
        raise PyRaise('TypeError: NoneType used as an array')
    return asarr(x)


def seq_arr(x):
    if len(x) == 1 and isinstance(x[0], SymSeq):
        return asarr_seq(x[0])
    if any(isinstance(y, SymSeq) for y in x):
        parts = []
        for y in x:
            if isinstance(y, SymSeq):
                parts.append(asarr_seq(y))
            else:
                parts.append(A.expand_dims(AR(y), 0))
        return A.concat(parts, 0)
    return A.from_seq([AR(y) for y in x])


def setlib(a, c, dt=None):
    r = Arr(a.shape, A.snapshot(a).fn, a.dtype, c.lib, tag=None)
    r.memo = a.memo
    if dt is not None and dt != a.dtype:
        r = cast(r, dt)
        r = Arr(r.shape, r.fn, dt, c.lib)
    return r


@npf('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy')
def np_array(c, x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, Opaque):
        return Opaque('array(%s)' % x.name)
    _prec(c, dtype)
    return setlib(AR(x), c, dtype_of(dtype))


def _prec(c, dtype):
    n = getattr(dtype, 'path', dtype if isinstance(dtype, str) else '')
    if n and ('float32' in n or 'float16' in n or n.endswith('single') or 'bfloat' in n):
        c.I.event('precision', n, [])


def fill(c, shape, p, dt):
    return Arr([mkdim(_chkdim(x)) for x in shape_arg(shape)], lambda idx: p, dt, c.lib)


def _chkdim(x):
    if isinstance(x, Fraction):
        raise PyRaise('TypeError: float used as a size')
    if isinstance(x, Arr) and x.dtype == 'f':
        raise PyRaise('TypeError: float used as a size')
    if isinstance(x, Opaque) or x is None:
        raise Undecided('unknown size')
    return x


@npf('zeros')
def np_zeros(c, shape, dtype=None):
    _prec(c, dtype)
    return fill(c, shape, ZERO, dtype_of(dtype) or 'f')


@npf('ones')
def np_ones(c, shape, dtype=None):
    _prec(c, dtype)
    return fill(c, shape, ONE, dtype_of(dtype) or 'f')


@npf('empty')
def np_empty(c, shape, dtype=None):
    T._fresh[0] += 1
    return A.leaf('uninit%d' % T._fresh[0], [mkdim(x) for x in shape_arg(shape)], dtype_of(dtype) or 'f', c.lib)


@npf('full')
def np_full(c, shape, v, dtype=None):
    v = asarr(v)
    return setlib(A.broadcast_to(v, shape_arg(shape)), c, dtype_of(dtype))


@npf('zeros_like')
def np_zeros_like(c, a, dtype=None, shape=None):
    a = AR(a)
    return Arr(a.shape, lambda idx: ZERO, dtype_of(dtype) or a.dtype, c.lib)


@npf('ones_like')
def np_ones_like(c, a, dtype=None):
    a = AR(a)
    return Arr(a.shape, lambda idx: ONE, dtype_of(dtype) or a.dtype, c.lib)


@npf('empty_like')
def np_empty_like(c, a, dtype=None):
    a = AR(a)
    T._fresh[0] += 1
    return A.leaf('uninit%d' % T._fresh[0], a.shape, dtype_of(dtype) or a.dtype, c.lib)


@npf('full_like')
def np_full_like(c, a, v, dtype=None):
    a = AR(a)
    p = asarr(v)
    dt = dtype_of(dtype) or a.dtype
    return cast(Arr(a.shape, lambda idx: p.get(A.bidx(p.shape, idx)), p.dtype, c.lib), dt)


@npf('arange')
def np_arange(c, *a, dtype=None, start=None, stop=None, step=None):
    xs = [P(x) for x in a]
    dt = 'f' if any(isinstance(x, Fraction) or isinstance(x, Arr) and x.dtype == 'f' for x in a) else 'i'
    if len(xs) == 1:
        r = RangeV(ZERO, xs[0], ONE)
    elif len(xs) == 2:
        r = RangeV(xs[0], xs[1], ONE)
    else:
        r = RangeV(*xs)
    if dt == 'f':
        n = mul(add(r.stop, neg(r.start)), power(r.step, -1))
        if n.const() is not None:
            k = -((-n.const()).__floor__())
            s, st = r.start, r.step
            return Arr((max(0, k),), lambda idx: add(s, mul(st, idx[0])), dtype_of(dtype) or 'f', c.lib)
        if n.is_int():
            s, st = r.start, r.step
            return Arr((n,), lambda idx: add(s, mul(st, idx[0])), dtype_of(dtype) or 'f', c.lib)
        m = T.app('ceil', (n,), is_int=True)
        s, st = r.start, r.step
        return Arr((m,), lambda idx: add(s, mul(st, idx[0])), dtype_of(dtype) or 'f', c.lib)
    x = r.arr()
    x.lib = c.lib
    return cast(x, dtype_of(dtype))


@npf('linspace')
def np_linspace(c, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = P(num)
    s, e = P(start), P(stop)
    div = add(n, const(-1)) if endpoint else n
    st = mul(add(e, neg(s)), power(div, -1)) if div is not ZERO else ZERO
    r = Arr((mkdim(num if isinstance(num, Arr) else n),), lambda idx: add(s, mul(idx[0], st)), 'f', c.lib)
    if retstep:
        return r, scal(st, 'f')
    return r


@npf('eye', 'identity')
def np_eye(c, n, m=None, k=0, dtype=None, M=None):
    m = M if M is not None else (n if m is None else m)
    kk = P(k)
    return Arr((mkdim(n), mkdim(m)), lambda idx: eq0(add(add(idx[0], kk), neg(idx[1]))), dtype_of(dtype) or 'f', c.lib)


@npf('sum', 'nansum')
def np_sum(c, a, axis=None, dtype=None, keepdims=False, where=None, initial=None, out=None):
    a = AR(a)
    if where is not None:
        a = emap(mul, [a, AR(where)])
    return L(A.sum_arr(a, axis, keepdims), c)


def L(a, c):
    if a.lib != c.lib and c.lib == 'jnp':
        a = Arr(a.shape, a.fn, a.dtype, c.lib)
    return a


@npf('mean', 'average')
def np_mean(c, a, axis=None, keepdims=False, weights=None, dtype=None):
    a = AR(a)
    if weights is not None:
        raise Undecided('weighted average')
    n = ONE
    for k in A.norm_axes(a, axis):
        n = mul(n, a.shape[k].p)
    s = A.sum_arr(a, axis, keepdims)
    return L(emap(lambda p: mul(p, power(n, -1)), [s], 'f'), c)


@npf('prod')
def np_prod(c, a, axis=None, keepdims=False, dtype=None):
    return L(A.fold_arr(AR(a), mul, 'prod', axis, keepdims, None, ONE), c)


@npf('max', 'amax', 'nanmax')
def np_max(c, a, axis=None, keepdims=False, initial=None, out=None):
    r = A.fold_arr(AR(a), p_max, 'max', axis, keepdims)
    if initial is not None:
        r = emap(p_max, [r, asarr(initial)])
    return L(r, c)


@npf('min', 'amin', 'nanmin')
def np_min(c, a, axis=None, keepdims=False, initial=None, out=None):
    r = A.fold_arr(AR(a), p_min, 'min', axis, keepdims)
    if initial is not None:
        r = emap(p_min, [r, asarr(initial)])
    return L(r, c)


@npf('all', 'alltrue')
def np_all(c, a, axis=None, keepdims=False):
    return L(fold_all(AR(a), axis, keepdims), c)


@npf('any', 'sometrue')
def np_any(c, a, axis=None, keepdims=False):
    return L(fold_any(AR(a), axis, keepdims), c)


@npf('count_nonzero')
def np_count_nonzero(c, a, axis=None):
    return A.sum_arr(emap(A.truth, [AR(a)], 'i'), axis)


@npf('argmax')
def np_argmax(c, a, axis=None, keepdims=False):
    return argred(AR(a), 'argmax', axis)


@npf('argmin')
def np_argmin(c, a, axis=None, keepdims=False):
    return argred(AR(a), 'argmin', axis)


def argred(a, kind, axis):
    if axis is None:
        a = A.reshape(a, [-1])
        axis = 0
    axes = A.norm_axes(a, axis)
    k = axes[0]
    a = A.snapshot(a)

    def fn(idx):
        full = A.full_index(a, axes, False, idx)
        v = T.fresh_var(a.shape[k].p)
        full[k] = v
        body = a.get(tuple(full))
        return T.of_atom(T._mk('red', (kind, T.make_lam([v], [a.shape[k].p], body)),
                               frozenset(body.free - {T.the_atom(v)}), body.height + 1, is_int=True,
                               rng=(ZERO, a.shape[k].p)))
    return Arr(A.reduce_shape(a, axes, False), fn, 'i', a.lib)


def _ew(name, f, dt=None):
    def g(c, *args, out=None, where=None, dtype=None, casting=None):
        arrs = [AR(x) for x in args]
        r = emap(f, arrs, dt)
        r = Arr(r.shape, r.fn, r.dtype, c.lib if c.lib == 'jnp' else r.lib)
        if where is not None:
            w = AR(where)
            base = AR(out) if out is not None else None
            if base is None:
                raise Undecided('ufunc where without out')
            b0 = A.snapshot(base)
            r = emap(lambda cc, x, y: ite(cc, x, y), [w, r, b0], r.dtype)
        if out is not None:
            c.I.store_arr(out, r)
            return out
        return r
    NP[name] = g
    return g


def _fun(fname):
    return lambda p: T.app(fname, (p,))


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos', 'log10', 'log2', 'log1p', 'expm1'):
    _ew(_n, _fun(_n), 'f')
_ew('sqrt', lambda p: power(p, Fraction(1, 2)), 'f')
_ew('cbrt', lambda p: power(p, Fraction(1, 3)), 'f')
for _n in ('abs', 'absolute', 'fabs'):
    _ew(_n, _fun('abs'))
_ew('sign', lambda p: T.app('sign', (p,)))
_ew('square', lambda p: mul(p, p))
_ew('negative', neg)
_ew('positive', lambda p: p)
_ew('reciprocal', lambda p: power(p, -1), 'f')
_ew('floor', lambda p: p if p.is_int() else T.app('floor', (p,), is_int=True), 'f')
_ew('ceil', lambda p: p if p.is_int() else T.app('ceil', (p,), is_int=True), 'f')
_ew('rint', lambda p: p if p.is_int() else T.app('round', (p,), is_int=True), 'f')
_ew('trunc', lambda p: p if p.is_int() else T.app('trunc', (p,), is_int=True), 'f')
_ew('arctan2', lambda x, y: T.app('arctan2', (x, y)), 'f')
_ew('hypot', lambda x, y: power(add(mul(x, x), mul(y, y)), Fraction(1, 2)), 'f')
_ew('add', lambda x, y: add(x, y))
_ew('subtract', lambda x, y: add(x, neg(y)))
_ew('multiply', mul)
_ew('divide', p_div, 'f')
_ew('true_divide', p_div, 'f')
_ew('floor_divide', T.floordiv)
_ew('mod', T.mod)
_ew('remainder', T.mod)
_ew('fmod', lambda x, y: T.mod(x, y))
_ew('power', p_pow)
_ew('float_power', p_pow, 'f')
_ew('maximum', p_max)
_ew('fmax', p_max)
_ew('minimum', p_min)
_ew('fmin', p_min)
_ew('greater', CMP[ast.Gt], 'b')
_ew('greater_equal', CMP[ast.GtE], 'b')
_ew('less', CMP[ast.Lt], 'b')
_ew('less_equal', CMP[ast.LtE], 'b')
_ew('equal', CMP[ast.Eq], 'b')
_ew('not_equal', CMP[ast.NotEq], 'b')
_ew('logical_and', lambda x, y: mul(A.truth(x), A.truth(y)), 'b')
_ew('logical_or', lambda x, y: p_or(A.truth(x), A.truth(y)), 'b')
_ew('logical_not', lambda x: T.not_(A.truth(x)), 'b')
_ew('logical_xor', lambda x, y: (lambda a, b: add(add(a, b), T.scale(mul(a, b), -2)))(A.truth(x), A.truth(y)), 'b')
_ew('bitwise_and', mul)
_ew('bitwise_or', p_or)
_ew('invert', T.not_, 'b')
_ew('isfinite', lambda p: T.app(('bool', 'isfinite'), (p,), is_bool=True) if p.const() is None else ONE, 'b')
_ew('isnan', lambda p: T.app(('bool', 'isnan'), (p,), is_bool=True) if p.const() is None else ZERO, 'b')
_ew('isinf', lambda p: T.app(('bool', 'isinf'), (p,), is_bool=True) if p.const() is None else ZERO, 'b')
_ew('nan_to_num', lambda p: p)
_ew('deg2rad', lambda p: mul(p, T.scale(T.PI, Fraction(1, 180))), 'f')
_ew('radians', lambda p: mul(p, T.scale(T.PI, Fraction(1, 180))), 'f')
_ew('heaviside', lambda x, h: add(gt0(x), mul(eq0(x), h)), 'f')


@npf('round', 'around', 'round_')
def np_round(c, a, decimals=0):
    if unbox(decimals) == 0:
        return emap(lambda p: p if p.is_int() else T.app('round', (p,), is_int=True), [AR(a)])
    return emap(lambda p: p if p.is_int() else T.app('round' + str(decimals), (p,)), [AR(a)])


@npf('isclose')
def np_isclose(c, a, b, rtol=Fraction('1e-05'), atol=Fraction('1e-08'), equal_nan=False):
    rt, at = P(rtol), P(atol)

    def f(x, y):
        d = T.app('abs', (add(x, neg(y)),))
        return ge0(add(at, add(mul(rt, T.app('abs', (y,))), neg(d))))
    return L(emap(f, [AR(a), AR(b)], 'b'), c)


@npf('allclose')
def np_allclose(c, a, b, rtol=Fraction('1e-05'), atol=Fraction('1e-08'), equal_nan=False):
    return fold_all(np_isclose(c, a, b, rtol, atol))


@npf('array_equal')
def np_array_equal(c, a, b):
    return fold_all(emap(CMP[ast.Eq], [AR(a), AR(b)], 'b'))


@npf('where')
def np_where(c, cond, x=None, y=None):
    m = AR(cond)
    if x is None and y is None:
        return tuple(A.nonzero(m))
    x, y = AR(x), AR(y)
    dt = A.join_dtype(x.dtype, y.dtype)
    return L(emap(lambda cc, p, q: ite(A.truth(cc), p, q), [m, x, y], dt), c)


@npf('select')
def np_select(c, conds, choices, default=0):
    r = AR(default)
    for cc, ch in reversed(list(zip(conds, choices))):
        r = np_where(c, cc, ch, r)
    return r


@npf('clip')
def np_clip(c, a, a_min=None, a_max=None, min=None, max=None, out=None):
    a_min = a_min if a_min is not None else min
    a_max = a_max if a_max is not None else max
    r = AR(a)
    if a_min is not None:
        r = emap(p_max, [r, AR(a_min)])
    if a_max is not None:
        r = emap(p_min, [r, AR(a_max)])
    return L(r, c)


@npf('dot')
def np_dot(c, a, b):
    if isinstance(a, Model) and hasattr(a, 'binop'):
        return a.binop(c.I, ast.MatMult, b, False)
    a, b = AR(a), AR(b)
    if a.ndim == 0 or b.ndim == 0:
        return emap(mul, [a, b])
    if b.ndim <= 2 and a.ndim <= 2:
        return A.matmul(a, b)
    if b.ndim == 1:
        return A.matmul(a, b)
    return np_tensordot(c, a, b, ([a.ndim - 1], [b.ndim - 2]))


@npf('vdot')
def np_vdot(c, a, b):
    return A.sum_arr(emap(mul, [A.reshape(AR(a), [-1]), A.reshape(AR(b), [-1])]))


@npf('matmul')
def np_matmul(c, a, b):
    return L(A.matmul(AR(a), AR(b)), c)


@npf('inner')
def np_inner(c, a, b):
    a, b = AR(a), AR(b)
    if a.ndim == 0 or b.ndim == 0:
        return emap(mul, [a, b])
    return np_tensordot(c, a, b, ([a.ndim - 1], [b.ndim - 1]))


@npf('outer')
def np_outer(c, a, b):
    a, b = A.reshape(AR(a), [-1]), A.reshape(AR(b), [-1])
    return emap(mul, [A.expand_dims(a, 1), A.expand_dims(b, 0)])


@npf('tensordot')
def np_tensordot(c, a, b, axes=2):
    a, b = AR(a), AR(b)
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax = axes
        ax = [x if isinstance(x, (list, tuple)) else [x] for x in ax]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(65 + i) for i in range(b.ndim)]
    for i, j in zip(*ax):
        lb[j % b.ndim] = la[i % a.ndim]
    con = [la[i % a.ndim] for i in ax[0]]
    out = [x for x in la if x not in con] + [x for x in lb if x not in con]
    return A.einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), [a, b])


@npf('cross')
def np_cross(c, a, b, axis=-1):
    a, b = A.snapshot(AR(a)), A.snapshot(AR(b))
    if a.shape[-1].c() == 3 and b.shape[-1].c() == 3:
        def comp(x, k):
            return A.getitem(x, (Ellipsis, k))
        out = []
        for k in range(3):
            i, j = (k + 1) % 3, (k + 2) % 3
            out.append(emap(lambda p, q, r, s: add(mul(p, q), neg(mul(r, s))),
                            [comp(a, i), comp(b, j), comp(a, j), comp(b, i)]))
        return A.stack(out, -1)
    if a.shape[-1].c() == 2 and b.shape[-1].c() == 2:
        return emap(lambda p, q, r, s: add(mul(p, q), neg(mul(r, s))),
                    [A.getitem(a, (Ellipsis, 0)), A.getitem(b, (Ellipsis, 1)),
                     A.getitem(a, (Ellipsis, 1)), A.getitem(b, (Ellipsis, 0))])
    raise ProgError('cross product of sizes %s %s' % (a.shape, b.shape))


@npf('einsum')
def np_einsum(c, spec, *ops, optimize=None, precision=None):
    return L(A.einsum(spec, [AR(o) for o in ops]), c)


@npf('trace')
def np_trace(c, a, offset=0, axis1=0, axis2=1):
    a = A.snapshot(AR(a))
    ax = [axis1 % a.ndim, axis2 % a.ndim]
    d = a.shape[ax[0]]
    A.same_or_fail(d, a.shape[ax[1]], 'trace axes')
    rest = [k for k in range(a.ndim) if k not in ax]

    def fn(idx):
        out = []
        for i, b in A.pieces(d):
            full = [None] * a.ndim
            for k, x in zip(rest, idx):
                full[k] = x
            full[ax[0]] = full[ax[1]] = i
            v = a.get(tuple(full))
            out.append(T.big_sum(b, v) if b else v)
        return T.add_many(out)
    return Arr([a.shape[k] for k in rest], fn, a.dtype, a.lib)


@npf('diagonal')
def np_diagonal(c, a, offset=0, axis1=0, axis2=1):
    a = A.snapshot(AR(a))
    ax = [axis1 % a.ndim, axis2 % a.ndim]
    rest = [k for k in range(a.ndim) if k not in ax]
    d = a.shape[ax[0]]

    def fn(idx):
        full = [None] * a.ndim
        for k, x in zip(rest, idx[:-1]):
            full[k] = x
        full[ax[0]] = full[ax[1]] = idx[-1]
        return a.get(tuple(full))
    return Arr([a.shape[k] for k in rest] + [d], fn, a.dtype, a.lib)


@npf('diag')
def np_diag(c, a, k=0):
    a = A.snapshot(AR(a))
    if a.ndim == 1:
        return Arr((a.shape[0], a.shape[0]), lambda idx: mul(eq0(add(idx[0], neg(idx[1]))), a.get((idx[0],))), a.dtype, a.lib)
    return np_diagonal(c, a)


@npf('transpose', 'permute_dims')
def np_transpose(c, a, axes=None):
    return A.transpose(AR(a), None if axes is None else [A._ax(x) for x in axes])


@npf('swapaxes')
def np_swapaxes(c, a, i, j):
    a = AR(a)
    ax = list(range(a.ndim))
    i %= a.ndim
    j %= a.ndim
    ax[i], ax[j] = ax[j], ax[i]
    return A.transpose(a, ax)


@npf('moveaxis')
def np_moveaxis(c, a, s, d):
    return A.moveaxis(AR(a), s, d)


@npf('rollaxis')
def np_rollaxis(c, a, axis, start=0):
    raise Undecided('rollaxis')


@npf('reshape')
def np_reshape(c, a, newshape=None, order='C', shape=None):
    s = newshape if newshape is not None else shape
    a = AR(a)
    if order == 'F':
        return A.transpose(A.reshape(A.transpose(a), shape_arg(s)[::-1]))
    return A.reshape(a, shape_arg(s))


@npf('ravel')
def np_ravel(c, a, order='C'):
    return A.reshape(AR(a), [-1])


@npf('squeeze')
def np_squeeze(c, a, axis=None):
    return A.squeeze(AR(a), axis)


@npf('expand_dims')
def np_expand_dims(c, a, axis):
    a = AR(a)
    if isinstance(axis, (list, tuple)):
        n = a.ndim + len(axis)
        for x in sorted(y % n for y in axis):
            a = A.expand_dims(a, x)
        return a
    return A.expand_dims(a, axis)


@npf('atleast_1d')
def np_atleast_1d(c, a):
    a = AR(a)
    return a if a.ndim else A.expand_dims(a, 0)


@npf('atleast_2d')
def np_atleast_2d(c, a):
    a = AR(a)
    while a.ndim < 2:
        a = A.expand_dims(a, 0)
    return a


@npf('broadcast_to')
def np_broadcast_to(c, a, shape):
    return A.broadcast_to(AR(a), shape_arg(shape))


@npf('broadcast_arrays')
def np_broadcast_arrays(c, *xs):
    xs = [AR(x) for x in xs]
    sh = A.bshape([x.shape for x in xs])
    return [A.broadcast_to(x, sh) for x in xs]


def seq_items(I, xs):
    """Items of a sequence of arrays."""
    if isinstance(xs, Arr):
        n = xs.shape[0].c()
        if n is None:
            return xs
        return [A.getitem(xs, (k,)) for k in range(n)]
    if isinstance(xs, (list, tuple)):
        if len(xs) == 1 and isinstance(xs[0], SymSeq):
            return asarr_seq(xs[0])
        if any(isinstance(x, SymSeq) for x in xs):
            raise Undecided('mixed symbolic sequence')
        return [AR(x) for x in xs]
    its = I.iter_spec(xs)
    if isinstance(its, list):
        return [AR(x) for x in its]
    raise Undecided('sequence of arrays')


def _merge_lead(x, axis):
    """Concatenate the entries of a stacked array along an axis."""
    x = A.moveaxis(x, 0, axis)
    sh = list(x.shape)
    new = sh[:axis] + [A.prod_dim([sh[axis], sh[axis + 1]])] + sh[axis + 2:]
    return A.reshape(x, new)


@npf('concatenate', 'concat')
def np_concatenate(c, xs, axis=0, dtype=None):
    its = seq_items(c.I, xs)
    if isinstance(its, Arr):
        return _merge_lead(its, axis % (its.ndim - 1))
    if axis is None:
        return L(A.concat([A.reshape(x, [-1]) for x in its], 0), c)
    return L(A.concat(its, A._ax(axis)), c)


@npf('stack')
def np_stack(c, xs, axis=0):
    its = seq_items(c.I, xs)
    if isinstance(its, Arr):
        return A.moveaxis(its, 0, axis)
    return L(A.stack(its, A._ax(axis)), c)


@npf('vstack', 'row_stack')
def np_vstack(c, xs):
    its = seq_items(c.I, xs)
    if isinstance(its, Arr):
        return _merge_lead(its, 0) if its.ndim > 2 else its
    its = [np_atleast_2d(c, x) for x in its]
    return L(A.concat(its, 0), c)


@npf('hstack')
def np_hstack(c, xs):
    its = seq_items(c.I, xs)
    if isinstance(its, Arr):
        return _merge_lead(its, 0 if its.ndim == 2 else 1)
    its = [np_atleast_1d(c, x) for x in its]
    return L(A.concat(its, 0 if its and its[0].ndim == 1 else 1), c)


@npf('dstack')
def np_dstack(c, xs):
    its = [AR(x) for x in seq_items(c.I, xs)]
    its = [A.expand_dims(A.expand_dims(x, 0), 2) if x.ndim == 1 else A.expand_dims(x, 2) if x.ndim == 2 else x for x in its]
    return A.concat(its, 2)


@npf('column_stack')
def np_column_stack(c, xs):
    its = seq_items(c.I, xs)
    return A.concat([A.expand_dims(x, 1) if x.ndim == 1 else x for x in its], 1)


@npf('append')
def np_append(c, a, v, axis=None):
    a, v = AR(a), AR(v)
    if axis is None:
        return A.concat([A.reshape(a, [-1]), A.reshape(v, [-1])], 0)
    return A.concat([a, v], axis)


@npf('split', 'array_split', 'hsplit', 'vsplit')
def np_split(c, a, ind, axis=0):
    a = AR(a)
    axis %= a.ndim
    n = a.shape[axis].p
    out = []
    if isinstance(unbox(ind) if not isinstance(ind, (list, tuple)) else ind, int):
        k = unbox(ind)
        m = A.exact_div(n, const(k))
        if m is None:
            raise Undecided('split of %s into %d' % (T.show(n), k))
        bounds = [mul(m, const(i)) for i in range(k + 1)]
    else:
        if isinstance(ind, Arr):
            ind = to_list(ind)
        bounds = [ZERO]
        for x in ind:
            p = P(x)
            if not T.lower_nonneg(add(n, neg(p))):
                if T.lower_nonneg(add(p, neg(n))):
                    p = n
            bounds.append(p)
        bounds.append(n)
    for s, e in zip(bounds, bounds[1:]):
        if not T.lower_nonneg(add(e, neg(s))):
            e = s
        out.append(A.take_slice(a, axis, s, e))
    return out


@npf('repeat')
def np_repeat(c, a, repeats, axis=None, total_repeat_length=None):
    r = repeats
    if isinstance(r, Arr) and r.shape:
        raise Undecided('repeat with array counts')
    return L(A.repeat(AR(a), r, axis), c)


@npf('tile')
def np_tile(c, a, reps):
    return L(A.tile(AR(a), shape_arg(reps) if isinstance(reps, (list, tuple)) else reps), c)


def check_bounds(d, ind):
    """definitely out-of-range constant indices of a small index array"""
    cs = [x.c() for x in ind.shape]
    if d.c() is None or any(x is None for x in cs) or math.prod(cs) > 64:
        return
    for ii in itertools.product(*[range(x) for x in cs]):
        v = ind.get(tuple(const(k) for k in ii)).const()
        if v is not None and not -d.c() <= v < d.c():
            raise PyRaise('IndexError: index %s is out of bounds for axis with size %d' % (v, d.c()))


@npf('take')
def np_take(c, a, ind, axis=None, mode=None, out=None, unique_indices=False, indices_are_sorted=False, fill_value=None):
    ind = AR(ind)
    if ind.dtype == 'f' and not all(d.c() == 0 for d in ind.shape):
        raise PyRaise('TypeError: take with float indices')
    if c.lib == 'np' and mode in (None, 'raise') and axis is not None and A.asarr(AR(a)).ndim:
        check_bounds(A.asarr(AR(a)).shape[A._ax(axis)], ind)
    r = L(A.take(AR(a), ind, None if axis is None else A._ax(axis), None), c)
    if c.lib == 'np' and isinstance(r, Arr) and A.asarr(AR(a)).lib == 'np':
        r.lib = 'np'
    return r


@npf('ndindex')
def np_ndindex(c, *sh):
    if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
        sh = tuple(sh[0])
    cs = [mkdim(AR(x).scalar()).c() for x in sh]
    if any(x is None for x in cs) or math.prod(cs) > 512:
        raise Undecided('symbolic ndindex')
    return [tuple(x) for x in itertools.product(*[range(x) for x in cs])]


@npf('take_along_axis')
def np_take_along_axis(c, a, ind, axis):
    a, ind = A.snapshot(AR(a)), A.snapshot(AR(ind))
    axis %= a.ndim

    def fn(idx):
        j = ind.get(A.bidx(ind.shape, idx))
        return a.get(tuple(j if k == axis else (ZERO if a.shape[k].c() == 1 else x) for k, x in enumerate(idx)))
    sh = list(A.bshape([a.shape[:axis] + (A.D1,) + a.shape[axis + 1:], ind.shape]))
    sh[axis] = ind.shape[axis]
    return Arr(sh, fn, a.dtype, a.lib)


@npf('roll')
def np_roll(c, a, shift, axis=None):
    return L(A.roll(AR(a), shift, axis), c)


@npf('pad')
def np_pad(c, a, widths, mode='constant', constant_values=0):
    if isinstance(constant_values, (list, tuple)):
        raise Undecided('pad values')
    return L(A.pad(AR(a), widths if not isinstance(widths, Arr) else to_list(widths), mode, P(constant_values)), c)


@npf('diff')
def np_diff(c, a, n=1, axis=-1, prepend=None, append=None):
    a = AR(a)
    if prepend is not None or append is not None:
        parts = []
        ax = axis % a.ndim
        for x in (prepend, a, append):
            if x is None:
                continue
            x = AR(x)
            if x.ndim == 0:
                sh = list(a.shape)
                sh[ax] = A.D1
                x = A.broadcast_to(x, sh)
            parts.append(x)
        a = A.concat(parts, ax)
    return A.diff_arr(a, n, axis)


@npf('flip')
def np_flip(c, a, axis=None):
    return A.flip(AR(a), axis)


@npf('fliplr')
def np_fliplr(c, a):
    return A.flip(AR(a), 1)


@npf('flipud')
def np_flipud(c, a):
    return A.flip(AR(a), 0)


@npf('cumsum')
def np_cumsum(c, a, axis=None, dtype=None):
    a = AR(a)
    if axis is None:
        a = A.reshape(a, [-1])
        axis = 0
    axis %= a.ndim
    a = A.snapshot(a)

    def fn(idx):
        i = idx[axis]
        ci = i.const()
        if ci is not None and ci <= 64:
            return T.add_many([a.get(idx[:axis] + (const(k),) + idx[axis + 1:]) for k in range(int(ci) + 1)])
        n = add(i, ONE)
        v = T.fresh_var(n)
        return T.big_sum([(v, n)], a.get(idx[:axis] + (v,) + idx[axis + 1:]))
    return Arr(a.shape, fn, 'i' if a.dtype == 'b' else a.dtype, a.lib)


@npf('cumprod')
def np_cumprod(c, a, axis=None):
    raise Undecided('cumprod')


@npf('argwhere')
def np_argwhere(c, a, size=None):
    m = AR(a)
    cols = A.nonzero(m)
    if m.ndim == 0:
        raise Undecided('argwhere of scalar')
    r = A.stack(cols, 1)
    r.lib = c.lib
    return r


@npf('nonzero')
def np_nonzero(c, a):
    return tuple(A.nonzero(AR(a)))


@npf('flatnonzero')
def np_flatnonzero(c, a):
    return A.nonzero(A.reshape(AR(a), [-1]))[0]


@npf('extract')
def np_extract(c, cond, a):
    return A.getitem(A.reshape(AR(a), [-1]), (A.reshape(AR(cond), [-1]),))


@npf('meshgrid')
def np_meshgrid(c, *xs, indexing='xy', sparse=False):
    xs = [A.reshape(AR(x), [-1]) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == 'xy' and n >= 2:
        order[0], order[1] = 1, 0
    # result axis k runs over input order[k]
    sh = [xs[order[k]].shape[0] for k in range(n)]
    out = []
    for j in range(n):
        ax = order.index(j)
        out.append(Arr(sh, (lambda x, ax: lambda idx: x.get((idx[ax],)))(xs[j], ax), xs[j].dtype, c.lib))
    return out


@npf('ix_')
def np_ix_(c, *xs):
    xs = [AR(x) for x in xs]
    n = len(xs)
    out = []
    for k, x in enumerate(xs):
        if x.dtype == 'b':
            x = A.nonzero(x)[0]
        out.append(A.reshape(x, [1] * k + [x.shape[0]] + [1] * (n - k - 1)))
    return tuple(out)


@npf('indices')
def np_indices(c, dims):
    ds = shape_arg(dims)
    n = len(ds)
    return Arr([n] + [mkdim(d) for d in ds], lambda idx: A.pick(idx[0], list(idx[1:])) if idx[0].const() is None
               else idx[1 + int(idx[0].const())], 'i', c.lib)


@npf('linalg.norm')
def np_norm(c, a, ord=None, axis=None, keepdims=False):
    a = AR(a)
    if ord is not None and unbox(ord) not in (2, 'fro'):
        o = unbox(ord)
        if isinstance(ord, Opaque) and getattr(ord, 'isinf', False):
            return A.fold_arr(emap(_fun('abs'), [a]), p_max, 'max', axis, keepdims)
        if o == 1:
            return A.sum_arr(emap(_fun('abs'), [a]), axis, keepdims)
        raise Undecided('norm order')
    s = A.sum_arr(emap(lambda p: mul(p, p), [a]), axis, keepdims)
    return L(emap(lambda p: power(p, Fraction(1, 2)), [s], 'f'), c)


@npf('linalg.det')
def np_det(c, a):
    a = A.snapshot(AR(a))
    n = a.shape[-1]
    A.same_or_fail(a.shape[-2], n, 'det axes')

    def fn(idx):
        if n.c() == 1:
            return a.get(idx + (ZERO, ZERO))
        v = [T.fresh_var(n.p), T.fresh_var(n.p)]
        return T.app('det', (T.make_lam(v, [n.p, n.p], a.get(idx + (v[0], v[1]))),))
    return Arr(a.shape[:-2], fn, 'f', c.lib)


@npf('linalg.inv')
def np_inv(c, a):
    return L(A.inv(AR(a)), c)


@npf('linalg.solve')
def np_solve(c, M, b):
    M, b = AR(M), AR(b)
    iv = A.inv(M)
    return A.matmul(iv, b)


@npf('linalg.eigh')
def np_eigh(c, a):
    a = A.snapshot(AR(a))
    n = a.shape[-1]

    def lam(idx):
        v = [T.fresh_var(n.p), T.fresh_var(n.p)]
        return T.make_lam(v, [n.p, n.p], a.get(idx + (v[0], v[1])))
    w = Arr(a.shape[:-1], lambda idx: T.app('eigval', (lam(idx[:-1]),), (idx[-1],)), 'f', c.lib)
    V = Arr(a.shape, lambda idx: T.app('eigvec', (lam(idx[:-2]),), (idx[-2], idx[-1])), 'f', c.lib)
    return w, V


@npf('sort')
def np_sort(c, a, axis=-1):
    a = A.snapshot(AR(a))
    if a.ndim != 1:
        raise Undecided('sort')
    vals = const_list(a)
    if vals is not None:
        return A.from_seq(sorted(vals))
    l = A.tlam(a)
    return Arr(a.shape, lambda idx: T.app('sort', (l,), idx, is_int=a.dtype == 'i'), a.dtype, a.lib)


@npf('argsort')
def np_argsort(c, a, axis=-1, kind=None, stable=None):
    a = A.snapshot(AR(a))
    if a.ndim != 1:
        raise Undecided('argsort')
    vals = const_list(a)
    if vals is not None:
        return A.from_ints(sorted(range(len(vals)), key=lambda i: vals[i]))
    l = A.tlam(a)
    return Arr(a.shape, lambda idx: T.app('argsort', (l,), idx, is_int=True, rng=(ZERO, a.shape[0].p)), 'i', a.lib)


def const_list(a):
    if a.ndim != 1 or a.shape[0].c() is None:
        return None
    out = []
    for k in range(a.shape[0].c()):
        v = a.get((const(k),)).const()
        if v is None:
            return None
        out.append(int(v) if a.dtype == 'i' else v)
    return out


@npf('unique')
def np_unique(c, a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = A.reshape(AR(a), [-1])
    vals = const_list(a)
    if vals is not None and not (return_index or return_inverse or return_counts):
        return A.from_seq(sorted(set(vals))) if vals else a
    if return_index or return_inverse or return_counts:
        raise Undecided('unique with indices')
    l = A.tlam(a)
    n = T.app('nunique', (l,), is_int=True, rng=(ONE, None))
    rng = None
    return Arr((n,), lambda idx: T.app('unique', (l,), idx, is_int=a.dtype == 'i'), a.dtype, a.lib)


@npf('isin', 'in1d')
def np_isin(c, a, b, assume_unique=False, invert=False):
    a, b = A.snapshot(AR(a)), A.reshape(AR(b), [-1])
    r = fold_any(emap(CMP[ast.Eq], [Arr(a.shape + (A.D1,), lambda idx: a.get(idx[:-1]), a.dtype, a.lib), b], 'b'), -1)
    return emap(T.not_, [r], 'b') if invert else r


@npf('searchsorted')
def np_searchsorted(c, a, v, side='left'):
    a = A.snapshot(AR(a))
    v = AR(v)
    f = CMP[ast.Lt] if side == 'left' else CMP[ast.LtE]
    x = Arr(v.shape + (a.shape[0],), lambda idx: f(a.get((idx[-1],)), v.get(idx[:-1])), 'i', c.lib)
    return A.sum_arr(x, -1)


@npf('size')
def np_size(c, a, axis=None):
    a = AR(a)
    return dimval(A.prod_dim(a.shape)) if axis is None else dimval(a.shape[axis])


@npf('shape')
def np_shape(c, a):
    return tuple(dimval(d) for d in AR(a).shape)


@npf('ndim')
def np_ndim(c, a):
    return AR(a).ndim


@npf('isscalar')
def np_isscalar(c, a):
    return isinstance(a, (int, Fraction, str)) or (isinstance(a, Arr) and not a.shape)


@npf('finfo')
def np_finfo(c, t):
    class F(Model):
        def attr(self, I, name):
            return scal(T.sym('finfo_' + name, positive=True), 'f')
    return F()


@npf('iinfo')
def np_iinfo(c, t):
    return Opaque('iinfo')


@npf('std')
def np_std(c, a, axis=None, ddof=0):
    return emap(lambda p: power(p, Fraction(1, 2)), [np_var(c, a, axis, ddof)], 'f')


@npf('var')
def np_var(c, a, axis=None, ddof=0):
    a = AR(a)
    m = np_mean(c, a, axis, True)
    d = emap(lambda x, y: power(add(x, neg(y)), 2), [a, m])
    n = ONE
    for k in A.norm_axes(a, axis):
        n = mul(n, a.shape[k].p)
    return emap(lambda p: mul(p, power(add(n, const(-ddof)), -1)), [A.sum_arr(d, axis)], 'f')


@npf('tril')
def np_tril(c, a, k=0):
    a = A.snapshot(AR(a))
    return Arr(a.shape, lambda idx: mul(ge0(add(add(idx[-2], const(k)), neg(idx[-1]))), a.get(idx)), a.dtype, a.lib)


@npf('triu')
def np_triu(c, a, k=0):
    a = A.snapshot(AR(a))
    return Arr(a.shape, lambda idx: mul(ge0(add(idx[-1], neg(add(idx[-2], const(k))))), a.get(idx)), a.dtype, a.lib)


@npf('vectorize')
def np_vectorize(c, f, **kw):
    def g(I, a, k):
        arrs = [AR(x) for x in a]
        sh = A.bshape([x.shape for x in arrs])
        vs = [T.fresh_var(d.p) for d in sh]
        r = asarr(I.call(f, [scal(x.get(A.bidx(x.shape, tuple(vs))), x.dtype) for x in arrs]))
        p = r.scalar()
        return Arr(sh, lambda idx: T.subst(p, {T.the_atom(v): i for v, i in zip(vs, idx)}), r.dtype, 'np')
    return PyFn(g)


@npf('conj', 'real', 'float64', 'asfarray')
def np_conj(c, a):
    return AR(a) if not isinstance(a, (int, Fraction)) else Fraction(a)


@npf('ndenumerate')
def np_ndenumerate(c, a):
    raise Undecided('ndenumerate')


@npf('unravel_index')
def np_unravel(c, i, shape):
    ds = [P(x) for x in shape_arg(shape)]
    i = AR(i)
    out = []
    for k in range(len(ds)):
        stride = ONE
        for d in ds[k + 1:]:
            stride = mul(stride, d)
        if k == 0:
            out.append(emap(lambda p, s=stride: T.floordiv(p, s), [i]))
        else:
            out.append(emap(lambda p, s=stride, d=ds[k]: T.mod(T.floordiv(p, s), d), [i]))
    return tuple(out)


@npf('ravel_multi_index')
def np_rmi(c, idx, shape):
    ds = [P(x) for x in shape_arg(shape)]
    r = asarr(0)
    for x, d in zip(idx, ds):
        r = emap(lambda a, b, d=d: add(mul(a, d), b), [r, AR(x)])
    return r


@npf('interp')
def np_interp(c, x, xp, fp):
    raise Undecided('interp')


@npf('delete')
def np_delete(c, a, obj, axis=None):
    raise Undecided('delete')


@npf('nanmean', 'median', 'percentile', 'histogram', 'polyfit')
def np_und(c, *a, **k):
    raise Undecided('statistics')


@npf('add.at')
def np_add_at(c, a, idx, v):
    c.I.store_arr(a, A.at_update(a, idx, v, 'add'))


@npf('put')
def np_put(c, a, idx, v):
    raise Undecided('put')


@npf('fill_diagonal')
def np_fill_diag(c, a, v):
    p = P(v)
    b = A.snapshot(a)
    c.I.store_arr(a, Arr(a.shape, lambda idx: ite(eq0(add(idx[0], neg(idx[1]))), p, b.get(idx)), a.dtype, a.lib))


# --------------------------------------------------------------------------
# JAX and others: EXT[path] = f(I, args, kw)

EXT = {}


def ext(*names):
    def dec(f):
        for n in names:
            EXT[n] = f
        return f
    return dec


@ext('jax.jit', 'jax.checkpoint', 'jax.remat', 'jax.named_call', 'jax.named_scope')
def x_jit(I, a, k):
    if not a:
        return PyFn(lambda I, b, kk: b[0])
    I.event('jit', 'jit', a, k)
    return a[0]


@ext('functools.partial')
def x_partial(I, a, k):
    f, pre = a[0], a[1:]

    def g(I, b, kk):
        d = dict(k)
        d.update(kk)
        return I.call(f, list(pre) + list(b), d)
    return PyFn(g, 'partial', {'func': f})


@ext('functools.wraps', 'functools.update_wrapper')
def x_wraps(I, a, k):
    return PyFn(lambda I, b, kk: b[0])


@ext('functools.lru_cache', 'functools.cache')
def x_lru(I, a, k):
    if a and isinstance(a[0], (FuncV, BoundV)):
        return a[0]
    return PyFn(lambda I, b, kk: b[0])


@ext('functools.reduce')
def x_reduce(I, a, k):
    items = I.iterate(a[1])
    if len(a) > 2:
        r = a[2]
    else:
        r = items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x])
    return r


@ext('dataclasses.dataclass')
def x_dataclass(I, a, k):
    def mark(c):
        c.dataclass = True
        return c
    if a:
        return mark(a[0])
    return PyFn(lambda I, b, kk: mark(b[0]))


@ext('dataclasses.field')
def x_field(I, a, k):
    if 'default' in k:
        return k['default']
    if 'default_factory' in k:
        return I.call(k['default_factory'], [])
    return None


def batch_leaf(x, ax, b):
    if ax is None:
        return x
    if isinstance(x, (int, Fraction)):
        raise PyRaise('ValueError: vmap over a scalar')
    x = asarr(x)
    if not x.shape:
        raise PyRaise('ValueError: vmap was requested to map an axis of a scalar')
    if ax < -x.ndim or ax >= x.ndim:
        raise PyRaise('ValueError: vmap axis out of range')
    ax %= x.ndim
    y = A.snapshot(x)
    sh = [d for k, d in enumerate(x.shape) if k != ax]
    return Arr(sh, lambda idx: y.get(idx[:ax] + (b,) + idx[ax:]), x.dtype, 'jnp')


def tree_zip(f, x, ax):
    if ax is None or isinstance(ax, int):
        return map_tree(lambda y: f(y, ax) if y is not None else None, x)
    if isinstance(x, (tuple, list)):
        if len(x) != len(ax):
            raise PyRaise('ValueError: vmap in_axes must match the arguments')
        r = [tree_zip(f, y, a) for y, a in zip(x, ax)]
        return tuple(r) if isinstance(x, tuple) else r
    if isinstance(x, dict):
        return {k: tree_zip(f, v, ax[k]) for k, v in x.items()}
    raise Undecided('vmap axes')


@ext('jax.vmap', 'jax.pmap')
def x_vmap(I, a, k):
    f = a[0]
    in_axes = a[1] if len(a) > 1 else k.get('in_axes', 0)
    out_axes = a[2] if len(a) > 2 else k.get('out_axes', 0)
    if isinstance(in_axes, list):
        in_axes = tuple(in_axes)

    def g(I, args, kw):
        args = tuple(map_tree(lambda x: x, tuple(args)))
        size = [None]

        def see(x, ax):
            if ax is None:
                return x
            if isinstance(x, (int, Fraction)):
                raise PyRaise('ValueError: vmap over a scalar argument')
            if isinstance(x, Model):
                raise Undecided('vmap over %r' % x)
            x = AR(x)
            if not x.shape:
                raise PyRaise('ValueError: vmap over a rank-0 array')
            if ax < -x.ndim or ax >= x.ndim:
                raise PyRaise('ValueError: vmap axis out of range')
            d = x.shape[ax]
            if size[0] is None:
                size[0] = d
            elif size[0].p is not d.p:
                raise PyRaise('ValueError: vmap got inconsistent sizes %s and %s' % (size[0], d))
            elif d.parts and not size[0].parts:
                size[0] = d
            return x
        tree_zip(see, args, in_axes if not isinstance(in_axes, tuple) else in_axes)
        if kw:
            tree_zip(see, kw, 0)
        if size[0] is None:
            raise PyRaise('ValueError: vmap needs at least one mapped argument')
        n = size[0]
        b = T.fresh_var(n.p)
        va = T.the_atom(b)
        # a decomposed index keeps later reshapes simple
        bargs = tree_zip(lambda x, ax: batch_leaf(x, ax, b), args, in_axes)
        bkw = tree_zip(lambda x, ax: batch_leaf(x, ax, b), kw, 0) if kw else {}
        out = I.call(f, list(bargs), bkw)

        def unb(x, ax):
            if x is None:
                return None
            if isinstance(x, Opaque):
                return x
            if not isinstance(x, (Arr, int, Fraction)):
                raise Undecided('vmap output %s' % type(x).__name__)
            y = A.snapshot(asarr(x))
            for d in y.shape:
                if va in d.p.free:
                    raise PyRaise('ConcretizationTypeError: vmapped shape depends on data')
            if ax is None:
                return Arr(y.shape, lambda idx: T.subst(y.get(idx), {va: ZERO}), y.dtype, 'jnp')
            m = y.ndim + 1
            ax %= m
            sh = list(y.shape)
            sh.insert(ax, n)
            return Arr(sh, lambda idx: T.subst(y.get(idx[:ax] + idx[ax + 1:]), {va: idx[ax]}), y.dtype, 'jnp')
        return tree_zip(unb, out, out_axes)
    return PyFn(g, 'vmap', {'func': f})


def perturb(x, t, eps):
    x = asarr(x)
    if x.dtype != 'f' and not isinstance(x, Arr):
        return x
    y = A.snapshot(x)
    t = A.snapshot(asarr(t))
    if len(t.shape) != len(y.shape) or any(p.p is not q.p for p, q in zip(t.shape, y.shape)):
        raise PyRaise('TypeError: primal and tangent shapes differ: %s vs %s' % (y.shape, t.shape))
    return Arr(y.shape, lambda idx: add(y.get(idx), mul(eps, t.get(idx))), 'f', 'jnp')


def d_eps(x, eps):
    """(value at 0, derivative at 0) of an output leaf."""
    ea = T.the_atom(eps)
    y = A.snapshot(asarr(x))
    v = Arr(y.shape, lambda idx: T.subst(y.get(idx), {ea: ZERO}), y.dtype, 'jnp')
    d = Arr(y.shape, lambda idx: T.subst(T.diff(y.get(idx), ea), {ea: ZERO}), 'f', 'jnp')
    return v, d


def fresh_eps():
    T._fresh[0] += 1
    return T.sym('eps%d' % T._fresh[0])


def tree2(f, x, t):
    if isinstance(x, (tuple, list)):
        if not isinstance(t, (tuple, list)) or len(x) != len(t):
            raise PyRaise('TypeError: tree structures differ')
        r = [tree2(f, a, b) for a, b in zip(x, t)]
        return tuple(r) if isinstance(x, tuple) else r
    if isinstance(x, dict):
        return {k: tree2(f, x[k], t[k]) for k in x}
    return f(x, t)


@ext('jax.jvp')
def x_jvp(I, a, k):
    f, prim, tan = a[:3]
    eps = fresh_eps()
    ps = tree2(lambda x, t: perturb(x, t, eps), tuple(prim), tuple(tan))
    out = I.call(f, list(ps))
    pr = map_tree(lambda x: d_eps(x, eps)[0] if x is not None else None, out)
    tg = map_tree(lambda x: d_eps(x, eps)[1] if x is not None else None, out)
    return pr, tg


def delta_arr(x, J):
    y = asarr(x)

    def fn(idx):
        p = ONE
        for i, j in zip(idx, J):
            p = mul(p, eq0(add(i, neg(j))))
        return p
    return Arr(y.shape, fn, 'f', 'jnp')


def flatten_tree(x):
    """-> leaves, rebuild"""
    ls = []

    def rec(y):
        if isinstance(y, (tuple, list)):
            return [type(y), [rec(z) for z in y]]
        if isinstance(y, dict):
            return [dict, {k: rec(v) for k, v in y.items()}]
        ls.append(y)
        return len(ls) - 1

    s = rec(x)

    def build(vals, t=s):
        if isinstance(t, int):
            return vals[t]
        if t[0] is dict:
            return {k: build(vals, v) for k, v in t[1].items()}
        r = [build(vals, z) for z in t[1]]
        return tuple(r) if t[0] is tuple else r
    return ls, build


def jac_leaf(I, f, args, argno, leaf_i, aux=False):
    """Derivative of all outputs w.r.t. one leaf of args[argno]; returns
    (J vars, out tree with entries dOut/dleaf[J])."""
    ls, build = flatten_tree(args[argno])
    x = asarr(ls[leaf_i])
    eps = fresh_eps()
    J = [T.fresh_var(d.p) for d in x.shape]
    px = perturb(x, delta_arr(x, J), eps)
    ls2 = list(ls)
    ls2[leaf_i] = px
    args2 = list(args)
    args2[argno] = build(ls2)
    out = I.call(f, args2)
    return x, J, eps, out


def x_grad_like(has_value):
    def mk(I, a, k):
        f = a[0]
        argnums = a[1] if len(a) > 1 else k.get('argnums', 0)
        aux = k.get('has_aux', False)

        def g(I, args, kw):
            ff = (lambda: None)
            fn = PyFn(lambda I, b, kk: I.call(f, b, dict(kw)))
            nums = [argnums] if isinstance(argnums, int) else list(argnums)
            val = I.call(fn, list(args)) if has_value else None
            grads = []
            for n in nums:
                ls, build = flatten_tree(args[n])
                gl = []
                for i in range(len(ls)):
                    x, J, eps, out = jac_leaf(I, fn, list(args), n, i)
                    if aux:
                        out = out[0]
                    out = asarr(out)
                    if out.shape and any(d.c() != 1 for d in out.shape):
                        raise PyRaise('TypeError: gradient only defined for scalar-output functions')
                    _, d = d_eps(out, eps)
                    p = d.scalar()
                    at = [T.the_atom(j) for j in J]
                    gl.append(Arr(x.shape, (lambda p, at: lambda idx: T.subst(p, dict(zip(at, idx))))(p, at), 'f', 'jnp'))
                grads.append(build(gl))
            gr = grads[0] if isinstance(argnums, int) else tuple(grads)
            if has_value:
                return val, gr
            return gr
        return PyFn(g, 'grad')
    return mk


EXT['jax.grad'] = x_grad_like(False)
EXT['jax.value_and_grad'] = x_grad_like(True)


@ext('jax.jacfwd', 'jax.jacrev', 'jax.jacobian')
def x_jac(I, a, k):
    f = a[0]
    argnums = a[1] if len(a) > 1 else k.get('argnums', 0)

    def g(I, args, kw):
        fn = PyFn(lambda I, b, kk: I.call(f, b, dict(kw)))
        nums = [argnums] if isinstance(argnums, int) else list(argnums)
        res = []
        for n in nums:
            ls, build = flatten_tree(args[n])
            if len(ls) != 1:
                raise Undecided('jacobian w.r.t. a tree')
            x, J, eps, out = jac_leaf(I, fn, list(args), n, 0)
            at = [T.the_atom(j) for j in J]

            def conv(o):
                _, d = d_eps(o, eps)
                m = d.ndim
                return Arr(d.shape + x.shape, lambda idx: T.subst(d.get(idx[:m]), dict(zip(at, idx[m:]))), 'f', 'jnp')
            res.append(map_tree(conv, out))
        return res[0] if isinstance(argnums, int) else tuple(res)
    return PyFn(g, 'jac')


@ext('jax.hessian')
def x_hess(I, a, k):
    return x_jac(I, [x_jac(I, a, k)], k)


@ext('jax.vjp')
def x_vjp(I, a, k):
    f, prim = a[0], list(a[1:])
    y = I.call(f, prim)

    def pull(I, b, kk):
        v = b[0]
        res = []
        for n in range(len(prim)):
            ls, build = flatten_tree(prim[n])
            gl = []
            for i in range(len(ls)):
                x, J, eps, out = jac_leaf(I, f, prim, n, i)
                at = [T.the_atom(j) for j in J]
                ol, _ = flatten_tree(out)
                vl, _ = flatten_tree(v)
                if len(ol) != len(vl):
                    raise PyRaise('TypeError: cotangent structure')
                terms_ = []
                for o, w in zip(ol, vl):
                    _, d = d_eps(o, eps)
                    w = asarr(w)
                    if len(w.shape) != len(d.shape) or any(p.p is not q.p for p, q in zip(w.shape, d.shape)):
                        raise PyRaise('ValueError: cotangent shape %s does not match output %s' % (w.shape, d.shape))
                    terms_.append(A.sum_arr(emap(mul, [d, w])).scalar())
                p = T.add_many(terms_)
                gl.append(Arr(x.shape, (lambda p, at: lambda idx: T.subst(p, dict(zip(at, idx))))(p, at), 'f', 'jnp'))
            res.append(build(gl))
        return tuple(res)
    return y, PyFn(pull, 'pullback')


@ext('jax.linearize')
def x_linearize(I, a, k):
    f, prim = a[0], tuple(a[1:])
    y = I.call(f, list(prim))
    return y, PyFn(lambda I, b, kk: x_jvp(I, [f, prim, tuple(b)], {})[1])


class CustomVJP(Model):
    def __init__(self, f):
        self.f = f
        self.fwd = None
        self.bwd = None

    def attr(self, I, name):
        if name in ('defvjp', 'defjvp'):
            def d(I, a, k):
                if len(a) == 2:
                    self.fwd, self.bwd = a
                else:
                    self.fwd = a[0]
            return PyFn(d)
        return I.getattr(self.f, name)

    def call(self, I, a, k):
        return I.call(self.f, a, k)


@ext('jax.custom_vjp', 'jax.custom_jvp')
def x_custom(I, a, k):
    return CustomVJP(a[0])


@ext('jax.tree_map', 'jax.tree_util.tree_map', 'jax.tree.map')
def x_tree_map(I, a, k):
    f = a[0]

    def rec(xs):
        x = xs[0]
        if isinstance(x, (tuple, list)):
            r = [rec([y[i] for y in xs]) for i in range(len(x))]
            return tuple(r) if isinstance(x, tuple) else r
        if isinstance(x, dict):
            return {kk: rec([y[kk] for y in xs]) for kk in x}
        if x is None:
            return None
        return I.call(f, xs)
    return rec(list(a[1:]))


@ext('jax.tree_util.tree_leaves', 'jax.tree_leaves')
def x_tree_leaves(I, a, k):
    return leaves(a[0])


@ext('jax.tree_util.tree_flatten', 'jax.tree_flatten')
def x_tree_flatten(I, a, k):
    ls, build = flatten_tree(a[0])
    return ls, PyFn(lambda I, b, kk: build(b[0]))


@ext('jax.tree_util.tree_unflatten', 'jax.tree_unflatten')
def x_tree_unflatten(I, a, k):
    return I.call(a[0], [list(a[1])])


@ext('jax.flatten_util.ravel_pytree')
def x_ravel(I, a, k):
    ls, build = flatten_tree(a[0])
    ls = [asarr(x) for x in ls]
    flat = A.concat([A.reshape(x, [-1]) for x in ls], 0)
    sizes = [A.prod_dim(x.shape) for x in ls]

    def un(I, b, kk):
        o = ZERO
        out = []
        for x, s in zip(ls, sizes):
            out.append(A.reshape(A.take_slice(b[0], 0, o, add(o, s.p)), list(x.shape)))
            o = add(o, s.p)
        return build(out)
    return flat, PyFn(un)


@ext('jax.device_put', 'jax.lax.stop_gradient', 'jax.device_get', 'jax.block_until_ready')
def x_device_put(I, a, k):
    return map_tree(lambda x: Arr(x.shape, A.snapshot(x).fn, x.dtype, 'jnp') if isinstance(x, Arr) else x, a[0])


@ext('jax.lax.cond')
def x_cond(I, a, k):
    p, tf, ff = a[0], a[1], a[2]
    ops = list(a[3:])
    if 'operand' in k:
        ops = [k['operand']]
    c = I.truth(p)
    if c is ONE:
        return I.call(tf, ops)
    if c is ZERO:
        return I.call(ff, ops)
    I.guards.append(c)
    try:
        x = I.call(tf, ops)
    finally:
        I.guards.pop()
    I.guards.append(T.not_(c))
    try:
        y = I.call(ff, ops)
    finally:
        I.guards.pop()
    return join_tree(I, c, x, y)


def join_tree(I, c, x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
        if len(x) != len(y):
            raise PyRaise('TypeError: branches return different structures')
        r = [join_tree(I, c, p, q) for p, q in zip(x, y)]
        return tuple(r) if isinstance(x, tuple) else r
    if isinstance(x, (int, Fraction, Arr)) and isinstance(y, (int, Fraction, Arr)):
        p, q = asarr(x), asarr(y)
        if len(p.shape) != len(q.shape) or any(u.p is not v.p for u, v in zip(p.shape, q.shape)):
            raise PyRaise('TypeError: cond branches must return the same shapes: %s vs %s' % (p.shape, q.shape))
        r = I.join(c, p, q)
        r.lib = 'jnp'
        return r
    return I.join(c, x, y)


@ext('jax.lax.switch')
def x_switch(I, a, k):
    i = asarr(a[0]).scalar()
    br = I.iterate(a[1])
    ops = list(a[2:])
    n = len(br)
    # clamp
    c = i.const()
    if c is not None:
        return I.call(br[max(0, min(n - 1, int(c)))], ops)
    outs = []
    for j, f in enumerate(br):
        g = ge0(neg(i)) if j == 0 else ge0(add(i, const(-(n - 1)))) if j == n - 1 else eq0(add(i, const(-j)))
        if g is ZERO:
            outs.append((g, None))
            continue
        I.guards.append(g)
        try:
            outs.append((g, I.call(f, ops)))
        finally:
            I.guards.pop()
    live = [(g, o) for g, o in outs if g is not ZERO]
    r = live[-1][1]
    for g, o in reversed(live[:-1]):
        r = join_tree(I, g, o, r)
    return r


@ext('jax.lax.select')
def x_select(I, a, k):
    return NP['where'](Ctx(I, 'jnp'), *a)


@ext('jax.lax.fori_loop')
def x_fori(I, a, k):
    lo, hi, f, x = a
    lo, hi = unbox(lo), unbox(hi)
    if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
        for i in range(lo, hi):
            x = I.call(f, [i, x])
        return x
    return sym_fold(I, P(lo), add(P(hi), neg(P(lo))), lambda i, c: I.call(f, [scal(i, 'i'), c]), x)


def sym_fold(I, lo, n, step, init):
    """carry <- step(i, carry), n times; closed form for accumulations."""
    v = T.fresh_var(n)
    head = map_tree(lambda x: I.hav_val(x), init)
    after = step(add(lo, v), head)
    d = mkdim(n)
    hl, build = flatten_tree(head)
    al, _ = flatten_tree(after)
    il, _ = flatten_tree(init)
    out = []
    from .interp import _same_val
    for h, f, i in zip(hl, al, il):
        if _same_val(h, f):
            out.append(i)
            continue
        r = I.close_acc(asarr(h), asarr(f), asarr(i), d, v) if isinstance(h, (Arr, int, Fraction)) else None
        if r is None:
            from .interp import LoopRec
            out.append(I.hav_val(i))
        else:
            out.append(r)
    from .interp import LoopRec
    rec = LoopRec()
    rec.head = dict(enumerate(hl))
    rec.after = dict(enumerate(al))
    rec.entry = dict(enumerate(il))
    rec.count = d
    rec.var = v
    I.loops.append(rec)
    return build(out)


@ext('jax.lax.scan')
def x_scan(I, a, k):
    f, init = a[0], a[1]
    xs = a[2] if len(a) > 2 else k.get('xs')
    length = k.get('length', a[3] if len(a) > 3 else None)
    ls = leaves(xs)
    n = asarr(ls[0]).shape[0] if ls else mkdim(length)
    if n.c() is not None and n.c() <= 64:
        ys = []
        c = init
        for i in range(n.c()):
            xi = map_tree(lambda x: A.getitem(asarr(x), (i,)) if x is not None else None, xs)
            c, y = I.call(f, [c, xi])
            ys.append(y)
        yl = [flatten_tree(y)[0] for y in ys]
        build = flatten_tree(ys[0])[1]
        st = [None if yl[0][j] is None else A.stack([asarr(y[j]) for y in yl], 0) for j in range(len(yl[0]))]
        return c, build(st)
    raise Undecided('symbolic scan')


@ext('jax.lax.while_loop')
def x_while(I, a, k):
    cf, bf, x = a
    for _ in range(64):
        c = I.truth(I.call(cf, [x]))
        if c is ZERO:
            return x
        if c is not ONE:
            break
        x = I.call(bf, [x])
    if I.peel is not None:
        conds = [c]
        I.peeled.append(('lax.while_loop', conds, I.stack[-1][0] if I.stack else None))
        ng = len(I.guards)
        try:
            for _ in range(I.peel):
                if c is ZERO:
                    break
                I.guards.append(c)
                x = I.call(bf, [x])
                c = I.truth(I.call(cf, [x]))
                conds.append(c)
        finally:
            del I.guards[ng:]
        return x
    from .interp import LoopRec
    rec = LoopRec()
    head = map_tree(lambda y: I.hav_val(y), x)
    rec.entry = x
    rec.head = head
    rec.cond = I.truth(I.call(cf, [head]))
    rec.after = I.call(bf, [head])
    rec.node = 'lax.while_loop'
    rec.func = I.stack[-1][0] if I.stack else None
    I.loops.append(rec)
    return head


@ext('jax.lax.dynamic_slice')
def x_dynslice(I, a, k):
    x, starts, sizes = AR(a[0]), a[1], a[2]
    starts = [P(s) for s in (to_list(starts) if isinstance(starts, Arr) else starts)]
    y = A.snapshot(x)
    sz = [mkdim(s) for s in sizes]
    return Arr(sz, lambda idx: y.get(tuple(add(i, s) for i, s in zip(idx, starts))), x.dtype, 'jnp')


@ext('jax.lax.dynamic_update_slice')
def x_dynupd(I, a, k):
    x, u, starts = AR(a[0]), AR(a[1]), a[2]
    starts = [P(s) for s in (to_list(starts) if isinstance(starts, Arr) else starts)]
    y, u = A.snapshot(x), A.snapshot(u)

    def fn(idx):
        ok = ONE
        loc = []
        for i, s, d in zip(idx, starts, u.shape):
            j = add(i, neg(s))
            ok = mul(ok, mul(ge0(j), gt0(add(d.p, neg(j)))))
            loc.append(j)
        if ok is ZERO:
            return y.get(idx)
        return ite(ok, u.get(tuple(loc)), y.get(idx))
    return Arr(x.shape, fn, x.dtype, 'jnp')


@ext('jax.nn.relu')
def x_relu(I, a, k):
    return emap(lambda p: p_max(p, ZERO), [AR(a[0])])


@ext('jax.nn.one_hot')
def x_onehot(I, a, k):
    x = A.snapshot(AR(a[0]))
    return Arr(x.shape + (mkdim(a[1]),), lambda idx: eq0(add(x.get(idx[:-1]), neg(idx[-1]))), 'f', 'jnp')


@ext('jax.ops.segment_sum')
def x_segsum(I, a, k):
    data, seg = A.snapshot(AR(a[0])), A.snapshot(AR(a[1]))
    n = a[2] if len(a) > 2 else k.get('num_segments')
    z = Arr((mkdim(n),) + data.shape[1:], lambda idx: ZERO, 'f', 'jnp')
    return A.at_update(z, (seg,), data, 'add')


@ext('jax.debug.print', 'jax.debug.callback', 'jax.debug.breakpoint')
def x_dbg(I, a, k):
    return None


@ext('jax.experimental.host_callback.call')
def x_cb(I, a, k):
    raise Undecided('host callback')


@ext('jax.ShapeDtypeStruct')
def x_sds(I, a, k):
    o = ObjV(None)
    o.attrs['shape'] = k['shape'] if 'shape' in k else a[0]
    o.attrs['dtype'] = k['dtype'] if 'dtype' in k else (a[1] if len(a) > 1 else None)
    return o


@ext('jax.pure_callback')
def x_pure_cb(I, a, k):
    r = I.call(a[0], list(a[2:]))
    if isinstance(r, Arr) and isinstance(a[1], ObjV) and 'shape' in a[1].attrs:
        want = [mkdim(d) for d in a[1].attrs['shape']]
        if len(want) != len(r.shape):
            raise ProgError('pure_callback: declared rank %d, result rank %d' % (len(want), len(r.shape)))
        for x, y in zip(want, r.shape):
            A.same_or_fail(x, y, 'declared and returned callback result')
        r = Arr(r.shape, r.fn, r.dtype, 'jnp')
    return r


@ext('jax.lax.custom_linear_solve')
def x_cls(I, a, k):
    d = dict(zip(['matvec', 'b', 'solve', 'transpose_solve', 'symmetric', 'has_aux'], a))
    d.update(k)
    I.event('linsolve_op', 'custom_linear_solve', [], d)
    return I.call(d['solve'], [d['matvec'], d['b']])


@ext('time.time', 'time.perf_counter', 'time.process_time')
def x_time(I, a, k):
    T._fresh[0] += 1
    return scal(T.sym('time%d' % T._fresh[0]), 'f')


@ext('copy.copy', 'copy.deepcopy')
def x_copy(I, a, k):
    x = a[0]
    if isinstance(x, ObjV):
        return ObjV(x.cls, dict(x.attrs))
    return map_tree(lambda y: Arr(y.shape, A.snapshot(y).fn, y.dtype, y.lib) if isinstance(y, Arr) else y, x)


@ext('os.path.join')
def x_pjoin(I, a, k):
    if all(isinstance(x, str) for x in a):
        import posixpath
        s = posixpath.join(*[str(x) for x in a])
        return OpaqueStr(s) if any(isinstance(x, OpaqueStr) for x in a) else s
    return OpaqueStr('/'.join(x if isinstance(x, str) else '?' for x in a))


@ext('os.path.dirname')
def x_dirname(I, a, k):
    import posixpath
    if isinstance(a[0], str):
        s = posixpath.dirname(str(a[0]))
        return OpaqueStr(s) if isinstance(a[0], OpaqueStr) else s
    return Opaque('dirname')


@ext('os.path.basename')
def x_basename(I, a, k):
    import posixpath
    if isinstance(a[0], str):
        s = posixpath.basename(str(a[0]))
        return OpaqueStr(s) if isinstance(a[0], OpaqueStr) else s
    return Opaque('basename')


@ext('glob.glob', 'glob.iglob')
def x_glob(I, a, k):
    """some number of existing paths matching the pattern, in no particular order"""
    I.event('fs', 'glob.glob', a, k)
    n = mkdim(T.sym('files%d' % len(I.events), lb=0, integer=True))
    pat = a[0] if isinstance(a[0], str) else '?'
    return SymSeq(n, T.fresh_var(n.p), OpaqueStr(pat))


@ext('os.listdir')
def x_listdir(I, a, k):
    I.event('fs', 'os.listdir', a, k)
    n = mkdim(T.sym('files%d' % len(I.events), lb=0, integer=True))
    return SymSeq(n, T.fresh_var(n.p), OpaqueStr('*'))


@ext('math.sqrt')
def x_msqrt(I, a, k):
    return unbox(emap(lambda p: power(p, Fraction(1, 2)), [AR(a[0])], 'f'))


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'tanh', 'fabs', 'log10'):
    def _mf(I, a, k, _n=_n):
        return unbox(emap(_fun('abs' if _n == 'fabs' else _n), [AR(a[0])], 'f'))
    EXT['math.' + _n] = _mf


@ext('math.floor')
def x_mfloor(I, a, k):
    x = unbox(a[0])
    if isinstance(x, (int, Fraction)):
        return x.__floor__()
    return emap(lambda p: p if p.is_int() else T.app('floor', (p,), is_int=True), [x], 'i')


@ext('math.ceil')
def x_mceil(I, a, k):
    x = unbox(a[0])
    if isinstance(x, (int, Fraction)):
        return x.__ceil__()
    return emap(lambda p: p if p.is_int() else T.app('ceil', (p,), is_int=True), [x], 'i')


@ext('itertools.product')
def x_iprod(I, a, k):
    cols = [I.iterate(x) for x in a]
    return [tuple(x) for x in itertools.product(*cols, repeat=k.get('repeat', 1))]


@ext('itertools.chain', 'itertools.chain.from_iterable')
def x_chain(I, a, k):
    out = []
    for x in a:
        out += I.iterate(x)
    return out


@ext('jax.scipy.linalg.solve')
def x_jsolve(I, a, k):
    return NP['linalg.solve'](Ctx(I, 'jnp'), a[0], a[1])


# --------------------------------------------------------------------------
# sparse matrices and linear solvers


class SparseM(Model):
    """Sparse matrix known through its entry function."""

    def __init__(self, shape, entry, kind, nnz=None):
        self.shape = [mkdim(d) for d in shape]
        self.entry = entry
        self.kind = kind
        self.nnz = nnz
        self.a_dtype = DType('f')

    def dense(self):
        return Arr(self.shape, lambda idx: self.entry(idx[0], idx[1]), 'f', 'np')

    def as_array(self):
        raise Undecided('sparse matrix used as an array')

    def attr(self, I, name):
        if name == 'shape':
            return tuple(dimval(d) for d in self.shape)
        if name in ('indptr', 'indices', 'data'):
            return SparsePart(self, name)
        if name == 'diagonal':
            return PyFn(lambda I, a, k: Arr((self.shape[0],), lambda idx: self.entry(idx[0], idx[0]), 'f', 'np'))
        if name in ('T',):
            return self.tr()
        if name == 'transpose':
            return PyFn(lambda I, a, k: self.tr())
        if name in ('tocsr', 'tocsc', 'tocoo', 'asformat'):
            return PyFn(lambda I, a, k: SparseM(self.shape, self.entry, name[2:] if name.startswith('to') else a[0]))
        if name in ('sort_indices', 'sum_duplicates', 'copy', 'eliminate_zeros'):
            return PyFn(lambda I, a, k: self)
        if name in ('todense', 'toarray'):
            return PyFn(lambda I, a, k: self.dense())
        if name == 'dot':
            return PyFn(lambda I, a, k: self.binop(I, ast.MatMult, a[0], False))
        if name == 'sum':
            return PyFn(lambda I, a, k: A.sum_arr(self.dense(), a[0] if a else k.get('axis')))
        if name == 'nnz':
            return Opaque('nnz')
        raise Undecided('sparse attribute ' + name)

    def setattr(self, I, name, v):
        if name in ('data', 'indices', 'indptr') and isinstance(v, SparsePart):
            # adopt another matrix once all three parts come from it
            pend = getattr(self, 'pending', {})
            pend[name] = v.m
            self.pending = pend
            if len(pend) == 3 and len(set(id(x) for x in pend.values())) == 1:
                self.entry = v.m.entry
            return
        raise Undecided('store into sparse matrix')

    def tr(self):
        e = self.entry
        return SparseM(self.shape[::-1], lambda i, j: e(j, i), {'csr': 'csc', 'csc': 'csr'}.get(self.kind, self.kind))

    def binop(self, I, t, other, rev):
        if t is ast.MatMult:
            if rev:
                return A.matmul(asarr(other), self.dense())
            return A.matmul(self.dense(), asarr(other))
        if t is ast.Mult and not isinstance(other, Model):
            p = P(other)
            e = self.entry
            return SparseM(self.shape, lambda i, j: mul(p, e(i, j)), self.kind)
        raise Undecided('sparse operation')

    def map(self, f):
        e = self.entry
        return SparseM(self.shape, lambda i, j: f(e(i, j)), self.kind)


class SparsePart(Model):
    def __init__(self, m, part):
        self.m = m
        self.part = part

    def attr(self, I, name):
        if name in ('astype', 'copy'):
            return PyFn(lambda I, a, k: self)
        if name == 'shape':
            return (Opaque('nnz'),)
        return I.getattr(self.as_array(), name)

    def as_array(self):
        if not hasattr(self.m, 'part_arrays'):
            self.m.part_arrays = {}
        if self.part not in self.m.part_arrays:
            T._fresh[0] += 1
            self.m.part_arrays[self.part] = A.leaf('sp_%s%d' % (self.part, T._fresh[0]),
                                                   [T.dim('spn%d' % T._fresh[0])], 'f' if self.part == 'data' else 'i')
        return self.m.part_arrays[self.part]


def coo(V, Ii, Jj, shape, kind):
    V, Ii, Jj = [A.snapshot(AR(x)) for x in (V, Ii, Jj)]
    if V.ndim != 1 or Ii.ndim != 1 or Jj.ndim != 1:
        raise ProgError('sparse triplets must be one-dimensional')
    A.same_or_fail(V.shape[0], Ii.shape[0], 'triplet values and rows')
    A.same_or_fail(Ii.shape[0], Jj.shape[0], 'triplet rows and columns')
    d = Ii.shape[0]
    for x in (V.shape[0], Jj.shape[0]):
        if x.parts and (not d.parts or len(x.parts) > len(d.parts)):
            d = x

    def entry(i, j):
        out = []
        for k, b in A.pieces(d):
            body = mul(eq0(add(i, neg(Ii.get((k,))))), mul(eq0(add(j, neg(Jj.get((k,))))), V.get((k,))))
            out.append(T.big_sum(b, body) if b else body)
        return T.add_many(out)
    return SparseM(shape, entry, kind)


def x_sparse(kind):
    def f(I, a, k):
        x = a[0]
        if isinstance(x, SparseM):
            return SparseM(x.shape, x.entry, kind)
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple):
            V, (Ii, Jj) = x
            shape = k.get('shape', a[1] if len(a) > 1 else None)
            if shape is None:
                raise Undecided('sparse matrix without a shape')
            return coo(V, Ii, Jj, shape, kind)
        if isinstance(x, tuple) and len(x) == 3 and all(isinstance(y, SparsePart) for y in x):
            m = x[0].m
            return SparseM(m.shape, m.entry, kind) if m.kind == kind else m.tr()
        if isinstance(x, Arr):
            y = A.snapshot(x)
            return SparseM(y.shape, lambda i, j: y.get((i, j)), kind)
        raise Undecided('sparse constructor')
    return f


for _k in ('csr', 'csc', 'coo', 'lil'):
    for _s in ('array', 'matrix'):
        EXT['scipy.sparse.%s_%s' % (_k, _s)] = x_sparse(_k)


@ext('jax.experimental.sparse.BCOO.from_scipy_sparse', 'jax.experimental.sparse.BCSR.from_scipy_sparse')
def x_bcoo(I, a, k):
    if not isinstance(a[0], SparseM):
        raise Undecided('BCOO source')
    return SparseM(a[0].shape, a[0].entry, 'bcoo')


@ext('jax.experimental.sparse.BCOO')
def x_bcoo2(I, a, k):
    data, ind = a[0]
    ind = AR(ind)
    return coo(data, A.getitem(ind, (SliceV(), 0)), A.getitem(ind, (SliceV(), 1)), k.get('shape'), 'bcoo')


def _np_abs_sparse(c, x, **kw):
    if isinstance(x, SparseM):
        return x.map(lambda p: T.app('abs', (p,)))
    return _abs0(c, x, **kw)


_abs0 = NP['abs']
for _n in ('abs', 'absolute', 'fabs'):
    NP[_n] = _np_abs_sparse


class PMat(Model):
    """PETSc matrix."""

    def __init__(self):
        self.m = None
        self.zeroed = []

    def attr(self, I, name):
        def createAIJ(I, a, k):
            size = k.get('size', a[0] if a else None)
            csr = k.get('csr', a[1] if len(a) > 1 else None)
            if csr is None:
                raise Undecided('PETSc createAIJ without csr')
            parts = {}
            for x, want in zip(csr, ('indptr', 'indices', 'data')):
                if not isinstance(x, SparsePart):
                    raise Undecided('PETSc csr arrays')
                if x.part != want:
                    raise ProgError('PETSc csr arguments in the wrong order')
                parts[want] = x.m
            if len(set(id(v) for v in parts.values())) != 1:
                raise ProgError('PETSc csr arguments from different matrices')
            m = parts['data']
            if m.kind == 'csr':
                self.m = SparseM(m.shape, m.entry, 'csr')
            elif m.kind == 'csc':
                # compressed-column arrays read as compressed rows: the transpose
                self.m = SparseM(m.shape[::-1], m.tr().entry, 'csr')
            else:
                raise ProgError('PETSc csr arguments from a %s matrix' % m.kind)
            return self

        def zeroRows(I, a, k):
            rows = A.snapshot(AR(a[0]))
            diag = P(a[1] if len(a) > 1 else k.get('diag', Fraction(1)))
            e = self.m.entry

            def ent(i, j):
                ix = A.Indexer(Arr((self.m.shape[0],), lambda t: ZERO), (rows,))
                s, cov = ix.scatter((i,), lambda t: ONE)
                if cov is ZERO:
                    return e(i, j)
                return add(mul(T.not_(cov), e(i, j)), mul(cov, mul(diag, eq0(add(i, neg(j))))))
            self.m = SparseM(self.m.shape, ent, 'csr')
            return None

        def zeroRowsColumns(I, a, k):
            if len(a) > 2 or set(k) - {'diag'}:
                raise Undecided('zeroRowsColumns with vectors')
            rows = A.snapshot(AR(a[0]))
            diag = P(a[1] if len(a) > 1 else k.get('diag', Fraction(1)))
            e = self.m.entry

            def ent(i, j):
                ix = A.Indexer(Arr((self.m.shape[0],), lambda t: ZERO), (rows,))
                cov, cov2 = ix.scatter((i,), lambda t: ONE)[1], ix.scatter((j,), lambda t: ONE)[1]
                keep = mul(T.not_(cov), T.not_(cov2))
                return add(mul(keep, e(i, j)), mul(cov, mul(diag, eq0(add(i, neg(j))))))
            self.m = SparseM(self.m.shape, ent, 'csr')
            return None

        def transpose(I, a, k):
            out = a[0] if a else k.get('out')
            if out is None:
                self.m = SparseM(self.m.shape[::-1], self.m.tr().entry, 'csr')
                return self
            out.m = SparseM(self.m.shape[::-1], self.m.tr().entry, 'csr')
            return out

        def mult(I, a, k):
            a[1].v = A.matmul(self.m.dense(), a[0].arr())

        def copy(I, a, k):
            p = PMat()
            p.m = self.m
            return p

        def getValuesCSR(I, a, k):
            return (SparsePart(self.m, 'indptr'), SparsePart(self.m, 'indices'), SparsePart(self.m, 'data'))
        m = {'createAIJ': createAIJ, 'zeroRows': zeroRows, 'zeroRowsColumns': zeroRowsColumns, 'transpose': transpose, 'mult': mult, 'copy': copy,
             'duplicate': copy, 'getValuesCSR': getValuesCSR}
        if name in m:
            return PyFn(m[name], 'PETSc.Mat.' + name)
        if name in ('assemble', 'assemblyBegin', 'assemblyEnd', 'setOption', 'setUp', 'destroy', 'setFromOptions'):
            return PyFn(lambda I, a, k: self)
        if name in ('getSize', 'size'):
            t = tuple(dimval(d) for d in self.m.shape)
            return t if name == 'size' else PyFn(lambda I, a, k: t)
        if name == 'T':
            raise Undecided('PETSc Mat.T')
        raise Undecided('PETSc Mat.' + name)


class PVec(Model):
    def __init__(self):
        self.v = None
        self.n = None

    def arr(self):
        if self.v is None:
            n = self.n
            return Arr((n,), lambda idx: ZERO, 'f', 'np')
        return self.v

    def attr(self, I, name):
        if name in ('createSeq', 'create', 'createMPI'):
            def cs(I, a, k):
                self.n = mkdim(a[0])
                return self
            return PyFn(cs)
        if name == 'createWithArray':
            def cw(I, a, k):
                self.v = setlib(AR(a[0]), Ctx(I, 'np'))
                self.n = self.v.shape[0]
                return self
            return PyFn(cw)
        if name == 'setValues':
            def sv(I, a, k):
                idx, vals = AR(a[0]), AR(a[1])
                self.v = A.at_update(self.arr(), (idx,), vals)
            return PyFn(sv)
        if name == 'setArray':
            def sa(I, a, k):
                self.v = AR(a[0])
            return PyFn(sa)
        if name in ('getArray',):
            return PyFn(lambda I, a, k: self.arr())
        if name == 'array':
            return self.arr()
        if name in ('set', 'zeroEntries', 'assemble', 'assemblyBegin', 'assemblyEnd', 'setUp', 'destroy'):
            return PyFn(lambda I, a, k: self)
        if name in ('duplicate', 'copy'):
            def dup(I, a, k):
                p = PVec()
                p.n = self.n
                if name == 'copy':
                    p.v = self.v
                return p
            return PyFn(dup)
        raise Undecided('PETSc Vec.' + name)

    def length(self, I):
        return dimval(self.n)


class PKSP(Model):
    def __init__(self):
        self.A = None
        self.type = None
        self.pctype = None

    def attr(self, I, name):
        if name in ('create', 'setFromOptions', 'setUp', 'setTolerances', 'setInitialGuessNonzero', 'setConvergenceHistory',
                    'destroy', 'setMonitor', 'setOptionsPrefix'):
            return PyFn(lambda I, a, k: self)
        if name == 'setOperators':
            def so(I, a, k):
                self.A = a[0]
            return PyFn(so)
        if name == 'setType':
            def st(I, a, k):
                self.type = a[0]
            return PyFn(st)
        if name == 'getType':
            return PyFn(lambda I, a, k: self.type or '?')
        if name in ('pc',):
            return PPC(self)
        if name == 'getPC':
            return PyFn(lambda I, a, k: PPC(self))
        if name == 'solve':
            def sv(I, a, k):
                b, x = a[0], a[1]
                if self.A is None:
                    raise ProgError('KSP.solve without operators')
                M = self.A.m
                e = I.event('ksp', self.type, [M.dense(), b.arr()], {'pc': self.pctype})
                x.v = linsolve_term(M.dense(), b.arr())
                e.res = x.v
            return PyFn(sv)
        if name == 'solveTranspose':
            def svt(I, a, k):
                b, x = a[0], a[1]
                M = self.A.m.tr()
                e = I.event('ksp', self.type, [M.dense(), b.arr()], {'pc': self.pctype})
                x.v = linsolve_term(M.dense(), b.arr())
                e.res = x.v
            return PyFn(svt)
        if name in ('getConvergedReason', 'getIterationNumber', 'getResidualNorm', 'is_converged', 'reason'):
            return PyFn(lambda I, a, k: Opaque('ksp.' + name))
        raise Undecided('PETSc KSP.' + name)


class PPC(Model):
    def __init__(self, k):
        self.k = k

    def attr(self, I, name):
        if name == 'setType':
            def st(I, a, k):
                self.k.pctype = a[0]
            return PyFn(st)
        if name == 'getType':
            return PyFn(lambda I, a, k: self.k.pctype or '?')
        return PyFn(lambda I, a, k: None)


def linsolve_term(M, b):
    """The vector x with M x = b, as an opaque application of (M, b)."""
    lm = A.tlam(M)
    lb = A.tlam(b)
    return Arr(b.shape, lambda idx: T.app('linsolve', (lm, lb), idx), 'f', 'np')


EXT['petsc4py.PETSc.Mat'] = lambda I, a, k: PMat()
EXT['petsc4py.PETSc.Vec'] = lambda I, a, k: PVec()
EXT['petsc4py.PETSc.KSP'] = lambda I, a, k: PKSP()


def op_matrix(I, A_fn, n):
    """Matrix of a linear operator function: A[i, j] = d A_fn(x)_i / d x_j,
    provided A_fn is linear and homogeneous."""
    T._fresh[0] += 1
    x = A.leaf('probe%d' % T._fresh[0], (n,), 'f', 'jnp')
    base = x.get((ZERO,))
    eps = fresh_eps()
    j = T.fresh_var(n.p)
    px = perturb(Arr(x.shape, lambda idx: ZERO, 'f', 'jnp'), delta_arr(x, [j]), eps)
    out = asarr(I.call(A_fn, [px]))
    ea = T.the_atom(eps)
    ja = T.the_atom(j)
    o = A.snapshot(out)

    def entry(i, jj):
        p = o.get((i,))
        c0 = T.subst(p, {ea: ZERO})
        d = T.diff(p, ea)
        if c0 is not ZERO:
            from . import evalp
            if evalp.same(c0, ZERO)[0] is not True:
                raise NotLinear('operator has a constant part: %s' % T.show(c0))
        if ea in d.free:
            d = T.subst(d, {ea: ZERO})
        return T.subst(d, {ja: lift(jj)})
    return Arr((out.shape[0], n), lambda idx: entry(idx[0], idx[1]), 'f', 'np')


class NotLinear(ProgError):
    pass


def x_krylov(name):
    def f(I, a, k):
        names = ['A', 'b', 'x0']
        d = dict(zip(names, a))
        d.update(k)
        b = AR(d['b'])
        Af = d['A']
        if isinstance(Af, (FuncV, BoundV, PyFn)):
            M = op_matrix(I, Af, b.shape[0])
        elif isinstance(Af, SparseM):
            M = Af.dense()
        else:
            M = AR(Af)
        x = linsolve_term(M, b)
        x.lib = 'jnp'
        I.event('krylov', name, [M, b], {kk: vv for kk, vv in d.items() if kk not in ('A', 'b')}, res=x)
        return x, Opaque('info')
    return f


for _n in ('bicgstab', 'cg', 'gmres'):
    EXT['jax.scipy.sparse.linalg.' + _n] = x_krylov(_n)
    EXT['scipy.sparse.linalg.' + _n] = x_krylov(_n)
EXT['scipy.sparse.linalg.minres'] = x_krylov('minres')


@ext('scipy.sparse.linalg.spsolve')
def x_spsolve(I, a, k):
    M = a[0].dense() if isinstance(a[0], SparseM) else AR(a[0])
    I.event('krylov', 'spsolve', [M, AR(a[1])], {})
    return linsolve_term(M, AR(a[1]))
