"""MMA optimiser: convex approximation, interior-point subproblem, filter, outer loop."""
from ..spec import *
from .. import terms as T, arrays as A
from ..terms import Undecided
from .. import models
from ..models import p_max, p_min, linsolve_term
from ..interp import PyFn, Model, PyRaise
from fractions import Fraction
MMA = 'jax_am.fem.mma'
F = lambda s: const(Fraction(s))


def run(ck):
    items = [(approx, 1), (approx, 2), (approx, 3), (approx, 4), (start,), (newton, 'few'), (newton, 'many'), (stepping, 'few'), (sens,),
             (loop, 0), (loop, 1), (loop, 2), (loop, 3), (kdtree, 1), (kdtree, 3), (kdtree, 20), (kdtree, 3, 2)]
    if ck.thorough:
        items += [(loop, 4), (loop, 5)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def clo(lo, x, hi):
    """low asymptote style clamp: max then min"""
    return p_min(p_max(x, lo), hi)


class Approx:
    """specification of the convex separable approximation at a point"""
    def __init__(s, n, m, x, o1, o2, low, upp, lo, hi, df0, f, df, move, it):
        g = lambda a, j: a.get((j, ZERO))
        s.n, s.m = n, m
        rng = lambda j: g(hi, j) - g(lo, j)

        def asy(j, sign):
            r = rng(j)
            if it <= 2:
                return g(x, j) + sign * r / 2
            z = (g(x, j) - g(o1, j)) * (g(o1, j) - g(o2, j))
            fac = ite(T.gt0(z), F('1.2'), ite(T.gt0(neg(z)), F('0.7'), ONE))
            a, b = 10 * r, F('0.01') * r
            if sign < 0:
                v = g(x, j) - fac * (g(o1, j) - g(low, j))
                return p_min(p_max(v, g(x, j) - a), g(x, j) - b)
            v = g(x, j) + fac * (g(upp, j) - g(o1, j))
            return p_max(p_min(v, g(x, j) + a), g(x, j) + b)
        s.low = arr([n, 1], lambda j, _: asy(j, -1))
        s.upp = arr([n, 1], lambda j, _: asy(j, 1))
        L, U = (lambda j: asy(j, -1)), (lambda j: asy(j, 1))
        s.alfa = arr([n, 1], lambda j, _: p_max(p_max(L(j) + F('0.1') * (g(x, j) - L(j)), g(x, j) - move * rng(j)), g(lo, j)))
        s.beta = arr([n, 1], lambda j, _: p_min(p_min(U(j) - F('0.1') * (U(j) - g(x, j)), g(x, j) + move * rng(j)), g(hi, j)))
        reg = lambda j: F('0.00001') / p_max(rng(j), F('0.00001'))

        def pq(d, j, plus):
            p, q = p_max(d, ZERO), p_max(neg(d), ZERO)
            e = F('0.001') * (p + q) + reg(j)
            return (p + e) * (U(j) - g(x, j)) ** 2 if plus else (q + e) * (g(x, j) - L(j)) ** 2
        s.p0 = arr([n, 1], lambda j, _: pq(g(df0, j), j, True))
        s.q0 = arr([n, 1], lambda j, _: pq(g(df0, j), j, False))
        s.P = arr([m, n], lambda i, j: pq(df.get((i, j)), j, True))
        s.Q = arr([m, n], lambda i, j: pq(df.get((i, j)), j, False))
        s.b = arr([m, 1], lambda i, _: sm([n], lambda j: s.P.get((i, j)) / (U(j) - g(x, j)) + s.Q.get((i, j)) / (g(x, j) - L(j))) - f.get((i, ZERO)))


NAMES = ['m', 'n', 'epsimin', 'low', 'upp', 'alfa', 'beta', 'p0', 'q0', 'P', 'Q', 'a0', 'a', 'b', 'c', 'd']
OUT = ['x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's']


def oshape(o, m, n):
    return [n if o in ('x', 'xsi', 'eta') else 1 if o in ('z', 'zet') else m, 1]


def stub(I, calls, m, n):
    def f(I, fn, a, k):
        d = dict(zip(NAMES, a))
        d.update(k)
        calls.append({q: v for q, v in d.items()})
        ls = []
        for q in NAMES:
            v = A.asarr(d[q])
            ls.append(A.tlam(v) if v.ndim else v.scalar())
        ls = tuple(ls)
        t = len(calls)
        return tuple(Arr([mkdim(q) for q in oshape(o, m, n)], lambda ix, o=o: T.app('sub_%s%d' % (o, t), (), ix), 'f', 'np') for o in OUT)
    I.stubs['%s.subsolv' % MMA] = f


def approx(ck, it):
    tag = '[iteration %d]' % it

    def go():
        I = ck.interp()
        cls = ck.fn(I, MMA, 'MMA')
        ck.fn(I, MMA, 'subsolv')
        n, m = dim('n'), dim('m')
        o = I.call(cls, [])
        M = lambda f, *a: I.call(I.getattr(o, f), list(a))
        v = {k: leaf(k, [n, 1], 'f') for k in ('x', 'o1', 'o2', 'low', 'upp', 'lo', 'hi', 'df0')}
        v.update(f=leaf('f', [m, 1], 'f'), df=leaf('df', [m, n], 'f'))
        sc = [scal(sym('a0'), 'f'), leaf('a', [m, 1], 'f'), leaf('c', [m, 1], 'f'), leaf('d', [m, 1], 'f')]
        move = sym('move', positive=True)
        calls = []
        stub(I, calls, m, n)
        M('setNumConstraints', isym(m))
        M('setNumDesignVariables', isym(n))
        M('setMinandMaxBoundsForDesignVariables', v['lo'], v['hi'])
        for k in range(it):
            M('registerMMAIter', v['x'], v['o1'], v['o2'])
        M('setLowerAndUpperAsymptotes', v['low'], v['upp'])
        M('setScalingParams', *sc)
        M('setMoveLimit', scal(move, 'f'))
        M('setObjectiveWithGradient', scal(sym('f0'), 'f'), v['df0'])
        M('setConstraintWithGradient', v['f'], v['df'])
        w = ck.fn(I, MMA, 'MMA.mmasub')
        M('mmasub', v['x'])
        if len(calls) != 1:
            raise Undecided('%d subproblem solves' % len(calls))
        s = Approx(n, m, v['x'], v['o1'], v['o2'], v['low'], v['upp'], v['lo'], v['hi'], v['df0'], v['f'], v['df'], move, it)
        c = calls[0]
        for q, t in (('low', 'lower asymptotes'), ('upp', 'upper asymptotes'), ('alfa', 'lower move bounds never below the design bound'),
                     ('beta', 'upper move bounds never above the design bound'), ('p0', 'objective part towards the upper asymptote'),
                     ('q0', 'objective part towards the lower asymptote'), ('P', 'constraint parts towards the upper asymptote'),
                     ('Q', 'constraint parts towards the lower asymptote'), ('b', 'constraint constants reproduce the values at the point')):
            ck.eq('%s %s' % (t, tag), c[q], getattr(s, q), w)
        ck.eq('problem sizes and scaling are passed on ' + tag, [c[q] for q in ('m', 'n', 'a0', 'a', 'c', 'd')],
              [isym(m), isym(n)] + sc, w)
        r = lambda q: arr(oshape(q, m, n), lambda i, j: T.app('sub_%s1' % q, (), (i, j)))
        ck.eq('the optimum of the approximation is reported ' + tag, lambda: list(M('getOptimalValues')), [r(q) for q in OUT[:3]], w)
        ck.eq('multipliers are reported ' + tag, lambda: list(M('getLagrangeMultipliers')) + [M('getSlackValue')], [r(q) for q in OUT[3:]], w)
        ck.eq('asymptotes are kept for the next iteration ' + tag, lambda: list(M('getAsymptoteValues')), [s.low, s.upp], w)
        return True
    ck.ob('approximation ' + tag, go, MMA + '.MMA.mmasub')


def subargs(m, n):
    d = {'m': isym(m), 'n': isym(n)}
    for q in ('alfa', 'p0', 'q0', 'low'):
        d[q] = leaf(q, [n, 1], 'f', positive=True)
    # low < alfa < beta < upp
    d['alfa'] = arr([n, 1], lambda j, _: T.app('low', (), (j, ZERO), positive=True) + T.app('ga', (), (j,), positive=True))
    d['beta'] = arr([n, 1], lambda j, _: d['alfa'].get((j, ZERO)) + T.app('gb', (), (j,), positive=True))
    d['upp'] = arr([n, 1], lambda j, _: d['beta'].get((j, ZERO)) + T.app('gu', (), (j,), positive=True))
    d['low'] = arr([n, 1], lambda j, _: T.app('low', (), (j, ZERO), positive=True))
    for q in 'PQ':
        d[q] = leaf(q, [m, n], 'f', positive=True)
    d['a0'] = scal(sym('a0', positive=True), 'f')
    for q in 'abcd':
        d[q] = leaf(q, [m, 1], 'f', positive=True)
    return d


def start(ck):
    def go():
        I = ck.interp()
        w = ck.fn(I, MMA, 'subsolv')
        m, n = dim('m'), dim('n')
        d = subargs(m, n)
        d['epsimin'] = 2
        A_, B = (lambda j: d['alfa'].get((j, ZERO))), (lambda j: d['beta'].get((j, ZERO)))
        inv = lambda j: 2 / (B(j) - A_(j))
        one = lambda k: arr([k, 1], lambda *_: ONE)
        want = [arr([n, 1], lambda j, _: (A_(j) + B(j)) / 2), one(m), one(1), one(m), arr([n, 1], lambda j, _: p_max(inv(j), ONE)),
                arr([n, 1], lambda j, _: p_max(inv(j), ONE)), arr([m, 1], lambda i, _: p_max(ONE, d['c'].get((i, ZERO)) / 2)), one(1), one(m)]
        ck.eq('the interior-point iteration starts strictly inside the bounds', lambda: list(I.call(w, [d[q] for q in NAMES])), want, w)
        return True
    ck.ob('subproblem start', go, MMA + '.subsolv')


class Sub:
    """one barrier level of the subproblem solver from an arbitrary interior point"""
    def __init__(self, ck, kind, inner, dirs=False, loops=3):
        I = self.I = ck.interp()
        w = self.w = ck.fn(I, MMA, 'subsolv')
        if kind == 'few':
            m = dim('m')
            n = m + dim('gap')
        else:
            n = dim('n')
            m = n + dim('gap', lb=0)
        self.m, self.n = m, n
        d = self.d = subargs(m, n)
        d['epsimin'] = scal(sym('epsimin', positive=True), 'f')
        v0 = self.v0 = {q: leaf('v' + q, oshape(q, m, n), 'f', positive=True) for q in OUT[1:]}
        v0['x'] = arr([n, 1], lambda j, _: d['alfa'].get((j, ZERO)) + T.app('gb', (), (j,), positive=True) *
                      (1 / (1 + T.app('vx', (), (j,), positive=True))))
        eps = self.eps = sym('eps', positive=True)
        hit = set()

        def first(q, val, always=False):
            def f(v):
                if I.peeled and not always:
                    return v
                hit.add(q)
                return val
            return f
        reb = {q: first(q, v0[q]) for q in OUT}
        reb['epsi'] = first('epsi', scal(eps, 'f'))
        if dirs:
            self.D = {q: leaf('d' + q, oshape(q, m, n), 'f') for q in OUT}
            reb.update({'d' + q: first('d' + q, self.D[q], True) for q in OUT})
        I.rebind = (w.qual(), reb)
        I.frames = {w.qual(): None}

        def lsolve(I, a, k):
            M, b = A.asarr(a[0]), A.asarr(a[1])
            if b.ndim == 1:
                return linsolve_term(M, b)
            if b.ndim != 2 or b.shape[1].c() != 1:
                raise Undecided('several right-hand sides')
            x = linsolve_term(M, Arr(b.shape[:1], lambda ix: b.get((ix[0], ZERO))))
            return Arr(b.shape, lambda ix: x.get((ix[0],)))
        for q in ('numpy.linalg.solve', 'scipy.linalg.solve'):
            I.ext[q] = PyFn(lsolve, 'solve')
        I.peel, I.peeled = inner, []
        try:
            self.out = list(I.call(w, [d[q] for q in NAMES]))
        finally:
            I.peel = None
            I.rebind = None
        if len(hit) != len(reb):
            raise Undecided('loop state is held differently')
        if len(I.peeled) != loops:
            raise Undecided('%d loops' % len(I.peeled))
        self.conds = [c for s, c, f in I.peeled]
        if not dirs:
            env = I.frames[w.qual()]
            self.D = {}
            for q in OUT:
                if 'd' + q not in env.vars:
                    raise Undecided('no local d' + q)
                self.D[q] = A.asarr(env.vars['d' + q])


def newton(ck, kind):
    tag = '[%s constraints]' % kind

    def go():
        s = Sub(ck, kind, lambda k: [1, 1, 0][k - 1])
        d, v0, D, m, n, eps, w = s.d, s.v0, s.D, s.m, s.n, s.eps, s.w
        e = lambda a, j: a.get((j, ZERO))
        res = residual(d, v0, eps, m, n)
        x = lambda j: e(v0['x'], j)
        G = lambda i, j: d['P'].get((i, j)) / (e(d['upp'], j) - x(j)) ** 2 - d['Q'].get((i, j)) / (x(j) - e(d['low'], j)) ** 2
        pl = lambda j: e(d['p0'], j) + sm([m], lambda i: d['P'].get((i, j)) * e(v0['lam'], i))
        ql = lambda j: e(d['q0'], j) + sm([m], lambda i: d['Q'].get((i, j)) * e(v0['lam'], i))
        Z = lambda a: a.get((ZERO, ZERO))
        lin = {
            'stationarity in x': (n, lambda j: (2 * pl(j) / (e(d['upp'], j) - x(j)) ** 3 + 2 * ql(j) / (x(j) - e(d['low'], j)) ** 3) * e(D['x'], j)
                                  + sm([m], lambda i: G(i, j) * e(D['lam'], i)) - e(D['xsi'], j) + e(D['eta'], j) + res['x'](j)),
            'stationarity in y': (m, lambda i: e(d['d'], i) * e(D['y'], i) - e(D['mu'], i) - e(D['lam'], i) + res['y'](i)),
            'stationarity in z': (1, lambda i: -Z(D['zet']) - sm([m], lambda i: e(d['a'], i) * e(D['lam'], i)) + res['z'](ZERO)),
            'constraints': (m, lambda i: sm([n], lambda j: G(i, j) * e(D['x'], j)) - e(d['a'], i) * Z(D['z']) - e(D['y'], i) + e(D['s'], i) + res['lam'](i)),
            'complementarity at the lower bound': (n, lambda j: e(D['xsi'], j) * (x(j) - e(d['alfa'], j)) + e(v0['xsi'], j) * e(D['x'], j) + res['xsi'](j)),
            'complementarity at the upper bound': (n, lambda j: e(D['eta'], j) * (e(d['beta'], j) - x(j)) - e(v0['eta'], j) * e(D['x'], j) + res['eta'](j)),
            'complementarity of y': (m, lambda i: e(D['mu'], i) * e(v0['y'], i) + e(v0['mu'], i) * e(D['y'], i) + res['mu'](i)),
            'complementarity of z': (1, lambda i: Z(D['zet']) * Z(v0['z']) + Z(v0['zet']) * Z(D['z']) + res['zet'](ZERO)),
            'complementarity of the slacks': (m, lambda i: e(D['lam'], i) * e(v0['s'], i) + e(v0['lam'], i) * e(D['s'], i) + res['s'](i)),
        }
        for k, (sz, f) in lin.items():
            ck.eq('Newton direction solves the linearised %s %s' % (k, tag), lambda f=f, sz=sz: arr([sz], lambda i: f(i)), arr([sz], lambda i: ZERO), w)
        return True
    ck.ob('subproblem step ' + tag, go, MMA + '.subsolv')


def stepping(ck, kind):
    tag = '[%s constraints]' % kind

    def go():
        s = Sub(ck, kind, 1, True)
        d, v0, D, m, n, eps, w = s.d, s.v0, s.D, s.m, s.n, s.eps, s.w
        e = lambda a, j: a.get((j, ZERO))
        z = lambda q: oshape(q, m, n)
        r = [arr(z(q), lambda i, _, q=q: F('-1.01') * e(D[q], i) / e(v0[q], i)) for q in OUT[1:]]
        r.append(arr([n, 1], lambda j, _: F('-1.01') * e(D['x'], j) / (e(v0['x'], j) - e(d['alfa'], j))))
        r.append(arr([n, 1], lambda j, _: F('1.01') * e(D['x'], j) / (e(d['beta'], j) - e(v0['x'], j))))
        top = p_max(big(ck, s, r, None), ONE)
        new = {q: arr(z(q), lambda i, _, q=q: e(v0[q], i) + e(D[q], i) / top) for q in OUT}
        ck.eq('the step is the Newton direction shortened to stay strictly inside the bounds and keep multipliers positive ' + tag,
              s.out, [new[q] for q in OUT], w)
        s2 = Sub(ck, kind, lambda k: [1, 1, 2][k - 1], True)
        ck.eq('a rejected step is halved along the same direction ' + tag, s2.out,
              [arr(z(q), lambda i, _, q=q: e(v0[q], i) + e(D[q], i) / (2 * top)) for q in OUT], w)
        order = ['x', 'y', 'z', 'lam', 'xsi', 'eta', 'mu', 'zet', 's']

        def vec(v):
            rr = residual(d, v, eps, m, n)
            return [arr(z(q), lambda i, _, q=q: rr[q](i)) for q in order]
        test(ck, 'barrier levels run while above the tolerance ' + tag, s.conds[0][0], sym('epsimin', positive=True), eps, w)
        test(ck, 'each barrier level is a tenth of the one before ' + tag, s.conds[0][1], sym('epsimin', positive=True), eps / 10, w)
        for t, v, nm in ((0, v0, 'start'), (1, new, 'new')):
            test(ck, 'Newton iterations continue while the largest optimality residual of the %s point exceeds 0.9 of the barrier %s' % (nm, tag),
                 s.conds[1][t], F('0.9') * eps, big(ck, s, vec(v), 'abs'), w)
        nn = lambda v: T.add_many([sm([z(q)[0]], lambda i, a=a: e(a, i) ** 2) for q, a in zip(order, vec(v))])
        test(ck, 'the step is halved while the residual norm grows ' + tag, s.conds[2][1], sqrt(nn(v0)), sqrt(nn(new)), w)
        # the next Newton iteration measures growth against the norm at the new point
        s3 = Sub(ck, kind, lambda k: [1, 2, 1, 1][k - 1], True, 4)
        t = sides(s3.conds[3][1])
        if t is None:
            raise Undecided('line search condition')
        ck.eq('each line search compares with the residual norm of the point it starts from ' + tag, scal(t[1], 'f'), lambda: scal(sqrt(nn(new)), 'f'), w)
        return True
    ck.ob('subproblem line search ' + tag, go, MMA + '.subsolv')


def test(ck, name, got, lo, hi, w):
    """the condition `got` is lo < hi; two-sided comparisons are compared side by side"""
    t = sides(got)
    if t is not None:
        return ck.eq(name, scal(t[0] / t[1], 'f'), lambda: scal(hi / lo, 'f'), w)
    return ck.eq(name, scal(got, 'b'), lambda: scal(lt(lo, hi), 'b'), w)


def sides(got):
    """(larger, smaller) of a comparison of two single terms"""
    if len(got.t) == 1:
        (m, c), = got.t.items()
        if c == 1 and len(m) == 1 and m[0][0].kind in ('gt', 'ge'):
            g = m[0][0].args[0]
            pos = [T._intern({m: c}) for m, c in g.t.items() if c > 0]
            neg = [T._intern({m: -c}) for m, c in g.t.items() if c < 0]
            if len(pos) == len(neg) == 1:
                return pos[0], neg[0]
    return None


def big(ck, s, arrs, f):
    """largest entry over the arrays, of absolute values with f='abs'"""
    I = s.I
    np = lambda n, *a, **k: I.call(I.models.ExtV('numpy.' + n), list(a), k)
    x = np('concatenate', tuple(arrs), axis=0)
    if f == 'abs':
        x = np('abs', x)
    return A.asarr(np('max', x)).scalar()


def residual(d, v, eps, m, n):
    e = lambda a, j: a.get((j, ZERO))
    Z = lambda a: a.get((ZERO, ZERO))
    x = lambda j: e(v['x'], j)
    U = lambda j: e(d['upp'], j) - x(j)
    L = lambda j: x(j) - e(d['low'], j)
    pl = lambda j: e(d['p0'], j) + sm([m], lambda i: d['P'].get((i, j)) * e(v['lam'], i))
    ql = lambda j: e(d['q0'], j) + sm([m], lambda i: d['Q'].get((i, j)) * e(v['lam'], i))
    return {
        'x': lambda j: pl(j) / U(j) ** 2 - ql(j) / L(j) ** 2 - e(v['xsi'], j) + e(v['eta'], j),
        'y': lambda i: e(d['c'], i) + e(d['d'], i) * e(v['y'], i) - e(v['mu'], i) - e(v['lam'], i),
        'z': lambda _: A.asarr(d['a0']).scalar() - Z(v['zet']) - sm([m], lambda i: e(d['a'], i) * e(v['lam'], i)),
        'lam': lambda i: sm([n], lambda j: d['P'].get((i, j)) / U(j) + d['Q'].get((i, j)) / L(j)) - e(d['a'], i) * Z(v['z']) - e(v['y'], i)
        + e(v['s'], i) - e(d['b'], i),
        'xsi': lambda j: e(v['xsi'], j) * (x(j) - e(d['alfa'], j)) - eps,
        'eta': lambda j: e(v['eta'], j) * (e(d['beta'], j) - x(j)) - eps,
        'mu': lambda i: e(v['mu'], i) * e(v['y'], i) - eps,
        'zet': lambda _: Z(v['zet']) * Z(v['z']) - eps,
        's': lambda i: e(v['lam'], i) * e(v['s'], i) - eps,
    }


def filt(H, Hs, rho, g, i, c, n, pre=()):
    return sm([n], lambda j: H.get((i, j)) * rho.get((j, c)) * g.get(pre + (j, c)) / p_max(F('0.001'), rho.get((j, c))) / Hs.get((j,)))


def sens(ck):
    def go():
        I = ck.interp()
        w = ck.fn(I, MMA, 'applySensitivityFilter')
        n, k, m = dim('n'), dim('k'), dim('m')
        H, Hs = leaf('H', [n, n], 'f'), leaf('Hs', [n], 'f', positive=True)
        rho, dJ, dv = leaf('rho', [n, k], 'f', positive=True), leaf('dJ', [n, k], 'f'), leaf('dv', [m, n, k], 'f')
        ck.eq('sensitivities are averaged over neighbours weighted by density and normalised by the weight sums',
              lambda: list(I.call(w, [{'H': H, 'Hs': Hs}, rho, dJ, dv])),
              [arr([n, k], lambda i, c: filt(H, Hs, rho, dJ, i, c, n)),
               arr([m, n, k], lambda q, i, c: filt(H, Hs, rho, dv, i, c, n, (q,)))], w)
        return True
    ck.ob('sensitivity filter', go, MMA + '.applySensitivityFilter')


def loop(ck, K):
    tag = '[%d iterations]' % K

    def go():
        I = ck.interp()
        w = ck.fn(I, MMA, 'optimize')
        ck.fn(I, MMA, 'subsolv')
        ck.fn(I, MMA, 'compute_filter_kd_tree')
        n, k, m = dim('n'), dim('k'), dim('m')
        N = mul(n, k)
        H, Hs = leaf('H', [n, n], 'f'), leaf('Hs', [n], 'f', positive=True)
        rho = leaf('rho', [n, k], 'f', positive=True)
        prob = obj()
        pc = []

        def kd(I, f, a, kw):
            pc.append(a + list(kw.values()))
            return (H, Hs)
        I.stubs[MMA + '.compute_filter_kd_tree'] = kd
        calls, oc, cc = [], [], []
        stub(I, calls, m, N)
        if K > 1:       # later densities as symbols of the first results
            pass

        def objective(I, a, kw):
            oc.append(a[0])
            t = len(oc)
            return (scal(T.app('J%d' % t, ()), 'f'), leaf('dJ%d' % t, [n, k], 'f', 'jnp'))

        def cons(I, a, kw):
            cc.append(a)
            t = len(cc)
            return (leaf('v%d' % t, [m], 'f', 'jnp'), leaf('dv%d' % t, [m, n, k], 'f', 'jnp'))
        move = sym('move', positive=True)
        out = I.call(w, [prob, rho, {'maxIters': K, 'movelimit': scal(move, 'f')}, PyFn(objective, 'objective'), PyFn(cons, 'constraint'), isym(m)])
        ck.holds('the filter is built once from the problem ' + tag, len(pc) == 1 and pc[0][0] is prob, 'compute_filter_kd_tree calls: %d' % len(pc), w)
        if not ck.holds('objective, constraints and subproblem are evaluated once per iteration ' + tag, len(oc) == len(cc) == len(calls) == K,
                        'objective %d, constraint %d, subproblem %d evaluations in %d iterations' % (len(oc), len(cc), len(calls), K), w):
            return True
        flat = lambda j: (T.floordiv(j, k), T.mod(j, k))
        xs = [arr([N, 1], lambda j, _: rho.get(flat(j)))]
        for t in range(1, K + 1):
            xs.append(arr([N, 1], lambda j, _, t=t: T.app('sub_x%d' % t, (), (j, ZERO))))
        rhos = [arr([n, k], lambda i, c, x=x: x.get((i * k + c, ZERO))) for x in xs]
        rhos[0] = rho
        one, zero = arr([N, 1], lambda *_: ONE), arr([N, 1], lambda *_: ZERO)
        low = upp = one
        for t in range(1, K + 1):
            it = '[iteration %d of %d]' % (t, K)
            r = rhos[t - 1]
            ck.eq('objective is evaluated at the current design ' + it, oc[t - 1], r, w)
            ck.eq('constraints are evaluated at the current design and iteration ' + it, list(cc[t - 1]), [r, t], w)
            dJ, v, dv = leaf('dJ%d' % t, [n, k], 'f'), leaf('v%d' % t, [m], 'f'), leaf('dv%d' % t, [m, n, k], 'f')
            df0 = arr([N, 1], lambda j, _, r=r, dJ=dJ: filt(H, Hs, r, dJ, *flat(j), n))
            df = arr([m, N], lambda q, j, r=r, dv=dv: filt(H, Hs, r, dv, *flat(j), n, (q,)))
            f = arr([m, 1], lambda q, _, v=v: v.get((q,)))
            o1, o2 = xs[max(t - 2, 0)], xs[max(t - 3, 0)]
            a = Approx(N, m, xs[t - 1], o1, o2, low, upp, zero, one, df0, f, df, move, t)
            low, upp = a.low, a.upp
            c = calls[t - 1]
            for q in ('low', 'upp', 'alfa', 'beta', 'p0', 'q0', 'P', 'Q', 'b'):
                ck.eq('subproblem datum %s of the filtered problem at the current design, with its history %s' % (q, it), c[q], getattr(a, q), w)
            ck.eq('artificial variables are penalised ' + it, [c['m'], c['n'], c['a0'], c['a'], c['c'], c['d']],
                  [isym(m), isym(N), scal(ONE, 'f'), arr([m, 1], lambda *_: ZERO), arr([m, 1], lambda *_: const(10000)), arr([m, 1], lambda *_: ZERO)], w)
        ck.eq('the last design is returned in the shape of the first ' + tag, out, rhos[K], w)
        return True
    ck.ob('optimisation loop ' + tag, go, MMA + '.optimize')


class KD(Model):
    """k-d tree over points: an arbitrary function for the k-th nearest neighbour of a query point"""
    def __init__(self, pts):
        self.pts = pts
        self.n = pts.shape[0]

    def attr(self, I, name):
        if name == 'query':
            return PyFn(self.query, 'query')
        if name in ('n',):
            return A.dimval(self.n) if hasattr(A, 'dimval') else isym(self.n.p)
        raise Undecided('KDTree.' + name)

    def query(self, I, a, k):
        pt = A.asarr(a[0])
        kk = a[1] if len(a) > 1 else k.get('k', 1)
        if pt.ndim != 1:
            raise Undecided('batched neighbour query')
        sq = False
        if isinstance(kk, (list, tuple, range)) or isinstance(kk, Arr) and kk.ndim == 1 or hasattr(kk, 'n') or type(kk).__name__ == 'RangeV':
            cnt, base = seqlen(I, kk)
        else:
            cnt, base = lift(A.asarr(kk).scalar()), ZERO
        key = (A.tlam(self.pts), A.tlam(pt))
        n = self.n.p
        # ranks beyond the number of points carry the index n and infinite distance
        dd = Arr([mkdim(cnt)], lambda ix: ite(lt(ix[0], n), T.app('kd_d', key, (ix[0],), positive=True), const(10 ** 30)), 'f', 'np')
        ii = Arr([mkdim(cnt)], lambda ix: ite(lt(ix[0], n), T.app('kd_i', key, (ix[0],), is_int=True, rng=(ZERO, n)), n), 'i', 'np')
        if cnt.const() == 1 and base is ZERO:
            return (models.unbox(scal(dd.get((ZERO,)), 'f')), scal(ii.get((ZERO,)), 'i'))
        return (dd, ii)


def seqlen(I, kk):
    v = I.iterate(kk) if not hasattr(kk, 'at') else None
    if v is None:
        if T.lower_nonneg(lift(kk.at(ZERO)) - 1) and kk.at(ZERO).const() == 1:
            return kk.n.p, ONE
        raise Undecided('neighbour ranks')
    ranks = [A.asarr(x).scalar().const() for x in v]
    if ranks != list(range(1, len(ranks) + 1)):
        raise Undecided('neighbour ranks')
    return const(len(ranks)), ONE


def kdtree(ck, case, D=3):
    tag = '[%s design cells in %d dimensions]' % ({1: 'one', 3: 'three', 20: '20 or more'}[case], D)

    def go():
        I = ck.interp()
        w = ck.fn(I, MMA, 'compute_filter_kd_tree')
        n = dim('gap', lb=0) + 20 if case == 20 else const(case)
        nn, nc, v, q = dim('nn'), dim('nc'), dim('v'), dim('q')
        pts, cells, flex = leaf('pts', [nn, D], 'f'), leaf('cells', [nc, v], 'i', hi=nn), leaf('flex', [n], 'i', hi=nc)
        J = leaf('JxW', [nc, q], 'f', positive=True)
        prob = obj(points=pts, cells=cells, flex_inds=flex, JxW=J, num_cells=isym(nc), dim=D)
        trees = []

        def mk(I, a, k):
            trees.append(KD(A.snapshot(A.asarr(a[0]))))
            return trees[-1]
        for x in ('scipy.spatial.KDTree', 'scipy.spatial.cKDTree'):
            I.ext[x] = PyFn(mk, 'KDTree')
        H, Hs = I.call(w, [prob])
        if len(trees) != 1:
            raise Undecided('%d trees' % len(trees))
        c = arr([n, D], lambda i, k: sm([v], lambda a: pts.get((cells.get((flex.get((i,)), a)), k))) / v)
        ck.eq('neighbours are searched among the centroids of the design cells ' + tag, trees[0].pts, c, w)
        rmin = F('1.5') * T.power(sm([nc, q], lambda e, g: J.get((e, g))) / nc, Fraction(1, D))
        kk = 20 if case == 20 else case

        def key(i):
            return (A.tlam(c), A.tlam(arr([D], lambda k: c.get((i, k)))))

        def h(i, j):
            return sm([kk], lambda b: eqi(T.app('kd_i', key(i), (b,), is_int=True, rng=(ZERO, n)), j) *
                      p_max(rmin - T.app('kd_d', key(i), (b,), positive=True), ZERO))
        ck.eq('filter weights fall linearly to zero at one and a half cell sizes ' + tag, H, arr([n, n], h), w)
        if case < 20:
            ck.eq('weight sums ' + tag, Hs, arr([n], lambda i: sm([kk], lambda b: p_max(rmin - T.app('kd_d', key(i), (b,), positive=True), ZERO))), w)
        return True
    ck.ob('neighbour filter ' + tag, go, MMA + '.compute_filter_kd_tree')
