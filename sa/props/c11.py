"""Material models, their history, and the post-processing integrals."""
from fractions import Fraction
from .femlib import *
MOD = 'jax_am.fem.models'


def F(x):
    return const(Fraction(str(x)))


def lame(E, nu):
    E, nu = F(E), F(nu)
    return E / (2 * (1 + nu)), E * nu / ((1 + nu) * (ONE - 2 * nu))


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(elastic,), (hyper,), (plastic_map, 3), (plastic_map, None), (history,), (avg,),
                                        (poisson,), (surface,), (traction,)])


def case(ck, name, dimn=None, vec=None, **kw):
    c = FemCase(ck, tm=False, base=(MOD, name), dimn=dimn, vec=vec if vec is not None else (dimn or dim('dim')), **kw)
    c.meth = lambda n, *a: c.I.call(c.I.getattr(c.o, n), list(a), {})
    c.w = lambda n: ck.fn(c.I, MOD, '%s.%s' % (name, n))
    return c


def hooke(E, nu, d, e):
    mu, la = lame(E, nu)
    tr = sm([d], lambda k: e(k, k))
    return lambda i, j: la * tr * eqi(i, j) + 2 * mu * e(i, j)


def symm(g):
    return lambda i, j: const(Fraction(1, 2)) * (g(i, j) + g(j, i))


def elastic(ck):
    def go():
        c = case(ck, 'LinearElasticity')
        d = c.dim
        g = leaf('g', [d, d], 'f', 'jnp')
        s = hooke('70000', '0.3', d, symm(lambda i, j: g.get((i, j))))
        ck.eq('linear elastic stress is Hooke\'s law', lambda: c.I.call(c.meth('get_tensor_map'), [g]), arr([d, d], s),
              c.w('get_tensor_map'))
        return True
    ck.ob('linear elasticity', go, MOD + '.LinearElasticity')


def hyper(ck):
    def go():
        c = case(ck, 'HyperElasticity', 3)
        d = c.dim
        g = leaf('g', [3, 3], 'f', 'jnp')
        Fm = lambda i, j: g.get((i, j)) + eqi(i, j)
        l = lam([d, d], Fm)
        J = T.app('det', (l,))
        mu = F('1000') / (2 * (1 + F('0.3')))
        ka = F('1000') / (3 * (ONE - 2 * F('0.3')))
        I1 = sm([d, d], lambda i, j: Fm(i, j) * Fm(i, j))
        iso = T.power(J, Fraction(-2, 3))
        FiT = lambda i, j: T.app('inv', (l,), (j, i))
        P = lambda i, j: mu * iso * (Fm(i, j) - const(Fraction(1, 3)) * I1 * FiT(i, j)) + ka * (J - 1) * J * FiT(i, j)
        ck.eq('first Piola-Kirchhoff stress of the compressible neo-Hookean energy',
              lambda: c.I.call(c.meth('get_tensor_map'), [g]), arr([d, d], P), c.w('get_tensor_map'))
        return True
    ck.ob('hyperelasticity', go, MOD + '.HyperElasticity')


def vm(d, s):
    """deviator and von Mises norm of a stress"""
    tr = sm([d], lambda k: s(k, k))
    dev = lambda i, j: s(i, j) - tr / d * eqi(i, j)
    n2 = const(Fraction(3, 2)) * sm([d, d], lambda i, j: dev(i, j) * dev(i, j))
    return dev, ite(T.gt0(n2), T.power(n2, Fraction(1, 2)), ZERO)


def rmap(d, g, so, eo):
    e = symm(g)
    tr = hooke('70000', '0.3', d, lambda i, j: e(i, j) - eo(i, j))
    s = lambda i, j: tr(i, j) + so(i, j)
    dev, n = vm(d, s)
    f = n - 250
    fp = ite(T.gt0(f), f, ZERO)
    return lambda i, j: s(i, j) - mul(T.not_(T.eq0(n)), fp * dev(i, j) * T.power(n, -1))


def fresh(d, *names):
    return [leaf(n, [d, d], 'f', 'jnp') for n in names]


def plastic_map(ck, dn):
    tag = '[dim %s]' % (dn or 'any')

    def go():
        c = case(ck, 'Plasticity', dn)
        d = c.dim
        g, so, eo = fresh(d, 'g', 'so', 'eo')
        A3 = lambda x: lambda i, j: x.get((i, j))
        ck.eq('radial return of the elastic trial stress to the yield surface ' + tag,
              lambda: c.I.call(c.meth('get_tensor_map'), [g, so, eo]), arr([d, d], rmap(d, A3(g), A3(so), A3(eo))),
              c.w('get_maps'))
        if dn is None:
            return True
        # pure shear just inside and just outside the yield surface
        h = sym('h', positive=True)
        for nm, yn in (('above', const(250) + h), ('above', const(250) + h / 64), ('below', const(250) - h)):
            tau = yn * T.power(const(3), Fraction(-1, 2))
            sh = arr([d, d], lambda i, j: tau * add(land(eqi(i, ZERO), eqi(j, ONE)), land(eqi(i, ONE), eqi(j, ZERO))))
            z = arr([d, d], lambda i, j: ZERO)
            back = const(250) if nm == 'above' else yn
            t1 = lambda y: y * T.power(const(3), Fraction(-1, 2))
            res = c.I.call(c.meth('get_tensor_map'), [z, sh, z])
            ck.eq('pure shear %s the yield stress %s' % (nm, tag), res,
                  arr([d, d], lambda i, j: t1(back) * add(land(eqi(i, ZERO), eqi(j, ONE)), land(eqi(i, ONE), eqi(j, ZERO)))),
                  c.w('get_maps'))
        return True
    ck.ob('plastic return map ' + tag, go, MOD + '.Plasticity')


def history(ck):
    def go():
        c = case(ck, 'Plasticity')
        d = c.dim
        sh = [c.C, c.Q, d, d]
        zero = arr(sh, lambda *x: ZERO)
        w = c.w('update_stress_strain')
        iv = lambda: list(c.o.attrs['internal_vars']['laplace'])
        ck.eq('history starts stress and strain free', iv, [zero, zero], c.w('custom_init'))
        S0 = E0 = lambda e, q, i, j: ZERO
        for k in range(2):
            u = leaf('u%d' % k, [N, d], 'f', 'jnp')
            ug = lambda e, q, i, j, u=u: sm([c.a], lambda b: u.get((c.cell.get((e, b)), i)) * c.grad(e, q, b, j))
            c.meth('update_stress_strain', u)
            # the state before this update is replaced by arbitrary values, so that every step is covered
            ck.eq('step %d stores the returned stress of that step and its strain' % k, iv, [
                arr(sh, lambda e, q, i, j, ug=ug, S0=S0, E0=E0: rmap(
                    d, lambda x, y: ug(e, q, x, y), lambda x, y: S0(e, q, x, y), lambda x, y: E0(e, q, x, y))(i, j)),
                arr(sh, lambda e, q, i, j, ug=ug: symm(lambda x, y: ug(e, q, x, y))(i, j))], w)
            so, eo = leaf('S%d' % k, sh, 'f', 'jnp'), leaf('E%d' % k, sh, 'f', 'jnp')
            old = iv()
            for n, v in list(c.o.attrs.items()):
                if isinstance(v, Arr) and v is old[0]:
                    c.o.attrs[n] = so
                elif isinstance(v, Arr) and v is old[1]:
                    c.o.attrs[n] = eo
            c.o.attrs['internal_vars'] = {'laplace': [so, eo]}
            S0, E0 = (lambda e, q, i, j, so=so: so.get((e, q, i, j))), (lambda e, q, i, j, eo=eo: eo.get((e, q, i, j)))
        return True
    ck.ob('plastic history', go, MOD + '.Plasticity')


def avg(ck):
    def go():
        c = case(ck, 'Plasticity')
        d = c.dim
        sh = [c.C, c.Q, d, d]
        so, eo = leaf('S', sh, 'f', 'jnp'), leaf('E', sh, 'f', 'jnp')
        old = list(c.o.attrs['internal_vars']['laplace'])
        for n, v in list(c.o.attrs.items()):
            if isinstance(v, Arr) and v is old[0]:
                c.o.attrs[n] = so
        c.o.attrs['internal_vars'] = {'laplace': [so, eo]}
        vol = sm([c.C, c.Q], lambda e, q: c.jxw(e, q))
        ck.eq('average stress is the volume average', lambda: c.meth('compute_avg_stress'), arr([d, d], lambda i, j: sm(
            [c.C, c.Q], lambda e, q: so.get((e, q, i, j)) * c.jxw(e, q)) / vol), c.w('compute_avg_stress'))
        return True
    ck.ob('average stress', go, MOD + '.Plasticity')


def poisson(ck):
    def go():
        c = case(ck, 'LinearPoisson', vec=dim('vec'))
        g = leaf('g', [c.vec, c.dim], 'f', 'jnp')
        ck.eq('Poisson flux is the gradient', lambda: c.I.call(c.meth('get_tensor_map'), [g]), g, c.w('get_tensor_map'))
        tu = user_fn('tu', [c.vec])
        uh = lambda e, q, k: sm([c.a], lambda b: c.u.get((c.cell.get((e, b)), k)) * c.Nq.get((q, b)))
        ex = lambda e, q, k: T.app('tu', (c.qp(e, q),), (k,))
        l2 = sqrt(sm([c.C, c.Q, c.vec], lambda e, q, k: T.power(uh(e, q, k) - ex(e, q, k), 2) * c.jxw(e, q)))
        ck.eq('L2 error', lambda: c.meth('compute_l2_norm_error', c.u, tu), scal(l2), c.w('compute_l2_norm_error'))
        dg = lambda e, q, k, i: c.ugrad(e, q, k, i) - T.app(('D', 0, 1, 'tu'), (c.qp(e, q),), (k, i))
        h = sqrt(sm([c.C, c.Q, c.vec, c.dim], lambda e, q, k, i: T.power(dg(e, q, k, i), 2) * c.jxw(e, q)))
        ck.eq('H1 error', lambda: c.meth('compute_h1_norm_error', c.u, tu), scal(l2 + h), c.w('compute_h1_norm_error'))
        return True
    ck.ob('Poisson', go, MOD + '.LinearPoisson')


def sface(c):
    return c.faces(0, 'nloc')


def fgradu(c, e, f, q, k, i):
    return sm([c.a], lambda b: c.u.get((c.cell.get((e, b)), k)) * c.fgrad(e, f, q, b, i))


def surface(ck):
    def go():
        c = case(ck, 'LinearElasticity', vec=dim('vec'), dimn=None)
        ci, fi = sface(c)
        n = ci.shape[0]
        at = lambda s: (ci.get((s,)), fi.get((s,)))
        got = {}

        def fn(I, a, k):
            g = A.asarr(a[0])
            got['g'] = g
            return leaf('tr', [n, c.FQ, c.vec], 'f', 'jnp')
        r = c.meth('surface_integral', pred('nloc0'), IP.PyFn(fn, 'surface_fn'), c.u)
        w = c.w('surface_integral')
        ck.eq('surface function sees the displacement gradient on the selected faces', got.get('g'),
              arr([n, c.FQ, c.vec, c.dim], lambda s, q, k, i: fgradu(c, *at(s), q, k, i)), w)
        tr = leaf('tr', [n, c.FQ, c.vec])
        ck.eq('surface integral = sum of values times surface measure', r, arr([c.vec], lambda k: sm(
            [n, c.FQ], lambda s, q: tr.get((s, q, k)) * c.nanson(*at(s), q))), w)
        ck.eq('surface area', lambda: c.meth('compute_surface_area', pred('nloc0'), c.u), arr([c.vec], lambda k: sm(
            [n, c.FQ], lambda s, q: c.nanson(*at(s), q))), c.w('compute_surface_area'))
        return True
    ck.ob('surface integrals', go, MOD + '.Mechanics')


def traction(ck):
    def go():
        c = case(ck, 'LinearElasticity', 3)
        ci, fi = sface(c)
        n = ci.shape[0]
        at = lambda s: (ci.get((s,)), fi.get((s,)))
        st = lambda s, q: hooke('70000', '0.3', c.dim, symm(lambda i, j: fgradu(c, *at(s), q, i, j)))
        ck.eq('traction on faces with normal z', lambda: c.meth('compute_traction', pred('nloc0'), c.u), arr([3], lambda k: sm(
            [n, c.FQ], lambda s, q: st(s, q)(k, const(2)) * c.nanson(*at(s), q))), c.w('compute_traction'))
        return True
    ck.ob('traction', go, MOD + '.Mechanics')
