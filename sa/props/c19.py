"""Lattice Boltzmann kinetic model: velocity set, equilibria, forcing, moments and collision."""
from .lbmlib import *


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(tables,), (equil,), (forcing,), (moments,), (col_f,), (col_h,)])


def tables(ck):
    def go():
        s = Sim(ck)
        w = s.w
        ck.holds('the velocity set has 19 distinct vectors, the rest vector first', s.Q == 19 and s.c[0] == [0, 0, 0] and len(set(map(tuple, s.c))) == 19,
                 'the D3Q19 velocity set is wrong: %s' % s.c, w)
        ck.holds('every velocity is the rest vector, an axis step or a face diagonal', all(sum(x * x for x in c) <= 2 for c in s.c),
                 'velocity set %s is not D3Q19' % s.c, w)
        ck.holds('the velocity set is closed under reversal', None not in s.rev, 'a velocity has no opposite: %s' % s.c, w)
        if s.local('rev') is not None:
            r = A.asarr(s.local('rev'))
            rv = [r.get((const(i),)).const() for i in range(s.Q)]
            ck.holds('the reversal table maps each velocity to its opposite', rv == s.rev, 'reversal table %s' % rv, w)
        if s.local('weights') is not None:
            r = A.asarr(s.local('weights'))
            wt = [r.get((const(i),)).const() for i in range(s.Q)]
            c = s.c
            mom = lambda *ax: sum((wt[q] * prod(c[q][a] for a in ax) for q in range(s.Q)), Fraction(0))
            e = lambda a, b: 1 if a == b else 0
            cs = Fraction(1, 3)
            R = range(3)
            ok = mom() == 1 and all(mom(a, b) == cs * e(a, b) for a in R for b in R) and all(
                mom(a) == 0 for a in R) and all(mom(a, b, d) == 0 for a in R for b in R for d in R) and all(
                mom(a, b, d, f) == cs * cs * (e(a, b) * e(d, f) + e(a, d) * e(b, f) + e(a, f) * e(b, d))
                for a in R for b in R for d in R for f in R)
            ck.holds('the weights are isotropic to fourth order with sound speed squared 1/3', ok, 'weights %s' % [str(x) for x in wt], w)
        return True
    ck.ob('velocity tables', go, SIM)


def prod(xs):
    r = Fraction(1)
    for x in xs:
        r *= x
    return r


def named(s, name, known):
    f = s.local(name)
    if not isinstance(f, FuncV):
        raise Undecided('function %s not found' % name)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg or a.kwonlyargs or set(names) - set(known):
        raise Undecided('signature of %s changed to %s' % (name, names))
    return lambda **kw: s.I.call(f, [kw[n] for n in names]), f


def equil(ck):
    def go():
        s = Sim(ck)
        u, rho, en, t = leaf('u', [3], 'f', 'jnp'), sym('rho'), sym('en'), sym('T')
        uf = lambda k: u.get((const(k),))
        try:
            f, w = named(s, 'equilibrium_f', ['q', 'rho', 'u'])
            out = [P(f(q=q, rho=scal(rho, 'f'), u=u)) for q in range(s.Q)]
            ck.eq('density equilibrium is the second-order expansion in the velocity', lambda: stack(out),
                  stack([s.feq(q, rho, uf) for q in range(s.Q)]), w)
            ck.eq('density equilibrium carries the density', lambda: scal(T.add_many(out), 'f'), scal(rho, 'f'), w)
            ck.eq('density equilibrium carries the momentum', lambda: stack([T.add_many([const(s.c[q][k]) * out[q] for q in range(s.Q)])
                                                                             for k in range(3)]), stack([rho * uf(k) for k in range(3)]), w)
        except KeyError as e:
            raise Undecided('argument %s' % e)
        h, w = named(s, 'equilibrium_h', ['q', 'enthalpy', 'T', 'u'])
        out2 = [P(h(q=q, enthalpy=scal(en, 'f'), T=scal(t, 'f'), u=u)) for q in range(s.Q)]
        ck.eq('enthalpy equilibrium: sensible heat moves, the rest stays', lambda: stack(out2),
              stack([s.heq(q, en, t, uf) for q in range(s.Q)]), w)
        ck.eq('enthalpy equilibrium carries the enthalpy', lambda: scal(T.add_many(out2), 'f'), scal(en, 'f'), w)
        ck.eq('enthalpy equilibrium carries the convective flux', lambda: stack([T.add_many([const(s.c[q][k]) * out2[q] for q in range(s.Q)])
                                                                                 for k in range(3)]), stack([s.p['cp'] * t * uf(k) for k in range(3)]), w)
        return True
    ck.ob('equilibria', go, SIM)


def P(x):
    return A.asarr(x).scalar()


def stack(ps):
    return Arr([mkdim(len(ps))], lambda ix: A.pick(ix[0], [lift(p) for p in ps]))


def force(s, q, u, F):
    """Guo forcing"""
    cu = s.dot(q, u)
    return (1 - 1 / (2 * s.tau)) * const(s.wt[q]) * T.add_many(
        [(3 * (const(s.c[q][k]) - u(k)) + 9 * cu * const(s.c[q][k])) * F(k) for k in range(3)])


def forcing(ck):
    def go():
        s = Sim(ck)
        u, F = leaf('u', [3], 'f', 'jnp'), leaf('F', [3], 'f', 'jnp')
        uf, Ff = (lambda k: u.get((const(k),))), (lambda k: F.get((const(k),)))
        f, w = named(s, 'f_forcing', ['q', 'u', 'volume_force'])
        out = [P(f(q=q, u=u, volume_force=F)) for q in range(s.Q)]
        ck.eq('body force enters the populations with the half-step correction', lambda: stack(out),
              stack([force(s, q, uf, Ff) for q in range(s.Q)]), w)
        ck.eq('forcing creates no mass', lambda: scal(T.add_many(out), 'f'), scal(ZERO, 'f'), w)
        ck.eq('forcing adds exactly the (half-step corrected) force to the momentum', lambda: stack([
            T.add_many([const(s.c[q][k]) * out[q] for q in range(s.Q)]) for k in range(3)]),
            stack([(1 - 1 / (2 * s.tau)) * Ff(k) for k in range(3)]), w)
        h, w = named(s, 'h_forcing_vmap', ['volume_power', 'rho'])
        pw, rho = sym('pw'), sym('rho', positive=True)
        r = h(volume_power=scal(pw, 'f'), rho=scal(rho, 'f'))
        ck.eq('heat source is spread by the lattice weights', lambda: r, stack([pw / rho * const(x) for x in s.wt]), w)
        return True
    ck.ob('forcing', go, SIM)


def moments(ck):
    def go():
        s = Sim(ck)
        f, h = s.fld('f', s.Q), s.fld('h', s.Q)
        rho, t = s.fld('rho'), s.fld('T')
        F = s.fld('F', 3)
        ck.eq('density is the sum of the populations', lambda: s.call('compute_rho', f_distribute=f),
              arr(s.n, lambda *x: sm([s.Q], lambda q: f.get(x + (q,)))), s.where('compute_rho'))
        ck.eq('enthalpy is the sum of the populations', lambda: s.call('compute_enthalpy', h_distribute=h),
              arr(s.n, lambda *x: sm([s.Q], lambda q: h.get(x + (q,)))), s.where('compute_enthalpy'))

        def vel(*ix):
            x, k = tuple(ix[:3]), ix[3]
            r = rho.get(x)
            mom = T.add_many([A.pick(k, [const(c) for c in s.c[q]]) * f.get(x + (const(q),)) for q in range(s.Q)])
            z = eqi(r, 0)
            v = (mom + F.get(x + (k,)) / 2) / ite(z, ONE, r)
            return ite(lor(z, lt(t.get(x), s.p['Ts'])), ZERO, v)
        ck.eq('velocity is momentum plus half the force over density, zero where solid or empty',
              lambda: s.call('compute_u', f_distribute=f, rho=rho, T=t, f_source_term=F), arr(s.n + [3], vel), s.where('compute_u'))
        return True
    ck.ob('moments', go, SIM)


def col_f(ck):
    def go():
        s = Sim(ck)
        f, rho, t, u, ph, F = s.fld('f', s.Q), s.fld('rho'), s.fld('T'), s.fld('u', 3), s.phase(), s.fld('F', 3)

        def want(x, q):
            p, r, fq = ph.get(x), rho.get(x), f.get(x + (const(q),))
            uf, Ff = vec(u, x), vec(F, x)
            liq = (s.feq(q, r, uf) - fq) / s.tau + fq + force(s, q, uf, Ff)
            return ite(lor(eqi(p, GAS), eqi(p, WALL)), ZERO, ite(lt(t.get(x), s.p['Ts']), const(s.wt[q]) * r, liq))
        ck.eq('fluid collision: BGK relaxation with forcing, rest equilibrium where solid, nothing in gas or wall',
              lambda: s.inner(s.call('collide_f_vmap', f_distribute=f, rho=rho, T=t, u=u, phase=ph, f_source_term=F)),
              s.spec(s.perq(want), s.Q), s.where('collide_f_vmap'))
        return True
    ck.ob('fluid collision', go, SIM)


def col_h(ck):
    def go():
        s = Sim(ck)
        h, en, rho, t, u, ph, S = s.fld('h', s.Q), s.fld('en'), s.fld('rho'), s.fld('T'), s.fld('u', 3), s.phase(), s.fld('S')

        def want(x, q):
            p, r, hq, tt = ph.get(x), rho.get(x), h.get(x + (const(q),)), t.get(x)
            tau = ite(lt(tt, s.p['Ts']), s.taus, s.taul)
            v = (s.heq(q, en.get(x), tt, vec(u, x)) - hq) / tau + hq + S.get(x) / r * const(s.wt[q])
            return ite(lor(eqi(p, GAS), eqi(p, WALL)), ZERO, v)
        ck.eq('thermal collision: relaxation with the diffusivity of the local state and the heat source, nothing in gas or wall',
              lambda: s.inner(s.call('collide_h_vmap', h_distribute=h, enthalpy=en, T=t, rho=rho, u=u, phase=ph, h_source_term=S)),
              s.spec(s.perq(want), s.Q), s.where('collide_h_vmap'))
        return True
    ck.ob('thermal collision', go, SIM)
