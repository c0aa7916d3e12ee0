"""Lattice Boltzmann streaming: transport, wall and free-surface reconstruction, mass exchange."""
from .lbmlib import *


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(upd_f,), (upd_h,), (total,)])


def upd_f(ck):
    def go():
        s = Sim(ck)
        f, rho, u, ph, mass, vof = s.fld('f', s.Q), s.fld('rho'), s.fld('u', 3), s.phase(), s.fld('mass'), s.fld('vof')
        got = s.call('update_f_vmap', f_distribute=f, rho=rho, u=u, phase=ph, mass=mass, vof=vof)

        def pop(x, q):
            r = s.rev[q]
            y = s.nb(x, r)
            p, back = ph.get(y), f.get(x + (const(r),))
            uf = vec(u, x)
            v = ite(eqi(p, GAS), s.feq(r, ONE, uf) + s.feq(q, ONE, uf) - back, ite(eqi(p, WALL), back, f.get(y + (const(q),))))
            return ite(lor(eqi(ph.get(x), GAS), eqi(ph.get(x), WALL)), ZERO, v)
        ck.eq('populations stream from fluid neighbours, bounce back at walls and are rebuilt at the gas side', lambda: s.inner(got[0]),
              s.spec(s.perq(pop), s.Q), s.where('update_f_vmap'))

        def ms(x):
            out = [mass.get(x)]
            for q in range(s.Q):
                y = s.nb(x, q)
                d = f.get(y + (const(s.rev[q]),)) - f.get(x + (const(q),))
                out.append(eqi(ph.get(y), LIQUID) * d + eqi(ph.get(y), LG) * d * (vof.get(y) + vof.get(x)) / 2)
            p = ph.get(x)
            return eqi(p, LIQUID) * rho.get(x) + eqi(p, LG) * T.add_many(out)
        ck.eq('interface cells change mass by the antisymmetric exchange with fluid neighbours; liquid cells carry their density',
              lambda: s.inner(got[1]), s.spec(ms), s.where('update_f_vmap'))
        return True
    ck.ob('density streaming', go, SIM)


def upd_h(ck):
    def go():
        s = Sim(ck)
        h, u, ph = s.fld('h', s.Q), s.fld('u', 3), s.phase()

        def pop(x, q):
            r = s.rev[q]
            y = s.nb(x, r)
            p = ph.get(y)
            wall = s.heq(q, s.p['cp'], ONE, lambda k: ZERO)
            v = ite(eqi(p, GAS), h.get(x + (const(r),)), ite(eqi(p, WALL), wall, h.get(y + (const(q),))))
            return ite(lor(eqi(ph.get(x), GAS), eqi(ph.get(x), WALL)), ZERO, v)
        ck.eq('enthalpy streams from fluid neighbours, is insulated at the gas side and held at ambient temperature at walls',
              lambda: s.inner(s.call('update_h_vmap', h_distribute=h, u=u, phase=ph)), s.spec(s.perq(pop), s.Q), s.where('update_h_vmap'))
        return True
    ck.ob('enthalpy streaming', go, SIM)


def total(ck):
    def go():
        s = Sim(ck)
        f, ph, mass = s.fld('f', s.Q), s.phase(), s.fld('mass')
        ck.eq('mass per cell: density sum in liquid, tracked mass at the interface, none in gas or wall',
              lambda: s.call('compute_total_mass_vmap', f_distribute=f, phase=ph, mass=mass),
              arr(s.n, lambda *x: eqi(ph.get(x), LIQUID) * sm([s.Q], lambda q: f.get(x + (q,))) + eqi(ph.get(x), LG) * mass.get(x)),
              s.where('compute_total_mass_vmap'))
        return True
    ck.ob('cell mass', go, SIM)
