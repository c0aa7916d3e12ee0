"""Free-surface state machine: which cells change state, and what they carry afterwards."""
from .lbmlib import *
TH = const(Fraction(1, 1000))


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(fill,), (empty,), (surface,), (born,), (adhoc,), (refresh,)])


def rho(s, f, x):
    return sm([s.Q], lambda q: f.get(x + (q,)))


def others(s):
    return [q for q in range(s.Q) if s.c[q] != [0, 0, 0]]


def base(ck):
    s = Sim(ck)
    return s, s.fld('f', s.Q), s.phase(), s.fld('mass')


def fill(ck):
    def go():
        s, f, ph, m = base(ck)
        ck.eq('an interface cell overfilled beyond the threshold becomes liquid, nothing else changes',
              lambda: s.call('reini_lg_to_liquid_vmap', f_distribute=f, phase=ph, mass=m),
              arr(s.n, lambda *x: ite(land(eqi(ph.get(x), LG), lt((1 + TH) * rho(s, f, x), m.get(x))), const(LIQUID), ph.get(x))),
              s.where('reini_lg_to_liquid_vmap'))
        return True
    ck.ob('filled cells', go, SIM)


def empty(ck):
    def go():
        s, f, ph, m = base(ck)
        ck.eq('an interface cell emptied beyond the threshold becomes gas, nothing else changes',
              lambda: s.call('reini_lg_to_gas_vmap', f_distribute=f, phase=ph, mass=m),
              arr(s.n, lambda *x: ite(land(eqi(ph.get(x), LG), lt(m.get(x), -TH * rho(s, f, x))), const(GAS), ph.get(x))),
              s.where('reini_lg_to_gas_vmap'))
        return True
    ck.ob('emptied cells', go, SIM)


def surface(ck):
    def go():
        s, f, ph, m = base(ck)
        got = s.call('reini_liquid_to_lg_vmap', f_distribute=f, phase=ph, mass=m)
        w = s.where('reini_liquid_to_lg_vmap')
        flag = lambda x: land(eqi(ph.get(x), LIQUID), lor(*[eqi(ph.get(s.nb(x, q)), GAS) for q in others(s)]))
        ck.eq('a liquid cell next to gas becomes interface', lambda: s.inner(got[0]), s.spec(lambda x: ite(flag(x), const(LG), ph.get(x))), w)
        ck.eq('and then carries its density as mass', lambda: s.inner(got[1]), s.spec(lambda x: ite(flag(x), rho(s, f, x), m.get(x))), w)
        return True
    ck.ob('liquid exposed to gas', go, SIM)


def born(ck):
    def go():
        s = Sim(ck)
        f, h, r, u, en, t, ph, m = (s.fld('f', s.Q), s.fld('h', s.Q), s.fld('rho'), s.fld('u', 3), s.fld('en'), s.fld('T'), s.phase(), s.fld('mass'))
        # equilibria are decided by C19; here only what they are asked for matters
        ef = s.local('equilibrium_f')
        eh = s.local('equilibrium_h')
        if not isinstance(ef, FuncV) or not isinstance(eh, FuncV):
            raise Undecided('equilibrium functions not found')
        named(ef, ['q', 'rho', 'u'])
        named(eh, ['q', 'enthalpy', 'T', 'u'])
        F = lambda tag: lambda I, fn, a, k: fapp(tag, bind(fn, a, k))
        s.I.stubs[ef.qual()] = F('feq')
        s.I.stubs[eh.qual()] = F('heq')
        got = s.call('reini_gas_to_lg_vmap', f_distribute=f, h_distribute=h, rho=r, u=u, enthalpy=en, T=t, phase=ph, mass=m)
        w = s.where('reini_gas_to_lg_vmap')
        flag = lambda x: land(eqi(ph.get(x), GAS), lor(*[eqi(ph.get(s.nb(x, q)), LIQUID) for q in others(s)]))

        def avg(fn, x):
            wq = [(eqi(ph.get(s.nb(x, q)), LIQUID) + eqi(ph.get(s.nb(x, q)), LG), s.nb(x, q)) for q in range(s.Q)]
            return T.add_many([a * fn(y) for a, y in wq]) / T.add_many([a for a, _ in wq])
        ck.eq('a gas cell next to liquid becomes interface', lambda: s.inner(got[2]), s.spec(lambda x: ite(flag(x), const(LG), ph.get(x))), w)
        ck.eq('with zero mass of its own', lambda: s.inner(got[3]), s.spec(lambda x: ite(flag(x), ZERO, m.get(x))), w)
        sc = lambda a: lambda y: a.get(y)

        def one(k, tag, fields, old):
            def want(x, q):
                vals = [const(q)] + [avg(sc(a), x) for a in fields] + [avg(lambda y, c=c: u.get(y + (const(c),)), x) for c in range(3)]
                return ite(flag(x), T.app(tag, tuple(vals)), old.get(x + (const(q),)))
            qs = range(s.Q) if ck.thorough else (0, 5, 13)
            for q in qs:
                ck.eq('%s of the new interface cell: equilibrium of the neighbouring fluid average (direction %d)' % (
                    {'feq': 'density populations', 'heq': 'enthalpy populations'}[tag], q),
                    lambda: s.inner(pickq(got[k], q)), s.spec(lambda x: want(x, q)), w)
        one(0, 'feq', [r], f)
        one(1, 'heq', [en, t], h)
        return True
    ck.ob('gas reached by liquid', go, SIM)


def pickq(a, q):
    a = A.asarr(a)
    return Arr(a.shape[:3], lambda ix: a.get(tuple(ix) + (const(q),)), a.dtype, a.lib)


def named(f, known):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg or a.kwonlyargs or names != known:
        raise Undecided('signature of %s changed to %s' % (f.name, names))


def bind(fn, a, k):
    a = list(a)
    names = [x.arg for x in fn.node.args.args]
    for n in names[len(a):]:
        a.append(k[n])
    return a


def fapp(tag, a):
    u = A.asarr(a[-1])
    ps = tuple([A.asarr(x).scalar() for x in a[:-1]] + [u.get((const(c),)) for c in range(3)])
    return Arr((), lambda ix: T.app(tag, ps), 'f', 'jnp')


def adhoc(ck):
    def go():
        s, f, ph, m = base(ck)

        def want(x):
            p = ph.get(x)
            nbs = [ph.get(s.nb(x, q)) for q in others(s)]
            g = land(*[T.not_(eqi(y, LIQUID)) for y in nbs])
            l = land(*[T.not_(eqi(y, GAS)) for y in nbs])
            return ite(land(eqi(p, LG), g), const(GAS), ite(land(eqi(p, LG), l), const(LIQUID), p))
        ck.eq('interface cells without liquid neighbours become gas, without gas neighbours liquid',
              lambda: s.inner(s.call('adhoc_step_vmap', f_distribute=f, phase=ph, mass=m)), s.spec(want), s.where('adhoc_step_vmap'))
        return True
    ck.ob('isolated interface cells', go, SIM)


def refresh(ck):
    def go():
        s, f, ph, m = base(ck)
        h = s.fld('h', s.Q)
        got = s.call('refresh_for_output_vmap', f_distribute=f, h_distribute=h, phase=ph, mass=m)
        w = s.where('refresh_for_output_vmap')
        dead = lambda x: lor(eqi(ph.get(x), GAS), eqi(ph.get(x), WALL))
        for k, (n, a) in enumerate([('density populations', f), ('enthalpy populations', h)]):
            ck.eq('gas and wall cells hold no %s' % n, lambda: got[k], arr(s.n + [s.Q], lambda *x: ite(dead(x[:3]), ZERO, a.get(x))), w)
        ck.eq('clearing gas and wall cells leaves the states alone', lambda: got[2], ph, w)
        ck.eq('gas and wall cells hold no mass', lambda: got[3], arr(s.n, lambda *x: ite(dead(x), ZERO, m.get(x))), w)
        return True
    ck.ob('gas and wall cells are cleared', go, SIM)
