"""Lattice Boltzmann closures: temperature, fill level, curvature, forces, heat input, laser path."""
from .lbmlib import *


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(state,), (curv,), (columns, 0), (columns, 1), (columns, 2), (tgrad,), (fsrc,), (hsrc,), (path, 2), (path, 3)])


def fin(p):
    return T.app(('bool', 'isfinite'), (p,), is_bool=True) if p.const() is None else ONE


def state(ck):
    def go():
        s = Sim(ck)
        en, rho, ph, m = s.fld('en'), s.fld('rho'), s.phase(), s.fld('mass')
        ck.eq('temperature from enthalpy: solid, mushy and liquid branches', lambda: s.call('compute_T', enthalpy=en),
              arr(s.n, lambda *x: s.temp(en.get(x))), s.where('compute_T'))

        def vof(*x):
            p = ph.get(x)
            return ite(eqi(p, LIQUID), rho.get(x), ite(eqi(p, GAS), ZERO, ite(eqi(p, WALL), ONE, m.get(x))))
        ck.eq('fill level: density in liquid, mass at the interface, nothing in gas, full in walls',
              lambda: s.call('compute_vof', rho=rho, phase=ph, mass=m), arr(s.n, vof), s.where('compute_vof'))
        return True
    ck.ob('temperature and fill level', go, SIM)


def shift(s, x, d):
    return tuple(T.mod(lift(i) + k, lift(n)) for i, k, n in zip(x, d, s.n))


def unit(a, k):
    return tuple(k if i == a else 0 for i in range(3))


def height(s, vof, x, a, off):
    """column sum of 7 cells along axis a"""
    tot = []
    for k in range(-3, 4):
        d = list(off)
        d[a] = k
        tot.append(vof.get(shift(s, x, d)))
    return T.add_many(tot)


def kappa(s, vof, x, a):
    b, c = [i for i in range(3) if i != a]

    def Hh(i, j):
        d = [0, 0, 0]
        d[b], d[c] = i, j
        return height(s, vof, x, a, d)
    hx, hy = (Hh(1, 0) - Hh(-1, 0)) / 2, (Hh(0, 1) - Hh(0, -1)) / 2
    hxx, hyy = Hh(1, 0) - 2 * Hh(0, 0) + Hh(-1, 0), Hh(0, 1) - 2 * Hh(0, 0) + Hh(0, -1)
    hxy = (Hh(1, 1) - Hh(-1, 1) - Hh(1, -1) + Hh(-1, -1)) / 4
    k = hxx + hyy + hxx * hy ** 2 + hyy * hx ** 2 - 2 * hxy * hx * hy
    return -k * T.power(1 + hx ** 2 + hy ** 2, Fraction(-3, 2))


def grad(s, fn, x, a):
    return (fn(shift(s, x, unit(a, 1))) - fn(shift(s, x, unit(a, -1)))) / 2


def ab(p):
    return T.app('abs', (p,))


def curv(ck):
    def go():
        s = Sim(ck)
        vof = s.fld('vof')
        w = s.where('compute_curvature')
        got = s.call('compute_curvature', vof=vof)
        g = lambda x, a: grad(s, lambda y: vof.get(y), x, a)
        ck.eq('surface gradient: central differences of the fill level', lambda: s.inner(got[0]),
              s.spec(lambda x, k: A.pick(k, [g(x, a) for a in range(3)]), 3), w)
        return True
    ck.ob('curvature', go, SIM)


def columns(ck, a):
    def go():
        s = Sim(ck, pad=3)
        w = s.where('compute_curvature')
        b, c = [i for i in range(3) if i != a]
        g = leaf('g', [s.n[b], s.n[c]], 'f', 'jnp')
        K = sym('K')
        # fill level sloping along the axis, with arbitrary column heights across it
        v = Arr([mkdim(x) for x in s.n], lambda ix: g.get((ix[b], ix[c])) + K * ix[a], 'f', 'jnp')
        ck.eq('curvature from columns along axis %d where the surface normal is closest to it' % a,
              lambda: s.inner(s.call('compute_curvature', vof=v)[1]), s.spec(lambda x: dirac(s, v, x)), w)
        return True
    ck.ob('curvature along axis %d' % a, go, SIM)


def dirac(s, vof, x):
    g = [ab(grad(s, lambda y: vof.get(y), x, a)) for a in range(3)]
    k = [kappa(s, vof, x, a) for a in range(3)]
    return ite(land(le(g[1], g[0]), le(g[2], g[0])), k[0], ite(land(le(g[0], g[1]), le(g[2], g[1])), k[1], k[2]))


def tgrad(ck):
    def go():
        s = Sim(ck)
        t, ph = s.fld('T'), s.phase()

        def g(x, k):
            def val(y):
                return ite(lor(eqi(ph.get(y), GAS), eqi(ph.get(y), WALL)), t.get(x), t.get(y))
            return A.pick(k, [grad(s, val, x, a) for a in range(3)])
        ck.eq('temperature gradient ignores gas and wall neighbours', lambda: s.inner(s.call('compute_T_grad', T=t, phase=ph)),
              s.spec(g, 3), s.where('compute_T_grad'))
        return True
    ck.ob('temperature gradient', go, SIM)


def fsrc(ck):
    def go():
        s = Sim(ck)
        rho, vof, phi, ka, t, tg = s.fld('rho'), s.fld('vof'), s.fld('phi', 3), s.fld('kappa'), s.fld('T', positive=True), s.fld('Tg', 3)
        p = s.p

        def want(*ix):
            x, k = tuple(ix[:3]), ix[3]
            ph = [phi.get(x + (const(a),)) for a in range(3)]
            gt = [tg.get(x + (const(a),)) for a in range(3)]
            nn = sqrt(T.add_many([a * a for a in ph]))
            nrm = [fin(a / nn) * (a / nn) for a in ph]
            nt = T.add_many([a * b for a, b in zip(nrm, gt)])
            rec = p['rp'] * p['p_atm'] * T.app('exp', (p['Lv'] * (t.get(x) - p['Tv']) / (p['R'] * t.get(x) * p['Tv']),))
            out = []
            for a in range(3):
                v = p['st'] * ka.get(x) * ph[a] + p['stg'] * (gt[a] - nt * nrm[a]) * nn * 2 * vof.get(x) + rec * ph[a]
                if a == 2:
                    v = v - rho.get(x) * p['g']
                out.append(v)
            return A.pick(k, out)
        ck.eq('volume force: gravity, surface tension, Marangoni and recoil pressure',
              lambda: s.call('compute_f_source_term', rho=rho, vof=vof, phi=phi, kappa=ka, T=t, T_grad=tg), arr(s.n + [3], want),
              s.where('compute_f_source_term'))
        return True
    ck.ob('volume force', go, SIM)


def hsrc(ck):
    def go():
        s = Sim(ck)
        t, vof, phi = s.fld('T'), s.fld('vof'), s.fld('phi', 3)
        cen = leaf('cen', [s.N, 3], 'f', 'jnp')
        lx, ly, sw = sym('lx'), sym('ly'), sym('sw')
        p = s.p

        def want(*x):
            c = (x[0] * lift(s.n[1]) + x[1]) * lift(s.n[2]) + x[2]
            ph = [phi.get(x + (const(a),)) for a in range(3)]
            nn = sqrt(T.add_many([a * a for a in ph]))
            tt = t.get(x)
            loss = nn * (p['hc'] * (1 - tt) + p['SB'] * p['eps'] * (1 - tt ** 4)) * 2 * vof.get(x)
            d2 = (cen.get((c, ZERO)) - lx) ** 2 + (cen.get((c, ONE)) - ly) ** 2
            las = sw * 2 * p['P'] * p['absf'] / (T.PI * p['beam'] ** 2) * T.app('exp', (-2 * d2 / p['beam'] ** 2,))
            down = ite(lt(0, -ph[2]), -ph[2], ZERO)
            return down * las * 2 * vof.get(x) + loss
        ck.eq('heat input: Gaussian laser on upward-facing surface, convective and radiative loss',
              lambda: s.call('compute_h_source_term', T=t, vof=vof, phi=phi, cell_centroids=cen, laser_x=scal(lx, 'f'), laser_y=scal(ly, 'f'),
                             switch=scal(sw, 'f')), arr(s.n, want), s.where('compute_h_source_term'))
        return True
    ck.ob('heat input', go, SIM)


def path(ck, k):
    def go():
        s = Sim(ck)
        f = s.local('read_path')
        if not isinstance(f, FuncV) or f.node.args.args:
            raise Undecided('read_path not found')
        del s.I.stubs[LBM + '.read_path']
        xs, ys, sw = [[sym('%s%d' % (n, i)) for i in range(k)] for n in ('px', 'py', 'sw')]
        s.args['laser_path'] = dict(x_pos=[scal(x, 'f') for x in xs], y_pos=[scal(x, 'f') for x in ys], switch=[scal(x, 'f') for x in sw])
        got = s.I.call(f, [])
        tiny = const(T.frac_of_float(1e-10))
        t0 = ZERO
        segs = []
        dt = s.v['dt']
        for i in range(k - 1):
            d = sqrt((xs[i + 1] - xs[i]) ** 2 + (ys[i + 1] - ys[i]) ** 2) / s.v['scanning_vel']
            n = T.app('ceil', ((d + tiny) / dt,), is_int=True)
            segs.append((n, t0, i))
            t0 = t0 + d

        def want(q):
            parts = []
            for n, t, i in segs:
                lin = lambda a, b, n=n: (lambda j: a + (b - a) * j / (n - 1))
                fn = [lambda j, t=t: t + dt * j, lin(xs[i], xs[i + 1]), lin(ys[i], ys[i + 1]), lambda j, i=i: sw[i]][q]
                parts.append(Arr([mkdim(n)], lambda ix, fn=fn: lift(fn(ix[0]))))
            return A.concat(parts, 0)
        for q, n in enumerate(['time', 'x', 'y', 'power switch']):
            ck.eq('laser path, %s (%d corners)' % (n, k), lambda: got[q], lambda: want(q), f)
        return True
    ck.ob('laser path (%d corners)' % k, go, SIM)
