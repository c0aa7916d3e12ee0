"""Melt-pool simulation: energy and momentum equations, coupling, sources, boundary conditions, time step and output."""
from .c16 import *
from ..interp import Model

KEYS = ['h', 'stefan_boltzmann', 'emissivity', 'T_ref', 'eta', 'rb', 'speed', 'P', 't_OFF', 'phi', 'dt', 'rho', 'visco', 'Marangoni',
        'latent_heat', 'Tl', 'Ts']


class Melt:
    def __init__(self, ck, src=0, build=True, drop=()):
        self.ck = ck
        I = self.I = ck.interp()
        self.l = Grid(ck, 3, 'l', I=I)
        # the global grid is at least as large as the moving box
        self.g = Grid(ck, 3, I=I, n=[self.l.n[k] + dim('gap' + 'xyz'[k], lb=0) for k in range(3)])
        self.v = {k: sym(k, positive=k in ('dt', 'rho', 'visco', 'rb', 'P', 'phi', 'speed', 'eta')) for k in KEYS}
        a = self.args = {k: scal(x, 'f') for k, x in self.v.items() if k not in drop}
        a.update(mesh=self.g.o, mesh_local=self.l.o, meshio_mesh=obj(cell_data={}), heat_source=src, data_dir='DATA',
                 cp=ew_fn('cp', positive=True), k=ew_fn('k', positive=True), X0=[fsym('x0'), fsym('y0'), fsym('z0')],
                 write_sol_interval=isym(dim('interval')))
        self.X0 = [sym('x0'), sym('y0'), sym('z0')]
        if build:
            self.cls = ck.fn(I, CFD, 'AM_3d')
            self.o = I.call(self.cls, [a])

    def w(self, n):
        return self.ck.fn(self.I, CFD, 'AM_3d.' + n)

    def m(self, n, *a):
        return self.I.call(self.I.getattr(self.o, n), list(a))

    # --- specification pieces
    def path(self, t):
        v = self.v
        return self.X0[0] + t * v['speed'], self.X0[1], self.X0[2], v['P'] * lt(t, v['t_OFF'])

    def fl(self, x):
        v = self.v
        return (clip(x, v['Ts'], v['Tl']) - v['Ts']) / (v['Tl'] - v['Ts'])

    def cpl(self, x):
        v = self.v
        return T.app('cp', (x,), (), positive=True) + v['latent_heat'] / (v['Tl'] - v['Ts']) * lt(v['Ts'], x) * lt(x, v['Tl'])


def clip(x, lo, hi):
    from ..models import p_max, p_min
    return p_min(p_max(lift(x), lift(lo)), lift(hi))


def fexp(x):
    return T.app('exp', (lift(x),), (), positive=True)


def run(ck):
    items = [(path,), (body,), (frac,), (flux, 0), (flux, 1), (vbc,), (box,), (defaults,), (energy,), (velocity,),
             (step, 0), (step, 1), (conv,), (init,), (output,)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def path(ck):
    def go():
        m = Melt(ck)
        t = sym('t')
        ck.eq('laser position and power at any time', lambda: list(m.m('toolpath', scal(t, 'f'))), [scal(x) for x in m.path(t)],
              m.w('toolpath'))
        return True
    ck.ob('toolpath', go, CFD + '.AM_3d.toolpath')


def frac(ck):
    def go():
        m = Melt(ck)
        x = leaf('T', m.g.n + [1], 'f', 'jnp')
        ck.eq('liquid fraction is the clipped linear ramp from solidus to liquidus', lambda: m.m('fluid_frac', x),
              arr(m.g.n + [1], lambda *ix: m.fl(x.get(ix))), m.w('fluid_frac'))
        return True
    ck.ob('fluid_frac', go, CFD + '.AM_3d.fluid_frac')


def body(ck):
    def go():
        m = Melt(ck, 1)
        t = sym('t')
        v, g = m.v, m.g
        xl, yl, zl, P = m.path(t)
        d = v['phi'] * P / v['speed'] / v['rb'] ** 2

        def f(ix):
            c = g.coords(ix[0])
            x, y, z = [g.centre(c, k) for k in range(3)]
            q = 2 * P * v['eta'] / d / T.PI / v['rb'] ** 2 * fexp(-2 * ((x - xl) ** 2 + (y - yl) ** 2) / v['rb'] ** 2)
            return ite(lt(0, P), q * le(zl - z, d), ZERO)
        ck.eq('body heat source is the Gaussian cylinder under the beam', lambda: m.m('get_body_heat_source', scal(t, 'f')),
              Arr([g.cells], f), m.w('get_body_heat_source'))
        return True
    ck.ob('body source', go, CFD + '.AM_3d.get_body_heat_source')


def flux(ck, src):
    tag = '[%s heat source]' % ['surface', 'body'][src]

    def go():
        m = Melt(ck, src)
        v, g = m.v, m.g
        t = sym('t')
        w = m.w('get_energy_bc_fn')
        Tt = leaf('Ttop', [g.n[0], g.n[1], 1], 'f', 'jnp')
        got = list(m.I.call(m.m('get_energy_bc_fn'), [(scal(t, 'f'), Tt)]))
        ck.eq('all thermal boundaries prescribe fluxes ' + tag, list(got[0]), [1] * 6, w)
        xl, yl, zl, P = m.path(t)

        def top(ix):
            c = g.fcell(5, ix[0])
            x, y = g.centre(c, 0), g.centre(c, 1)
            u = Tt.get((c[0], c[1], ZERO))
            q = -v['h'] * (u - v['T_ref']) - v['stefan_boltzmann'] * v['emissivity'] * (u ** 4 - v['T_ref'] ** 4)
            if src == 0:
                q = q + 2 * P * v['eta'] / T.PI / v['rb'] ** 2 * fexp(-2 * ((x - xl) ** 2 + (y - yl) ** 2) / v['rb'] ** 2)
            return q
        want = [Arr([g.face(s)[0]], lambda ix: ZERO) for s in range(5)] + [Arr([g.face(5)[0]], top)]
        ck.eq('top surface loses convection and radiation and receives the laser; other sides are insulated ' + tag, list(got[1]), want, w)
        return True
    ck.ob('thermal boundary ' + tag, go, CFD + '.AM_3d.get_energy_bc_fn')


def marangoni(m, Tl):
    """surface velocity gradient on the local top surface, components 0..2"""
    l, v = m.l, m.v

    def f(i, j, k):
        at = lambda a, b: Tl.get((a, b, l.n[2] - 1, ZERO))
        cl = lambda x, n: T.ite(T.ge0(x), T.ite(T.gt0(n - x), x, n - 1), ZERO)
        F = m.fl(at(i, j)) * v['Marangoni'] / v['visco']
        gx = (at(cl(i + 1, l.n[0]), j) - at(cl(i - 1, l.n[0]), j)) / 2 / l.h[0]
        gy = (at(i, cl(j + 1, l.n[1])) - at(i, cl(j - 1, l.n[1]))) / 2 / l.h[1]
        return A.pick(k, [gx * F, gy * F, ZERO])
    return f


def vbc(ck):
    def go():
        m = Melt(ck)
        l = m.l
        w = m.w('get_vel_bc_fn')
        x = leaf('T', l.n + [1], 'f', 'jnp')
        got = m.I.call(m.m('get_vel_bc_fn'), [x])
        f = marangoni(m, x)
        full, types, vals = list(got)
        ck.eq('velocity boundary types: no slip, Marangoni on top', list(full[0]), [0, 0, 0, 0, 0, 2], w)
        ck.eq('no-slip values', list(full[1][:5]), [A.from_table([ZERO] * 3)] * 5, w)
        ck.eq('top velocity gradient balances the surface-tension gradient', full[1][5],
              arr([l.n[0], l.n[1], 1, 3], lambda i, j, o, k: f(i, j, k)), w)
        ck.eq('scalar boundary types per component', [list(t) for t in types], [[0, 0, 0, 0, 0, 1]] * 2 + [[0] * 6], w)
        if not ck.holds('one set of scalar boundary values per component', len(vals) == 3, '%d sets' % len(vals), w):
            return True
        for k in range(3):
            ck.eq('scalar boundary values, component %d' % k, list(vals[k]),
                  [Arr([l.face(s)[0]], lambda ix: ZERO) for s in range(5)]
                  + [Arr([l.face(5)[0]], lambda ix: f(l.fcell(5, ix[0])[0], l.fcell(5, ix[0])[1], const(k)) * m.v['visco'])], w)
        return True
    ck.ob('velocity boundary', go, CFD + '.AM_3d.get_vel_bc_fn')


def rnd(x):
    return T.app('round', (lift(x),), (), is_int=True)


def box(ck):
    def go():
        m = Melt(ck)
        t = sym('t')
        g, l = m.g, m.l
        got = list(m.m('get_moving_box_boundary', scal(t, 'f')))
        w = m.w('get_moving_box_boundary')
        for ax in range(3):
            lo, hi = A.asarr(got[2 * ax]).scalar(), A.asarr(got[2 * ax + 1]).scalar()
            ck.eq('box has the local mesh size along axis %d' % ax, scal(hi - lo), scal(l.n[ax]), w)
            if ax < 2:
                x = m.path(t)[ax]
                want = clip(rnd(x / g.h[ax]) - rnd(l.n[ax] / 2), ZERO, g.n[ax] - l.n[ax])
                ck.eq('box is centred on the laser, clipped to the domain, axis %d' % ax, scal(lo), scal(want), w)
            else:
                ck.eq('box ends at the top surface', scal(hi), scal(g.n[2]), w)
        return True
    ck.ob('moving box', go, CFD + '.AM_3d.get_moving_box_boundary')


def defaults(ck):
    def go():
        m = Melt(ck, drop=('h', 'stefan_boltzmann', 'emissivity'))
        a = m.o.attrs['args']
        w = m.w('default_args')
        ck.eq('defaults: no convection, no radiation, Stefan-Boltzmann constant', [a['h'], a['stefan_boltzmann'], a['emissivity']],
              [const(0), const(T.frac_of_float(5.67e-8)), const(0)], w)
        m = Melt(ck)
        ck.eq('given values are kept', [m.o.attrs['args'][k] for k in ('h', 'stefan_boltzmann', 'emissivity')],
              [scal(m.v[k]) for k in ('h', 'stefan_boltzmann', 'emissivity')], w)
        return True
    ck.ob('defaults', go, CFD + '.AM_3d.default_args')


def grab(I, name, keep):
    """replace a solver by an arbitrary field, recording what it was asked to solve"""
    def stub(I, f, a, k):
        e = keep(I, list(a), dict(k))
        return e
    I.stubs[CFD + '.' + name] = stub


def energy(ck):
    """the energy step solves the balance of storage, latent heat, convection, conduction and source"""
    def go():
        m = Melt(ck, build=False)
        I, g, v = m.I, m.g, m.v
        cls = ck.fn(I, CFD, 'energy_eqn')
        w = ck.fn(I, CFD, 'energy_eqn.update')
        o = I.call(cls, [m.args])
        types = [1, 0, 1, 1, 0, 1]
        bv = [leaf('bv%d' % s, [g.face(s)[0]], 'f', 'jnp') for s in range(6)]
        seen = []

        def bc(I, a, k):
            seen.append(a)
            return list(types), list(bv)
        o.attrs['bc_fn'] = PyFn(bc, 'bc_fn')
        sh = g.n + [1]
        T0, cv, Q = [leaf(x, sh, 'f', 'jnp') for x in ('T0', 'conv', 'Q')]
        U = leaf('U', [g.cells], 'f', 'jnp')
        sol = leaf('sol', [g.cells], 'f', 'jnp')
        rec = []

        def keep(I, a, k):
            eq = a[0]
            rec.append((I.call(I.getattr(eq, 'compute_residual'), [U] + a[1:]), k))
            return sol, scal(sym('its', integer=True), 'i')
        grab(I, 'solver_nonlinear', keep)
        token = fsym('token')
        got = I.call(I.getattr(o, 'update'), [T0, cv, Q], dict(bc_args=token, cell_conn=g.o.attrs['cell_conn']))
        if len(rec) != 1:
            raise T.Undecided('%d nonlinear solves' % len(rec))
        got = list(got)
        ck.eq('new temperature is the solved field', got[0], arr(sh, lambda i, j, k, z: sol.get((g.cid([i, j, k]),))), w)
        ck.eq('boundary function receives the given arguments', [list(a) for a in seen], [[token]], w)
        ck.eq('boundary data are returned', [list(x) for x in got[1]], [types, bv], w)

        def at(x, c):
            return x.get(tuple(c) + (ZERO,))

        def f(ix):
            i = ix[0]
            c = g.coords(i)
            u = U.get((i,))
            t0 = at(T0, c)
            cp = m.cpl(t0)
            out = (v['rho'] * cp * (u - t0) / v['dt'] + v['rho'] * cp * at(cv, c) - at(Q, c)) * g.vol
            K = lambda x: T.app('k', (x,), (), positive=True)
            for s in range(6):
                a, h = g.area[s // 2], g.h[s // 2]
                n = U.get((g.nb(c, s + 1),))
                out = out - 2 * K(u) * K(n) / (K(u) + K(n)) * (n - u) / h * a
                rest = [k for k in range(3) if k != s // 2]
                b = bv[s].get((c[rest[0]] * g.n[rest[1]] + c[rest[1]],))
                edge = eqi(c[s // 2], g.n[s // 2] - 1) if s % 2 else eqi(c[s // 2], 0)
                out = out - edge * (K(b) * 2 * (b - u) / h * a if types[s] == 0 else b * a)
            return out
        ck.eq('energy balance: storage with latent heat, convection, conduction, source and boundary flux', rec[0][0],
              Arr([g.cells], f), cls)
        tol = rec[0][1].get('tol')
        ck.holds('energy tolerance', lambda: tol is None or T.frac_of_float(float(tol)) <= T.frac_of_float(1e-5), 'tolerance %s' % (tol,), w)
        om = rec[0][1].get('relaxation')
        return True
    ck.ob('energy equation', go, CFD + '.energy_eqn')


def velocity(ck):
    def go():
        m = Melt(ck, build=False)
        I, l, v = m.I, m.l, m.v
        cls = ck.fn(I, CFD, 'velocity_eqn')
        w = ck.fn(I, CFD, 'velocity_eqn.update')
        o = I.call(cls, [m.args])
        ftypes = [0, 0, 0, 0, 0, 2]
        full = [leaf('fb%d' % s, [ONE if s // 2 == 0 else l.n[0], ONE if s // 2 == 1 else l.n[1], ONE if s // 2 == 2 else l.n[2], 3], 'f', 'jnp')
                for s in range(6)]
        types = [[0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1], [0] * 6]
        bv = [[leaf('bv%d%d' % (k, s), [l.face(s)[0]], 'f', 'jnp') for s in range(6)] for k in range(3)]
        seen = []

        def bc(I, a, k):
            seen.append(a)
            return [list(ftypes), list(full)], [list(t) for t in types], [list(b) for b in bv]
        o.attrs['bc_fn'] = PyFn(bc, 'bc_fn')
        u0, cv, gp = [leaf(x, l.n + [3], 'f', 'jnp') for x in ('u0', 'conv', 'gp')]
        fl = leaf('fl', l.n + [1], 'f', 'jnp')
        U = leaf('U', [l.cells], 'f', 'jnp')
        X = leaf('X', [l.cells], 'f', 'jnp')
        rec = []

        def keep(I, a, k):
            eq = a[0]
            R = I.call(I.getattr(eq, 'compute_residual'), [U] + a[1:])
            if k.get('update', True) is not False:
                I.call(I.getattr(eq, 'newton_update'), [U] + a[1:])
            L = I.call(I.getattr(eq, 'compute_linearized_residual'), [X])
            x = leaf('sol%d' % len(rec), [l.cells], 'f', 'jnp')
            rec.append((A.snapshot(A.asarr(R)), A.snapshot(A.asarr(L)), k, x))
            return x
        grab(I, 'solver_linear', keep)
        token = fsym('token')
        got = list(I.call(I.getattr(o, 'update'), [u0, cv, gp, fl, token, l.o.attrs['cell_conn']]))
        if len(rec) != 4:
            raise T.Undecided('%d linear solves' % len(rec))
        ck.eq('boundary function receives the given arguments', [list(a) for a in seen], [[token]], w)

        def mom(k, lin):
            def f(ix):
                i = ix[0]
                c = l.coords(i)
                F = fl.get(tuple(c) + (ZERO,))
                kk = const(k)
                darcy = const(10 ** 7) * v['rho'] * (ONE - F) ** 2 / (F ** 3 + const(T.frac_of_float(1e-5)))
                Y = X if lin else U
                u = Y.get((i,))
                out = (v['rho'] * u / v['dt'] + darcy * u) * l.vol
                if not lin:
                    out = out + (-v['rho'] * u0.get(tuple(c) + (kk,)) / v['dt'] + v['rho'] * cv.get(tuple(c) + (kk,))
                                 + gp.get(tuple(c) + (kk,))) * l.vol
                for s in range(6):
                    a, h = l.area[s // 2], l.h[s // 2]
                    n = Y.get((l.nb(c, s + 1),))
                    out = out - v['visco'] * (n - u) / h * a
                    rest = [q for q in range(3) if q != s // 2]
                    b = ZERO if lin else bv[k][s].get((c[rest[0]] * l.n[rest[1]] + c[rest[1]],))
                    edge = eqi(c[s // 2], l.n[s // 2] - 1) if s % 2 else eqi(c[s // 2], 0)
                    out = out - edge * (v['visco'] * 2 * (b - u) / h * a if types[k][s] == 0 else b * a)
                return out
            return Arr([l.cells], f)
        for k in range(3):
            ck.eq('momentum balance, component %d: inertia, convection, pressure, viscosity, mush drag, boundary' % k, rec[k][0], mom(k, False), cls)
            ck.eq('momentum operator is its derivative, component %d' % k, rec[k][1], mom(k, True), cls)
        # projection
        us = [r[3] for r in rec[:3]]
        fld = Field('pred', 3, ftypes, vals=full, n=l.n)
        fld.h = l.h
        fld.f = arr(l.n + [3], lambda i, j, k, q: A.pick(q, [x.get((l.cid([i, j, k]),)) for x in us]))
        fld.at = lambda idx: A.pick(idx[3], [x.get((l.cid(idx[:3]),)) for x in us])

        def dv(c):
            out = ZERO
            for ax in range(3):
                C = list(c) + [const(ax)]
                out = out + (fld.e(ax, C, 1) - fld.e(ax, C, -1)) / 2 / l.h[ax]
            return out

        def lapl(Y, i, c):
            out = ZERO
            for s in range(6):
                out = out + (Y.get((l.nb(c, s + 1),)) - Y.get((i,))) / l.h[s // 2] * l.area[s // 2]
            return out

        def pres(ix):
            c = l.coords(ix[0])
            return -lapl(U, ix[0], c) + dv(c) / v['dt'] * v['rho'] * l.vol
        ck.eq('pressure equation: Laplacian of the correction = divergence of the predicted velocity', rec[3][0], Arr([l.cells], pres), cls)
        ck.eq('pressure operator is minus the zero-flux Laplacian', rec[3][1], Arr([l.cells], lambda ix: -lapl(X, ix[0], l.coords(ix[0]))), cls)
        p = rec[3][3]
        pf = Field('p', 1, None, n=l.n)
        pf.h = l.h
        pf.at = lambda idx: p.get((l.cid(idx[:3]),))

        def gr(i, j, k, q):
            c = [i, j, k, ZERO]
            return A.pick(q, [(pf.e(ax, c, 1) - pf.e(ax, c, -1)) / (2 * l.h[ax]) for ax in range(3)])
        ck.eq('velocity is corrected by the pressure gradient', got[0], arr(l.n + [3], lambda i, j, k, q: fld.at([i, j, k, q])
              - v['dt'] * gr(i, j, k, q) / v['rho']), w)
        ck.eq('boundary data are returned', [list(x) for x in got[1]], [ftypes, full], w)
        ck.eq('pressure gradient accumulates', got[2], arr(l.n + [3], lambda i, j, k, q: gp.get((i, j, k, q)) + gr(i, j, k, q)), w)
        for k in range(4):
            tl = rec[k][2].get('tol')
            ck.holds('linear tolerance, solve %d' % k, lambda: tl is not None and float(tl) <= 1e-10, 'tolerance %s' % (tl,), w)
        return True
    ck.ob('velocity equation', go, CFD + '.velocity_eqn')


def step(ck, src):
    tag = '[%s heat source]' % ['surface', 'body'][src]

    def go():
        m = Melt(ck, src)
        I, g, l, v = m.I, m.g, m.l, m.v
        w = m.w('time_integration')
        t = sym('t')
        at = m.o.attrs
        at['t'] = scal(t, 'f')
        old = {}
        for n, c in (('T', 1), ('solidID', 1), ('conv_T', 1), ('vel', 3), ('conv', 3), ('grad_p0', 3)):
            at[n] = old[n] = leaf('old_' + n, g.n + [c], 'f', 'jnp')
        newT = leaf('newT', g.n + [1], 'f', 'jnp')
        nv = leaf('newv', l.n + [3], 'f', 'jnp')
        ngp = leaf('newgp', l.n + [3], 'f', 'jnp')
        bcs = [[0, 0, 0, 0, 0, 2], [leaf('fb%d' % s, [ONE if s // 2 == k else l.n[k] for k in range(3)] + [3], 'f', 'jnp') for s in range(6)]]
        calls = []
        eT, eV = at['eqn_T'], at['eqn_V']
        nmT = ['T0', 'conv_T0', 'Q', 'bc_args', 'cell_conn']
        nmV = ['vel0', 'conv0', 'grad_p0', 'fl', 'bc_args', 'cell_conn']

        def frz(x):
            return [frz(y) for y in x] if isinstance(x, (list, tuple)) else A.snapshot(A.asarr(x))

        def fT(I, a, k):
            d = dict(zip(nmT, a))
            d.update(k)
            calls.append(('T', {q: frz(x) for q, x in d.items()}))
            return newT, [[1] * 6, []], 0

        def fV(I, a, k):
            d = dict(zip(nmV, a))
            d.update(k)
            calls.append(('V', {q: frz(x) for q, x in d.items()}))
            return nv, bcs, ngp
        eT.attrs['update'] = PyFn(fT, 'update')
        eV.attrs['update'] = PyFn(fV, 'update')
        # any box inside the domain (the box rule itself is decided separately)
        lo = [leaf('box%d' % k, [], 'i', hi=g.n[k] - l.n[k] + 1).scalar() for k in range(2)] + [g.n[2] - l.n[2]]
        when = []

        def bx(I, a, k):
            when.extend(list(a) + list(k.values()))
            return tuple(scal(x, 'i') for k in range(3) for x in (lo[k], lo[k] + l.n[k]))
        at['get_moving_box_boundary'] = PyFn(bx, 'get_moving_box_boundary')
        m.m('time_integration')
        ck.eq('the box is the one at the step time ' + tag, when, [scal(t)], w)
        if [c[0] for c in calls] != ['T', 'V']:
            return 'equations solved in order %s, expected energy then velocity' % [c[0] for c in calls]
        dT, dV = calls[0][1], calls[1][1]
        if src:
            q = A.asarr(m.m('get_body_heat_source', scal(t, 'f')))
            Q = lambda i, j, k: q.get((g.cid([i, j, k]),))
        else:
            Q = lambda i, j, k: ZERO
        ck.eq('energy step starts from the old temperature and convection ' + tag, [dT['T0'], dT['conv_T0']], [old['T'], old['conv_T']], w)
        ck.eq('energy step receives the heat source at the step time ' + tag, A.reshape(dT['Q'], [g.cells]),
              Arr([g.cells], lambda ix: Q(*g.coords(ix[0]))), w)
        ck.eq('boundary receives the step time and the top temperature ' + tag, dT['bc_args'],
              [scal(t), arr([g.n[0], g.n[1], 1], lambda i, j, k: old['T'].get((i, j, g.n[2] - 1, ZERO)))], w)
        ck.eq('energy step uses the global mesh ' + tag, dT['cell_conn'], A.asarr(g.o.attrs['cell_conn']), w)
        ck.eq('temperature is the solved one ' + tag, at['T'], newT, w)
        ck.eq('melted-region marker is the maximum liquid fraction so far ' + tag, at['solidID'],
              arr(g.n + [1], lambda *ix: pmax(old['solidID'].get(ix), m.fl(newT.get(ix)))), w)
        sub = lambda x, c: arr(l.n + [c], lambda i, j, k, q: x.get((lo[0] + i, lo[1] + j, lo[2] + k, q)))
        ck.eq('velocity step works on the box around the laser at the step time ' + tag, [dV['vel0'], dV['conv0'], dV['grad_p0']],
              [sub(old[n], 3) for n in ('vel', 'conv', 'grad_p0')], w)
        ck.eq('velocity step sees the new temperature and liquid fraction ' + tag, [dV['bc_args'], dV['fl']],
              [sub(newT, 1), arr(l.n + [1], lambda i, j, k, q: m.fl(newT.get((lo[0] + i, lo[1] + j, lo[2] + k, ZERO))))], w)
        ck.eq('velocity step uses the local mesh ' + tag, dV['cell_conn'], A.asarr(l.o.attrs['cell_conn']), w)
        cT, cV = [A.asarr(x) for x in m.m('update_convective_terms', sub(newT, 1), nv, bcs)]

        def patched(n, new, c):
            def f(*ix):
                inb = land(*[land(T.ge0(ix[q] - lo[q]), T.gt0(lo[q] + l.n[q] - ix[q])) for q in range(3)])
                return ite(inb, new.get(tuple(ix[q] - lo[q] for q in range(3)) + (ix[3],)), old[n].get(ix))
            return arr(g.n + [c], f)
        for n, new, c in (('vel', nv, 3), ('grad_p0', ngp, 3), ('conv', cV, 3), ('conv_T', cT, 1)):
            ck.eq('%s changes inside the box only, to the new values %s' % (n, tag), at[n], patched(n, new, c), w)
        ck.eq('time advances by dt ' + tag, at['t'], scal(t + v['dt']), w)
        return True
    ck.ob('time step ' + tag, go, CFD + '.AM_3d.time_integration')


def pmax(a, b):
    from ..models import p_max
    return p_max(lift(a), lift(b))


def conv(ck):
    def go():
        m = Melt(ck)
        l, g = m.l, m.g
        w = m.w('update_convective_terms')
        Tm = leaf('T', l.n + [1], 'f', 'jnp')
        vf = Field('vel', 3, [0, 0, 0, 0, 0, 2], n=l.n)
        vf.h = g.h
        got = list(m.m('update_convective_terms', Tm, vf.f, vf.BCs))
        th = const(Fraction(1, 8))

        def face(ax, ix):
            C = list(ix[:3]) + [const(ax)]
            return (vf.e(ax, C, 0) + vf.e(ax, C, -1)) / 2
        for name, x, c in (('temperature', Field('T', 1, None, n=l.n), 1), ('velocity', Field('vel', 3, None, n=l.n), 3)):
            def facev(ax, ix):
                vv = face(ax, ix)
                E = lambda k: x.e(ax, ix, k)
                return (th * (E(-1) + E(0)) / 2 + (ONE - th) * ite(T.ge0(vv), (3 * E(-1) - E(-2)) / 2, (3 * E(0) - E(1)) / 2)) * vv

            def spec(*ix):
                out = ZERO
                for ax in range(3):
                    up = list(ix)
                    up[ax] = lift(ix[ax]) + 1
                    out = out + (facev(ax, up) - facev(ax, ix)) / g.h[ax]
                return out
            ck.eq('convective term of the %s is the divergence of its upwind flux' % name, got[0 if c == 1 else 1], arr(l.n + [c], spec), w,
                  trials=3)
        return True
    ck.ob('convective terms', go, CFD + '.AM_3d.update_convective_terms')


def init(ck):
    def go():
        m = Melt(ck)
        g, at, v = m.g, m.o.attrs, m.v
        w = m.cls
        z = lambda c: arr(g.n + [c], lambda *ix: ZERO)
        ck.eq('initial temperature is the reference temperature', at['T'], arr(g.n + [1], lambda *ix: v['T_ref']), w)
        ck.eq('everything else starts at zero', [at['solidID'], at['conv_T'], at['vel'], at['conv'], at['grad_p0']],
              [z(1), z(1), z(3), z(3), z(3)], w)
        ck.eq('time starts at zero', at['t'], scal(ZERO), w)
        return True
    ck.ob('initial state', go, CFD + '.AM_3d')


class MeshFile(Model):
    """a meshio mesh: cell data and a record of every write"""

    def __init__(self):
        self.data = {}
        self.writes = []

    def attr(self, I, name):
        if name == 'cell_data':
            return self.data
        if name == 'write':
            return PyFn(lambda I, a, k: self.writes.append((a[0], {q: frz(x) for q, x in self.data.items()})), 'write')
        raise T.Undecided('mesh attribute ' + name)

    def setattr(self, I, name, v):
        if name != 'cell_data':
            raise T.Undecided('mesh attribute ' + name)
        self.data = v


def frz(x):
    return [frz(y) for y in x] if isinstance(x, (list, tuple)) else A.snapshot(A.asarr(x))


def output(ck):
    def go():
        import posixpath
        m = Melt(ck)
        I, g, at = m.I, m.g, m.o.attrs
        ev = [e for e in I.events if e.kind == 'ext' and e.name in ('os.remove', 'shutil.rmtree', 'os.unlink')]
        w = m.w('clean_sols')
        bad = [str(e.args[0]) for e in ev if posixpath.dirname(str(e.args[0])) != 'DATA/vtk/cfd/sols']
        ck.holds('starting a run deletes only old solution files', not bad, 'deletes %s' % bad, w)
        ck.holds('starting a run removes old solution files', bool(ev), 'old solution files are kept', w)
        mk = [str(e.args[0]) for e in I.events if e.kind == 'ext' and e.name == 'os.makedirs']
        ck.holds('the solution folder is created', 'DATA/vtk/cfd/sols' in mk, 'folders created: %s' % mk, w)
        w = m.w('write_sols')
        for n, c in (('T', 1), ('solidID', 1), ('vel', 3)):
            at[n] = leaf('cur_' + n, g.n + [c], 'f', 'jnp')
        for step, iv in ((0, 10), (70, 10), (79, 10), (1240, 5), (7, 1)):
            m.o.attrs['args']['write_sol_interval'] = iv
            mf = at['meshio_mesh'] = MeshFile()
            m.m('write_sols', step)
            ck.eq('step %d, interval %d is written once, to its numbered file' % (step, iv), [x[0] for x in mf.writes],
                  ['DATA/vtk/cfd/sols/u%03d.vtu' % (step // iv)], w)
            d = mf.writes[0][1]
            for n, c in (('T', 1), ('solidID', 1), ('vel', 3)):
                ck.eq('written %s is the current field in cell order, step %d' % (n, step), d[n][0],
                      Arr([g.cells, mkdim(c)], lambda ix: at[n].get(tuple(g.coords(ix[0])) + (ix[1],))), w)
        w = m.w('inspect_sol')
        I.events.clear()
        I.call(I.getattr(m.o, 'inspect_sol'), [3, 10])
        from .solvelib import finite_guard

        class H:
            pass
        h = H()
        h.I = I
        ck.holds('a non-finite temperature stops the run', lambda: finite_guard(h, at['T']), 'no guard rejects a non-finite temperature', w)
        return True
    ck.ob('output', go, CFD + '.AM_3d.write_sols')
