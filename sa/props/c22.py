"""Lattice Boltzmann time loop: what flows where within a step and from step to step, the mass ledger, and output."""
from .lbmlib import *
from .lbmlib import _F


def run(ck):
    plans = [(1, 1, False), (3, 2, False), (2, 1, True)]
    if ck.thorough:
        plans += [(4, 2, False), (5, 3, False), (3, 1, True)]
    ck.map(lambda x: x[0](ck, *x[1:]), [(loop,) + p for p in plans] + [(out,), (files,)])


class Model:
    """The step, written over uninterpreted stages."""

    def __init__(self, s):
        self.s = s
        n = s.n
        self.f = arr(n + [19], lambda *x: A.pick(x[3], [const(w) for w in s.wt]))
        cp = s.p['cp']
        self.h = arr(n + [19], lambda *x: A.pick(x[3], [const(w) * cp for w in s.wt]))
        self.mass = arr(n, lambda *x: ONE)
        self.phase = s.phase0
        S = self.S
        rho = S('compute_rho', f_distribute=self.f)
        en = S('compute_enthalpy', h_distribute=self.h)
        t = S('compute_T', enthalpy=en)
        u = arr(n + [3], lambda *x: ZERO)
        self.f, self.h, self.phase, self.mass = S('reini_gas_to_lg_vmap', f_distribute=self.f, h_distribute=self.h, rho=rho, u=u,
                                                  enthalpy=en, T=t, phase=self.phase, mass=self.mass)
        m, f, ph = self.mass, self.f, self.phase
        self.mass = arr(n, lambda *x: ite(eqi(ph.get(x), LG), sm([19], lambda q: f.get(x + (q,))) / 2, m.get(x)))
        self.total = self.sum(S('compute_total_mass_vmap', f_distribute=f, phase=ph, mass=self.mass))
        self.melted = arr(n, lambda *x: ZERO)
        self.kappa = arr(n, lambda *x: ZERO)

    def S(self, stage, **kw):
        return self.s.apply(stage, kw)

    def sum(self, a):
        return sm(self.s.n, lambda *x: a.get(x))

    def step(self, i, fluid_only=False):
        S, s = self.S, self.s
        n = s.n
        f, h, ph, mass = self.f, self.h, self.phase, self.mass
        if fluid_only:
            hl = s.p['hl']
            h = arr(n + [19], lambda *x: A.pick(x[3], [const(w) * (hl + 1) for w in s.wt]))
        rho = S('compute_rho', f_distribute=f)
        en = S('compute_enthalpy', h_distribute=h)
        t = S('compute_T', enthalpy=en)
        vof = S('compute_vof', rho=rho, phase=ph, mass=mass)
        phi, kappa = S('compute_curvature', vof=vof)
        tg = S('compute_T_grad', T=t, phase=ph)
        F = S('compute_f_source_term', rho=rho, vof=vof, phi=phi, kappa=kappa, T=t, T_grad=tg)
        pos = [a.get((const(i + 1),)) for a in s.path[1:]]
        Q = S('compute_h_source_term', T=t, vof=vof, phi=phi, cell_centroids=self.cent(), laser_x=scal(pos[0] / s.L, 'f'),
              laser_y=scal(pos[1] / s.L, 'f'), switch=scal(pos[2], 'f'))
        u = S('compute_u', f_distribute=f, rho=rho, T=t, f_source_term=F)
        f = S('collide_f_vmap', f_distribute=f, rho=rho, T=t, u=u, phase=ph, f_source_term=F)
        h = S('collide_h_vmap', h_distribute=h, enthalpy=en, T=t, rho=rho, u=u, phase=ph, h_source_term=Q)
        f, mass = S('update_f_vmap', f_distribute=f, rho=rho, u=u, phase=ph, mass=mass, vof=vof)
        h = S('update_h_vmap', h_distribute=h, u=u, phase=ph)
        ph = S('reini_lg_to_liquid_vmap', f_distribute=f, phase=ph, mass=mass)
        f, h, ph, mass = S('reini_gas_to_lg_vmap', f_distribute=f, h_distribute=h, rho=rho, u=u, enthalpy=en, T=t, phase=ph, mass=mass)
        ph = S('reini_lg_to_gas_vmap', f_distribute=f, phase=ph, mass=mass)
        ph, mass = S('reini_liquid_to_lg_vmap', f_distribute=f, phase=ph, mass=mass)
        ph = S('adhoc_step_vmap', f_distribute=f, phase=ph, mass=mass)
        calc = self.sum(S('compute_total_mass_vmap', f_distribute=f, phase=ph, mass=mass))
        cnt = sm(n, lambda *x: eqi(ph.get(x), LG))
        m0, tot = mass, self.total
        mass = arr(n, lambda *x: ite(eqi(ph.get(x), LG), m0.get(x) + (tot - calc) / cnt, m0.get(x)))
        self.f, self.h, self.phase, self.mass = S('refresh_for_output_vmap', f_distribute=f, h_distribute=h, phase=ph, mass=mass)
        old = self.melted
        self.melted = arr(n, lambda *x: ite(lt(s.p['Ts'], t.get(x)), ONE, old.get(x)))
        self.kappa = kappa

    def cent(self):
        m = self.s.mesh
        return arr([self.s.N, 3], lambda c, k: sm([8], lambda q: m.points.get((m.cells.get((c, q)), k))) / 8)


ONAMES = ['data_dir', 'meshio_mesh', 'f_distribute', 'h_distribute', 'phase', 'mass', 'kappa', 'melted', 'step']


def loop(ck, steps, interval, fluid):
    tag = '%d steps, output every %d%s' % (steps, interval, ', fluid only' if fluid else '')

    def go():
        s = Sim(ck, steps=steps, rebind='stages', interval=interval, fluid_only=fluid)
        if set(OUT) - set(PLAIN) - s.bound:
            raise Undecided('stages not found: %s' % sorted(set(OUT) - set(PLAIN) - s.bound))
        o = s.kept.get('output_result')
        if not isinstance(o, FuncV) or [x.arg for x in o.node.args.args] != ONAMES:
            raise Undecided('signature of output_result')
        calls = [a for n, a, k in s.calls if n == 'output_result']
        if any(len(a) != len(ONAMES) for a in calls):
            raise Undecided('calls of output_result')
        m = Model(s)
        want = [(0, m.f, m.h, m.phase, m.mass, m.kappa, m.melted)]
        for i in range(steps):
            m.step(i, fluid)
            if (i + 1) % interval == 0:
                want.append(((i + 1) // interval, m.f, m.h, m.phase, m.mass, m.kappa, m.melted))
        ck.holds('results are written at the start and after every output interval (%s)' % tag,
                 [A.asarr(a[8]).scalar().const() for a in calls] == [x[0] for x in want],
                 'frames written: %s, expected %s' % ([str(a[8]) for a in calls], [x[0] for x in want]), s.w)
        for a, x in zip(calls, want):
            for k, n in enumerate(ONAMES[2:8]):
                ck.eq('%s of frame %d (%s)' % (n, x[0], tag), lambda: a[2 + k], x[1 + k], s.w)
            if a[0] != 'DATA' or a[1] is not s.mesh:
                ck.holds('frames go to the data directory given (%s)' % tag, False, 'frame %d is written to %s' % (x[0], a[0]), s.w)
        return True
    ck.ob('time loop (%s)' % tag, go, SIM)


def out(ck):
    def go():
        s = Sim(ck)
        o = s.kept.get('output_result')
        if not isinstance(o, FuncV) or [x.arg for x in o.node.args.args] != ONAMES:
            raise Undecided('signature of output_result')
        f, h, ph, m, ka, me = s.fld('f', s.Q), s.fld('h', s.Q), s.phase(), s.fld('mass'), s.fld('kappa'), s.fld('melted')
        n0 = len(s.I.events)
        s.mesh.data.clear()
        s.I.call(o, ['DATA', s.mesh, f, h, ph, m, ka, me, 7])
        w = s.ck.where(o)
        got = s.mesh.writes[-1:] or [(None, {})]
        name, data = got[0]
        ck.holds('each frame is one file in the vtk folder, numbered by the frame', len(s.mesh.writes) == 1 and str(name) == 'DATA/vtk/sol_0007.vtu',
                 'files written: %s' % [str(x[0]) for x in s.mesh.writes], w)
        rho = lambda x: sm([s.Q], lambda q: f.get(x + (q,)))
        r1 = lambda x: ite(eqi(rho(x), 0), ONE, rho(x))
        en = lambda x: sm([s.Q], lambda q: h.get(x + (q,)))
        un = s.unit
        N = s.N
        cell = lambda c: un3(s, c)

        def vel(c, k):
            x = cell(c)
            mom = T.add_many([A.pick(k, [const(y) for y in s.c[q]]) * f.get(x + (const(q),)) for q in range(s.Q)])
            return ite(eqi(ph.get(x), LIQUID), mom / r1(x) * un['speed'], ZERO)
        want = {'phase': lambda x: ph.get(x), 'mass': lambda x: m.get(x), 'rho': lambda x: r1(x) * un['density'],
                'kappa': lambda x: ka.get(x), 'T': lambda x: s.temp(en(x)) * un['temperature'], 'melted': lambda x: me.get(x)}
        for k, g in want.items():
            ck.eq('written field %s in physical units' % k, lambda: flat(s, data[k][0]), arr([N], lambda c: g(cell(c))), w)
        ck.eq('written field vel in physical units, liquid only', lambda: data['vel'][0], arr([N, 3], vel), w)
        return True
    ck.ob('output frame', go, SIM)


def un3(s, c):
    nz, ny = lift(s.n[2]), lift(s.n[1])
    return (T.floordiv(T.floordiv(c, nz), ny), T.mod(T.floordiv(c, nz), ny), T.mod(c, nz))


def flat(s, a):
    """cell data as the writer sees it: flattened in row-major order"""
    a = A.asarr(a)
    if a.ndim == 1:
        return a
    if a.ndim != 3:
        raise Undecided('cell data of rank %d' % a.ndim)
    return Arr([mkdim(s.N)], lambda ix: a.get(un3(s, ix[0])), a.dtype, a.lib)


def files(ck):
    def go():
        from .. import spec
        I = ck.interp()
        w = ck.fn(I, LU, 'clean_sols')
        I.call(w, ['DATA'])
        ev = [e for e in I.events if e.kind in ('ext', 'fs', 'io')]
        bad = [e for e in ev if e.name.split('.')[0] in ('os', 'shutil', 'glob', 'pathlib') and e.args
               and not e.name.startswith(('os.path', 'os.environ')) and isinstance(plain(e.args[0]), str)
               and not (plain(e.args[0]) + '/').startswith('DATA/vtk/')]
        ck.holds('cleaning touches only the vtk folder of the run', not bad, '%s' % [(e.name, str(e.args[0])) for e in bad], w)
        mk = [e for e in ev if e.name in ('os.makedirs', 'os.mkdir')]
        ck.holds('the vtk folder exists afterwards', any(plain(e.args[0]) == 'DATA/vtk' for e in mk), 'the vtk folder is not created', w)
        return True
    ck.ob('old frames', go, LU + '.clean_sols')


def plain(x):
    return str(x)
