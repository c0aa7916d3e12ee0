"""The free-surface thermal lattice Boltzmann simulation over a symbolic lattice."""
from .. import terms as T, arrays as A
from ..spec import *
from ..interp import PyFn, FuncV, Model
from ..terms import Undecided
from fractions import Fraction
LBM = 'jax_am.lbm.core'
LU = 'jax_am.lbm.utils'
SIM = LBM + '.simulation'
LIQUID, LG, GAS, WALL = range(4)
H = Fraction(1, 2)

KEYS = ['h', 'dt', 'rho0', 'T0', 'M0', 'gravity', 'dynamic_viscosity', 'st_coeff', 'st_grad_coeff', 'rp_coeff', 'laser_power', 'beam_size',
        'absorbed_fraction', 'scanning_vel', 'heat_capacity', 'thermal_diffusivitity_l', 'thermal_diffusivitity_s', 'emissivity', 'h_conv',
        'latent_heat_fusion', 'latent_heat_evap', 'T_liquidus', 'T_solidus', 'T_evap', 'enthalpy_s', 'enthalpy_l']


class MeshFile(Model):
    def __init__(self, cells):
        self.data = {}
        self.writes = []
        self.points = leaf('points', [dim('npts'), 3], 'f')
        self.cells = leaf('hexes', [cells, 8], 'i', hi=dim('npts'))

    def attr(self, I, name):
        if name == 'cell_data':
            return self.data
        if name == 'points':
            return self.points
        if name == 'cells_dict':
            return {'hexahedron': self.cells}
        if name == 'write':
            def wr(I, a, k):
                self.writes.append((a[0], {q: frz(x) for q, x in self.data.items()}))
                I.event('meshwrite', 'write', a, {q: frz(x) for q, x in self.data.items()})
            return PyFn(wr, 'write')
        raise Undecided('mesh attribute ' + name)

    def setattr(self, I, name, v):
        if name != 'cell_data':
            raise Undecided('mesh attribute ' + name)
        self.data = v


def frz(x):
    return [frz(y) for y in x] if isinstance(x, (list, tuple)) else A.snapshot(A.asarr(x))


SIG = {     # stage -> (defining function, parameters the specification knows)
    'compute_rho': ('compute_rho', ['f_distribute']),
    'compute_enthalpy': ('compute_enthalpy', ['h_distribute']),
    'compute_T': ('compute_T', ['enthalpy']),
    'compute_vof': ('compute_vof', ['rho', 'phase', 'mass']),
    'compute_curvature': ('compute_curvature', ['lattice_ids', 'vof']),
    'compute_T_grad': ('compute_T_grad', ['lattice_ids', 'T', 'phase']),
    'compute_f_source_term': ('compute_f_source_term', ['rho', 'vof', 'phi', 'kappa', 'T', 'T_grad']),
    'compute_h_source_term': ('compute_h_src', ['lattice_id', 'T', 'vof', 'phi', 'cell_centroids', 'laser_x', 'laser_y', 'switch']),
    'compute_u': ('compute_u', ['f_distribute', 'rho', 'T', 'f_source_term']),
    'collide_f_vmap': ('collide_f', ['lattice_id', 'f_distribute', 'rho', 'T', 'u', 'phase', 'f_source_term']),
    'collide_h_vmap': ('collide_h', ['lattice_id', 'h_distribute', 'enthalpy', 'T', 'rho', 'u', 'phase', 'h_source_term']),
    'update_f_vmap': ('update_f', ['lattice_id', 'f_distribute', 'rho', 'u', 'phase', 'mass', 'vof']),
    'update_h_vmap': ('update_h', ['lattice_id', 'h_distribute', 'u', 'phase']),
    'reini_lg_to_liquid_vmap': ('reini_lg_to_liquid', ['lattice_id', 'f_distribute', 'phase', 'mass']),
    'reini_gas_to_lg_vmap': ('reini_gas_to_lg', ['lattice_id', 'f_distribute', 'h_distribute', 'rho', 'u', 'enthalpy', 'T', 'phase', 'mass']),
    'reini_lg_to_gas_vmap': ('reini_lg_to_gas', ['lattice_id', 'f_distribute', 'phase', 'mass']),
    'reini_liquid_to_lg_vmap': ('reini_liquid_to_lg', ['lattice_id', 'f_distribute', 'phase', 'mass']),
    'adhoc_step_vmap': ('adhoc_step', ['lattice_id', 'f_distribute', 'phase', 'mass']),
    'refresh_for_output_vmap': ('refresh_for_output', ['lattice_id', 'f_distribute', 'h_distribute', 'phase', 'mass']),
    'compute_total_mass_vmap': ('compute_total_mass', ['lattice_id', 'f_distribute', 'phase', 'mass']),
}


_F, _V = ((), 'f'), ((3,), 'f')
_D, _P = ((19,), 'f'), ((), 'i')
OUT = {     # what each stage returns
    'compute_rho': [_F], 'compute_enthalpy': [_F], 'compute_T': [_F], 'compute_vof': [_F], 'compute_curvature': [_V, _F],
    'compute_T_grad': [_V], 'compute_f_source_term': [_V], 'compute_h_source_term': [_F], 'compute_u': [_V],
    'collide_f_vmap': [_D], 'collide_h_vmap': [_D], 'update_f_vmap': [_D, _F], 'update_h_vmap': [_D],
    'reini_lg_to_liquid_vmap': [_P], 'reini_gas_to_lg_vmap': [_D, _D, _P, _F], 'reini_lg_to_gas_vmap': [_P],
    'reini_liquid_to_lg_vmap': [_P, _F], 'adhoc_step_vmap': [_P], 'refresh_for_output_vmap': [_D, _D, _P, _F],
    'compute_total_mass_vmap': [_F],
}


PLAIN = {'compute_rho': 'f_distribute', 'compute_enthalpy': 'h_distribute'}     # plain sums, kept as such


class Sim:
    """simulation() analysed up to its time loop; its stage functions become callable."""

    def __init__(self, ck, steps=0, rebind=None, fluid_only=False, interval=10, phase=None, pad=1):
        self.ck = ck
        I = self.I = ck.interp()
        self.pad = pad
        self.n = [dim('m' + x) + 2 * pad for x in 'xyz']      # walls on both ends leave at least one inner cell
        self.N = A.prod_dim([mkdim(x) for x in self.n])
        self.v = {k: sym(k, positive=True) for k in KEYS}
        a = self.args = {k: {'value': scal(p, 'f')} for k, p in self.v.items()}
        for k, n in zip(('Nx', 'Ny', 'Nz'), self.n):
            a[k] = {'value': isym(n)}
        a['output_interval'] = interval
        a['laser_path'] = dict(x_pos=[fsym('px0'), fsym('px1')], y_pos=[fsym('py0'), fsym('py1')], switch=[fsym('sw0'), fsym('sw1')])
        self.mesh = MeshFile(self.N)
        self.phase0 = phase or leaf('phase0', self.n, 'i', hi=4)
        self.path = [leaf(x, [lift(steps) + 1], 'f') for x in ('ts', 'xs', 'ys', 'ps')]
        I.stubs[LBM + '.read_path'] = lambda I, f, a, k: tuple(self.path)
        I.frames = {SIM: None}
        self.kept = {}
        self.bound = set()
        self.calls = []

        def quiet(name):
            def sub(v):
                self.kept[name] = v
                return PyFn(lambda I, a, k: self.calls.append((name, a, k)), name)
            return sub
        if rebind is None:
            rebind = {'output_result': quiet('output_result')}
        elif rebind == 'stages':
            rebind = {k: self.abstract(k) for k in OUT if k not in PLAIN}
            rebind['output_result'] = quiet('output_result')
        I.rebind = (SIM, rebind)
        self.w = ck.fn(I, LBM, 'simulation')
        I.call(self.w, [a, 'DATA', self.mesh, self.phase0], dict(fluid_only=fluid_only))
        # the code's own numbering of the velocity set
        vels = self.local('vels')
        if vels is None:
            raise Undecided('velocity table not found')
        vels = A.asarr(vels)
        q = vels.shape[1].c()
        self.Q = q
        self.c = [[int(vels.get((const(k), const(i))).const()) for k in range(3)] for i in range(q)]
        self.rev = [self.c.index([-x for x in c]) if [-x for x in c] in self.c else None for c in self.c]
        sq = {0: Fraction(1, 3), 1: Fraction(1, 18), 2: Fraction(1, 36)}
        self.wt = [sq.get(sum(x * x for x in c), Fraction(0)) for c in self.c]
        self.units()

    @property
    def env(self):
        return self.I.frames[SIM]

    def local(self, name):
        return self.env.vars.get(name)

    def fun(self, stage):
        f = self.local(stage)
        if f is None:
            raise Undecided('stage %s not found' % stage)
        return f

    def params(self, stage):
        d, known = SIG[stage]
        g = self.kept.get(d) or self.local(d)
        if isinstance(g, PyFn) or not isinstance(g, FuncV):
            # decorated in place: look through the wrapper
            g = getattr(g, 'inner', None) or getattr(g, 'wrapped', None) or g
        if isinstance(g, FuncV):
            a = g.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if a.vararg:            # rebound to a wrapper passing everything through
                names = list(known)
        else:
            names = list(known)
        if set(names) - set(known):
            raise Undecided('signature of %s changed to %s' % (d, names))
        return names

    def abstract(self, stage):
        """replace a stage by an uninterpreted function of its (named) array arguments"""
        def sub(v):
            self.bound.add(stage)
            if SIG[stage][0] == stage and stage not in self.kept:
                self.kept[stage] = v

            def f(I, a, k):
                names = self.params(stage)
                if len(a) + len(k) != len(names) or set(k) != set(names[len(a):]):
                    raise Undecided('call of %s' % stage)
                return self.apply(stage, dict(zip(names, a), **k))
            return PyFn(f, stage)
        return sub

    def apply(self, stage, kw):
        if stage in PLAIN:
            a = A.asarr(kw[PLAIN[stage]])
            return Arr(a.shape[:-1], lambda ix: sm([a.shape[-1]], lambda q: a.get(tuple(ix) + (q,))), 'f', 'jnp')
        ls = []
        for n in sorted(kw):
            if n in ('lattice_id', 'lattice_ids'):
                continue
            a = A.asarr(kw[n])
            ls.append(A.tlam(a) if a.ndim else a.scalar())
        ls = tuple(ls)
        out = []
        for j, (tail, dt) in enumerate(OUT[stage]):
            def fn(ix, j=j, dt=dt):
                return T.app('%s.%d' % (stage, j), ls, ix, is_int=dt == 'i', rng=(ZERO, const(4)) if dt == 'i' else None)
            out.append(Arr([mkdim(x) for x in self.n + list(tail)], fn, dt, 'jnp'))
        return out[0] if len(out) == 1 else tuple(out)

    def where(self, stage):
        g = self.local(SIG[stage][0]) if stage in SIG else None
        return self.ck.where(g) if isinstance(g, FuncV) else SIM

    def call(self, stage, **kw):
        ids = Arr([self.N], lambda ix: ix[0], 'i', 'jnp')
        kw.setdefault('lattice_id', ids)
        kw.setdefault('lattice_ids', ids)
        return self.I.call(self.fun(stage), [kw[p] for p in self.params(stage)])

    # ---- fields
    def fld(self, name, *tail, dtype='f', hi=None, positive=False):
        return leaf(name, self.n + list(tail), dtype, 'jnp', hi=hi, positive=positive)

    def phase(self):
        return self.fld('phase', dtype='i', hi=4)

    def inner(self, a):
        """restriction to the cells inside the wall layer"""
        a = A.asarr(a)
        d = self.pad
        return Arr([mkdim(n - 2 * d) for n in self.n] + list(a.shape[3:]), lambda ix: a.get(tuple(i + d for i in ix[:3]) + tuple(ix[3:])),
                   a.dtype, a.lib)

    def spec(self, f, *tail):
        """f(cell, *rest) over inner cells"""
        d = self.pad
        return Arr([mkdim(n - 2 * d) for n in self.n] + [mkdim(t) for t in tail],
                   lambda ix: lift(f(tuple(i + d for i in ix[:3]), *ix[3:])))

    def nb(self, x, q):
        return tuple(lift(i) + c for i, c in zip(x, self.c[q]))

    def perq(self, f):
        """f(cell, q) for concrete q -> function of a symbolic q"""
        return lambda x, q: A.pick(q, [lift(f(x, k)) for k in range(self.Q)])

    # ---- units: lattice spacing, step, density, reference temperature and molar mass are 1
    def units(self):
        v = self.v
        L, t, r, th, mm = v['h'], v['dt'], v['rho0'], v['T0'], v['M0']
        m = r * L ** 3
        F = m * L / t ** 2
        E = F * L
        mol = m / mm
        self.L = L
        d = lambda k, u: v[k] / u
        self.p = dict(
            p_atm=const(101325) / (F / L ** 2), R=const(T.frac_of_float(8.314)) / (E / (th * mol)),
            SB=const(T.frac_of_float(5.67e-8)) / (m / t ** 3 / th ** 4), g=d('gravity', L / t ** 2),
            nu=d('dynamic_viscosity', m / (L * t)), st=d('st_coeff', F / L), stg=d('st_grad_coeff', F / (L * th)), rp=v['rp_coeff'],
            P=d('laser_power', E / t), beam=d('beam_size', L), absf=v['absorbed_fraction'], cp=d('heat_capacity', E / (m * th)),
            al=d('thermal_diffusivitity_l', L ** 2 / t), as_=d('thermal_diffusivitity_s', L ** 2 / t), eps=v['emissivity'],
            hc=d('h_conv', m / t ** 3 / th), Lf=d('latent_heat_fusion', E / m), Lv=d('latent_heat_evap', E / m), Tl=d('T_liquidus', th),
            Ts=d('T_solidus', th), Tv=d('T_evap', th), hs=d('enthalpy_s', E / m), hl=d('enthalpy_l', E / m))
        self.tau = 3 * self.p['nu'] + H
        self.taul = 3 * self.p['al'] + H
        self.taus = 3 * self.p['as_'] + H
        self.unit = dict(density=r, speed=L / t, temperature=th, length=L)

    # ---- lattice physics
    def dot(self, q, u):
        return T.add_many([const(self.c[q][k]) * u(k) for k in range(3)])

    def feq(self, q, rho, u):
        cu = self.dot(q, u)
        uu = T.add_many([u(k) * u(k) for k in range(3)])
        return const(self.wt[q]) * rho * (ONE + 3 * cu + const(Fraction(9, 2)) * cu * cu - const(Fraction(3, 2)) * uu)

    def heq(self, q, en, t, u):
        if self.c[q] == [0, 0, 0]:
            uu = T.add_many([u(k) * u(k) for k in range(3)])
            return en - self.p['cp'] * t + const(self.wt[q]) * self.p['cp'] * t * (ONE - const(Fraction(3, 2)) * uu)
        return self.feq(q, self.p['cp'] * t, u)

    def temp(self, en):
        p = self.p
        return ite(lt(en, p['hs']), en / p['cp'], ite(lt(en, p['hl']), p['Ts'] + (en - p['hs']) / (p['hl'] - p['hs']) * (p['Tl'] - p['Ts']),
                                                      p['Tl'] + (en - p['hl']) / p['cp']))


def vec(a, x):
    """component function of a vector field at a cell"""
    return lambda k: a.get(tuple(x) + (const(k) if isinstance(k, int) else k,))
