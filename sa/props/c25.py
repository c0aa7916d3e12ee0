"""Allen-Cahn phase field: right-hand side, time integrators, initial state."""
from ..spec import *
from .. import terms as T, arrays as A
from ..terms import Undecided
from fractions import Fraction
AC = 'jax_am.phase_field.allen_cahn'


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(rhs,), (aniso,), (integ,), (force,), (ini,)])


KEYS = ['m_g', 'kappa_g', 'ad_hoc', 'L0', 'Qg', 'gas_const', 'T_liquidus']


class PF:
    def __init__(self, ck, anis=0, no=None):
        self.ck = ck
        self.I = ck.interp()
        self.n = [dim('n' + c) for c in 'xyz']
        self.N = mul(mul(self.n[0], self.n[1]), self.n[2])
        self.no = no if no is not None else dim('no')
        self.v = {k: sym(k, positive=True) for k in KEYS}
        self.h = [sym('h' + c, positive=True) for c in 'xyz']
        self.args = {k: scal(p, 'f') for k, p in self.v.items()}
        for k, x in zip(('Nx', 'Ny', 'Nz'), self.n):
            self.args[k] = isym(x)
        self.args['num_oris'] = isym(self.no)
        self.args['dim'] = 3
        self.args['anisotropy'] = anis
        self.args['data_dir'] = 'DATA'
        self.args['write_sol_interval'] = isym(dim('wi'))
        self.dirs = leaf('dirs', [3, self.no, 3], 'f')
        self.poly = obj(mesh_h_xyz=tuple(scal(p, 'f') for p in self.h), unique_grain_directions=self.dirs,
                        centroids=leaf('cent', [self.N, 3], 'f'), cell_ori_inds=leaf('ori', [self.N], 'i', hi=self.no),
                        unique_oris_rgb=leaf('rgb', [3, self.no, 3], 'f'))
        self.eta = leaf('eta', [self.N, self.no], 'f', 'jnp')
        self.T = leaf('T', [self.N, 1], 'f', 'jnp', positive=True)

    def at(self, x, o):
        nx, ny, nz = self.n
        return self.eta.get(((x[2] * ny + x[1]) * nx + x[0], o))

    def grid(self, f, *tail):
        """array over cells (z, y, x order) given f((x, y, z), *rest)"""
        nx, ny, nz = self.n
        return Arr([mkdim(self.N)] + [mkdim(t) for t in tail],
                   lambda ix: lift(f((T.mod(ix[0], nx), T.mod(T.floordiv(ix[0], nx), ny), T.floordiv(T.floordiv(ix[0], nx), ny)), ix[0], *ix[1:])))

    def nb(self, x, a, s):
        y = list(x)
        last = self.n[a] - 1
        y[a] = ite(eqi(x[a], last), last, x[a] + 1) if s > 0 else ite(eqi(x[a], 0), ZERO, x[a] - 1)
        return tuple(y)

    def local(self, c, o):
        v = self.v
        t = self.T.get((c, ZERO))
        tc = ite(lt(2000, t), const(2000), t)
        zeta = (1 - T.app('tanh', (const(10 ** 10) * (tc / v['T_liquidus'] - 1),))) / 2
        e = self.eta.get((c, o))
        tot = sm([self.no], lambda j: self.eta.get((c, j)) ** 2)
        g = v['m_g'] * (e ** 3 - e + 4 * e * (tot - e ** 2) + 2 * e * (1 - zeta) ** 2)
        return g / v['ad_hoc'], v['L0'] * T.app('exp', (-v['Qg'] / (tc * v['gas_const']),))

    def rhs(self, x, c, o, an=lambda x, o: ONE):
        g, L = self.local(c, o)
        v = self.v
        e = self.at(x, o)
        lap = T.add_many([((self.at(self.nb(x, a, 1), o) - e) + (self.at(self.nb(x, a, -1), o) - e)) / self.h[a] ** 2 for a in range(3)])
        return -L * (g - lap * an(x, o) * v['kappa_g'] * v['ad_hoc'])


def rhs(ck):
    def go():
        p = PF(ck)
        w = ck.fn(p.I, AC, 'phase_field')
        f = p.I.call(w, [p.poly, p.args])
        ck.eq('driving force: double well, grain repulsion, liquid penalty and diffusion with no-flux sides, times Arrhenius mobility',
              lambda: p.I.call(f, [p.eta, scal(sym('t'), 'f'), [p.T]]), p.grid(lambda x, c, o: p.rhs(x, c, o), p.no), w)
        return True
    ck.ob('right-hand side', go, AC + '.phase_field')


def aniso(ck):
    def go():
        p = PF(ck, anis=Fraction(1, 10))
        w = ck.fn(p.I, AC, 'phase_field')
        f = p.I.call(w, [p.poly, p.args])
        pi = T.PI

        def an(x, o):
            e = [p.at(p.nb(x, a, 1), o) - p.at(p.nb(x, a, -1), o) for a in range(3)]
            nn = sqrt(T.add_many([q * q for q in e]))
            ang = []
            for d in range(3):
                c = T.add_many([p.dirs.get((const(d), o, const(a))) * e[a] for a in range(3)]) / nn
                q = T.app('arccos', (c,))
                q = ite(T.app(('bool', 'isfinite'), (q,), is_bool=True), q, ZERO)
                ang.append(ite(lt(q, pi / 2), q, pi - q))
            m = ang[0]
            for q in ang[1:]:
                m = ite(lt(q, m), q, m)
            return 1 + const(Fraction(1, 10)) * (T.app('cos', (m,)) ** 4 + T.app('sin', (m,)) ** 4)
        ck.eq('anisotropic diffusion: fourfold in the angle to the nearest grain axis, per cell and orientation',
              lambda: p.I.call(f, [p.eta, scal(sym('t'), 'f'), [p.T]]), p.grid(lambda x, c, o: p.rhs(x, c, o, an), p.no), w)
        return True
    ck.ob('anisotropy', go, AC + '.phase_field')


def integ(ck):
    def go():
        I = ck.interp()
        y = leaf('y', [dim('n'), dim('no')], 'f', 'jnp')
        t0, t1 = sym('t0'), sym('t1')
        F = ew_fn('F')
        par = [fsym('th')]

        def f(I, a, k):
            return I.call(F, [a[0], a[1], a[2][0]])
        from ..interp import PyFn
        rf = PyFn(f, 'f')
        fv = lambda yy, tt: T.app('F', (yy, tt, sym('th')))
        h = t1 - t0
        e = lambda *ix: y.get(ix) + h * fv(y.get(ix), t0)

        def rk(*ix):
            v = y.get(ix)
            k1 = h * fv(v, t0)
            k2 = h * fv(v + k1 / 2, t0 + h / 2)
            k3 = h * fv(v + k2 / 2, t0 + h / 2)
            k4 = h * fv(v + k3, t0 + h)
            return v + (k1 + 2 * k2 + 2 * k3 + k4) / 6
        for name, want in (('explicit_euler', e), ('rk4', rk)):
            w = ck.fn(I, AC, name)
            ya = arr(list(y.shape), want)
            ck.eq('%s advances the state over the actual time increment' % name,
                  lambda: (lambda r: [list(r[0]), r[1]])(I.call(w, [(y, scal(t0, 'f')), scal(t1, 'f'), rf, par])),
                  [[ya, scal(t1, 'f')], ya], w)
        p = PF(ck)
        cls = ck.fn(p.I, AC, 'PFSolver')
        s = p.I.call(cls, [p.args, p.poly])
        ck.eq('a step is one Euler step of the phase-field equation with the given temperature',
              lambda: (lambda r: [list(r[0]), r[1]])(p.I.call(p.I.getattr(s, 'stepper'), [(p.eta, scal(t0, 'f')), scal(t1, 'f'), [p.T]])),
              lambda: (lambda z: [[z, scal(t1, 'f')], z])(p.grid(lambda x, c, o: p.eta.get((c, o)) + h * p.rhs(x, c, o), p.no)), AC + '.PFSolver.stepper')
        return True
    ck.ob('time integration', go, AC)


def force(ck):
    def go():
        p = PF(ck)
        w = ck.fn(p.I, AC, 'get_force_eta_fn')
        f = p.I.call(w, [p.args])
        t = scal(sym('t'), 'f')
        ck.eq('the liquid reset clears order parameters above liquidus plus one and keeps the time',
              lambda: list(p.I.call(f, [(p.eta, t), p.T])),
              [arr([p.N, p.no], lambda c, o: ite(lt(p.v['T_liquidus'] + 1, p.T.get((c, ZERO))), ZERO, p.eta.get((c, o)))), t], w)
        return True
    ck.ob('liquid reset', go, AC + '.get_force_eta_fn')


def ini(ck):
    def go():
        p = PF(ck)
        cls = ck.fn(p.I, AC, 'PFSolver')
        s = p.I.call(cls, [p.args, p.poly])
        ori = p.poly.attrs['cell_ori_inds']
        ck.eq('initially every cell is its own grain orientation and nothing else',
              lambda: p.I.call(p.I.getattr(s, 'ini_cond'), []), arr([p.N, p.no], lambda c, o: eqi(ori.get((c,)), o)), AC + '.PFSolver.ini_cond')
        return True
    ck.ob('initial condition', go, AC + '.PFSolver.ini_cond')
