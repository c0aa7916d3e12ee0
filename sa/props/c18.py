"""Explicit conduction model (gamma): material state, Robin ghost cells, explicit step."""
from .cfdlib import *
GAM = 'jax_am.cfd.gamma'


def run(ck):
    ck.map(lambda x: x[0](ck), [(mat,), (bc,), (lap,), (upd,)])


class G:
    def __init__(self, ck):
        self.ck = ck
        self.I = ck.interp()
        self.n = [dim('n' + x) for x in 'xyz']
        self.sh = [x + 2 for x in self.n]
        self.T = leaf('T', self.sh, 'f', 'jnp')
        self.k = leaf('k', self.sh, 'f', 'jnp', positive=True)
        self.x, self.y = leaf('x', self.n, 'f', 'jnp'), leaf('y', self.n, 'f', 'jnp')
        keys = ['Ts', 'Tl', 'L', 'h', 'T0', 'SB', 'eps', 'eta', 'r', 'rho']
        self.v = {k: sym(k, positive=k in ('r', 'rho')) for k in keys}
        self.args = {k: scal(p, 'f') for k, p in self.v.items()}
        self.h = [sym('d' + c, positive=True) for c in 'xyz']
        self.s = {k: sym(k) for k in ('xl', 'yl', 'P', 'dt')}
        self.hp = [scal(p, 'f') for p in self.h]
        self.sp = {k: scal(p, 'f') for k, p in self.s.items()}

    def w(self, n):
        return self.ck.fn(self.I, GAM, n)

    def mat(self, t):
        from .c17 import clip
        v = self.v
        fl = (clip(t, v['Ts'], v['Tl']) - v['Ts']) / (v['Tl'] - v['Ts'])
        tc = clip(t, const(300), v['Tl'])
        k = F('0.0163') * tc + F('4.5847')
        cp = F('0.2441') * tc + F('338.39') + lt(0, fl) * lt(fl, 1) * v['L']
        return fl, k, cp

    def loss(self, t):
        v = self.v
        return v['h'] * (t - v['T0']) + v['SB'] * v['eps'] * (t ** 4 - v['T0'] ** 4)

    def ghost(self, s, ix, k):
        """ghost value beyond side s next to the interior cell ix (extended indices)"""
        from .c17 import fexp
        ax, up = s // 2, s % 2
        c = list(ix)
        c[ax] = self.n[ax] if up else ONE
        g = list(ix)
        g[ax] = self.n[ax] + 1 if up else ZERO
        t = self.T.get(tuple(c))
        face = (t + self.T.get(tuple(g))) / 2
        q = -self.loss(face)
        if s == 5:
            v = self.v
            x, y = [a.get((c[0] - 1, c[1] - 1, self.n[2] - 1)) for a in (self.x, self.y)]
            q = q + 2 * self.s['P'] * v['eta'] / T.PI / v['r'] ** 2 * fexp(
                -2 * ((x - self.s['xl']) ** 2 + (y - self.s['yl']) ** 2) / v['r'] ** 2)
        return t + q * self.h[ax] / k(tuple(c))

    def with_bc(self, k):
        def f(ix):
            r = self.T.get(ix)
            ins = [land(T.ge0(ix[a] - 1), T.ge0(self.n[a] - ix[a])) for a in range(3)]
            for s in range(6):
                ax = s // 2
                on = eqi(ix[ax], self.n[ax] + 1 if s % 2 else 0)
                for a in range(3):
                    if a != ax:
                        on = land(on, ins[a])
                r = ite(on, self.ghost(s, ix, k), r)
            return r
        return Arr([mkdim(x) for x in self.sh], f)


def F(x):
    return const(T.frac_of_float(float(x)))


def mat(ck):
    def go():
        g = G(ck)
        w = g.w('update_mat')
        want = [Arr(g.T.shape, lambda ix, q=q: g.mat(g.T.get(ix))[q]) for q in range(3)]
        ck.eq('liquid fraction, conductivity and heat capacity with latent heat in the mushy zone',
              lambda: list(g.I.call(w, [g.T, g.args])), want, w)
        return True
    ck.ob('update_mat', go, GAM + '.update_mat')


def bc(ck):
    def go():
        g = G(ck)
        w = g.w('BC_thermal')
        ck.eq('ghost cells carry the convective, radiative and laser flux of their side; everything else is unchanged',
              lambda: g.I.call(w, [g.T, g.k, g.sp['xl'], g.sp['yl'], g.x, g.y, g.sp['P']] + g.hp + [g.args]),
              g.with_bc(lambda c: g.k.get(c)), w)
        return True
    ck.ob('BC_thermal', go, GAM + '.BC_thermal')


def second(f, c, ax, h):
    up, dn = list(c), list(c)
    up[ax], dn[ax] = c[ax] + 1, c[ax] - 1
    return (f(tuple(up)) - 2 * f(tuple(c)) + f(tuple(dn))) / h / h


def lap(ck):
    def go():
        g = G(ck)
        w = g.w('laplace')
        ck.eq('second differences along each axis on the interior', lambda: list(g.I.call(w, [g.T] + g.hp)),
              [arr(g.n, lambda i, j, k, a=a: second(g.T.get, [i + 1, j + 1, k + 1], a, g.h[a])) for a in range(3)], w)
        return True
    ck.ob('laplace', go, GAM + '.laplace')


def upd(ck):
    def go():
        g = G(ck)
        w = g.w('update_T')
        B = g.with_bc(lambda c: g.mat(g.T.get(c))[1])

        def f(ix):
            _, k, cp = g.mat(g.T.get(ix))
            ins = land(*[land(T.ge0(ix[a] - 1), T.ge0(g.n[a] - ix[a])) for a in range(3)])
            L = T.add_many([second(B.get, list(ix), a, g.h[a]) for a in range(3)])
            return ite(ins, g.T.get(ix) + g.s['dt'] * k / g.v['rho'] / cp * L, B.get(ix))
        got = lambda: g.I.call(w, [g.T, g.sp['xl'], g.sp['yl'], g.x, g.y, g.sp['P']] + g.hp + [g.sp['dt'], g.args])
        # interior and each ghost layer separately, as closed forms
        def part(name, idx, dims):
            ck.eq('explicit step: ' + name, lambda: (lambda r: arr(dims, lambda *i: r.get(tuple(idx(*i)))))(A.asarr(got())),
                  arr(dims, lambda *i: f(tuple(idx(*i)))), w)
        part('interior cells', lambda i, j, k: (i + 1, j + 1, k + 1), g.n)
        for s in range(6):
            ax = s // 2
            rest = [a for a in range(3) if a != ax]

            def ix(p, q):
                c = [None] * 3
                c[ax] = g.n[ax] + 1 if s % 2 else ZERO
                c[rest[0]], c[rest[1]] = p + 1, q + 1
                return c
            part('ghost layer %d' % s, ix, [g.n[a] for a in rest])
        return True
    ck.ob('update_T', go, GAM + '.update_T')
