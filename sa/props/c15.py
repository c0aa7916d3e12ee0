"""Finite-volume operators: ghost values, Laplacian, upwind divergence, gradient, face velocities."""
from .cfdlib import *

TYPES = [[0] * 6, [1] * 6, [0, 1, 1, 0, 1, 0], [1, 0, 0, 1, 0, 1]]


def run(ck):
    items = [(ghosts, i) for i in range(5)] + [(lap, i, v) for i in range(3) for v in (0, 1)] \
        + [(divergence, i) for i in range(4)] + [(grads, i) for i in range(3)] + [(faces, i) for i in range(4)] \
        + [(comp, a, i) for a in range(3) for i in range(2)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def ghosts(ck, i):
    t = (TYPES + [[0, 0, 0, 0, 0, 2]])[i]

    def go():
        I = ck.interp()
        f = Field('f', 3, t)
        w = ck.fn(I, CFD, 'get_GC_values')
        want = []
        for s in range(6):
            sh = [mkdim(x) for x in f.n] + [mkdim(3)]
            sh[s // 2] = mkdim(1)
            want.append(Arr(sh, lambda ix, s=s: f.ghost(s, ix)))
        ck.eq('ghost values of boundary types %s' % t, lambda: f.call_gc(I, ck), want, w)
        g = ck.fn(I, CFD, 'ghost_cell')
        names = {0: 'Dirchlet', 1: 'Neumann'}
        if i == 0:
            x, v, h = fsym('x'), fsym('v'), fsym('hh')
            for k, nm in names.items():
                ck.eq('boundary type %s by name' % nm, lambda: I.call(g, [nm, v, h, x]),
                      scal(2 * sym('v') - sym('x') if k == 0 else sym('x') + sym('hh') * sym('v')), g)
        return True
    ck.ob('ghost cells %s' % t, go, CFD + '.get_GC_values')


def lap(ck, i, variable):
    t = [None, TYPES[0], TYPES[2]][i]
    tag = '[%s, %s coefficient]' % ('zero flux' if t is None else t, 'face' if variable else 'constant')

    def go():
        I = ck.interp()
        f = Field('f', 1, t)
        w = ck.fn(I, CFD, 'laplace')
        mu = fsym('mu')
        if variable:
            mu = []
            for ax in range(3):
                sh = list(f.n) + [ONE]
                sh[ax] = sh[ax] + 1
                mu.append(leaf('mu%d' % ax, sh, 'f', 'jnp'))
        gc = None if t is None else f.call_gc(I, ck)
        got = lambda: I.call(w, [f.f, gc, mu, f.dX, f.BCs])
        V = T.mul_many(f.h)

        def spec(*ix):
            out = ZERO
            for ax in range(3):
                up, dn = list(ix), list(ix)
                up[ax] = lift(ix[ax]) + 1
                mp = mu[ax].get(tuple(up)) if variable else sym('mu')
                mm = mu[ax].get(tuple(dn)) if variable else sym('mu')
                a = V / f.h[ax] / f.h[ax]
                out = out + a * (mp * (f.e(ax, ix, 1) - f.at(ix)) - mm * (f.at(ix) - f.e(ax, ix, -1)))
            return out
        ck.eq('Laplacian = sum of face fluxes times areas ' + tag, got, arr(f.n + [1], spec), w)
        return True
    ck.ob('laplace ' + tag, go, CFD + '.laplace')


def divergence(ck, i):
    t = [None, TYPES[0], TYPES[1], TYPES[3]][i]
    tag = '[%s]' % ('zero flux' if t is None else t)

    def go():
        I = ck.interp()
        f = Field('f', dim('nc'), t)
        w = ck.fn(I, CFD, 'div')
        u = []
        for ax in range(3):
            sh = list(f.n) + [ONE]
            sh[ax] = sh[ax] + 1
            u.append(leaf('u%d' % ax, sh, 'f', 'jnp'))
        th = sym('theta') if i else const(Fraction(1, 8))
        kw = {} if t is None else dict(BCs=f.BCs)
        if i:
            kw['theta'] = fsym('theta')
        got = lambda: I.call(w, [f.f, tuple(u), f.dX], kw)

        def facev(ax, ix):
            """interpolated value at the lower face of cell ix along ax, times face velocity"""
            v = u[ax].get(tuple(ix[:3]) + (ZERO,))
            E = lambda k: f.e(ax, ix, k)
            upw = ite(T.ge0(v), (3 * E(-1) - E(-2)) / 2, (3 * E(0) - E(1)) / 2)
            return (th * (E(-1) + E(0)) / 2 + (ONE - th) * upw) * v

        def spec(*ix):
            out = ZERO
            for ax in range(3):
                up = list(ix)
                up[ax] = lift(ix[ax]) + 1
                out = out + (facev(ax, up) - facev(ax, ix)) / f.h[ax]
            return out
        ck.eq('divergence = net blended upwind flux per volume ' + tag, got, arr(f.n + [f.c], spec), w)
        return True
    ck.ob('div ' + tag, go, CFD + '.div')


def grads(ck, i):
    t = [None, TYPES[0], TYPES[3]][i]
    tag = '[%s]' % ('zero flux' if t is None else t)

    def go():
        I = ck.interp()
        f = Field('f', 1, t)
        w = ck.fn(I, CFD, 'gradient')
        got = lambda: I.call(w, [f.f, f.dX] + ([f.BCs] if t else []))

        def spec(*ix):
            c = list(ix[:3]) + [ZERO]
            return A.pick(ix[3], [(f.e(ax, c, 1) - f.e(ax, c, -1)) / (2 * f.h[ax]) for ax in range(3)])
        ck.eq('gradient = central difference of the extended field ' + tag, got, arr(f.n + [3], spec), w)
        return True
    ck.ob('gradient ' + tag, go, CFD + '.gradient')


def faces(ck, i):
    t = [None, TYPES[0], TYPES[2], [0, 0, 0, 0, 0, 2]][i]
    tag = '[%s]' % ('zero flux' if t is None else t)

    def go():
        I = ck.interp()
        f = Field('f', 3, t)
        w = ck.fn(I, CFD, 'get_face_vels')
        got = lambda: list(I.call(w, [f.f, f.dX] + ([f.BCs] if t else [])))
        want = []
        for ax in range(3):
            sh = list(f.n) + [ONE]
            sh[ax] = sh[ax] + 1
            want.append(arr(sh, lambda *ix, ax=ax: (f.e(ax, list(ix[:3]) + [const(ax)], 0)
                                                    + f.e(ax, list(ix[:3]) + [const(ax)], -1)) / 2))
        ck.eq('face velocities are the means of both sides ' + tag, got, want, w)
        return True
    ck.ob('face velocities ' + tag, go, CFD + '.get_face_vels')


def comp(ck, ax, i):
    t = [None, TYPES[0]][i]
    tag = '[axis %d, %s]' % (ax, 'zero flux' if t is None else t)

    def go():
        I = ck.interp()
        f = Field('f', 1, t)
        w = ck.fn(I, CFD, 'get_face_vel_component')
        sh = list(f.n) + [ONE]
        sh[ax] = sh[ax] + 1
        ck.eq('face mean of one component ' + tag,
              lambda: I.call(w, [f.f, f.dX], dict(axis=ax, **({'BCs': f.BCs} if t else {}))),
              arr(sh, lambda *ix: (f.e(ax, ix, 0) + f.e(ax, ix, -1)) / 2), w)
        if ax == 0:
            ck.eq('face mean of one component, first axis unless told otherwise ' + tag,
                  lambda: I.call(w, [f.f, f.dX], {'BCs': f.BCs} if t else {}),
                  arr(sh, lambda *ix: (f.e(ax, ix, 0) + f.e(ax, ix, -1)) / 2), w)
        return True
    ck.ob('face component ' + tag, go, CFD + '.get_face_vel_component')
