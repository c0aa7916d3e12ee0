"""Implicit finite-volume equations: residual, tangent, preconditioner, linear and nonlinear solution."""
from .cfdlib import *
from ..interp import PyFn


def sg(s):
    return 1 if s % 2 else -1


class Pois:
    """A `poisson` equation over a symbolic grid with arbitrary coefficient, source and boundary data."""

    def __init__(self, ck, d, nonlinear, types, nargs=2):
        self.ck, self.d, self.nl, self.types = ck, d, nonlinear, types
        g = self.g = Grid(ck, d)
        self.I = g.I
        self.I.peeled = []
        C = g.cells
        self.bv = None if types is None else [leaf('bv%d' % s, [g.face(s)[0]], 'f', 'jnp') for s in range(2 * d)]
        kw = dict(mesh=g.o, nonlinear=nonlinear)
        if nonlinear:
            kw['mu_fn'] = ew_fn('mu', positive=True)
        else:
            self.mu0 = sym('mu0', positive=True)
            kw['mu'] = scal(self.mu0, 'f')
        kw['source_fn'] = ew_fn('src')
        self.cls = ck.fn(self.I, CFD, 'poisson')
        self.o = self.I.call(self.cls, [], kw)
        if types is not None:
            self.m('set_bc', list(types), list(self.bv))
        self.U = leaf('U', [C], 'f', 'jnp')
        self.args = [leaf('a%d' % k, [C], 'f', 'jnp') for k in range(nargs)]

    def w(self, n):
        return self.ck.fn(self.I, CFD, 'poisson.' + n)

    def m(self, n, *a):
        return self.I.call(self.I.getattr(self.o, n), list(a))

    def mu(self, x):
        return T.app('mu', (x,), (), positive=True) if self.nl else self.mu0

    def dmu(self, x):
        return T.app(('D', 0, 0, 'mu'), (x,), ()) if self.nl else ZERO

    def src(self, U, i, d=False):
        return T.app(('D', 0, 0, 'src') if d else 'src', (U,) + tuple(a.get((i,)) for a in self.args), ())

    def kf(self, a, b):
        return 2 * self.mu(a) * self.mu(b) / (self.mu(a) + self.mu(b)) if self.nl else self.mu0

    def slot(self, c, s):
        """flat position of cell c on side s"""
        rest = [k for k in range(self.d) if k != s // 2]
        j = c[rest[0]]
        for k in rest[1:]:
            j = j * self.g.n[k] + c[k]
        return j

    def edge(self, c, s):
        ax = s // 2
        return eqi(c[ax], self.g.n[ax] - 1) if s % 2 else eqi(c[ax], 0)

    def res(self, U):
        """residual at a cell: net outflow minus source, boundary fluxes included"""
        g = self.g

        def f(ix):
            i = ix[0]
            c = g.coords(i)
            u = U(i)
            out = -self.src(u, i) * g.vol
            for s in range(2 * self.d):
                a, h = g.area[s // 2], g.h[s // 2]
                n = U(g.nb(c, s + 1))
                out = out - self.kf(u, n) * (n - u) / h * a
                if self.types is not None:
                    b = self.bv[s].get((self.slot(c, s),))
                    if self.types[s] == 0:
                        fl = self.mu(b) * 2 * (b - u) / h * a
                    elif self.types[s] == 1:
                        fl = b * a
                    out = out - self.edge(c, s) * fl
            return out
        return Arr([g.cells], f, 'f', 'jnp')

    def lin(self, U, X):
        """derivative of the residual at U in direction X"""
        g = self.g

        def f(ix):
            i = ix[0]
            c = g.coords(i)
            u, x = U(i), X(i)
            out = -self.src(u, i, True) * x * g.vol
            for s in range(2 * self.d):
                a, h = g.area[s // 2], g.h[s // 2]
                n, y = U(g.nb(c, s + 1)), X(g.nb(c, s + 1))
                out = out - self.kf(u, n) * (y - x) / h * a
                if self.nl:
                    S = self.mu(u) + self.mu(n)
                    out = out - (2 * self.dmu(u) * self.mu(n) ** 2 * x + 2 * self.dmu(n) * self.mu(u) ** 2 * y) / S / S * (n - u) / h * a
                if self.types is not None and self.types[s] == 0:
                    b = self.bv[s].get((self.slot(c, s),))
                    out = out + self.edge(c, s) * self.mu(b) * 2 * x / h * a
            return out
        return Arr([g.cells], f, 'f', 'jnp')

    def diag(self, U):
        g = self.g

        def f(ix):
            i = ix[0]
            c = g.coords(i)
            u = U(i)
            out = -self.src(u, i, True) * g.vol
            for s in range(2 * self.d):
                a, h = g.area[s // 2], g.h[s // 2]
                n = U(g.nb(c, s + 1))
                inner = ONE - self.edge(c, s)
                out = out + inner * self.kf(u, n) / h * a
                if self.nl:
                    S = self.mu(u) + self.mu(n)
                    out = out - inner * 2 * self.dmu(u) * self.mu(n) ** 2 / S / S * (n - u) / h * a
                if self.types is not None and self.types[s] == 0:
                    b = self.bv[s].get((self.slot(c, s),))
                    out = out + self.edge(c, s) * self.mu(b) * 2 / h * a
            return out
        return Arr([g.cells], f, 'f', 'jnp')


def fn_of(a):
    a = A.snapshot(A.asarr(a))
    return lambda i: a.get((i,))


MIX = {2: [[0] * 4, [1] * 4, [0, 1, 1, 0]], 3: [[0] * 6, [1] * 6, [0, 1, 1, 0, 0, 1], [1, 0, 0, 1, 1, 0]]}


def run(ck):
    cases = [(d, nl, t) for d in (2, 3) for nl in (False, True) for t in [None] + MIX[d]]
    if not ck.thorough:
        cases = [c for c in cases if not (c[0] == 2 and c[2] is not None and c[2] != MIX[2][2])]
    items = [(residual,) + c for c in cases] + [(tangent,) + c for c in cases]
    items += [(linear, t, o) for t in (None, MIX[3][2]) for o in range(3)]
    items += [(relative, o) for o in (0, 1)]
    items += [(nonlinear, it, o) for it in ((0, 1, 2, 3) if ck.thorough else (0, 1, 2)) for o in (0, 1)]
    items += [(nonlinear_real, t) for t in (MIX[3][2], MIX[3][3])]
    items += [(rebc, d, nl) for d in (2, 3) for nl in (False, True)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def tag_of(d, nl, t):
    return '[%dD, %s, %s]' % (d, 'variable coefficient' if nl else 'constant coefficient', 'no BC' if t is None else t)


def residual(ck, d, nl, t):
    tag = tag_of(d, nl, t)

    def go():
        p = Pois(ck, d, nl, t)
        ck.eq('residual = flux balance minus source plus boundary fluxes ' + tag, lambda: p.m('compute_residual', p.U, *p.args),
              p.res(fn_of(p.U)), p.w('compute_residual'))
        return True
    ck.ob('residual ' + tag, go, CFD + '.poisson.compute_residual')


def tangent(ck, d, nl, t):
    tag = tag_of(d, nl, t)

    def go():
        p = Pois(ck, d, nl, t)
        p.m('newton_update', p.U, *p.args)
        X = leaf('X', [p.g.cells], 'f', 'jnp')
        ck.eq('linearised residual = derivative of the residual ' + tag, lambda: p.m('compute_linearized_residual', X),
              p.lin(fn_of(p.U), fn_of(X)), p.w('newton_update'))
        ck.eq('preconditioner divides by the diagonal ' + tag, lambda: p.m('jacobiPreconditioner', X),
              Arr([p.g.cells], lambda ix: X.get(ix) / p.diag(fn_of(p.U)).get(ix)), p.w('jacobiPreconditioner'))
        return True
    ck.ob('tangent ' + tag, go, CFD + '.poisson.newton_update')


def rebc(ck, d, nl):
    tag = '[%dD, %s]' % (d, 'variable coefficient' if nl else 'constant coefficient')

    def go():
        p = Pois(ck, d, nl, MIX[d][1])
        p.m('newton_update', p.U, *p.args)
        p.types = MIX[d][2]
        p.bv = [leaf('cv%d' % s, [p.g.face(s)[0]], 'f', 'jnp') for s in range(2 * d)]
        p.m('set_bc', list(p.types), list(p.bv))
        ck.eq('new boundary conditions replace the old ones ' + tag, lambda: p.m('compute_residual', p.U, *p.args),
              p.res(fn_of(p.U)), p.w('set_bc'))
        return True
    ck.ob('set_bc ' + tag, go, CFD + '.poisson.set_bc')


def dense(p, U):
    """matrix of the derivative over flat cells"""
    def f(ix):
        i, j = ix
        return p.lin(U, lambda k: eqi(k, j)).get((i,))
    return Arr([p.g.cells, p.g.cells], f)


def krylov(p):
    return [e for e in p.I.events if e.kind == 'krylov']


def precond_ok(ck, p, M, want, U, tag, w):
    X = leaf('X', [p.g.cells], 'f', 'jnp')
    if not want:
        return True if M is None else 'a preconditioner is used although none was asked for'
    if M is None:
        return 'no preconditioner although one was asked for'
    ck.eq('preconditioner is the inverse diagonal of the solved system ' + tag, lambda: p.I.call(M, [X]),
          Arr([p.g.cells], lambda ix: X.get(ix) / p.diag(U).get(ix)), w)
    return True


def linear(ck, t, o):
    tag = '[%s, %s]' % ('no BC' if t is None else t, ['defaults', 'preconditioned', 'tangent kept'][o])

    def go():
        p = Pois(ck, 3, False, t)
        w = ck.fn(p.I, CFD, 'solver_linear')
        kw = [{}, dict(precond=True, tol=fsym('tol', True)), dict(update=False)][o]
        Z = lambda i: ZERO
        if o == 2:
            p.m('newton_update', p.U, *p.args)
        p.I.events.clear()
        x = p.I.call(w, [p.o] + p.args, kw)
        ev = krylov(p)
        if len(ev) != 1:
            return 'expected one linear solve, found %d' % len(ev)
        U = fn_of(p.U) if o == 2 else Z
        ck.eq('system is the derivative of the residual ' + tag, ev[0].args[0], dense(p, U), w)
        R = p.res(Z)
        ck.eq('right-hand side is minus the residual at zero ' + tag, ev[0].args[1], Arr([p.g.cells], lambda ix: -R.get(ix)), w)
        ck.eq('solution is the solved increment ' + tag, x, ev[0].res, w)
        tl = ev[0].kw.get('tol')
        if o == 1:
            ck.eq('the given tolerance reaches the linear solver ' + tag, tl, fsym('tol', True), w)
        else:
            ck.holds('default tolerance is 1e-6 or tighter ' + tag, tl is not None and T.frac_of_float(float(tl)) <= T.frac_of_float(1e-6),
                     'default tolerance %s' % (tl,), w)
        ck.ob('preconditioner option ' + tag, lambda: precond_ok(ck, p, ev[0].kw.get('M'), o == 1, U, tag, w), w)
        return True
    ck.ob('solver_linear ' + tag, go, CFD + '.solver_linear')


def relative(ck, o):
    tag = '[one value pinned%s]' % (', preconditioned' if o else '')

    def go():
        p = Pois(ck, 3, False, None)
        w = ck.fn(p.I, CFD, 'solver_linear')
        p.I.events.clear()
        x = p.I.call(w, [p.o] + p.args, dict(relative=True, precond=bool(o)))
        ev = krylov(p)
        if len(ev) != 1:
            return 'expected one linear solve, found %d' % len(ev)
        Z = lambda i: ZERO
        D, R = dense(p, Z), p.res(Z)
        z = lambda i: eqi(i, ZERO)
        ck.eq('the first row is the identity, the others the derivative of the residual ' + tag, ev[0].args[0],
              Arr([p.g.cells, p.g.cells], lambda ix: ite(z(ix[0]), z(ix[1]), D.get(ix))), w)
        ck.eq('the first right-hand side is zero, the others minus the residual ' + tag, ev[0].args[1],
              Arr([p.g.cells], lambda ix: ite(z(ix[0]), ZERO, -R.get(ix))), w)
        ck.eq('solution is the solved increment ' + tag, x, ev[0].res, w)
        if o:
            X = leaf('X', [p.g.cells], 'f', 'jnp')
            ck.eq('preconditioner is the inverse diagonal of the pinned system ' + tag, lambda: p.I.call(ev[0].kw['M'], [X]),
                  Arr([p.g.cells], lambda ix: X.get(ix) / ite(z(ix[0]), ONE, p.diag(Z).get(ix))), w)
        return True
    ck.ob('solver_linear ' + tag, go, CFD + '.solver_linear')


class AbsEqn:
    """Any equation with the interface the solvers use: residual and Jacobian are arbitrary functions of the iterate."""

    def __init__(self, ck):
        self.ck = ck
        I = self.I = ck.interp()
        I.peeled = []
        self.n = dim('ndof')
        self.args = [leaf('a0', [self.n], 'f', 'jnp')]
        o = self.o = obj(ndof=isym(self.n))

        def resid(I, a, k):
            l = tuple(A.tlam(A.asarr(x)) for x in a)
            return Arr([mkdim(self.n)], lambda ix: T.app('R', l, ix), 'f', 'jnp')

        def newton(I, a, k):
            l = tuple(A.tlam(A.asarr(x)) for x in a)
            I.set_attr(o, 'values', Arr([mkdim(self.n)] * 2, lambda ix: T.app('J', l, ix), 'f', 'jnp'))

        def lin(I, a, k):
            J, x = A.asarr(o.attrs['values']), A.snapshot(A.asarr(a[0]))
            return Arr([mkdim(self.n)], lambda ix: sm([self.n], lambda j: J.get((ix[0], j)) * x.get((j,))), 'f', 'jnp')

        def pc(I, a, k):
            J, x = A.asarr(o.attrs['values']), A.snapshot(A.asarr(a[0]))
            return Arr([mkdim(self.n)], lambda ix: x.get(ix) / J.get((ix[0], ix[0])), 'f', 'jnp')
        for n, f in (('compute_residual', resid), ('newton_update', newton), ('compute_linearized_residual', lin),
                     ('jacobiPreconditioner', pc)):
            o.attrs[n] = PyFn(f, n)

    def l(self, U):
        return (lam([self.n], U),) + tuple(A.tlam(a) for a in self.args)

    def R(self, U):
        l = self.l(U)
        return lambda i: T.app('R', l, (i,))

    def J(self, U):
        l = self.l(U)
        return Arr([mkdim(self.n)] * 2, lambda ix: T.app('J', l, ix))

    def vec(self, f):
        return Arr([mkdim(self.n)], lambda ix: f(ix[0]))


def nonlinear(ck, it, o):
    tag = '[%d iterations, %s]' % (it, ['zero start', 'given start, preconditioned, relaxed'][o])

    def go():
        p = AbsEqn(ck)
        w = ck.fn(p.I, CFD, 'solver_nonlinear')
        u = leaf('u0', [p.n], 'f', 'jnp')
        mx = 7
        kw = [dict(max_it=mx), dict(init=u, precond=True, relaxation=fsym('omega', True), tol=fsym('tol', True))][o]
        p.I.peel = it
        try:
            sol, n = list(p.I.call(w, [p.o] + p.args, kw))
        finally:
            p.I.peel = None
        U = fn_of(u) if o else (lambda i: ZERO)
        R0 = p.R(U)
        om = sym('omega', positive=True) if o else ONE
        ev = krylov(p)
        m = len(ev)
        ck.holds('one linear solve per iteration ' + tag, m in (it, it + 1), '%d linear solves in %d iterations' % (m, it), w)
        ck.eq('iteration count ' + tag, n, scal(const(m), 'i'), w)
        for k, e in enumerate(ev):
            ck.eq('Newton system is the tangent at the iterate %s %d' % (tag, k), e.args[0], p.J(U), w)
            R = p.R(U)
            ck.eq('Newton right-hand side is minus the residual at the iterate %s %d' % (tag, k), e.args[1], p.vec(lambda i: -R(i)), w)
            M = e.kw.get('M')
            if not o:
                ck.holds('no preconditioner unless asked for %s %d' % (tag, k), M is None, 'a preconditioner is used although none was asked for', w)
            elif M is None:
                ck.holds('preconditioner when asked for %s %d' % (tag, k), False, 'no preconditioner although one was asked for', w)
            xi = A.asarr(e.res)
            U = (lambda U, xi: lambda i: U(i) + om * xi.get((i,)))(U, xi)
        ck.eq('result = start plus relaxed increments ' + tag, sol, p.vec(U), w)
        if len(p.I.peeled) != 1:
            raise T.Undecided('%d loops' % len(p.I.peeled))
        c = p.I.peeled[0][1][-1]
        Rn = p.R(fn_of(sol))
        norm = lambda R: sqrt(sm([p.n], lambda i: R(i) ** 2))
        tol = sym('tol', positive=True) if o else T.const(T.frac_of_float(1e-5))
        ck.eq('iteration goes on exactly while the relative residual of the current iterate exceeds the tolerance ' + tag,
              scal(lift(c)), scal(land(lt(tol, norm(Rn) / norm(R0)), lt(const(m), const(mx if not o else 50)))), w)
        return True
    ck.ob('solver_nonlinear ' + tag, go, CFD + '.solver_nonlinear')


def nonlinear_real(ck, t):
    tag = '[%s, real equation]' % ('no BC' if t is None else t)

    def go():
        p = Pois(ck, 3, True, t)
        w = ck.fn(p.I, CFD, 'solver_nonlinear')
        u = leaf('u0', [p.g.cells], 'f', 'jnp')
        p.I.events.clear()
        p.I.peel = 1
        try:
            sol, n = list(p.I.call(w, [p.o] + p.args, dict(init=u, precond=True)))
        finally:
            p.I.peel = None
        ev = krylov(p)
        if len(ev) != 1:
            return 'expected one linear solve, found %d' % len(ev)
        U = fn_of(u)
        R = p.res(U)
        ck.eq('Newton right-hand side ' + tag, ev[0].args[1], Arr([p.g.cells], lambda ix: -R.get(ix)), w)
        ck.eq('Newton system ' + tag, ev[0].args[0], dense(p, U), w)
        ck.ob('preconditioner ' + tag, lambda: precond_ok(ck, p, ev[0].kw.get('M'), True, U, tag, w), w)
        return True
    ck.ob('solver_nonlinear ' + tag, go, CFD + '.solver_nonlinear')
