"""The solver only returns what it tested: residual at the returned solution below tolerance, finite."""
from .solvelib import *


def run(ck):
    ks = [0, 1, 2] if not ck.thorough else [0, 1, 2, 3]
    items = [(linear, k, pet) for k in ks for pet in (False, True)]
    items += [(newton, k, pet, it) for k in ks for pet in (False, True) for it in ((0, 1) if not ck.thorough else (0, 1, 2))]
    items += [(second, k, pet, st) for k in (0, 1) for pet in (False, True) for st in (False, True)]
    items += [(guess, k, pet) for k in (1, 2) for pet in (False, True)]
    items += [(options,)] + [(relax, k, it) for k in (0, 1) for it in (0, 1)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def ab(p):
    return T.app('abs', (p,))


def vecof(p, U):
    return Arr([mkdim(N), mkdim(p.v)], lambda idx: U(*idx))


def step(p, U, M=None):
    """U + A(U)^-1 (-R(U))"""
    R = p.bcres(U)
    b = flat(p.v, lambda n, c: -R(n, c))
    x = A.tlam(p.bcmat(U)), A.tlam(b)
    return lambda n, c: U(n, c) + T.app('linsolve', x, (n * p.v + c,))


def exits(ck, p, sol, tag, w):
    """the last loop test concerns the returned solution"""
    def go():
        if len(p.I.peeled) != 1:
            raise T.Undecided('%d iteration loops' % len(p.I.peeled))
        e, tol = threshold(p.I.peeled[0][1][-1])
        R = p.bcres(p.of(sol))
        ck.eq('loop tests the residual norm of the returned solution ' + tag, scal(e), scal(p.norm(R)), w)
        return True if tol <= T.frac_of_float(1e-6) else 'convergence tolerance is %s, promised 1e-6' % float(tol)
    ck.ob('residual tolerance ' + tag, go, w)
    ck.holds('non-finite solutions are rejected ' + tag, lambda: finite_guard(p, A.reshape(A.asarr(sol), [p.nd])),
             'no assertion or raise rejects a non-finite solution before it is returned', w)
    R = p.bcres(p.of(sol))
    ck.holds('non-finite residuals are rejected ' + tag, lambda: finite_guard(p, scal(p.norm(R))),
             'a NaN residual ends the iteration and is not rejected', w)


def linear(ck, k, pet):
    tag = '[linear, %d groups, %s]' % (k, 'PETSc' if pet else 'JAX')

    def go():
        p = AlgProblem(ck, k, dim('vec'))
        w = ck.fn(p.I, S, 'solver')
        sol = p.run('solver', linear=True, use_petsc=pet)
        U0 = p.G.overlay(lambda n, c: ZERO, lambda g, j: p.G.val[g].get((j,)))
        ev = p.solves()
        if len(ev) != 1:
            return 'expected one linear solve, found %d' % len(ev)
        R0 = p.bcres(U0)
        ck.eq('linear system is the tangent at the lifted start ' + tag, ev[0].args[0], p.bcmat(U0), w)
        ck.eq('right-hand side is minus the residual there ' + tag, ev[0].args[1], flat(p.v, lambda n, c: -R0(n, c)), w)
        ck.eq('solution = lifted start + increment ' + tag, sol,
              vecof(p, lambda n, c: U0(n, c) + A.asarr(ev[0].res).get((n * p.v + c,))), w)
        ck.holds('non-finite solutions are rejected ' + tag, lambda: finite_guard(p, A.reshape(A.asarr(sol), [p.nd])),
                 'no assertion or raise rejects a non-finite solution before it is returned', w)
        return True
    ck.ob('linear solve ' + tag, go, S + '.solver')


def newton(ck, k, pet, it):
    tag = '[%d iterations, %d groups, %s]' % (it, k, 'PETSc' if pet else 'JAX')

    def go():
        p = AlgProblem(ck, k, dim('vec'))
        w = ck.fn(p.I, S, 'solver')
        u = leaf('u', [N, p.v], 'f', 'jnp')
        sol = p.run('solver', initial_guess=u, use_petsc=pet, peel=it)
        U = p.of(u)
        for _ in range(it):
            U = step(p, U)
        ck.eq('iterate = Newton step from the initial guess ' + tag, sol, vecof(p, U), w)
        exits(ck, p, sol, tag, w)
        return True
    ck.ob('Newton ' + tag, go, S + '.solver')


def second(ck, k, pet, start=False):
    """the second step linearises at the iterate the first one produced"""
    tag = '[%ssecond step, %d groups, %s]' % ('no initial guess, ' if start else '', k, 'PETSc' if pet else 'JAX')

    def go():
        p = AlgProblem(ck, k, dim('vec'))
        w = ck.fn(p.I, S, 'solver')
        u = None if start else leaf('u', [N, p.v], 'f', 'jnp')
        p.run('solver', initial_guess=u, use_petsc=pet, peel=1 if start else 2)
        ev = p.solves()
        if len(ev) != 2:
            raise T.Undecided('%d linear solves' % len(ev))
        y = A.snapshot(A.asarr(ev[0].res))
        U = lambda n, c: (ZERO if start else u.get((n, c))) + y.get((n * p.v + c,))
        R = p.bcres(U)
        ck.eq('step matrix is the tangent at the current iterate ' + tag, ev[1].args[0], p.bcmat(U), w)
        ck.eq('step right-hand side is minus the residual there ' + tag, ev[1].args[1], flat(p.v, lambda n, c: -R(n, c)), w)
        return True
    ck.ob('Newton ' + tag, go, S + '.solver')


def guess(ck, k, pet):
    tag = '[no initial guess, %d groups, %s]' % (k, 'PETSc' if pet else 'JAX')

    def go():
        p = AlgProblem(ck, k, dim('vec'))
        w = ck.fn(p.I, S, 'solver')
        sol = p.run('solver', use_petsc=pet, peel=0)
        exits(ck, p, sol, tag, w)
        U0 = lambda n, c: ZERO
        ev = p.solves()
        ck.eq('start system is the tangent at zero ' + tag, ev[0].args[0], p.bcmat(U0), w)
        b = p.of(ev[0].args[1])
        G = p.G
        ck.eq('start satisfies the Dirichlet values of the last group ' + tag,
              arr([G.n[-1]], lambda j: b(G.node[-1].get((j,)), G.comp[-1].get((j,)))), G.val[-1], w)
        return True
    ck.ob('start ' + tag, go, S + '.solver')


def options(ck):
    """precond switches the preconditioner on and off; the start vector fits"""
    for pc in (True, False):
        tag = '[precond=%s]' % pc

        def go():
            p = AlgProblem(ck, 1, dim('vec'))
            w = ck.fn(p.I, S, 'solver')
            u = leaf('u', [N, p.v], 'f', 'jnp')
            p.run('solver', initial_guess=u, precond=pc, peel=1)
            ev = p.solves()
            M = ev[0].kw.get('M')
            if not pc:
                return True if M is None else 'a preconditioner is used although it was switched off'
            if M is None:
                return 'no preconditioner although it was requested'
            x = dofvec('x', p.v)
            e = p.entry(p.of(u))
            d = p.G.overlay(lambda n, c: e(n * p.v + c, n * p.v + c), lambda g, j: ONE)
            ck.eq('preconditioner divides by the diagonal of the solved system ' + tag, lambda: p.I.call(M, [x]),
                  flat(p.v, lambda n, c: x.get((n * p.v + c,)) * T.power(d(n, c), -1)), w)
            return True
        ck.ob('preconditioner ' + tag, go, S + '.solver')


def relax(ck, k, it):
    tag = '[dynamic relaxation, %d groups, %d steps]' % (k, it)

    def go():
        p = AlgProblem(ck, k, dim('vec'))
        w = ck.fn(p.I, S, 'dynamic_relax_solve')
        tol = sym('tol', positive=True)
        sol = p.run('dynamic_relax_solve', tol=scal(tol, 'f'), info=False, info_force=False, peel=it)
        if len(p.I.peeled) != 1:
            raise T.Undecided('%d iteration loops' % len(p.I.peeled))
        U = p.of(sol)
        r = p.res(U)
        R = p.G.overlay(r, lambda g, j: ZERO)
        mx = T.red('max', A.tlam(flat(p.v, lambda n, c: ab(R(n, c)))))
        ck.eq('loop tests the largest free residual of the returned solution ' + tag, scal(p.I.peeled[0][1][-1], 'b'),
              scal(T.gt0(mx - tol), 'b'), w)
        if it:
            ev = p.solves()
            x = p.of(ev[0].res)
            rx = p.G.overlay(p.res(x), lambda g, j: ZERO)
            e = p.entry(x)
            nd = p.nd
            row = lambda n, c: sm([N, p.v], lambda m, l: ab(p.G.overlay(
                lambda a, b: e(a * p.v + b, m * p.v + l), lambda g, t: land(eqi(n, m), eqi(c, l)))(n, c)))
            h2 = T.frac_of_float(1.1) * T.frac_of_float(1.1) / 4
            ck.eq('first move is minus half the scaled residual, none on constrained dofs ' + tag, sol,
                  arr([N, p.v], lambda n, c: x(n, c) - rx(n, c) * T.power(row(n, c) * h2, -1) * T.Fraction(1, 2)), w)
        return True
    ck.ob('relaxation ' + tag, go, S + '.dynamic_relax_solve')
