"""Periodic and Dirichlet conditions through Lagrange multipliers: the saddle-point system."""
from .solvelib import *
from .c08 import threshold


def run(ck):
    items = [(case, k, m, pet, mode, eps) for k, m in ((0, 1), (1, 1), (2, 1), (1, 2)) for pet in (False, True)
             for mode in ('linear', 'start', 'step') for eps in (False, True) if not (eps and (k, m) != (1, 1))]
    if ck.thorough:
        items += [(case, k, m, pet, mode, True) for k, m in ((2, 2), (3, 1), (0, 2)) for pet in (False, True)
                  for mode in ('linear', 'start', 'step')]
    items += [(dispatch,)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


class LM:
    def __init__(self, p, eps):
        self.p, self.eps = p, eps
        self.sizes = list(p.G.n) + list(p.pn)

    def B(self, g, j, n, c):
        """constraint row j of group g against dof (n, c)"""
        p = self.p
        k = p.G.k
        if g < k:
            return land(eqi(p.G.node[g].get((j,)), n), eqi(p.G.comp[g].get((j,)), c)) * self.eps
        g -= k
        return eqi(p.pc[g].get((j,)), c) * (eqi(p.pa[g].get((j,)), n) - eqi(p.pb[g].get((j,)), n)) * self.eps

    def matrix(self, U):
        p = self.p
        v = p.v
        e = p.entry(U)
        rows = [A.concat([arr([p.nd, p.nd], lambda i, j: e(i, j))] + [
            arr([p.nd, s], lambda i, j, g=g: self.B(g, j, T.floordiv(i, v), T.mod(i, v))) for g, s in enumerate(self.sizes)], 1)]
        for g, s in enumerate(self.sizes):
            rows.append(A.concat([arr([s, p.nd], lambda j, i, g=g: self.B(g, j, T.floordiv(i, v), T.mod(i, v)))] + [
                arr([s, t], lambda i, j: ZERO) for t in self.sizes], 1))
        return A.concat(rows, 0)

    def residual(self, U, L):
        """L: group -> (j -> multiplier)"""
        p = self.p
        r = p.res(U)

        def ru(n, c):
            out = r(n, c)
            for g, s in enumerate(self.sizes):
                out = out + sm([s], lambda j: self.B(g, j, n, c) * L(g, j))
            return out
        parts = [flat(p.v, ru)]
        for g, s in enumerate(self.sizes):
            if g < p.G.k:
                f = lambda j, g=g: self.eps * (U(p.G.node[g].get((j,)), p.G.comp[g].get((j,))) - p.G.val[g].get((j,)))
            else:
                h = g - p.G.k
                f = lambda j, h=h: self.eps * (U(p.pa[h].get((j,)), p.pc[h].get((j,))) - U(p.pb[h].get((j,)), p.pc[h].get((j,))))
            parts.append(arr([s], f))
        return A.concat(parts, 0)

    def lift(self, u, parts):
        """augmented vector from a dof function and multiplier functions"""
        return A.concat([flat(self.p.v, u)] + [arr([s], lambda j, g=g: parts(g, j)) for g, s in enumerate(self.sizes)], 0)


def neg_(a):
    return Arr(a.shape, lambda idx: -a.get(idx))


def case(ck, k, m, pet, mode, eps):
    tag = '[%s, %d Dirichlet groups, %d periodic pairs, %s%s]' % (mode, k, m, 'PETSc' if pet else 'JAX',
                                                                   ', scaled' if eps else '')

    def go():
        p = AlgProblem(ck, k, dim('vec'), m, True)
        w = ck.fn(p.I, S, 'solver')
        e = sym('p_num_eps', positive=True) if eps else ONE
        if eps:
            p.P.attrs['p_num_eps'] = scal(e, 'f')
        lm = LM(p, e)
        zero = lambda *a: ZERO
        if mode == 'linear':
            sol = p.run('solver', linear=True, use_petsc=pet)
            U0 = p.G.overlay(zero, lambda g, j: p.G.val[g].get((j,)))
            ev = p.solves()
            if len(ev) != 1:
                return 'expected one linear solve, found %d' % len(ev)
            ck.eq('saddle-point matrix ' + tag, ev[0].args[0], lm.matrix(U0), w)
            ck.eq('saddle-point right-hand side ' + tag, ev[0].args[1], neg_(lm.residual(U0, zero)), w)
            x = A.asarr(ev[0].res)
            ck.eq('solution = start + increment ' + tag, sol,
                  arr([N, p.v], lambda n, c: U0(n, c) + x.get((n * p.v + c,))), w)
            ck.holds('non-finite solutions are rejected ' + tag, lambda: finite_guard(p, sol),
                     'no assertion or raise rejects a non-finite solution before it is returned', w)
            return True
        sol = p.run('solver', use_petsc=pet, peel=0 if mode == 'start' else 1)
        ev = p.solves()
        x = A.snapshot(A.asarr(ev[0].res))
        U = lambda n, c: x.get((n * p.v + c,))
        off = lambda g: T.add_many([p.nd.p] + [lift(s) for s in lm.sizes[:g]])
        L = lambda g, j: x.get((off(g) + j,))
        loop = p.I.peeled[0][1] if p.I.peeled else None
        if loop is None:
            raise T.Undecided('no iteration loop')
        R = lm.residual(U, L)
        ex, tol = threshold(loop[0])
        sq = T.ZERO
        for idx, b in A.pieces(R.shape[0]):
            vs = {T.the_atom(v_): T.fresh_var(n_) for v_, n_ in b}
            body = T.power(R.get((T.subst(idx, vs),)), 2)
            sq = sq + (T.big_sum([(vs[T.the_atom(v_)], n_) for v_, n_ in b], body) if b else body)
        if mode == 'start':
            ck.eq('start system is the saddle-point matrix at zero ' + tag, ev[0].args[0], lm.matrix(zero), w)
            ck.eq('loop tests the norm of the augmented residual ' + tag, scal(ex), scal(sqrt(sq)), w)
            ck.holds('tolerance ' + tag, tol <= T.frac_of_float(1e-6), 'convergence tolerance is %s, promised 1e-6' % float(tol), w)
            ck.eq('returned solution is the primal part ' + tag, sol, arr([N, p.v], U), w)
            ck.holds('non-finite solutions are rejected ' + tag, lambda: finite_guard(p, sol),
                     'no assertion or raise rejects a non-finite solution before it is returned', w)
            ck.holds('non-finite residuals are rejected ' + tag, lambda: finite_guard(p, scal(ex)),
                     'no assertion or raise rejects a residual that is not a number (it ends the iteration)', w)
            b = A.asarr(ev[0].args[1])
            for g in range(k):
                ck.eq('start imposes the Dirichlet values of group %d ' % g + tag,
                      arr([lm.sizes[g]], lambda j: b.get((off(g) + j,))),
                      arr([lm.sizes[g]], lambda j: e * p.G.val[g].get((j,))), w)
        else:
            ck.eq('step matrix is the saddle-point matrix at the iterate ' + tag, ev[1].args[0], lm.matrix(U), w)
            ck.eq('step right-hand side is minus the augmented residual ' + tag, ev[1].args[1], neg_(R), w)
            y = A.asarr(ev[1].res)
            ck.eq('iterate + increment ' + tag, sol, arr([N, p.v], lambda n, c: U(n, c) + y.get((n * p.v + c,))), w)
        return True
    ck.ob('saddle point ' + tag, go, S + '.solver')


def dispatch(ck):
    def go():
        p = AlgProblem(ck, 1, dim('vec'), 0, False)
        p.run('solver', linear=True)
        M = p.solves()[0].args[0]
        ck.eq('without periodic conditions the system has one row per dof', M.shape[0].p if False else scal(M.shape[0].p, 'i'),
              scal(p.nd.p, 'i'), S + '.solver')
        return True
    ck.ob('dispatch', go, S + '.solver')
