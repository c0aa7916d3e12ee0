"""Implicit differentiation: adjoint and tangent of the solve, with respect to arbitrary parameters."""
from .solvelib import *
AD = 'jax_am.fem.autodiff_utils'
SYMONLY = {'minres', 'cg', 'symmlq', 'cr', 'pipecg', 'groppcg', 'fcg', 'pipecr', 'chebyshev', 'nash', 'stcg', 'qcg', 'gltr'}


def run(ck):
    items = [(vjp, k, pet, lin) for k in (0, 1, 2) for pet in (False, True) for lin in (True, False)]
    items += [(jvp, k, pet) for k in (0, 1, 2) for pet in (False, True)]
    items += [(fwd, m, f, pet, lin) for m, f in ((S, 'ad_wrapper'), (AD, 'ad_wrapper_jvp')) for pet in (False, True)
              for lin in (True, False)]
    items += [(vjp, 1, pet, False, True) for pet in (False, True)] + [(rule, pet, lin) for pet in (False, True) for lin in (True, False)]
    items += [(stack, n) for n in (1, 2, 3)]
    ck.map(lambda x: x[0](ck, *x[1:]), items)


def prms(name, tree):
    x = leaf(name, [dim('K')], 'f', 'jnp')
    return [x, leaf(name + '0', [], 'f', 'jnp'), leaf(name + '2', [dim('K2'), dim('K3')], 'f', 'jnp')] if tree else x


def setup(ck, k, tree=False):
    p = AlgProblem(ck, k, dim('vec'))
    p.P.attrs['cur_params'] = prms('stale', tree)
    p.prm = prms('prm', tree)
    p.params = p.prm
    return p


def fwd(ck, mod, name, pet, lin):
    tag = '[%s, linear=%s, %s]' % (name, lin, 'PETSc' if pet else 'JAX')

    def go():
        p = setup(ck, 1)
        w = ck.fn(p.I, mod, name)
        f = p.I.call(w, [p.P], dict(linear=lin, use_petsc=pet))
        p.I.peeled, p.I.peel = [], 1
        got = p.I.call(f, [p.prm])
        e1 = [x.kind for x in p.solves()]
        p.I.peel = None
        p.P.attrs['cur_params'] = p.prm
        want = p.run('solver', linear=lin, use_petsc=pet, peel=1)
        ck.eq('forward value = solver with these parameters ' + tag, got, want, w)
        ck.holds('same backend ' + tag, e1 == [x.kind for x in p.solves()], 'the wrapper does not pass the backend on', w)
        # reusable: a second call with other parameters sees those
        q = leaf('prm2', [dim('K')], 'f', 'jnp')
        p.I.peel = 1
        got2 = p.I.call(f, [q])
        p.I.peel = None
        p.P.attrs['cur_params'] = q
        want2 = p.run('solver', linear=lin, use_petsc=pet, peel=1)
        ck.eq('second call uses the new parameters ' + tag, got2, want2, w)
        return True
    ck.ob('forward ' + tag, go, mod + '.' + name)


def dres(p, U, leaf=0, nd=1):
    """d (bc residual)(n, c) / d prm[k]"""
    l = p.lamU(U)
    G = p.G
    return lambda n, c, *k: G.overlay(lambda a, b: T.app(('D', 1 + leaf, nd, 'resid'), (l,) + p.ex(), (a, b) + k),
                                      lambda g, j: ZERO)(n, c)


def rule(ck, pet, lin):
    tag = '[linear=%s, %s]' % (lin, 'PETSc' if pet else 'JAX')

    def go():
        p = setup(ck, 1)
        w = ck.fn(p.I, AD, 'ad_wrapper_jvp')
        seen = []

        def helper(I, f, a, k):
            b = list(a) + list(k.values())
            seen.append((a, k))
            return leaf('tangent', [p.nd], 'f', 'jnp')
        h = ck.fn(p.I, AD, 'implicit_jvp_helper')
        p.I.stubs[AD + '.implicit_jvp_helper'] = helper
        f = p.I.call(w, [p.P], dict(linear=lin, use_petsc=pet))
        if getattr(f, 'fwd', None) is None:
            raise T.Undecided('no custom jvp')
        dp = leaf('dprm', [dim('K')], 'f', 'jnp')
        p.I.peeled, p.I.peel = [], 1
        out = p.I.call(f.fwd, [(p.prm,), (dp,)])
        if len(seen) != 1 or len(seen[0][0]) != 4 or seen[0][1]:
            raise T.Undecided('tangent by other means')
        want = p.I.call(f, [p.prm])
        p.I.peel = None
        a = seen[0][0]
        ck.holds('the tangent is that of this problem ' + tag, a[0] is p.P, 'another problem', w)
        for nm, x, y in (('solution', a[1], want), ('parameters', a[2], p.prm), ('direction', a[3], dp), ('value', out[0], want)):
            ck.eq('differentiated solve: %s %s' % (nm, tag), x, y, w)
        ck.eq('the tangent has the shape of the solution ' + tag, out[1], Arr([mkdim(N), mkdim(p.v)], lambda ix: leaf('tangent', [p.nd], 'f', 'jnp').get(
            (ix[0] * p.v + ix[1],)), 'f', 'jnp'), w)
        return True
    ck.ob('jvp rule ' + tag, go, AD + '.ad_wrapper_jvp')


def vjp(ck, k, pet, lin, tree=False):
    tag = '[%d groups, %s, linear=%s%s]' % (k, 'PETSc' if pet else 'JAX', lin, ', several parameters' if tree else '')

    def go():
        p = setup(ck, k, tree)
        w = ck.fn(p.I, S, 'ad_wrapper')
        f = p.I.call(w, [p.P], dict(linear=lin, use_petsc=pet))
        if getattr(f, 'bwd', None) is None:
            raise T.Undecided('no custom vjp')
        p.I.peeled, p.I.peel = [], 0
        sol, resid = p.I.call(f.fwd, [p.prm])
        p.I.peel = None
        p.I.events.clear()
        p.P.attrs['cur_params'] = prms('stale', tree)
        # differentiate at an arbitrary state: replace the solution in the residuals
        u = leaf('u', [N, p.v], 'f', 'jnp')
        if not isinstance(resid, tuple):
            raise T.Undecided('residual structure')
        resid = tuple(u if (x is sol) else x for x in resid)
        if not any(x is u for x in resid):
            raise T.Undecided('solution not among the residuals')
        v = leaf('ct', [N, p.v], 'f', 'jnp')
        out = p.I.call(f.bwd, [resid, v])
        out = out[0] if isinstance(out, (tuple, list)) and len(out) == 1 else out
        U = p.of(u)
        M = p.bcmat(U)
        MT = Arr(M.shape[::-1], lambda idx: M.get((idx[1], idx[0])))
        ev = p.solves()
        if len(ev) != 1:
            return 'expected one adjoint solve, found %d' % len(ev)
        ck.eq('adjoint matrix is the transposed tangent at the solution ' + tag, ev[0].args[0], MT, w)
        ck.eq('adjoint right-hand side is the cotangent ' + tag, ev[0].args[1], flat(p.v, p.of(v)), w)
        ck.holds('adjoint Krylov method handles unsymmetric matrices ' + tag, ev[0].name not in SYMONLY,
                 '%s assumes a symmetric matrix; the row-eliminated tangent is not symmetric' % ev[0].name, w)
        x = A.asarr(ev[0].res)
        outs, ps = (out, p.prm) if tree else ([out], [p.prm])
        if not isinstance(outs, (list, tuple)) or len(outs) != len(ps):
            return 'the gradient does not have the structure of the parameters'
        for i, (o, q) in enumerate(zip(outs, ps)):
            d = dres(p, U, i, q.ndim)
            ck.eq('gradient = - adjoint^T dR/dp %s%s' % (tag, ' parameter %d' % i if tree else ''), o, Arr(q.shape, lambda kk, d=d: -sm(
                [N, p.v], lambda n, c: x.get((n * p.v + c,)) * d(n, c, *kk)), 'f', 'jnp'), w)
        return True
    ck.ob('vjp ' + tag, go, S + '.ad_wrapper')


def jvp(ck, k, pet):
    tag = '[jvp, %d groups, %s]' % (k, 'PETSc' if pet else 'JAX')

    def go():
        p = setup(ck, k)
        w = ck.fn(p.I, AD, 'implicit_jvp_helper')
        u = leaf('u', [N, p.v], 'f', 'jnp')
        dp = leaf('dprm', [dim('K')], 'f', 'jnp')
        V0 = leaf('V0', [p.nnz])
        from .. import models as M_
        p.P.attrs['A_sp_scipy'] = M_.coo(V0, p.Ii, p.Jj, (p.nd, p.nd), 'csr')
        out = p.I.call(w, [p.P, u, p.prm, dp])
        U = p.of(u)
        d = dres(p, U)
        M = p.bcjac(U)
        ev = [e for e in p.I.events if e.kind == 'krylov']
        ck.eq('tangent matrix ' + tag, ev[0].args[0], M, w)
        rhs = flat(p.v, lambda n, c: -sm([dim('K')], lambda kk: d(n, c, kk) * dp.get((kk,))))
        ck.eq('tangent right-hand side ' + tag, ev[0].args[1], rhs, w)
        cl = [e for e in p.I.events if e.kind == 'linsolve_op']
        if not cl:
            raise T.Undecided('no custom linear solve')
        tr = cl[0].kw.get('transpose_solve')
        if tr is None:
            return 'no transpose rule: reverse mode fails although both modes are promised'
        ct = dofvec('ct', p.v)
        n0 = len(p.I.events)
        MT = Arr(M.shape[::-1], lambda idx: M.get((idx[1], idx[0])))
        p.I.call(tr, [PyFn(lambda I, a, kk: A.matmul(MT, A.reshape(A.asarr(a[0]), [p.nd]))), ct])
        e2 = [e for e in p.I.events[n0:] if e.kind == 'krylov']
        ck.eq('reverse mode solves the transposed system ' + tag, e2[0].args[0], MT, w)
        ck.eq('reverse mode right-hand side ' + tag, e2[0].args[1], ct, w)
        return True
    ck.ob('jvp ' + tag, go, AD + '.implicit_jvp_helper')


def stack(ck, n):
    def go():
        I = ck.interp()
        w = ck.fn(I, AD, 'jax_array_list_to_numpy_diff')
        xs = [leaf('x%d' % i, [dim('b%d' % i), dim('w')], 'f', 'jnp') for i in range(n)]
        ck.eq('stacking %d batches keeps every row' % n, lambda: I.call(w, [xs]), A.concat(xs, 0), w)
        f = I.get(AD, 'jax_array_list_to_numpy_diff')
        if getattr(f, 'fwd', None) is None:
            raise T.Undecided('no derivative rule')
        ds = [leaf('dx%d' % i, [dim('b%d' % i), dim('w')], 'f', 'jnp') for i in range(n)]
        ck.eq('the derivative of stacking %d batches stacks their tangents in the same order' % n, lambda: list(I.call(f.fwd, [(xs,), (ds,)])),
              [A.concat(xs, 0), A.concat(ds, 0)], w)
        return True
    ck.ob('stack %d' % n, go, AD)
