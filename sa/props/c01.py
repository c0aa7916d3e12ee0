"""Dirichlet conditions are imposed exactly, by every route.

For problems with k = 0..3 Dirichlet groups of arbitrary sizes, arbitrary node
and component lists and values, the denotation of every function through which
a Dirichlet value enters the algebraic system is computed as an index-notation
term and compared with its defining formula."""
from .femlib import *


def run(ck):
    for vec in ([dim('vec')] if not ck.thorough else [dim('vec'), 1, 2, 3]):
        for k in range(4 if not ck.thorough else 5):
            routes(ck, k, vec)


def routes(ck, k, vec):
    I = ck.interp()
    G = Groups(k, vec)
    v = lift(vec)
    P = problem(G, vec)
    r, u = dofvec('R', vec), dofvec('u', vec)
    U = lambda i, c: u.get((i * v + c,))
    at = lambda a: (lambda i, c: a.get((i * v + c,)))
    tag = '[%d groups, vec=%s]' % (k, T.show(v))
    f = lambda n: ck.fn(I, S, n)
    uv = lambda g, j: U(G.node[g].get((j,)), G.comp[g].get((j,)))

    w = flat(vec, G.overlay(at(r), lambda g, j: uv(g, j) - G.val[g].get((j,))))
    ck.eq('residual row = u - g on constrained dofs, untouched elsewhere ' + tag,
          lambda: I.call(f('apply_bc_vec'), [r, u, P]), w, f('apply_bc_vec'))

    # composed with an arbitrary residual function
    rf = user_fn('resfn', [u.shape[0]])
    rfu = I.call(rf, [u])
    w2 = flat(vec, G.overlay(at(rfu), lambda g, j: uv(g, j) - G.val[g].get((j,))))
    ck.eq('apply_bc(res)(u) ' + tag, lambda: I.call(I.call(f('apply_bc'), [rf, P]), [u]), w2, f('apply_bc'))
    w3 = flat(vec, G.overlay(at(rfu), uv))
    ck.eq('row_elimination(op)(u) = u on constrained dofs ' + tag,
          lambda: I.call(I.call(f('row_elimination'), [rf, P]), [u]), w3, f('row_elimination'))

    for name, val in (('assign_bc', lambda g, j: G.val[g].get((j,))),
                      ('assign_ones_bc', lambda g, j: ONE), ('assign_zeros_bc', lambda g, j: ZERO)):
        ck.eq('%s writes exactly the constrained dofs %s' % (name, tag),
              lambda: I.call(f(name), [u, P]), flat(vec, G.overlay(U, val)), f(name))
    ck.eq('copy_bc keeps exactly the constrained dofs ' + tag,
          lambda: I.call(f('copy_bc'), [u, P]), flat(vec, G.overlay(lambda i, c: ZERO, uv)), f('copy_bc'))

    # assembled operators
    nd = mul(N, v)
    nnz = dim('nnz')
    P.attrs.update(I=leaf('I', [nnz], 'i', hi=nd), J=leaf('J', [nnz], 'i', hi=nd), V=leaf('V', [nnz], 'f', 'jnp'))
    Ic, Jc, Vc = P.attrs['I'], P.attrs['J'], P.attrs['V']
    rowval = lambda i, c: sm([nnz], lambda t: mul(eqi(Ic.get((t,)), i * v + c), mul(Vc.get((t,)), u.get((Jc.get((t,)),)))))
    ck.eq('JAX operator: identity rows on constrained dofs, tangent rows elsewhere ' + tag,
          lambda: I.call(I.call(f('get_A_fn'), [P, False]), [u]), flat(vec, G.overlay(rowval, uv)), f('get_A_fn'))

    entry = lambda i, j: sm([nnz], lambda t: land(eqi(Ic.get((t,)), i), eqi(Jc.get((t,)), j)) * Vc.get((t,)))

    def petsc_rows():
        A_ = I.call(f('get_A_fn'), [P, True])
        d = A_.m.dense()
        n1 = A.prod_dim([mkdim(N), mkdim(vec)])

        def got(idx):
            return d.get(idx)
        return Arr([n1, n1], got)

    def want_rows():
        n1 = A.prod_dim([mkdim(N), mkdim(vec)])

        def f_(idx):
            i, j = idx
            a, c = T.floordiv(i, v), T.mod(i, v)
            return G.overlay(lambda p, q: entry(i, j),
                             lambda g, t: eqi(i, j))(a, c)
        return Arr([n1, n1], f_)
    ck.eq('PETSc matrix: same rows as the JAX operator ' + tag, petsc_rows, want_rows, f('get_A_fn'))

    def diag():
        I.call(f('get_A_fn'), [P, False])
        return I.call(f('jacobi_preconditioner'), [P])
    ck.eq('Jacobi preconditioner: 1 on constrained dofs, diagonal elsewhere ' + tag, diag,
          flat(vec, G.overlay(lambda i, c: entry(i * v + c, i * v + c), lambda g, j: ONE)),
          f('jacobi_preconditioner'))
    jac = leaf('jac', [u.shape[0]], 'f', 'jnp')
    ck.eq('preconditioner scales by the reciprocal ' + tag,
          lambda: I.call(I.call(f('get_jacobi_precond'), [jac]), [u]),
          Arr(u.shape, lambda idx: u.get(idx) * T.power(jac.get(idx), -1)), f('get_jacobi_precond'))
