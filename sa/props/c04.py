"""Isoparametric geometry and interpolation, for any mesh and any element tables."""
from .femlib import *


def run(ck):
    ck.map(lambda f: f(ck), [vol, surf, interp])


def vol(ck):
    def go():
        c = FemCase(ck)
        w = c.m('get_shape_grads')
        sg = arr([c.C, c.Q, c.a, c.dim], lambda e, q, b, i: c.grad(e, q, b, i))
        jw = arr([c.C, c.Q], lambda e, q: c.jxw(e, q))
        ck.eq('shape gradients = reference gradients times inverse Jacobian', c.o.attrs['shape_grads'], sg, w)
        ck.eq('JxW = det(dx/deta) times quadrature weight', c.o.attrs['JxW'], jw, w)
        ck.eq('get_shape_grads() returns both', lambda: c.call('get_shape_grads'), (sg, jw), w)
        ck.eq('physical quadrature points', lambda: c.call('get_physical_quad_points'),
              arr([c.C, c.Q, c.dim], lambda e, q, i: sm([c.a], lambda b: c.Nq.get((q, b)) * c.X.get((c.cell.get((e, b)), i)))),
              c.m('get_physical_quad_points'))
        for name, want in (('num_cells', c.C), ('num_total_nodes', N), ('num_total_dofs', N * c.vec),
                           ('num_quads', c.Q), ('num_nodes', c.a), ('num_faces', c.F)):
            ck.eq(name, c.o.attrs.get(name), scal(want, 'i'), c.m('__post_init__'))
    ck.ob('volume geometry', lambda: go() or True, CORE + '.FEM')


def surf(ck):
    def go():
        c = FemCase(ck, nneu=1)
        S_ = dim('S')
        ci, fi_ = leaf('bc', [S_], 'i', hi=c.C), leaf('bf', [S_], 'i', hi=c.F)
        b = arr([S_, 2], lambda s, j: A.pick(j, [ci.get((s,)), fi_.get((s,))]), 'i')
        w = c.m('get_face_shape_grads')
        g = lambda s: (ci.get((s,)), fi_.get((s,)))
        ck.eq('face shape gradients and surface measure (Nanson)', lambda: c.call('get_face_shape_grads', b),
              (arr([S_, c.FQ, c.a, c.dim], lambda s, q, n, i: c.fgrad(*g(s), q, n, i)),
               arr([S_, c.FQ], lambda s, q: c.nanson(*g(s), q))), w)
        ck.eq('physical surface quadrature points', lambda: c.call('get_physical_surface_quad_points', b),
              arr([S_, c.FQ, c.dim], lambda s, q, i: sm(
                  [c.a], lambda n: c.Nf.get((g(s)[1], q, n)) * c.X.get((c.cell.get((g(s)[0], n)), i)))),
              c.m('get_physical_surface_quad_points'))
    ck.ob('surface geometry', lambda: go() or True, CORE + '.FEM')


def interp(ck):
    def go():
        c = FemCase(ck, nneu=2)
        ck.eq('nodal field to quadrature points', lambda: c.call('convert_from_dof_to_quad', c.u),
              arr([c.C, c.Q, c.vec], lambda e, q, k: sm([c.a], lambda b: c.u.get((c.cell.get((e, b)), k)) * c.Nq.get((q, b)))),
              c.m('convert_from_dof_to_quad'))
        ck.eq('gradient of a nodal field', lambda: c.call('sol_to_grad', c.u),
              arr([c.C, c.Q, c.vec, c.dim], lambda e, q, k, i: c.ugrad(e, q, k, i)), c.m('sol_to_grad'))
        for g in range(2):
            ca, fa = c.faces(g, 'nloc')
            ck.eq('nodal field on Neumann faces of group %d' % g, lambda: c.call('convert_neumann_from_dof', c.u, g),
                  arr([ca.shape[0], c.FQ, c.vec], lambda s, q, k: sm([c.a], lambda b: c.u.get(
                      (c.cell.get((ca.get((s,)), b)), k)) * c.Nf.get((fa.get((s,)), q, b)))),
                  c.m('convert_neumann_from_dof'))
    ck.ob('interpolation', lambda: go() or True, CORE + '.FEM')
