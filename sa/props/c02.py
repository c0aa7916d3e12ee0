"""Boundary conditions select exactly the user's nodes, components, faces and pairs.

Location predicates, value functions and periodic mappings are uninterpreted;
the selections are compared, as enumerations of a mask over the whole mesh, with
the ones the documentation promises."""
from .femlib import *
UNIT = T.const(T.frac_of_float(5e-6))
GM = 'jax_am.fem.generate_mesh'


def run(ck):
    ck.map(lambda x: x[0](ck, *x[1:]), [(dirichlet, 0), (dirichlet, 1), (dirichlet, 3), (faces,), (periodic, 1),
                                        (periodic, 2), (update,), (infos,)])


def nodes(c, name):
    mask = arr([N], lambda n: T.app(name, (lam([c.dim], lambda i: c.X.get((n, i))),), is_bool=True), 'b')
    return A.nonzero(mask)[0]


def dir_spec(c, k, pre='d'):
    nl = [nodes(c, '%sloc%d' % (pre, g)) for g in range(k)]
    vl = [arr([nl[g].shape[0]], lambda j, g=g: sym('%scomp%d' % (pre, g), lb=0, integer=True), 'i') for g in range(k)]
    vals = [arr([nl[g].shape[0]], lambda j, g=g: T.app('%sval%d' % (pre, g), (lam(
        [c.dim], lambda i: c.X.get((nl[g].get((j,)), i))),))) for g in range(k)]
    return nl, vl, vals


def dirichlet(ck, k):
    def go():
        c = FemCase(ck, nd=k)
        nl, vl, vals = dir_spec(c, k)
        w = c.m('Dirichlet_boundary_conditions')
        ck.eq('Dirichlet nodes = all nodes satisfying the predicate [%d groups]' % k, c.o.attrs['node_inds_list'], nl, w)
        ck.eq('Dirichlet component = the one named [%d groups]' % k, c.o.attrs['vec_inds_list'], vl, w)
        ck.eq('Dirichlet value = value function at that node [%d groups]' % k, c.o.attrs['vals_list'], vals, w)
        ck.eq('no periodic pairs without periodic info', [c.o.attrs['p_node_inds_list_A'],
              c.o.attrs['p_node_inds_list_B'], c.o.attrs['p_vec_inds_list']], [[], [], []], w)
    ck.ob('build with %d Dirichlet groups' % k, lambda: go() or True, CORE + '.FEM')


def update(ck):
    def go():
        c = FemCase(ck, nd=1)
        info = [[pred('eloc%d' % g) for g in range(2)], [isym(sym('ecomp%d' % g, lb=0, integer=True)) for g in range(2)],
                [user_fn('eval%d' % g, []) for g in range(2)]]
        c.call('update_Dirichlet_boundary_conditions', info)
        nl, vl, vals = dir_spec(c, 2, 'e')
        w = c.m('update_Dirichlet_boundary_conditions')
        ck.eq('update replaces the Dirichlet selection entirely', [c.o.attrs['node_inds_list'],
              c.o.attrs['vec_inds_list'], c.o.attrs['vals_list']], [nl, vl, vals], w)
        info2 = [[pred('floc%d' % g) for g in range(2)], [isym(sym('fcomp%d' % g, lb=0, integer=True)) for g in range(2)],
                 [user_fn('fval%d' % g, []) for g in range(2)]]
        c.call('update_Dirichlet_boundary_conditions', info2)
        ck.eq('a second update, with as many groups, replaces the selection again', [c.o.attrs['node_inds_list'],
              c.o.attrs['vec_inds_list'], c.o.attrs['vals_list']], list(dir_spec(c, 2, 'f')), w)
        c.call('update_Dirichlet_boundary_conditions', None)
        ck.eq('update with None clears the Dirichlet selection', [c.o.attrs['node_inds_list'],
              c.o.attrs['vec_inds_list'], c.o.attrs['vals_list']], [[], [], []], w)
    ck.ob('update of Dirichlet conditions', lambda: go() or True, CORE + '.FEM')


def faces(ck):
    def go():
        c = FemCase(ck, nneu=2)
        w = c.m('get_boundary_conditions_inds')
        want = []
        for g in range(2):
            a, b = c.faces(g, 'nloc')
            want.append(arr([a.shape[0], 2], lambda s, j, a=a, b=b: A.pick(j, [a.get((s,)), b.get((s,))]), 'i'))
        ck.eq('Neumann faces = all (cell, face) whose every node satisfies the predicate',
              c.o.attrs['neumann_boundary_inds_list'], want, w)
        got = lambda: c.call('get_boundary_conditions_inds', [pred('nloc0'), pred('nloc1')])
        ck.eq('face selection for arbitrary predicates', got, want, w)
    ck.ob('face selection', lambda: go() or True, CORE + '.FEM')


def periodic(ck, k):
    def go():
        # a mesh whose length scale is that of the tolerance, so that the pairing test matters
        c = FemCase(ck, np_=k, unit=UNIT)
        w = c.m('periodic_boundary_conditions')
        na, nb = [], []
        for g in range(k):
            a = nodes(c, 'paloc%d' % g)
            bn = nodes(c, 'pbloc%d' % g)

            def match(j, g=g, a=a, bn=bn):
                xa = lambda: lam([c.dim], lambda i: c.X.get((a.get((j,)), i)))
                mp = lambda i: UNIT * T.app('pmap%d' % g, (xa(),), (i,))
                mask = arr([bn.shape[0]], lambda t: lt(sqrt(sm(
                    [c.dim], lambda i: T.power(mp(i) - c.X.get((bn.get((t,)), i)), 2))), T.frac_of_float(1e-5)), 'b')
                return bn.get((A.nonzero(mask)[0].get((ZERO,)),))
            na.append(a)
            nb.append(arr([a.shape[0]], match, 'i'))
        ck.eq('periodic side A = nodes satisfying the predicate [%d pairs]' % k, c.o.attrs['p_node_inds_list_A'], na, w)
        ck.eq('periodic partner = the side-B node at the mapped position [%d pairs]' % k,
              c.o.attrs['p_node_inds_list_B'], nb, w)
        ck.eq('periodic component [%d pairs]' % k, c.o.attrs['p_vec_inds_list'],
              [arr([a.shape[0]], lambda j, g=g: sym('pcomp%d' % g, lb=0, integer=True), 'i') for g, a in enumerate(na)], w)
        ck.eq('no Dirichlet nodes without Dirichlet info', c.o.attrs['node_inds_list'], [], w)
    ck.ob('build with %d periodic pairs' % k, lambda: go() or True, CORE + '.FEM')


def infos(ck):
    """count_selected_faces and the Mesh container"""
    I = ck.interp()
    ck.ob('Mesh keeps points and cells', lambda: mesh_ob(ck, I), GM + '.Mesh')


def mesh_ob(ck, I):
    M = ck.fn(I, GM, 'Mesh')
    X = leaf('X', [N, dim('dim')])
    cl = leaf('cell', [dim('Cm'), dim('nn')], 'i', hi=N)
    m = I.call(M, [X, cl])
    ck.eq('Mesh.points', m.attrs['points'], X, M)
    ck.eq('Mesh.cells', m.attrs['cells'], cl, M)
    return True
