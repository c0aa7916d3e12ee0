"""Symbolic problems for the finite-element properties."""
from .. import terms as T, arrays as A, interp as IP
from ..spec import *

S = 'jax_am.fem.solver'
CORE = 'jax_am.fem.core'
N = dim('N')


class Groups:
    """k Dirichlet groups of arbitrary sizes with arbitrary nodes, components, values."""

    def __init__(self, k, vec, pre=''):
        self.vec = lift(vec)
        self.k = k
        self.n, self.node, self.comp, self.val = [], [], [], []
        for g in range(k):
            n = dim('n%s%d' % (pre, g))
            self.n.append(n)
            self.node.append(leaf('uniq:node%s%d' % (pre, g), [n], 'i', hi=N))
            self.comp.append(leaf('comp%s%d' % (pre, g), [n], 'i', hi=self.vec))
            self.val.append(leaf('val%s%d' % (pre, g), [n], 'f', 'jnp'))

    def hit(self, g, i, c, f=lambda k: ONE):
        return sm([self.n[g]], lambda k: mul(land(eqi(self.node[g].get((k,)), i), eqi(self.comp[g].get((k,)), c)), f(k)))

    def overlay(self, base, val):
        """(i, c) -> base overwritten group after group by val(g, k)"""
        def f(i, c):
            r = base(i, c)
            for g in range(self.k):
                r = r - mul(self.hit(g, i, c), r) + self.hit(g, i, c, lambda k: val(g, k))
            return r
        return f


def problem(groups, vec, **kw):
    v = lift(vec)
    return obj(num_total_nodes=isym(N), vec=isym(vec), num_total_dofs=isym(mul(N, v)),
               node_inds_list=list(groups.node), vec_inds_list=list(groups.comp),
               vals_list=list(groups.val), p_node_inds_list_A=[], p_node_inds_list_B=[],
               p_vec_inds_list=[], periodic_bc_info=None, **kw)


def flat(vec, f):
    """dof vector with entry f(node, component)"""
    v = mkdim(vec)
    d = A.prod_dim([mkdim(N), v])

    def fn(idx):
        i = idx[0]
        return f(T.floordiv(i, v.p), T.mod(i, v.p))
    return Arr([d], fn, 'f', 'jnp')


def dofvec(name, vec):
    return leaf(name, [A.prod_dim([mkdim(N), mkdim(vec)])], 'f', 'jnp')


BASIS = 'jax_am.fem.basis'


def pmap(g, d, unit):
    if unit is None:
        return user_fn('pmap%d' % g, [d])

    def f(I, args, kw):
        x = A.asarr(args[0])
        l = A.tlam(x)
        return Arr([d], lambda idx: unit * T.app('pmap%d' % g, (l,), idx), 'f', 'jnp')
    return PyFn(f, 'pmap%d' % g)


class FemCase:
    """A FEM object over an arbitrary mesh, element tables and user functions.

    tm/mm: tensor / mass map present; nd/nn_/nc: numbers of Dirichlet, Neumann,
    Cauchy groups; src: body source; iv: which internal variables are supplied."""

    def __init__(self, ck, tm=True, mm=False, nd=0, nneu=0, ncau=0, src=False, iv=(), C=None, vec=None,
                 np_=0, extra='', dimn=None, base=(CORE, 'FEM'), unit=None):
        self.ck = ck
        I = self.I = ck.interp()
        self.C = C if C is not None else dim('C', lb=20)
        self.N = N
        self.Q, self.a, self.F, self.FQ, self.FN = dim('Q'), dim('nn'), dim('F'), dim('FQ'), dim('FN')
        self.dim = lift(dimn) if dimn is not None else dim('dim')
        self.vec = lift(vec) if vec is not None else dim('vec')
        d, v, Q, nn = self.dim, self.vec, self.Q, self.a
        F, FQ = self.F, self.FQ
        self.Nq = leaf('Nq', [Q, nn])
        self.dN = leaf('dNq', [Q, nn, d])
        self.wq = leaf('wq', [Q])
        self.Nf = leaf('Nf', [F, FQ, nn])
        self.dNf = leaf('dNf', [F, FQ, nn, d])
        self.wf = leaf('wf', [F, FQ])
        self.nf = leaf('nf', [F, d])
        self.fi = leaf('finds', [F, self.FN], 'i', hi=nn)
        I.stubs[BASIS + '.get_shape_vals_and_grads'] = lambda I, f, a, k: (self.Nq, self.dN, self.wq)
        I.stubs[BASIS + '.get_face_shape_vals_and_grads'] = \
            lambda I, f, a, k: (self.Nf, self.dNf, self.wf, self.nf, self.fi)
        ck.fn(I, CORE, 'FEM', True)
        body = ''
        if tm:
            body += '    def get_tensor_map(self): return TM\n'
        if mm:
            body += '    def get_mass_map(self): return MM\n'
        m = I.load_src('spec_problem', 'from %s import %s as FEM\nclass P(FEM):\n' % base + (body or '    pass\n')
                       + '    def set_params(self, p): self.internal_vars[PK] = p\n'
                       + '    def get_body_map(self): return BM\n' + extra)
        m.env.vars['TM'] = user_fn('TM', [v, d])
        m.env.vars['MM'] = user_fn('MM', [v])
        m.env.vars['BM'] = user_fn('BM', [v])
        m.env.vars['PK'] = 'laplace'
        self.mod = m
        self.cls = m.env.vars['P']
        self.X = leaf('X', [N, d])
        if unit is not None:        # mesh measured in a unit of the user's choice
            X0 = self.X
            self.X = arr([N, d], lambda n, i: unit * X0.get((n, i)))
        self.cell = leaf('cell', [self.C, nn], 'i', hi=N)
        mesh = obj(points=self.X, cells=self.cell)
        kw = dict(vec=isym(v), dim=isym(d), ele_type='ANY')
        self.tm, self.mm, self.nd, self.nneu, self.ncau, self.src, self.iv = tm, mm, nd, nneu, ncau, src, iv
        if nd:
            self.dcomp = [sym('dcomp%d' % g, lb=0, integer=True) for g in range(nd)]
            kw['dirichlet_bc_info'] = [[pred('dloc%d' % g) for g in range(nd)],
                                       [isym(c) for c in self.dcomp],
                                       [user_fn('dval%d' % g, []) for g in range(nd)]]
        if nneu:
            kw['neumann_bc_info'] = [[pred('nloc%d' % g) for g in range(nneu)],
                                     [user_fn('trac%d' % g, [v]) for g in range(nneu)]]
        if ncau:
            kw['cauchy_bc_info'] = [[pred('cloc%d' % g) for g in range(ncau)],
                                    [user_fn('cau%d' % g, [v]) for g in range(ncau)]]
        if np_:
            kw['periodic_bc_info'] = [[pred('paloc%d' % g) for g in range(np_)],
                                      [pred('pbloc%d' % g) for g in range(np_)],
                                      [pmap(g, d, unit) for g in range(np_)],
                                      [isym(sym('pcomp%d' % g, lb=0, integer=True)) for g in range(np_)]]
        if src:
            kw['source_info'] = user_fn('src', [v])
        self.o = I.call(self.cls, [mesh], kw)
        ivd = {}
        self.ivl = leaf('ivl', [self.C, Q, d], 'f', 'jnp')
        self.ivm = leaf('ivm', [self.C, Q], 'f', 'jnp')
        if 'laplace' in iv:
            ivd['laplace'] = [self.ivl]
        if 'mass' in iv:
            ivd['mass'] = [self.ivm]
        if 'body' in iv:
            ivd['body'] = leaf('ivb', [N, v], 'f', 'jnp')
        if 'neumann' in iv:
            ivd['neumann'] = [[arr([self.nface(g, 'nloc'), FQ],
                                   lambda s, q, g=g: T.elt(T.base('ivn%d' % g), (s, q)), 'f', 'jnp')]
                              for g in range(nneu)]
        if ivd:
            self.o.attrs['internal_vars'] = ivd
        self.u = leaf('u', [N, v], 'f', 'jnp')

    def call(self, name, *args, **kw):
        f = self.cls.lookup(name)
        if f is None:
            from ..check import Missing
            raise Missing('%s.FEM.%s' % (CORE, name))
        return self.I.call(IP.BoundV(f, self.o), list(args), kw)

    def m(self, name):
        return self.ck.fn(self.I, CORE, 'FEM.' + name)

    # ---- specification
    def dxdeta(self, c, q):
        """(i, j) -> d x_i / d eta_j at quadrature point q of cell c"""
        return lam([self.dim, self.dim], lambda i, j: sm(
            [self.a], lambda b: self.X.get((self.cell.get((c, b)), i)) * self.dN.get((q, b, j))))

    def grad(self, c, q, b, i):
        """d N_b / d x_i"""
        J = self.dxdeta(c, q)
        return sm([self.dim], lambda j: self.dN.get((q, b, j)) * T.app('inv', (J,), (j, i)))

    def jxw(self, c, q):
        return T.app('det', (self.dxdeta(c, q),)) * self.wq.get((q,))

    def qp(self, c, q):
        return lam([self.dim], lambda i: sm(
            [self.a], lambda b: self.Nq.get((q, b)) * self.X.get((self.cell.get((c, b)), i))))

    def fmask(self, g, pre):
        """(cell, face) -> all nodes of the face satisfy the location predicate"""
        return arr([self.C, self.F], lambda c, f: T.red('all', A.tlam(arr(
            [self.FN], lambda k: T.app('%s%d' % (pre, g), (lam(
                [self.dim], lambda i: self.X.get((self.cell.get((c, self.fi.get((f, k)))), i))),), is_bool=True)))), 'b')

    def nface(self, g, pre):
        return A.nonzero(self.fmask(g, pre))[0].shape[0]

    def faces(self, g, pre):
        a, b = A.nonzero(self.fmask(g, pre))
        return a, b

    def fj(self, c, f, q):
        return lam([self.dim, self.dim], lambda i, j: sm(
            [self.a], lambda b: self.X.get((self.cell.get((c, b)), i)) * self.dNf.get((f, q, b, j))))

    def fgrad(self, c, f, q, b, i):
        J = self.fj(c, f, q)
        return sm([self.dim], lambda j: self.dNf.get((f, q, b, j)) * T.app('inv', (J,), (j, i)))

    def nanson(self, c, f, q):
        """|J^-T n| det J w : surface measure by Nanson's formula"""
        J = self.fj(c, f, q)
        nj = lambda k: sm([self.dim], lambda i: self.nf.get((f, i)) * T.app('inv', (J,), (i, k)))
        return sqrt(sm([self.dim], lambda k: nj(k) * nj(k))) * T.app('det', (J,)) * self.wf.get((f, q))

    def fqp(self, c, f, q):
        return lam([self.dim], lambda i: sm(
            [self.a], lambda b: self.Nf.get((f, q, b)) * self.X.get((self.cell.get((c, b)), i))))

    def ugrad(self, c, q, k, i):
        return sm([self.a], lambda b: self.u.get((self.cell.get((c, b)), k)) * self.grad(c, q, b, i))

    def uq(self, c, q, u=None):
        u = u or self.u
        return lam([self.vec], lambda k: sm(
            [self.a], lambda b: u.get((self.cell.get((c, b)), k)) * self.Nq.get((q, b))))

    def cellval(self, c, b, k):
        """weak form contribution of cell c to local node b, component k"""
        out = ZERO
        if self.tm:
            def t(q, i):
                g = lam([self.vec, self.dim], lambda kk, ii: self.ugrad(c, q, kk, ii))
                ex = (lam([self.dim], lambda j: self.ivl.get((c, q, j))),) if 'laplace' in self.iv else ()
                return T.app('TM', (g,) + ex, (k, i)) * self.grad(c, q, b, i) * self.jxw(c, q)
            out = out + sm([self.Q, self.dim], t)
        if self.mm:
            def mt(q):
                ex = (self.ivm.get((c, q)),) if 'mass' in self.iv else ()
                return T.app('MM', (self.uq(c, q),) + ex, (k,)) * self.Nq.get((q, b)) * self.jxw(c, q)
            out = out + sm([self.Q], mt)
        return out

    def faceval(self, name, g, pre, s, b, k, with_u):
        ca, fa = self.faces(g, pre)
        c, f = ca.get((s,)), fa.get((s,))

        def t(q):
            if with_u:
                arg = (lam([self.vec], lambda kk: sm(
                    [self.a], lambda bb: self.u.get((self.cell.get((c, bb)), kk)) * self.Nf.get((f, q, bb)))),)
            else:
                arg = (self.fqp(c, f, q),)
                if 'neumann' in self.iv:
                    arg = arg + (T.elt(T.base('ivn%d' % g), (s, q)),)
            return T.app('%s%d' % (name, g), arg, (k,)) * self.Nf.get((f, q, b)) * self.nanson(c, f, q)
        return sm([self.FQ], t)

    def source(self, n, k):
        def fb(c, b):
            return sm([self.Q], lambda q: T.app('src', (self.qp(c, q),), (k,)) * self.Nq.get((q, b)) * self.jxw(c, q))
        if 'body' in self.iv:
            ub = leaf('ivb', [N, self.vec], 'f', 'jnp')
            fb = lambda c, b: sm([self.Q], lambda q: T.app('BM', (self.uq(c, q, ub),), (k,))
                                 * self.Nq.get((q, b)) * self.jxw(c, q))
        elif not self.src:
            return ZERO
        return sm([self.C, self.a], lambda c, b: eqi(self.cell.get((c, b)), n) * fb(c, b))

    def neumann(self, n, k):
        out = ZERO
        for g in range(self.nneu):
            out = out + sm([self.nface(g, 'nloc'), self.a],
                           lambda s, b: eqi(self.cell.get((self.faces(g, 'nloc')[0].get((s,)), b)), n)
                           * self.faceval('trac', g, 'nloc', s, b, k, False))
        return out

    def cauchy(self, n, k):
        out = ZERO
        for g in range(self.ncau):
            out = out + sm([self.nface(g, 'cloc'), self.a],
                           lambda s, b: eqi(self.cell.get((self.faces(g, 'cloc')[0].get((s,)), b)), n)
                           * self.faceval('cau', g, 'cloc', s, b, k, True))
        return out

    def residual(self):
        def r(n, k):
            return sm([self.C, self.a], lambda c, b: eqi(self.cell.get((c, b)), n) * self.cellval(c, b, k)) \
                + self.cauchy(n, k) - self.source(n, k) - self.neumann(n, k)
        return arr([N, self.vec], r)
