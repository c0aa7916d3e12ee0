"""Symbolic algebraic problems for the solver properties: the residual and the
tangent are arbitrary functions of the iterate."""
from .femlib import *
from ..interp import PyFn


def of_params(p):
    """the parameters as arguments of the residual, leaf by leaf"""
    if p is None:
        return ()
    ls = [A.asarr(x) for x in (p if isinstance(p, (list, tuple)) else [p])]
    return tuple(x.scalar() if x.ndim == 0 else A.tlam(x) for x in ls)


class AlgProblem:
    def __init__(self, ck, k, vec, pairs=0, periodic=False, **kw):
        self.ck = ck
        self.I = ck.interp()
        self.I.peeled = []
        self.G = Groups(k, vec)
        self.v = v = lift(vec)
        P = self.P = problem(self.G, vec, **kw)
        self.nd = A.prod_dim([mkdim(N), mkdim(vec)])
        self.nnz = dim('nnz')
        self.Ii = leaf('I', [self.nnz], 'i', hi=mul(N, v))
        self.Jj = leaf('J', [self.nnz], 'i', hi=mul(N, v))
        self.params = None

        def lamsol(s):
            s = A.reshape(A.asarr(s), [mkdim(N), mkdim(vec)])
            return A.tlam(s)

        def extra():
            p = P.attrs.get('cur_params')
            return of_params(p)

        def set_params(I, a, k):
            I.set_attr(P, 'cur_params', a[0])
        P.attrs['set_params'] = PyFn(set_params, 'set_params')

        def res(I, a, k):
            l = lamsol(a[0])
            ex = extra()
            return Arr([mkdim(N), mkdim(vec)], lambda idx: T.app('resid', (l,) + ex, idx), 'f', 'jnp')

        def newton(I, a, k):
            l = lamsol(a[0])
            ex = extra()
            I.set_attr(P, 'I', self.Ii)
            I.set_attr(P, 'J', self.Jj)
            I.set_attr(P, 'V', Arr([mkdim(self.nnz)], lambda idx: T.app('tan', (l,) + ex, idx), 'f', 'jnp'))
            I.set_attr(P, 'body_force', leaf('bforce', [N, v], 'f', 'jnp'))
            I.set_attr(P, 'neumann', leaf('neumann', [N, v], 'f', 'jnp'))
            return Arr([mkdim(N), mkdim(vec)], lambda idx: T.app('resid', (l,) + ex, idx), 'f', 'jnp')
        P.attrs['compute_residual'] = PyFn(res, 'compute_residual')
        P.attrs['newton_update'] = PyFn(newton, 'newton_update')
        if periodic:
            P.attrs['periodic_bc_info'] = ['periodic']
            self.pn, self.pa, self.pb, self.pc = [], [], [], []
            for g in range(pairs):
                n = dim('m%d' % g)
                self.pn.append(n)
                self.pa.append(leaf('uniq:pa%d' % g, [n], 'i', hi=N))
                self.pb.append(leaf('uniq:pb%d' % g, [n], 'i', hi=N))
                self.pc.append(leaf('pc%d' % g, [n], 'i', hi=v))
            P.attrs['p_node_inds_list_A'] = list(self.pa)
            P.attrs['p_node_inds_list_B'] = list(self.pb)
            P.attrs['p_vec_inds_list'] = list(self.pc)

    # ---- specification; U is a function (node, component) -> term
    def lamU(self, U):
        return lam([N, self.v], U)

    def ex(self):
        return of_params(self.params)

    def res(self, U):
        l = self.lamU(U)
        return lambda n, c: T.app('resid', (l,) + self.ex(), (n, c))

    def bcres(self, U):
        G = self.G
        return G.overlay(self.res(U), lambda g, j: U(G.node[g].get((j,)), G.comp[g].get((j,))) - G.val[g].get((j,)))

    def entry(self, U):
        l = self.lamU(U)
        return lambda i, j: sm([self.nnz], lambda t: land(eqi(self.Ii.get((t,)), i), eqi(self.Jj.get((t,)), j))
                               * T.app('tan', (l,) + self.ex(), (t,)))

    def bcmat(self, U):
        """dense row-eliminated tangent over flat dofs"""
        e = self.entry(U)
        v = self.v

        def f(idx):
            i, j = idx
            a, c = T.floordiv(i, v), T.mod(i, v)
            return self.G.overlay(lambda p, q: e(i, j), lambda g, t: eqi(i, j))(a, c)
        return Arr([self.nd, self.nd], f)

    def bcjac(self, U):
        """derivative of the bc residual from the residual function itself"""
        l = self.lamU(U)
        v = self.v

        def f(idx):
            i, j = idx
            return self.G.overlay(lambda a, b: T.app(('D', 0, 2, 'resid'), (l,) + self.ex(),
                                                     (a, b, T.floordiv(j, v), T.mod(j, v))),
                                  lambda g, t: eqi(i, j))(T.floordiv(i, v), T.mod(i, v))
        return Arr([self.nd, self.nd], f)

    def norm(self, R):
        return sqrt(sm([N, self.v], lambda n, c: R(n, c) * R(n, c)))

    def of(self, a):
        """program array over (N, vec) or flat dofs -> function (n, c)"""
        a = A.snapshot(A.asarr(a))
        if a.ndim == 2:
            return lambda n, c: a.get((n, c))
        return lambda n, c: a.get((n * self.v + c,))

    def run(self, name, *args, peel=None, **kw):
        I = self.I
        I.events.clear()
        I.peeled = []
        I.peel = peel
        try:
            return I.call(self.ck.fn(I, S, name), [self.P] + list(args), kw)
        finally:
            I.peel = None

    def solves(self):
        return [e for e in self.I.events if e.kind in ('ksp', 'krylov')]


def threshold(c):
    """[e > tol] or [e >= tol] -> (e, tol)"""
    c = lift(c)
    if len(c.t) != 1:
        raise Undecided_('loop condition %s' % T.show(c)[:200])
    a = T.the_atom(c)
    if a is None or a.kind not in ('gt', 'ge'):
        raise Undecided_('loop condition %s' % T.show(c)[:200])
    p = a.args[0]
    t = -p.t.get((), 0)
    return p + const(t), t


Undecided_ = T.Undecided


def finite_guard(p, x):
    """is a non-finite x rejected (assert, or a raise under the negation)?"""
    x = A.snapshot(A.asarr(x))
    want = T.red('all', A.tlam(Arr(x.shape, lambda idx: T.app(('bool', 'isfinite'), (x.get(idx),), is_bool=True), 'b'))) \
        if x.ndim else T.app(('bool', 'isfinite'), (x.scalar(),), is_bool=True)
    from ..evalp import lets_through
    G, gs = T.ONE, []
    unsure = False
    for e in p.I.events:
        if e.kind == 'assert':
            g = A.asarr(e.args[0])
            g = g.scalar() if g.ndim == 0 else None
        elif e.kind == 'abort':
            g = T.not_(A.asarr(e.args[0]).scalar())
        else:
            continue
        if g is None:
            unsure = True
            continue
        if g is want:
            return True
        G = G * g
        gs.append(g)
    if G * want is G:
        return True
    v, ex = lets_through(gs, want)
    if v is False:
        return True
    if v is None or unsure:
        raise T.Undecided('the guards could not be compared')
    return False
