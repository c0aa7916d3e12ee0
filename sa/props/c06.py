"""The sparse tangent is the exact derivative of the residual.

User maps are uninterpreted; the assembled COO triplets, summed over duplicates,
are compared entry by entry with the analytic derivative of the weak form."""
from .femlib import *

CASES = [
    dict(tm=True), dict(tm=False, mm=True), dict(tm=True, mm=True, src=True, nneu=1),
    dict(tm=True, ncau=1), dict(tm=True, ncau=2), dict(tm=True, mm=True, iv=('laplace', 'mass')),
    dict(tm=True, mm=True, ncau=1, vec=1),
]
DEEP = [dict(tm=True, ncau=1, vec=2), dict(tm=True, mm=True, vec=2)]


def tangent(c):
    def dcell(e, b, k, b2, l):
        out = ZERO
        if c.tm:
            def t(q, i, j):
                g = lam([c.vec, c.dim], lambda kk, ii: c.ugrad(e, q, kk, ii))
                ex = (lam([c.dim], lambda jj: c.ivl.get((e, q, jj))),) if 'laplace' in c.iv else ()
                return T.app(('D', 0, 2, 'TM'), (g,) + ex, (k, i, l, j)) * c.grad(e, q, b, i) * c.grad(e, q, b2, j) \
                    * c.jxw(e, q)
            out = out + sm([c.Q, c.dim, c.dim], t)
        if c.mm:
            def mt(q):
                ex = (c.ivm.get((e, q)),) if 'mass' in c.iv else ()
                return T.app(('D', 0, 1, 'MM'), (c.uq(e, q),) + ex, (k, l)) * c.Nq.get((q, b)) * c.Nq.get((q, b2)) * c.jxw(e, q)
            out = out + sm([c.Q], mt)
        return out

    def entry(n, k, m, l):
        out = sm([c.C, c.a, c.a], lambda e, b, b2: land(eqi(c.cell.get((e, b)), n), eqi(c.cell.get((e, b2)), m))
                 * dcell(e, b, k, b2, l))
        for g in range(c.ncau):
            ca, fa = c.faces(g, 'cloc')

            def face(s, b, b2, q):
                e, f = ca.get((s,)), fa.get((s,))
                u = lam([c.vec], lambda kk: sm([c.a], lambda bb: c.u.get((c.cell.get((e, bb)), kk)) * c.Nf.get((f, q, bb))))
                return land(eqi(c.cell.get((e, b)), n), eqi(c.cell.get((e, b2)), m)) * T.app(
                    ('D', 0, 1, 'cau%d' % g), (u,), (k, l)) * c.Nf.get((f, q, b)) * c.Nf.get((f, q, b2)) * c.nanson(e, f, q)
            out = out + sm([ca.shape[0], c.a, c.a, c.FQ], face)
        return out
    return entry


def case(ck, kw):
    from .c03 import label

    def go():
        c = FemCase(ck, **{k: (const(v) if k == 'vec' else v) for k, v in kw.items()})
        c.call('newton_update', c.u)
        Ia, Ja, Va = (c.o.attrs[x] for x in 'IJV')
        from .. import models as M
        nd = A.prod_dim([mkdim(N), mkdim(c.vec)])
        ent = M.coo(A.asarr(Va), A.asarr(Ia), A.asarr(Ja), (nd, nd), 'csr').entry
        t = tangent(c)
        v = c.vec
        ck.eq('tangent entry = d residual / d dof {%s}' % label(kw),
              arr([N, v, N, v], lambda n, k, m, l: ent(n * v + k, m * v + l)), arr([N, v, N, v], t),
              c.m('newton_update'))
        # the operators built from it
        f = ck.fn(c.I, S, 'get_A_fn')
        x = leaf('x', [nd], 'f', 'jnp')
        ck.eq('matrix-free operator applies the same tangent {%s}' % label(kw),
              lambda: c.I.call(c.I.call(f, [c.o, False]), [x]),
              flat(v, lambda n, k: sm([N, v], lambda m, l: t(n, k, m, l) * x.get((m * v + l,)))), f)
    ck.ob('build {%s}' % label(kw), lambda: go() or True, CORE + '.FEM')


def run(ck):
    ck.map(lambda kw: case(ck, kw), CASES + (DEEP if ck.thorough else []))
