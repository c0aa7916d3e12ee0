"""Batched cell evaluation returns every cell exactly once, in order, for any cell count."""
from .femlib import *
from .. import interp as IP


def run(ck):
    cs = list(range(1, 46)) + [59, 60, 61, 79, 80, 99, 100] if ck.thorough else \
        [1, 2, 3, 7, 10, 19, 20, 21, 22, 29, 39, 40, 41, 45, 59, 63]
    items = [(c, jac, lib) for c in cs + ['sym'] for jac, lib in ((False, 'jnp'), (True, 'np'), (True, 'jnp'))]
    ck.map(lambda x: case(ck, *x), items)


def case(ck, n, jac, lib):
    tag = '[%s cells, %s, %s]' % (n, 'value+jacobian' if jac else 'value', lib)

    def go():
        # concrete tables with symbolic contents keep the terms small
        c = FemCase(ck, tm=False, mm=True, iv=('mass',), C=None if n == 'sym' else const(n), vec=const(2))
        I = c.I
        cs = leaf('cs', [c.C, c.a, 2], 'f', 'jnp')
        libm = IP.ExtV('jax.numpy' if lib == 'jnp' else 'numpy')

        def uq(e, q):
            return lam([2], lambda k: sm([c.a], lambda b: cs.get((e, b, k)) * c.Nq.get((q, b))))

        def val(e, b, k):
            return sm([c.Q], lambda q: T.app('MM', (uq(e, q), c.ivm.get((e, q))), (k,)) * c.Nq.get((q, b)) * c.jxw(e, q))
        want = arr([c.C, c.a, 2], val)

        def got():
            return c.call('split_and_compute_cell', cs, libm, jac, **c.o.attrs['internal_vars'])
        w = c.m('split_and_compute_cell')
        if not jac:
            ck.eq('cell values ' + tag, got, want, w)
        else:
            r = got()
            ck.eq('cell values ' + tag, lambda: r[0], want, w)

            def dval(e, b, k, b2, k2):
                return sm([c.Q], lambda q: T.app(('D', 0, 1, 'MM'), (uq(e, q), c.ivm.get((e, q))), (k, k2))
                          * c.Nq.get((q, b2)) * c.Nq.get((q, b)) * c.jxw(e, q))
            ck.eq('cell jacobians ' + tag, lambda: r[1], arr([c.C, c.a, 2, c.a, 2], dval), w)
    ck.ob('batching ' + tag, lambda: go() or True, CORE + '.FEM')
