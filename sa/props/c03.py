"""The assembled residual is the weak form, for any mesh, element and material.

The FEM class is analysed over an arbitrary mesh (any node count, cell count
>= 20, connectivity), arbitrary element tables and uninterpreted user functions;
the denotation of compute_residual / newton_update is compared with
(f(grad u), grad v) + (m(u), v) + <c(u), v> - (b, v) - <t, v>."""
from .femlib import *

CASES = [
    dict(tm=True),
    dict(tm=False, mm=True),
    dict(tm=True, mm=True, src=True),
    dict(tm=True, nneu=1),
    dict(tm=True, nneu=2),
    dict(tm=True, ncau=1),
    dict(tm=True, ncau=2, nneu=1, src=True),
    dict(tm=True, mm=True, iv=('laplace', 'mass')),
    dict(tm=True, src=True, iv=('body',)),
    dict(tm=True, nneu=2, iv=('neumann',)),
    dict(tm=True, mm=True, nneu=1, ncau=1, src=True, iv=('laplace', 'mass', 'neumann')),
]


def label(kw):
    return ', '.join('%s=%s' % (k, v) for k, v in kw.items())


def case(ck, kw):
    def go():
        c = FemCase(ck, **kw)
        want = c.residual()
        ck.eq('compute_residual = weak form {%s}' % label(kw), lambda: c.call('compute_residual', c.u), want,
              c.m('compute_residual'))
        ck.eq('newton_update returns the same residual {%s}' % label(kw), lambda: c.call('newton_update', c.u), want,
              c.m('newton_update'))
    ck.ob('build {%s}' % label(kw), lambda: go() or True, CORE + '.FEM')


def run(ck):
    ck.map(lambda kw: case(ck, kw), CASES)
