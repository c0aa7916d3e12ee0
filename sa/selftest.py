"""Positive examples for the engine itself: equalities it must prove, differences it must report."""
import sys
from . import terms as T, arrays as A
from .check import compare
from .spec import *


def main():
    n, m = dim('n'), dim('m')
    a, b = leaf('a', [n, m]), leaf('b', [m, n])
    ab = arr([n, n], lambda i, j: sm([m], lambda k: a.get((i, k)) * b.get((k, j))))
    assert compare(A.matmul(a, b), ab)[0] is True
    ba = arr([n, n], lambda i, j: sm([m], lambda k: a.get((j, k)) * b.get((k, i))))
    assert compare(A.matmul(a, b), ba)[0] is False
    off = arr([n, m], lambda i, j: a.get((i, j)) + ite(eqi(i, n - 1), ONE, ZERO))
    assert compare(a, off)[0] is False
    from . import models2 as M2
    pt = [T.sym('s%d' % i) for i in range(3)]
    k0 = [M2.basis_at(M2.basix_poly, 'P', 'hexahedron', 1, 0, d, pt) for d in range(4)]
    assert all(len(x.t) > 1 for x in k0) and len(set(map(id, k0))) == 4     # values and gradients really depend on the point
    print('engine self-test passed')
    sys.exit(0)


if __name__ == '__main__':
    sys.setrecursionlimit(10000)
    main()
