"""Checks the reference oracles against exact rational arithmetic."""
import math
from fractions import Fraction

import numpy as np

from mv import ref


def main():
    F = Fraction
    for a in (0, 1, 2, F(1, 2), F(-1, 2), 5):
        for b in (0, 1, F(-1, 2), 3):
            for x in (F(-1), F(1), F(1, 3), F(-7, 9)):
                got = ref.jacobi_all(float(a), float(b), 12, [float(x)])
                for n in range(13):
                    ex = ref.jacobi_exact(a, b, n, x)
                    # x itself is rounded: compare at the rounded point
                    ex = ref.jacobi_exact(a, b, n, F(float(x)))
                    assert abs(float(got[n][0]) - float(ex)) < 1e-13*max(
                        1, abs(float(ex))), (a, b, x, n)

    # orthonormality of the modes by exact-degree product Gauss rules of numpy
    for d in (1, 2, 3, 4):
        n = {1: 8, 2: 6, 3: 4, 4: 2}[d]
        # Duffy-mapped Gauss-Legendre (numpy's own)
        xg, wg = np.polynomial.legendre.leggauss(2*n+d+2)
        u = (xg+1)/2
        w = wg/2
        grids = np.meshgrid(*([u]*d), indexing="ij")
        ws = np.meshgrid(*([w]*d), indexing="ij")
        U = [g.ravel() for g in grids]
        W = np.ones(U[0].size)
        for ww in ws:
            W = W*ww.ravel()
        # y_{d-1} = u_{d-1}; y_m = u_m * (1 - sum_{l>m} y_l)
        Y = [None]*d
        rho = np.ones_like(U[0])
        for m in range(d-1, -1, -1):
            Y[m] = U[m]*rho
            W = W*rho*2
            rho = rho - Y[m]
        X = 2*np.array(Y) - 1
        keys, V = ref.tp_vander((d,), (n,), X)
        G = (V.T*W) @ V
        assert np.max(np.abs(G - np.eye(len(keys)))) < 1e-12, d
        # monomial integrals
        for e in ref.simplex_indices(d, 3):
            got = float(np.sum(W*np.prod([Y[i]**e[i] for i in range(d)], axis=0)))
            assert abs(got - float(ref.simplex_monomial_integral(e))) < 1e-13

    # gradients against finite differences in long double
    rng = np.random.default_rng(0)
    for desc, orders in (((3,), (5,)), ((2, 1), (3, 2)), ((1, 1), (4, 3))):
        x = ref.random_points(desc, 5, rng).astype(np.longdouble)
        keys, V, G = ref.tp_vander_grad(desc, orders, x)
        h = np.longdouble(1e-6)
        for ax in range(x.shape[0]):
            xp, xm = x.copy(), x.copy()
            xp[ax] += h
            xm[ax] -= h
            fd = (ref.tp_vander(desc, orders, xp)[1]
                  - ref.tp_vander(desc, orders, xm)[1])/(2*h)
            assert np.max(np.abs(fd - G[ax])) < 1e-8*max(1, np.max(np.abs(G[ax])))

    assert abs(ref.jacobi_total_mass(0, 0) - 2) < 1e-14
    assert abs(ref.jacobi_total_mass(-.5, -.5) - math.pi) < 1e-13
    print("reference oracles: self test ok")


main()
