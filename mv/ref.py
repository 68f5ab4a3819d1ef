"""Reference oracles, written independently of modepy.

Everything here is either exact (:mod:`fractions`), or evaluated in extended
precision (80-bit long double) by recurrences which do not share code or
formulas' arrangement with the library (e.g. the simplex modes are evaluated in a
homogeneous, singularity-free form and differentiated by forward-mode
differentiation of that recurrence).
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np

LD = np.longdouble
EPS = float(np.finfo(np.float64).eps)


# {{{ exact integrals

def simplex_monomial_integral(exps):
    """int over the bi-unit simplex of prod ((x_i+1)/2)^e_i, exactly."""
    d, m = len(exps), sum(exps)
    num = 2**d
    for e in exps:
        num *= math.factorial(e)
    return Fraction(num, math.factorial(d + m))


def interval_power_integral(e):
    """int_{-1}^1 x^e dx"""
    return Fraction(2, e+1) if e % 2 == 0 else Fraction(0)


def simplex_volume(d):
    return Fraction(2**d, math.factorial(d))


def shape_volume(desc):
    """desc: tuple of simplex dims, e.g. (2, 1) for the prism."""
    v = Fraction(1)
    for d in desc:
        v *= simplex_volume(d)
    return v


def jacobi_moment_monic(a, b, k):
    """int_{-1}^1 ((1+x)/2)^k (1-x)^a (1+x)^b dx, float."""
    # = 2^(a+b+1) B(a+1, b+k+1)
    return math.exp((a+b+1)*math.log(2) + math.lgamma(a+1) + math.lgamma(b+k+1)
                    - math.lgamma(a+b+k+2))


def jacobi_total_mass(a, b):
    return jacobi_moment_monic(a, b, 0)

# }}}


# {{{ Jacobi polynomials, long double

def jacobi_all(a, b, n, x):
    """Classical (not normalised) P_0..P_n^{(a,b)} at x, list of long double."""
    x = np.asarray(x, dtype=LD)
    a = LD(a)
    b = LD(b)
    res = [np.ones_like(x)]
    if n >= 1:
        res.append((a+1) + (a+b+2)*(x-1)/2)
    for k in range(2, n+1):
        k_ = LD(k)
        c = 2*k_*(k_+a+b)*(2*k_+a+b-2)
        a1 = (2*k_+a+b-1)*((2*k_+a+b)*(2*k_+a+b-2)*x + (a-b)*(a+b))
        a2 = 2*(k_+a-1)*(k_+b-1)*(2*k_+a+b)
        res.append((a1*res[k-1] - a2*res[k-2])/c)
    return res


def jacobi_norms_sq(a, b, n):
    """h_0..h_n of the classical Jacobi polynomials, floats (long double)."""
    h = [LD(jacobi_total_mass(a, b))]
    a = LD(a)
    b = LD(b)
    for k in range(1, n+1):
        k_ = LD(k)
        if k == 1:
            h.append(h[0]*(1+a)*(1+b)/(3+a+b))
        else:
            h.append(h[-1]*(k_+a)*(k_+b)*(2*k_+a+b-1)
                     / (k_*(k_+a+b)*(2*k_+a+b+1)))
    return h


def jacobi_orthonormal_all(a, b, n, x):
    p = jacobi_all(a, b, n, x)
    h = jacobi_norms_sq(a, b, n)
    return [pi/np.sqrt(hi) for pi, hi in zip(p, h, strict=True)]


def jacobi_orthonormal_deriv_all(a, b, n, x):
    """Derivatives by differentiating the recurrence (not by index shifting)."""
    x = np.asarray(x, dtype=LD)
    p = jacobi_all(a, b, n, x)
    a_, b_ = LD(a), LD(b)
    d = [np.zeros_like(x)]
    if n >= 1:
        d.append(np.full_like(x, (a_+b_+2)/2))
    for k in range(2, n+1):
        k_ = LD(k)
        c = 2*k_*(k_+a_+b_)*(2*k_+a_+b_-2)
        lin = (2*k_+a_+b_-1)*(2*k_+a_+b_)*(2*k_+a_+b_-2)
        a1 = lin*x + (2*k_+a_+b_-1)*(a_-b_)*(a_+b_)
        a2 = 2*(k_+a_-1)*(k_+b_-1)*(2*k_+a_+b_)
        d.append((a1*d[k-1] + lin*p[k-1] - a2*d[k-2])/c)
    h = jacobi_norms_sq(a, b, n)
    return [di/np.sqrt(hi) for di, hi in zip(d, h, strict=True)]


def jacobi_exact(a: Fraction, b: Fraction, n: int, x: Fraction) -> Fraction:
    """Classical Jacobi polynomial at a rational point by its explicit sum."""
    # P_n = sum_s C(n+a, n-s) C(n+b, s) ((x-1)/2)^s ((x+1)/2)^(n-s)
    def gbinom(top, k):
        r = Fraction(1)
        for i in range(k):
            r = r*(top - i)/(i+1)
        return r
    a, b, x = Fraction(a), Fraction(b), Fraction(x)
    tot = Fraction(0)
    for s in range(n+1):
        tot += (gbinom(n+a, n-s)*gbinom(n+b, s)
                * ((x-1)/2)**s * ((x+1)/2)**(n-s))
    return tot

# }}}


# {{{ simplex modes in any dimension

def simplex_indices(d, n):
    """All multi-indices with |i| <= n."""
    if d == 0:
        return [()]
    return [i for i in itertools.product(range(n+1), repeat=d) if sum(i) <= n]


def _homog_jacobi(alpha, n, zr, dzr, rho, drho):
    """Q_k = rho^k P_k^{(alpha,0)}(zr/rho), k <= n, and gradients."""
    one = np.ones_like(rho)
    q = [one]
    dq = [np.zeros_like(dzr)]
    al = LD(alpha)
    if n >= 1:
        # P_1 = ((a+2) z + a)/2
        q.append(((al+2)*zr + al*rho)/2)
        dq.append(((al+2)*dzr + al*drho)/2)
    for k in range(2, n+1):
        k_ = LD(k)
        c = 2*k_*(k_+al)*(2*k_+al-2)
        lin = (2*k_+al-1)*(2*k_+al)*(2*k_+al-2)
        con = (2*k_+al-1)*al*al
        a2 = 2*(k_+al-1)*(k_-1)*(2*k_+al)
        f = lin*zr + con*rho
        df = lin*dzr + con*drho
        q.append((f*q[k-1] - a2*rho*rho*q[k-2])/c)
        dq.append((f*dq[k-1] + df*q[k-1]
                   - a2*(rho*rho*dq[k-2] + 2*rho*drho*q[k-2]))/c)
    return q, dq


def simplex_modes(d, n, x, grad=False, only=None):
    """Values (and gradients) of the orthonormal Proriol-Koornwinder-Dubiner
    polynomials of total degree <= n on the bi-unit simplex.

    :returns: dict multi-index -> values [, gradient of shape (d, npts)]
    """
    x = np.asarray(x, dtype=LD)
    npts = x.shape[1]
    y = (1+x)/2
    idx = simplex_indices(d, n) if only is None else only
    if d == 0:
        v = {(): np.ones(npts, dtype=LD)}
        return (v, {(): np.zeros((0, npts), dtype=LD)}) if grad else v

    cache = {}

    def factor(m, alpha, k):
        key = (m, alpha)
        if key not in cache or len(cache[key][0]) <= k:
            rho = 1 - y[m+1:].sum(axis=0)
            drho = np.zeros((d, npts), dtype=LD)
            drho[m+1:] = -LD(1)/2
            zr = 2*y[m] - rho
            dzr = -drho.copy()
            dzr[m] = 1
            cache[key] = _homog_jacobi(alpha, n, zr, dzr, rho, drho)
        q, dq = cache[key]
        return q[k], dq[k]

    vals, grads = {}, {}
    for mi in idx:
        v = np.ones(npts, dtype=LD)
        g = np.zeros((d, npts), dtype=LD)
        nrm = LD(1)
        s = 0
        for m in range(d):
            alpha = 2*s + m
            q, dq = factor(m, alpha, mi[m])
            if grad:
                g = g*q + v*dq
            v = v*q
            nrm = nrm * 2/(2*mi[m] + alpha + 1)
            s += mi[m]
        f = 1/np.sqrt(nrm)
        vals[mi] = v*f
        if grad:
            grads[mi] = g*f
    return (vals, grads) if grad else vals


def tp_modes(desc, orders, x, grad=False):
    """desc: tuple of simplex dimensions; orders: one per factor.
    Keys are flat multi-indices (concatenation)."""
    x = np.asarray(x, dtype=LD)
    npts = x.shape[1]
    vals = {(): np.ones(npts, dtype=LD)}
    grads = {(): np.zeros((0, npts), dtype=LD)}
    ofs = 0
    for d, n in zip(desc, orders, strict=True):
        r = simplex_modes(d, n, x[ofs:ofs+d], grad=grad)
        if grad:
            fv, fg = r
        else:
            fv = r
        nv, ng = {}, {}
        for k0, v0 in vals.items():
            for k1, v1 in fv.items():
                nv[k0+k1] = v0*v1
                if grad:
                    ng[k0+k1] = np.concatenate(
                        [grads[k0]*v1, v0*fg[k1]], axis=0)
        vals, grads = nv, ng
        ofs += d
    return (vals, grads) if grad else vals


def tp_vander(desc, orders, x):
    v = tp_modes(desc, orders, x)
    keys = list(v)
    if not keys:
        return keys, np.zeros((np.shape(x)[1], 0))
    return keys, np.array([v[k] for k in keys]).T


def tp_vander_grad(desc, orders, x):
    v, g = tp_modes(desc, orders, x, grad=True)
    keys = list(v)
    return keys, np.array([v[k] for k in keys]).T, \
        np.array([g[k] for k in keys]).transpose(1, 2, 0)     # (d, npts, nmodes)


class RefPoly:
    """A polynomial given by coefficients in the reference modes of a
    (tensor product) space; evaluates itself, its gradient and its integral."""

    def __init__(self, desc, orders, coeffs):
        self.desc = tuple(desc)
        self.orders = tuple(orders)
        self.coeffs = coeffs          # dict multi-index -> float

    def __call__(self, x):
        v = tp_modes(self.desc, self.orders, x)
        return sum((c*v[k] for k, c in self.coeffs.items()),
                   np.zeros(np.shape(x)[1], dtype=LD))

    def grad(self, x):
        _v, g = tp_modes(self.desc, self.orders, x, grad=True)
        d = sum(self.desc)
        return sum((c*g[k] for k, c in self.coeffs.items()),
                   np.zeros((d, np.shape(x)[1]), dtype=LD))

    def integral(self):
        k0 = (0,)*sum(self.desc)
        return self.coeffs.get(k0, 0.0)*math.sqrt(shape_volume(self.desc))


def random_poly(desc, orders, rng):
    """Random polynomial whose modal coefficients are O(1)/sqrt(ndofs)."""
    x0 = np.zeros((sum(desc), 1))
    keys = list(tp_modes(desc, orders, x0))
    s = 1/math.sqrt(max(1, len(keys)))
    return RefPoly(desc, orders, {k: rng.gauss(0, 1)*s for k in keys})


@lru_cache(None)
def space_dim(desc, orders):
    r = 1
    for d, n in zip(desc, orders, strict=True):
        r *= math.comb(d+n, d)
    return r

# }}}


# {{{ points

def simplex_contains(x, tol):
    x = np.asarray(x, dtype=np.float64)
    if x.shape[0] == 0:
        return np.ones(x.shape[1], dtype=bool)
    return np.all(x >= -1-tol, axis=0) & (np.sum(x, axis=0) <= 2-x.shape[0]+tol)


def tp_contains(desc, x, tol):
    ok = np.ones(x.shape[1], dtype=bool)
    ofs = 0
    for d in desc:
        ok &= simplex_contains(x[ofs:ofs+d], tol)
        ofs += d
    return ok


def random_points(desc, npts, nprng):
    """Uniform random points in the shape."""
    out = []
    for d in desc:
        if d == 0:
            out.append(np.zeros((0, npts)))
            continue
        e = nprng.exponential(size=(d+1, npts))
        bary = e/e.sum(axis=0)
        out.append(2*bary[1:] - 1)
    return np.concatenate(out, axis=0) if out else np.zeros((0, npts))


def hostile_points(desc, nprng, n_random=7):
    """Points incl. all vertices, edge/face points and points very near the
    singular edges of collapsed coordinates."""
    pts = []
    for d in desc:
        if d == 0:
            pts.append(np.zeros((0, 1)))
            continue
        bary = list(np.eye(d+1))
        # edge mid- and third points
        for i in range(d+1):
            for j in range(i):
                e = np.zeros(d+1)
                e[i] = e[j] = 0.5
                bary.append(e)
                e = np.zeros(d+1)
                e[i] = 1/3
                e[j] = 2/3
                bary.append(e)
        bary.append(np.full(d+1, 1/(d+1)))
        # near each vertex, at several distances
        for i in range(d+1):
            for eps in (1e-3, 1e-6, 1e-9, 1e-13):
                w = nprng.uniform(0.1, 1, size=d+1)
                w /= w.sum()
                e = np.zeros(d+1)
                e[i] = 1
                bary.append((1-eps)*e + eps*w)
        # near each edge (3D: the collapsed edge)
        if d >= 3:
            for i in range(d+1):
                for j in range(i):
                    for eps in (1e-5, 1e-11):
                        w = nprng.uniform(0.1, 1, size=d+1)
                        w /= w.sum()
                        th = nprng.uniform(0.1, 0.9)
                        e = np.zeros(d+1)
                        e[i], e[j] = th, 1-th
                        bary.append((1-eps)*e + eps*w)
        for _ in range(n_random):
            w = nprng.exponential(size=d+1)
            bary.append(w/w.sum())
        b = np.array(bary).T
        pts.append(2*b[1:] - 1)
    if not pts:
        return np.zeros((0, 3))
    if len(pts) == 1:
        return pts[0]
    # combine: cyclic pairing long enough to meet all, plus random pairings
    m = max(p.shape[1] for p in pts)*2
    cols = []
    for i, p in enumerate(pts):
        idx = np.arange(m) % p.shape[1]
        if i:
            idx = nprng.permutation(m) % p.shape[1]
        cols.append(p[:, idx])
    return np.concatenate(cols, axis=0)

# }}}
