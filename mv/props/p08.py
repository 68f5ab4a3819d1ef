"""P08: orthonormal bases."""
from __future__ import annotations

import math

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("pointwise oracle (extended-precision recurrences of the classical "
             "polynomials) and Gram-matrix oracle with an independent cubature")
LEVEL_NOTE = (
    "Every function of every sampled basis is compared, at vertices, edges, points "
    "next to collapsed edges and random points, with an independently evaluated "
    "mode named by its identifier, and its Gram matrix with the identity. Orders "
    "and Jacobi parameters are sampled (all uniform orders up to a size bound).")

RULE = ("one case per (alpha, beta) with all orders up to a bound, per (shape, "
        "orders) basis; non-trivial if all functions were compared with the "
        "reference and their Gram matrix was decided.")
ASSUMPTIONS = [
    "-0.999 <= alpha, beta <= 400",
    "tolerance 2e-13 (1+order) relative to the largest mode at the point; 3e-9 "
    "within 1e-9 of a collapsed edge (documented tolerance of the collapse)"]
REQUIRED = ("jacobi", "scaled_jacobi", "jacobi gram", "modes", "gram",
            "end-point values", "weight", "exact rational", "high modes",
            "high gradients")


def jac(t, a, b, n, seed):
    import modepy as mp
    from modepy.modes import binom
    rng = C.nprng(seed)
    x = np.concatenate([
        np.linspace(-1, 1, 21), rng.uniform(-1, 1, 20),
        1-10.0**rng.uniform(-14, 0, 6), -1+10.0**rng.uniform(-14, 0, 6)])
    r = ref.jacobi_orthonormal_all(a, b, n, x)
    run = np.zeros(len(x))
    cl = ref.jacobi_all(a, b, n, x)
    h = [float(v) for v in ref.jacobi_norms_sq(a, b, n)]
    for k in range(n+1):
        rk = np.asarray(r[k], dtype=float)
        run = np.maximum(run, np.abs(rk))
        tol = 2e-13*(3+k)*(run + 1e-3*np.max(np.abs(rk))) \
            * (1 + 0.1*max(abs(a), abs(b)))
        got = mp.jacobi(a, b, k, x)
        d = f"alpha={a} beta={b} n={k}"
        t.close("jacobi", got, rk, tol, d)
        sc = math.sqrt(h[k])
        t.close("scaled_jacobi", mp.scaled_jacobi(a, b, k, x),
                np.asarray(cl[k], dtype=float), (tol + 1e-12*(1+k)*run)*sc, d)
        # conventional values at the ends
        e = mp.scaled_jacobi(a, b, k, np.array([1.0, -1.0]))
        w1 = math.exp(math.lgamma(k+a+1) - math.lgamma(a+1) - math.lgamma(k+1))
        w2 = math.exp(math.lgamma(k+b+1) - math.lgamma(b+1) - math.lgamma(k+1))
        w = np.array([w1, (-1)**k*w2])
        big = max(1.0, w1, w2)*1e-11*(3+k)
        t.close("end-point values", e, w, big, d)
        if math.log(max(w1, w2)) < 300 and k + max(a, b) < 150:
            # the helper for these values
            t.close("end-point values", binom(k+a, k), w1, 1e-12*(1+k+abs(a))*w1,
                    "binom "+d)
    # scalars
    xs = float(x[23])
    t.close("scalar", float(mp.jacobi(a, b, n, xs)), float(r[n][23]),
            2e-13*(3+n)*float(max(abs(v[23]) for v in r))*(1+abs(a)+abs(b)))
    # Gram matrix in the weighted inner product
    if min(a, b) > -0.99 and max(a, b) < 15 and n <= 40:
        from scipy.special import roots_jacobi
        q, w = roots_jacobi(n+2, a, b)
        v = np.array([mp.jacobi(a, b, k, q) for k in range(n+1)])
        t.close("jacobi gram", (v*w) @ v.T, np.eye(n+1), 1e-10*(1+n), f"{a} {b} {n}")
    t.state("jacobi", a, b)
    t.show(alpha=a, beta=b, orders=n+1, points=len(x))


def rational(t, p, q, n, s):
    """exact arithmetic, no floating-point reference"""
    from fractions import Fraction
    import modepy as mp
    a, b = Fraction(p, 2), Fraction(q, 2)
    for i in range(-8, 9, s):
        x = Fraction(i, 8)
        want = float(ref.jacobi_exact(a, b, n, x))
        got = float(np.asarray(mp.scaled_jacobi(float(a), float(b), n,
                                                np.array([float(x)])))[0])
        end = max(abs(float(ref.jacobi_exact(a, b, n, Fraction(1)))),
                  abs(float(ref.jacobi_exact(a, b, n, Fraction(-1)))), 1.0)
        t.close("exact rational", got, want, 1e-12*(1+n)*end, f"{a} {b} {n} {x}")


def basis(t, desc, orders, seed, default):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    sp, sh = C.mk_space(desc, orders), C.mk_shape(desc)
    make = mp.basis_for_space if default else mp.orthonormal_basis_for_space
    b = make(sp, sh)
    rng = C.nprng(seed)
    x = ref.hostile_points(desc, rng)
    near = C.near_collapsed(desc, x)
    modes = ref.tp_modes(desc, orders, x)
    scale = C.mode_scale(desc, orders, x)
    n = max(orders, default=0)
    tol = 2e-13*(3+n)*scale + np.where(near, 3e-9*(1+n)**2, 0)*scale.max(initial=0)
    t.true("weight", b.orthonormality_weight() == 1, f"{b.orthonormality_weight()}")
    ids = [C.flat_mode(m) for m in b.mode_ids]
    t.true("mode ids", sorted(ids) == sorted(modes), f"{ids[:5]}")
    for m, f in zip(ids, b.functions, strict=True):
        if m not in modes:
            continue
        t.close("modes", f(x), np.asarray(modes[m], dtype=float), tol,
                f"{desc} {orders} mode {m}")
    # Gram matrix, independent cubature
    y, w = C.tp_quad(desc, tuple(o+1 for o in orders))
    v = np.array([f(y) for f in b.functions]).reshape(len(ids), -1)
    t.close("gram", (v*w) @ v.T, np.eye(len(ids)), 1e-11*(1+n), f"{desc} {orders}")
    t.state("basis", desc, orders)
    t.note(points_compared=len(ids)*x.shape[1])
    t.show(shape=desc, orders=orders, functions=len(ids), points=int(x.shape[1]))


def high(t, d, n, seed):
    """a sample of the modes of a simplex basis of very high order"""
    import modepy as mp
    rng = C.nprng(seed)
    b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
    ids, fs, gs = b.mode_ids, b.functions, b.gradients
    x = np.concatenate([
        rng.dirichlet(np.ones(d+1), 9).T[1:]*2-1,
        rng.dirichlet(np.full(d+1, 0.15), 3).T[1:]*2-1], axis=1)
    lead = [(n,), (n-1,), (n//2,), (1,), (0,)]
    want = {(*(0,)*k, v, *(0,)*(d-1-k)) for k in range(d) for v, in lead}
    for _ in range(25):
        m = []
        for _k in range(d):
            m.append(int(rng.integers(0, n-sum(m)+1)))
        want.add(tuple(m))
    pos = {m: i for i, m in enumerate(ids)}
    for m in sorted(want):
        chain = [(*m[:-1], k) for k in range(m[-1]+1)]
        v, g = ref.simplex_modes(d, n, x, grad=True, only=chain)
        # what a change of the coordinates in the 14th digit does to the result
        cv, cg = 0, 0
        for _ in range(3):
            xp = ref.LD(1e-13)*rng.uniform(-1, 1, x.shape) + x
            vp, gp = ref.simplex_modes(d, n, xp, grad=True, only=[m])
            cv = cv + np.abs(vp[m] - v[m])/10
            cg = cg + np.abs(gp[m] - g[m])/10
        sc = np.max([np.abs(v[c]) for c in chain], axis=0)
        sg = np.max([np.abs(g[c]).max(axis=0) for c in chain], axis=0)
        # next to a vertex all modes of a chain are powers of a small, inexact number
        sc = sc + 1e-30*max(sc)
        sg = sg + 1e-30*max(sg)
        t.close("high modes", fs[pos[m]](x), np.asarray(v[m], dtype=float),
                np.asarray(4e-13*(3+n)*sc + cv + 1e-300, dtype=float), f"d={d} n={n} {m}")
        t.close("high gradients", np.array(gs[pos[m]](x)),
                np.asarray(g[m], dtype=float),
                np.asarray(4e-13*(3+n)*(sg + n*sc) + cg + 1e-300, dtype=float),
                f"d={d} n={n} {m}")
    t.state("high", d, n)
    t.show(d=d, n=n, modes=len(want))


GROUPS = {"jac": jac, "rational": rational, "basis": basis, "high": high}

PAIRS = [(0, 0), (0.5, 0.5), (-0.5, -0.5), (1, 0), (0, 1), (2, 0), (0, 3), (1, 1),
         (-0.5, 0.5), (0.5, -0.5), (-0.25, -0.75), (-0.999, 0.3), (-0.9, -0.1),
         (-0.5, -0.5+1e-13), (-0.3, -0.7+1e-9), (-0.6, -0.6), (5, 2), (12.5, 0.5),
         (-0.9, 12), (30, 30), (30, 0), (0, 25), (3, 0), (5, 0), (7, 0), (21, 0),
         (45, 44), (60, 60), (100, 0), (101, 0), (0, 103.5), (150, 3), (168, 0),
         (170, 0), (171, 0), (-0.5, 175), (90, 90), (200, 2), (400, 1), (300, 250)]


def cases(tier, rng):
    thorough = tier == "thorough"
    n = 160 if thorough else 60
    for a, b in PAIRS:
        yield "jac", {"a": a, "b": b, "n": n, "seed": rng.randrange(10**6)}
    for _ in range(600 if thorough else 40):
        a = rng.choice([rng.uniform(-0.99, 1), rng.uniform(-0.99, 8),
                        rng.randint(0, 25)])
        b = rng.choice([rng.uniform(-0.99, 1), rng.uniform(-0.99, 8),
                        rng.randint(0, 10), -1-a if -0.9 < a < -0.1 else 0.5])
        yield "jac", {"a": a, "b": b, "n": rng.choice([5, 20, n]),
                      "seed": rng.randrange(10**6)}
    for d, o in [(1, 200), (1, 500), (2, 60), (2, 76), (2, 84), (2, 85), (2, 120),
                 (3, 40), (3, 74), (3, 86)] + [(2, 200), (3, 100)]*thorough:
        yield "high", {"d": d, "n": o, "seed": rng.randrange(10**6)}
    for p in (-1, 0, 1, 2, 5):
        for q in (-1, 0, 1, 3, 4):
            for k in (0, 1, 2, 3, 6, 11):
                yield "rational", {"p": p, "q": q, "n": k, "s": 1}
    yield "basis", {"desc": [], "orders": [], "seed": 1, "default": True}
    for o in (0, 1, 4):
        yield "basis", {"desc": [0], "orders": [o], "seed": 1, "default": o == 1}
    lim = 1200 if thorough else 220
    for desc in C.SHAPES:
        hi = C.max_order(desc, lim)
        if len(desc) == 1:
            hi = {1: 60 if thorough else 40, 2: 40 if thorough else 20,
                  3: 16 if thorough else 9}[desc[0]]
        for o in range(hi+1):
            yield "basis", {"desc": list(desc), "orders": [o]*len(desc),
                            "seed": rng.randrange(10**6), "default": o % 3 == 1}
        if len(desc) > 1:
            for _ in range(60 if thorough else 10):
                o = C.random_orders(desc, rng, lim)
                yield "basis", {"desc": list(desc), "orders": list(o),
                                "seed": rng.randrange(10**6),
                                "default": rng.random() < 0.3}
    for desc, o in [((2, 1), (0, 9)), ((2, 1), (9, 0)), ((1, 2), (9, 0)),
                    ((1, 3), (1, 4)), ((3, 1), (4, 1)), ((1, 1), (0, 20)),
                    ((1, 1), (20, 0)), ((0, 1), (0, 4)), ((1, 0), (4, 0))]:
        yield "basis", {"desc": list(desc), "orders": list(o),
                        "seed": rng.randrange(10**6), "default": False}
