"""P02: Gauss and Gauss-Lobatto rules for Jacobi weights."""
from __future__ import annotations

import math
import random

import numpy as np

from mv import common as C, ref

TECHNIQUE = 'moment oracle over sampled Jacobi weights, orders and back ends'
LEVEL_NOTE = 'Complete moment check per sampled (alpha, beta, N, back end); alpha, beta and N are sampled (fixed hostile list plus seeded random), not enumerated.'

RULE = ("one case per (rule, alpha, beta, N, backend, layout); (alpha, beta) from a "
        "fixed hostile list (equal, unequal, swapped, near -1, large) plus seeded "
        "random pairs; non-trivial if the rule's moments against all reference "
        "Jacobi polynomials up to the stated degree were decided.")
ASSUMPTIONS = [
    "built-in backend: |alpha + beta + 1| > 1e-13 (the excluded line itself, which "
    "is refused with an exception)",
    "scipy backend: not for alpha = beta within 0.01 of -1/2, where scipy's own "
    "routine is inaccurate",
    "alpha, beta <= 12; N <= 513"]
REQUIRED = ("gauss moments", "lobatto moments", "interior and increasing",
            "backends agree", "lobatto nodes helper")

PAIRS = [(0, 0), (0.5, 0.5), (-0.5, -0.5), (1, 0), (0, 1), (2, 0), (0, 3),
         (1, 1), (3, 3), (0.3, -0.7), (-0.7, 0.2), (-0.9, -0.9), (-0.95, 1.5),
         (4.5, -0.3), (-0.25, 7), (5, 2), (1.5, 2.5), (10, 10), (12, 0.5),
         (-0.99, -0.2), (0.1, 0.2), (-0.5, 0.5001), (-0.3, -0.69), (-0.6, -0.2)]


# weights next to those for which special code may apply
SPECIAL = [(-0.5, -0.5), (-0.3, -0.7), (-0.9, -0.1), (-0.05, -0.95), (0, 0),
           (0.5, 0.5), (1, 1), (0.5, -0.5), (1, 0)]
OFFSETS = [1e-1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9, 1e-11]


def near_special(rng):
    a, b = rng.choice(SPECIAL)
    e = rng.choice([-1, 1]) * 10**rng.uniform(-12, -1)
    d = rng.choice([0, e, -e, rng.choice([-1, 1]) * 10**rng.uniform(-12, -1)])
    pair = rng.choice([(a+e, b+d), (a+d, b+e)])
    return tuple(max(v, -0.97) for v in pair)


def ok_pair(a, b):
    """Whether the built-in code is supposed to have a rule."""
    return abs(a+b+1) > 1e-13 or (abs(a+0.5) < 1e-15 and abs(b+0.5) < 1e-15)


def scipy_pair(a, b):
    """Whether scipy itself has an accurate rule: the third-party routine loses up to
    eight digits for Gegenbauer weights next to the Chebyshev weight."""
    return not (abs(a-b) < 1e-6 and 1e-15 < abs(a+0.5) < 1e-2)


def moments_close(t, name, x, w, a, b, deg, tolf=1.0, detail=""):
    x = np.asarray(x, dtype=ref.LD)
    w = np.asarray(w, dtype=ref.LD)
    p = np.array(ref.jacobi_orthonormal_all(a, b, deg, x))
    got = (p @ w).astype(np.float64)
    want = np.zeros(deg+1)
    want[0] = math.sqrt(ref.jacobi_total_mass(a, b))
    scale = (np.abs(p) @ np.abs(w)).astype(np.float64)
    tol = tolf*1e-13*np.maximum(scale, want[0])*(10 + deg)
    return t.close(name, got, want, tol,
                   f"alpha={a} beta={b} degree {deg} {detail}")


def xw(t, q, force):
    n = q.weights.size
    want = (1, n) if force else (n,)
    t.true("layout", q.nodes.shape == want and q.weights.shape == (n,),
           f"{q.nodes.shape}")
    t.true("dim", q.dim == 1)
    return np.asarray(q.nodes).reshape(-1), np.asarray(q.weights)


def make(kind, a, b, n, backend, force):
    import modepy as mp
    kw = {"backend": backend, "force_dim_axis": force}
    if kind == "jacobi":
        return mp.JacobiGaussQuadrature(a, b, n, **kw)
    if kind == "legendre":
        return mp.LegendreGaussQuadrature(n, **kw)
    if kind == "cheb1":
        return mp.ChebyshevGaussQuadrature(n, kind=1, **kw)
    if kind == "cheb2":
        return mp.ChebyshevGaussQuadrature(n, kind=2, **kw)
    if kind == "gegenbauer":
        return mp.GaussGegenbauerQuadrature(a, n, **kw)
    raise ValueError(kind)


def gauss(t, kind, a, b, n, backend, force):
    q = make(kind, a, b, n, backend, force)
    x, w = xw(t, q, force)
    t.true("number of nodes", x.size == n+1, f"{x.size}")
    t.true("stated degree", q.exact_to == 2*n+1, f"{q.exact_to}")
    t.true("parameters", q.alpha == a and q.beta == b)
    t.true("interior and increasing",
           np.all(np.diff(x) > 0) and x[0] > -1 and x[-1] < 1, lambda: f"{x}")
    t.true("positive weights", np.all(w > 0), lambda: f"{w}")
    moments_close(t, "gauss moments", x, w, a, b, 2*n+1,
                  tolf=10 if min(a, b) < -0.8 or max(a, b) > 4 else 1)
    if a == b:
        t.close("symmetric", x, -x[::-1], 1e-13)
        t.close("symmetric", w, w[::-1], 2e-12*np.max(w))
    t.state(kind, a, b, n)
    t.show(kind=kind, alpha=a, beta=b, N=n, backend=backend, nodes=C.short(x))


def backends(t, kind, a, b, n):
    q1 = make(kind, a, b, n, "builtin", True)
    q2 = make(kind, a, b, n, "scipy", True)
    q3 = make(kind, a, b, n, None, True)
    sc = 1e-11*(1+n)
    t.close("backends agree", q1.nodes, q2.nodes, sc)
    t.close("backends agree", q1.weights, q2.weights,
            sc*(1 + np.max(q2.weights)))
    t.close("backends agree", q3.nodes, q1.nodes, 1e-13)
    t.true("stated degree", q1.exact_to == q2.exact_to == 2*n+1)
    # the mirrored weight function has the mirrored rule
    if kind == "jacobi":
        m = make(kind, b, a, n, "builtin", True)
        t.close("mirror", m.nodes, -q1.nodes[:, ::-1], sc)
        t.close("mirror", m.weights, q1.weights[::-1], sc*(1+np.max(q1.weights)))


def lobatto(t, a, b, n, backend, force, legendre=False):
    import modepy as mp
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes)
    if legendre:
        q = mp.LegendreGaussLobattoQuadrature(n, backend=backend,
                                              force_dim_axis=force)
        h = legendre_gauss_lobatto_nodes(n, backend=backend, force_dim_axis=force)
    else:
        q = mp.JacobiGaussLobattoQuadrature(a, b, n, backend=backend,
                                            force_dim_axis=force)
        h = jacobi_gauss_lobatto_nodes(a, b, n, backend=backend,
                                       force_dim_axis=force)
    x, w = xw(t, q, force)
    t.true("number of nodes", x.size == n+1)
    t.true("stated degree", q.exact_to == 2*n-1, f"{q.exact_to}")
    t.true("end points", x[0] == -1 and x[-1] == 1, lambda: f"{x[0]} {x[-1]}")
    t.true("increasing", np.all(np.diff(x) > 0))
    t.true("positive weights", np.all(w > 0), lambda: f"{w}")
    moments_close(t, "lobatto moments", x, w, a, b, 2*n-1,
                  tolf=20 if min(a, b) < -0.8 or max(a, b) > 4 else 2)
    t.close("lobatto nodes helper", h, q.nodes, 1e-15)
    t.state("lobatto", a, b, n)
    t.show(rule="lobatto", alpha=a, beta=b, N=n, weights=C.short(w))


def lobatto_nodes(t, a, b, n, backend, force):
    """The node helper on its own, at orders for which no rule needs to exist."""
    from modepy.quadrature.jacobi_gauss import (
        jacobi_gauss_lobatto_nodes, legendre_gauss_lobatto_nodes)
    h = (legendre_gauss_lobatto_nodes(n, backend=backend, force_dim_axis=force)
         if a == b == 0 else
         jacobi_gauss_lobatto_nodes(a, b, n, backend=backend, force_dim_axis=force))
    t.true("layout", h.shape == ((1, n+1) if force else (n+1,)), f"{h.shape}")
    h = np.asarray(h, dtype=ref.LD).reshape(-1)
    if n == 0:
        t.true("lobatto nodes helper", h[0] == 0)
        return
    t.true("end points", h[0] == -1 and h[-1] == 1)
    # interior nodes are the zeros of the derivative of P_n^{(a,b)}
    if n > 1:
        p = ref.jacobi_orthonormal_all(a+1, b+1, n-1, h[1:-1])[n-1]
        dp = ref.jacobi_orthonormal_deriv_all(a+1, b+1, n-1, h[1:-1])[n-1]
        t.close("lobatto nodes helper", (p/dp).astype(float), np.zeros(n-1),
                1e-13*(1+n) if max(a, b) < 5 else 1e-12*(1+n))
    t.true("increasing", np.all(np.diff(h) > 0))


def tp_nodes(t, dims, n):
    """Node-only tensor product helpers, first axis varying fastest."""
    import modepy as mp
    g = mp.LegendreGaussQuadrature(n, force_dim_axis=True).nodes.reshape(-1)
    x = mp.legendre_gauss_tensor_product_nodes(dims, n)
    want = np.array([a.reshape(-1, order="F")
                     for a in np.meshgrid(*([g]*dims), indexing="ij")])
    t.close("tensor product node helper", x, want, 1e-15)
    from modepy.quadrature.jacobi_gauss import legendre_gauss_lobatto_nodes
    g = legendre_gauss_lobatto_nodes(n, force_dim_axis=True).reshape(-1)
    x = mp.legendre_gauss_lobatto_tensor_product_nodes(dims, n)
    want = np.array([a.reshape(-1, order="F")
                     for a in np.meshgrid(*([g]*dims), indexing="ij")])
    t.close("tensor product node helper", x, want, 1e-15)


def restriction(t, a, b, n):
    """alpha + beta = -1: refused by the built-in backend, exact with scipy."""
    import modepy as mp
    t.raises("excluded line is refused", ValueError,
             lambda: mp.JacobiGaussQuadrature(a, b, n, force_dim_axis=True))
    q = mp.JacobiGaussQuadrature(a, b, n, backend="scipy", force_dim_axis=True)
    moments_close(t, "gauss moments", q.nodes[0], q.weights, a, b, 2*n+1, tolf=20)


def too_short(t, a, b, n, backend):
    import modepy as mp
    t.raises("lobatto needs two nodes", ValueError,
             lambda: mp.JacobiGaussLobattoQuadrature(
                 a, b, n, backend=backend, force_dim_axis=True))


def many(t, seed, count):
    """Random parameters."""
    rng = random.Random(seed)
    for _ in range(count):
        a = rng.choice([rng.uniform(-0.97, 3), rng.uniform(-0.97, 10),
                        float(rng.randint(0, 8)), rng.randint(0, 6)])
        b = rng.choice([rng.uniform(-0.97, 3), rng.uniform(-0.97, 10), a,
                        float(rng.randint(0, 8)), rng.randint(0, 6)])
        if rng.random() < 0.3:
            a, b = near_special(rng)
        if not ok_pair(a, b):
            continue
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 40)])
        backend = rng.choice([None, "builtin", "scipy"])
        if backend == "scipy" and not scipy_pair(a, b):
            backend = "builtin"
        gauss(t, "jacobi", a, b, n, backend, rng.random() < 0.5)
        if n >= 1:
            lobatto(t, a, b, n, backend, rng.random() < 0.5)


GROUPS = {"gauss": gauss, "backends": backends, "lobatto": lobatto,
          "lobatto_nodes": lobatto_nodes, "tp_nodes": tp_nodes,
          "restriction": restriction, "too_short": too_short, "many": many}


def cases(tier, rng):
    thorough = tier == "thorough"
    ns = [0, 1, 2, 3, 4, 5, 7, 10, 16, 25]
    if thorough:
        ns = list(range(0, 40)) + [50, 64, 80, 100]
    for a, b in PAIRS:
        for n in ns:
            force = (n + int(10*abs(a))) % 3 != 0
            backend = [None, "builtin"][n % 2]
            yield "gauss", {"kind": "jacobi", "a": a, "b": b, "n": n,
                            "backend": backend, "force": force}
            yield "gauss", {"kind": "jacobi", "a": a, "b": b, "n": n,
                            "backend": "scipy", "force": not force}
            yield "backends", {"kind": "jacobi", "a": a, "b": b, "n": n}
            if n >= 1:
                yield "lobatto", {"a": a, "b": b, "n": n, "backend": backend,
                                  "force": force}
                if n % 2:
                    yield "lobatto", {"a": a, "b": b, "n": n,
                                      "backend": "scipy", "force": not force}
            yield "lobatto_nodes", {"a": a, "b": b, "n": n,
                                    "backend": [None, "scipy"][n % 2],
                                    "force": not force}
    for a, b in SPECIAL:
        for e in OFFSETS:
            for da, db in [(e, 0), (0, -e), (e, e), (-e, e)]:
                for n in ([1, 2, 5, 12, 30] if thorough
                          else [rng.choice([1, 2, 3, 4]), rng.choice([6, 9, 17])]):
                    if not ok_pair(a+da, b+db) or min(a+da, b+db) < -0.98:
                        continue
                    yield "gauss", {"kind": "jacobi", "a": a+da, "b": b+db,
                                    "n": n, "backend": None, "force": True}
                    if n < 5:
                        yield "lobatto", {"a": a+da, "b": b+db, "n": n,
                                          "backend": None, "force": True}
    special = [("legendre", 0, 0), ("cheb1", -0.5, -0.5), ("cheb2", 0.5, 0.5),
               ("gegenbauer", 0.5, 0.5), ("gegenbauer", 2, 2),
               ("gegenbauer", -0.4, -0.4), ("gegenbauer", 0.25, 0.25),
               ("gegenbauer", -0.5, -0.5)]
    for kind, a, b in special:
        for n in range(0, 60 if thorough else 24):
            for backend in (None, "scipy"):
                yield "gauss", {"kind": kind, "a": a, "b": b, "n": n,
                                "backend": backend, "force": n % 2 == 0}
            yield "backends", {"kind": kind, "a": a, "b": b, "n": n}
    for n in list(range(1, 60 if thorough else 25)):
        for backend in (None, "builtin", "scipy"):
            yield "lobatto", {"a": 0, "b": 0, "n": n, "backend": backend,
                              "force": n % 2 == 0, "legendre": True}
    for a, b in [(60, 60), (100, 0), (0, 101), (150, 3), (3, 150), (168, 0), (200, 2),
                 (300, 250), (-0.5, 175), (50, 20)]:
        for n in (0, 1, 2, 5, 10, 20):
            for backend in (None, "scipy"):
                yield "gauss", {"kind": "jacobi", "a": a, "b": b, "n": n,
                                "backend": backend, "force": True}
            if n:
                yield "lobatto", {"a": a, "b": b, "n": n, "backend": None,
                                  "force": True}
            yield "lobatto_nodes", {"a": a, "b": b, "n": n, "backend": None,
                                    "force": True}
    for n in [26, 28, 30, 32, 33, 36, 40, 42, 45, 48, 50, 51, 55, 60, 64, 65, 70, 75,
              80, 90, 100, 101, 120, 127, 128, 129, 150, 180, 200, 255, 256, 257, 300,
              400, 512, 513]:
        some = [(0, 0), (0.5, 0.5), (-0.5, -0.5), (1, 0), (2.5, -0.3)]
        for a, b in some if n in (60, 100, 150) or thorough else some[n % 5:][:2]:
            yield "gauss", {"kind": "jacobi", "a": a, "b": b, "n": n,
                            "backend": None, "force": True}
            yield "lobatto", {"a": a, "b": b, "n": n, "backend": None,
                              "force": True}
            yield "lobatto_nodes", {"a": a, "b": b, "n": n, "backend": None,
                                    "force": False}
        for kind, a in [("legendre", 0), ("cheb1", -0.5), ("cheb2", 0.5),
                        ("gegenbauer", 1.5)]:
            for be in (None, "scipy"):
                yield "gauss", {"kind": kind, "a": a, "b": a, "n": n,
                                "backend": be, "force": True}
        yield "lobatto", {"a": 0, "b": 0, "n": n, "backend": None, "force": False,
                          "legendre": True}
        yield "backends", {"kind": "legendre", "a": 0, "b": 0, "n": n}
    for n in [200, 300]*thorough:
        for a, b in [(0, 0), (0.5, 0.5), (-0.5, -0.5), (1, 0), (2.5, -0.3)]:
            yield "gauss", {"kind": "jacobi", "a": a, "b": b, "n": n,
                            "backend": None, "force": True}
            yield "lobatto", {"a": a, "b": b, "n": n, "backend": None,
                              "force": True}
            yield "lobatto_nodes", {"a": a, "b": b, "n": n, "backend": None,
                                    "force": False}
    for dims in (1, 2, 3):
        for n in range(0, 6):
            yield "tp_nodes", {"dims": dims, "n": n}
    for a, b in [(-0.25, -0.75), (-0.75, -0.25), (0.0, -1 + 0.0 + 1e-30 - 0),
                 (-0.9, -0.1)]:
        if b <= -1:
            continue
        for n in (0, 1, 3, 8):
            yield "restriction", {"a": a, "b": b, "n": n}
    for a, b in [(0, 0), (0.5, 0.5), (1, 0)]:
        for backend in (None, "builtin", "scipy"):
            yield "too_short", {"a": a, "b": b, "n": 0, "backend": backend}
    for _ in range(1600 if thorough else 60):
        yield "many", {"seed": rng.getrandbits(40), "count": 12}
