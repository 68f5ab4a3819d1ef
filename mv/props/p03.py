"""P03: Clenshaw-Curtis, Fejer, and transformed 1D rules."""
from __future__ import annotations

import math
import random

import numpy as np

from mv import common as C, ref

TECHNIQUE = 'moment oracle over orders and intervals'
LEVEL_NOTE = 'Every order up to a bound is checked completely; intervals are sampled.'

RULE = ("every N from the smallest allowed up to 130 (quick) / 520 (thorough), both "
        "kinds and layouts, plus seeded random (rule, interval) pairs with interval "
        "lengths from 1e-9 to 1e9; non-trivial if all Chebyshev moments up to the "
        "exactness degree were decided.")
ASSUMPTIONS = ["Chebyshev moments are evaluated from the exact nodes cos(k pi/n) "
               "identified from the returned ones"]
REQUIRED = ("clenshaw-curtis moments", "fejer moments", "nested",
            "transformed moments", "bad interval rejected")


def cheb_moment(k):
    return 0.0 if k % 2 else 2.0/(1 - k*k)


def cheb_moments_close(t, name, x, w, deg, detail=""):
    """sum_j w_j T_k(x_j) for k <= deg, by recurrence in long double."""
    x = np.asarray(x, dtype=ref.LD)
    w = np.asarray(w, dtype=ref.LD)
    tk = [np.ones_like(x), x]
    for k in range(2, deg+1):
        tk.append(2*x*tk[-1] - tk[-2])
    got = np.array([float(np.sum(w*v)) for v in tk[:deg+1]])
    want = np.array([cheb_moment(k) for k in range(deg+1)])
    # nodes carry relative rounding, amplified by T_k' <= k^2
    kk = np.arange(deg+1)
    return t.close(name, got, want, 2e-14*(1 + 0.05*kk), detail)


def layout(t, q, force, n):
    t.true("layout", q.nodes.shape == ((1, n) if force else (n,))
           and q.weights.shape == (n,) and q.dim == 1, f"{q.nodes.shape}")
    t.true("floating point", np.asarray(q.nodes).dtype.kind == "f"
           and np.asarray(q.weights).dtype.kind == "f")


def cc(t, n, force):
    import modepy as mp
    q = mp.ClenshawCurtisQuadrature(n, force_dim_axis=force)
    layout(t, q, force, n+1)
    x = np.asarray(q.nodes).reshape(-1)
    t.true("stated degree", q.exact_to == n)
    want = np.cos(np.arange(n+1)*np.pi/n)
    t.close("chebyshev extrema", np.sort(x), np.sort(want), 4e-16)
    t.true("positive weights", np.all(q.weights > 0))
    t.close("weight sum", np.sum(q.weights), 2.0, 1e-13)
    # symmetric about 0
    o = np.argsort(x)
    t.close("symmetric", q.weights[o], q.weights[o][::-1], 1e-14)
    cheb_moments_close(t, "clenshaw-curtis moments", x, q.weights, n)
    q2 = mp.ClenshawCurtisQuadrature(2*n, force_dim_axis=force)
    x2 = np.asarray(q2.nodes).reshape(-1)
    d = np.min(np.abs(x[:, None] - x2[None, :]), axis=1)
    t.close("nested", d, np.zeros_like(d), 1e-15)
    t.state("cc", n)
    t.show(rule="clenshaw-curtis", N=n, weights=C.short(q.weights))


def fejer(t, n, kind, force):
    import modepy as mp
    q = mp.FejerQuadrature(n, kind=kind, force_dim_axis=force)
    npts = n if kind == 1 else n-1
    layout(t, q, force, npts)
    x = np.asarray(q.nodes).reshape(-1)
    if kind == 1:
        want = np.cos((np.arange(n)+0.5)*np.pi/n)
    else:
        want = np.cos(np.arange(1, n)*np.pi/n)
    t.close("chebyshev points", np.sort(x), np.sort(want), 4e-16)
    t.true("kind", q.kind == kind)
    t.close("weight sum", np.sum(q.weights), 2.0, 1e-13)
    t.true("positive weights", np.all(q.weights > 0))
    cheb_moments_close(t, "fejer moments", x, q.weights, npts-1)
    if kind == 2:
        x2 = np.asarray(mp.FejerQuadrature(
            2*n, kind=2, force_dim_axis=force).nodes).reshape(-1)
        d = np.min(np.abs(x[:, None] - x2[None, :]), axis=1)
        t.close("nested", d, np.zeros_like(d), 1e-15)
    t.state("fejer", kind, n)


def base_rule(name, n, force):
    import modepy as mp
    kw = {"force_dim_axis": force}
    if name == "cc":
        return mp.ClenshawCurtisQuadrature(max(n, 1), **kw), max(n, 1)
    if name == "f1":
        return mp.FejerQuadrature(max(n, 1), kind=1, **kw), max(n, 1)-1
    if name == "f2":
        return mp.FejerQuadrature(max(n, 2), kind=2, **kw), max(n, 2)-2
    if name == "gl":
        return mp.LegendreGaussQuadrature(n, **kw), 2*n+1
    if name == "gll":
        return mp.LegendreGaussLobattoQuadrature(max(n, 1), **kw), 2*max(n, 1)-1
    raise ValueError(name)


def transformed(t, name, n, a, b, force):
    from modepy.quadrature import Transformed1DQuadrature
    q, deg = base_rule(name, n, force)
    xb, wb = q.nodes.copy(), q.weights.copy()
    tq = Transformed1DQuadrature(q, a, b)
    t.true("layout", tq.nodes.shape == q.nodes.shape
           and tq.weights.shape == q.weights.shape)
    t.true("bounds recorded", tq.left == a and tq.right == b)
    t.close("base rule unchanged", q.nodes, xb, 0)
    t.close("base rule unchanged", q.weights, wb, 0)
    x = np.asarray(tq.nodes, dtype=ref.LD).reshape(-1)
    w = np.asarray(tq.weights, dtype=ref.LD)
    if name in ("f1", "f2"):
        t.raises("degree stays unknown", AttributeError, lambda: tq.exact_to)
    else:
        t.true("stated degree", tq.exact_to == q.exact_to == deg)
    length = b - a
    big = max(abs(a), abs(b))
    slack = 4e-16*big*8
    t.true("inside the interval", np.all(x >= a-slack) and np.all(x <= b+slack))
    # Legendre polynomials transplanted to [a, b]; the rounding of nodes far from
    # the origin is part of the problem, not of the rule
    rel = 4*ref.EPS*(1 + big/length)
    la, lb = ref.LD(a), ref.LD(b)
    s = (2*x - (la+lb))/(lb-la)
    p = ref.jacobi_orthonormal_all(0, 0, deg, s)
    for k in range(deg+1):
        got = float(np.sum(w*p[k]))/length
        want = math.sqrt(2)/2 if k == 0 else 0.0
        t.close("transformed moments", got, want,
                2e-14*(4+k) + rel*(1+k)**2.5,
                f"{name} n={n} [{a}, {b}] degree {k}")
    t.close("transformed weight sum", float(np.sum(w))/length, 1.0, 1e-13)
    t.state("transformed", name, n)
    t.show(rule=name, N=n, interval=[a, b], degree=deg)


def monomial_on_interval(t, name, n, a, b):
    """Plain monomials, through the rule object."""
    from fractions import Fraction
    from modepy.quadrature import Transformed1DQuadrature
    q, deg = base_rule(name, n, True)
    tq = Transformed1DQuadrature(q, a, b)
    fa, fb = Fraction(a), Fraction(b)
    for k in range(min(deg, 12)+1):
        want = float((fb**(k+1) - fa**(k+1))/(k+1))
        m = max(abs(a), abs(b))**k*(b-a)
        t.close("transformed monomials", tq(lambda x: x[0]**k), want,
                1e-13*m*(1+k))


def reject(t, which, a, b):
    import modepy as mp
    from modepy.quadrature import Transformed1DQuadrature
    if which == "interval":
        q = mp.LegendreGaussQuadrature(3, force_dim_axis=True)
        t.raises("bad interval rejected", ValueError,
                 lambda: Transformed1DQuadrature(q, a, b), f"[{a}, {b}]")
    elif which == "cc":
        t.raises("bad order rejected", ValueError,
                 lambda: mp.ClenshawCurtisQuadrature(a, force_dim_axis=True))
    elif which == "fejer":
        t.raises("bad order rejected", ValueError,
                 lambda: mp.FejerQuadrature(a, kind=b, force_dim_axis=True))


GROUPS = {"cc": cc, "fejer": fejer, "transformed": transformed, "reject": reject,
          "monomial_on_interval": monomial_on_interval}


def cases(tier, rng):
    top = 520 if tier == "thorough" else 130
    for n in [*range(1, top+1), *range(top+1, 300, 13), 200, 255, 256, 257, 300, 400,
              511, 512, 513, 600, 1000, 1023, 1024, 1025]:
        yield "cc", {"n": n, "force": n % 2 == 0}
        if n <= 8:
            yield "cc", {"n": n, "force": n % 2 == 1}
        for kind in (1, 2):
            if n >= kind:
                yield "fejer", {"n": n, "kind": kind,
                                "force": (n+kind) % 2 == 0}
                if n <= 8:
                    yield "fejer", {"n": n, "kind": kind,
                                    "force": (n+kind) % 2 == 1}
    for a, b in [(0, 0), (1, 1), (1.0, -1.0), (2, 1), (0.0, -0.0), (-1, -3),
                 (5.0, 5.0), (1e300, -1e300), (1, 1-1e-16*0)]:
        yield "reject", {"which": "interval", "a": a, "b": b}
    for n in (0, -1, -7):
        yield "reject", {"which": "cc", "a": n, "b": 0}
        for k in (1, 2):
            yield "reject", {"which": "fejer", "a": n, "b": k}
    yield "reject", {"which": "fejer", "a": 1, "b": 2}
    for k in (0, 3, -1):
        yield "reject", {"which": "fejer", "a": 4, "b": k}
    names = ["cc", "f1", "f2", "gl", "gll"]
    fixed = [(-1, 1), (0, 1), (-3.5, -1.25), (10, 11), (0, 1e-9), (-1e9, 1e9),
             (1e6, 1e6+1), (-1e-3, 2e3), (2, 5)]
    for name in names:
        for i, (a, b) in enumerate(fixed):
            for n in (1, 2, 5, 12):
                yield "transformed", {"name": name, "n": n, "a": a, "b": b,
                                      "force": (i+n) % 2 == 0}
        for a, b in [(0, 1), (-2, 3), (1, 4), (-5, -3), (0.25, 0.75)]:
            yield "monomial_on_interval", {"name": name, "n": 6, "a": a, "b": b}
    for _ in range(2000 if tier == "thorough" else 250):
        ln = 10.0**rng.uniform(-9, 9)
        a = rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-1, 1)*ln*10])
        if not a < a + ln or ln < 1e-6*abs(a):
            a = 0.0
        yield "transformed", {"name": rng.choice(names),
                              "n": rng.choice([1, 2, 3, 4, 7, 11, 20, 31]),
                              "a": a, "b": a+ln, "force": rng.random() < 0.5}
