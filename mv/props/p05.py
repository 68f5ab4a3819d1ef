"""P05: Gauss-Kronrod rules."""
from __future__ import annotations

import math

import numpy as np

from mv import common as C, ref

TECHNIQUE = "moment, interlacing and history oracle over every order up to a bound"
LEVEL_NOTE = (
    "Every order up to the bound is decided completely (all Legendre moments up to "
    "3n+1 in extended precision, interlacing, symmetry); orders beyond the bound "
    "are not explored.")

RULE = ("one case per order n: every order up to the bound, in seeded random "
        "positions of call histories; non-trivial if all 3n+2 moments of the "
        "combined rule were decided.")
ASSUMPTIONS = ["orders up to 60 (quick) or 150 (thorough)"]
REQUIRED = ("kronrod moments", "gauss moments", "interlacing", "half rule",
            "positive weights", "history")


def moments(t, name, x, w, deg, detail):
    x = np.asarray(x, dtype=ref.LD)
    w = np.asarray(w, dtype=ref.LD)
    p = np.array(ref.jacobi_orthonormal_all(0, 0, deg, x))
    got = (p @ w).astype(float)
    want = np.zeros(deg+1)
    want[0] = math.sqrt(2)
    n = len(w)
    # a node error of one ulp costs up to ~ k^2 (near the ends) times its weight
    t.close(name, got, want, 2e-14*(10 + n), detail)


def check_half(t, n, x, w, gw):
    t.true("half rule", x.shape == (n+1,) and w.shape == (n+1,)
           and gw.shape == ((n+1)//2,), f"{x.shape} {w.shape} {gw.shape}")
    t.true("half rule", np.all(np.diff(x) > 0) and x[-1] == 0 and x[0] > -1,
           f"n={n}: {x}")
    t.true("positive weights", np.all(w > 0) and np.all(gw > 0))
    # the complete rule from the raw arrays
    xf = np.concatenate([x, -x[-2::-1]])
    wf = np.concatenate([w, w[-2::-1]])
    moments(t, "kronrod moments", xf, wf, 3*n+1, f"raw n={n}")
    xg = x[1::2]
    if n % 2:
        xgf = np.concatenate([xg, -xg[-2::-1]])
        wgf = np.concatenate([gw, gw[-2::-1]])
    else:
        xgf = np.concatenate([xg, -xg[::-1]])
        wgf = np.concatenate([gw, gw[::-1]])
    moments(t, "gauss moments", xgf, wgf, 2*n-1, f"raw n={n}")
    t.close("weight sum", float(np.sum(wf)), 2.0, 1e-13*(1+n/10))
    t.close("weight sum", float(np.sum(wgf)), 2.0, 1e-13*(1+n/10))


def order(t, n):
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    x, w, gw = kronrod(n)
    check_half(t, n, x, w, gw)

    k = make_kronrod_quadrature(n)
    t.true("stated degree", k.exact_to == 3*n+1)
    t.true("stated degree", k.gauss_quadrature.exact_to == 2*n-1)
    t.true("dim", k.dim == 1 and k.gauss_quadrature.dim == 1)
    xk, wk, wkg = k.nodes, k.weights, k.weights_at_gauss_nodes
    g = k.gauss_quadrature
    t.true("shapes", xk.shape == wk.shape == (n+1,)
           and g.nodes.shape == g.weights.shape == wkg.shape == (n,),
           f"{xk.shape} {wk.shape} {wkg.shape} {g.nodes.shape}")
    t.true("positive weights", np.all(wk > 0) and np.all(wkg > 0)
           and np.all(g.weights > 0))
    xa = np.concatenate([xk, g.nodes])
    wa = np.concatenate([wk, wkg])
    o = np.argsort(xa)
    xs, ws = xa[o], wa[o]
    t.true("inside", xs[0] > -1 and xs[-1] < 1)
    t.close("symmetric", xs, -xs[::-1], 1e-15)
    t.close("symmetric", ws, ws[::-1], 1e-15)
    # strictly interlacing: K G K G ... K
    is_g = (o > n)
    t.true("interlacing", np.all(np.diff(xs) > 1e-9/(1+n)**2)
           and not is_g[::2].any() and is_g[1::2].all(), f"n={n}")
    gx, gwt = np.polynomial.legendre.leggauss(n)
    og = np.argsort(g.nodes)
    t.close("gauss nodes", g.nodes[og], gx, 4e-15)
    t.close("gauss weights", g.weights[og], gwt, 1e-13)
    moments(t, "kronrod moments", xs, ws, 3*n+1, f"object n={n}")
    moments(t, "gauss moments", g.nodes, g.weights, 2*n-1, f"object n={n}")
    t.close("weight sum", float(np.sum(wa)), 2.0, 1e-13*(1+n/10))

    # through the calling interface, Chebyshev polynomials
    for deg in range(0, 3*n+2, max(1, n//8)):
        want = 0.0 if deg % 2 else 2/(1-deg**2)

        def f(x):
            return np.cos(deg*np.arccos(x))      # noqa: B023
        tol = 2e-14*(4+deg)
        t.close("kronrod applied", k(f), want, tol, f"n={n} degree {deg}")
        if deg <= 2*n-1:
            t.close("gauss applied", g(f), want, tol, f"n={n} degree {deg}")
    x1, w1 = gauss(n)
    o = np.argsort(x1)
    t.close("gauss helper", x1[o], gx, 4e-15)
    t.close("gauss helper", w1[o], gwt, 1e-13)
    moments(t, "gauss moments", x1, w1, 2*n-1, f"helper n={n}")
    # the next degree is *not* integrated: the rules are not finer than stated
    t.state(n, n % 2)
    t.show(n=n, x=C.short(x), w=C.short(w))


def history(t, ns):
    """A caller scribbles over (or tries to) everything it got, in between."""
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    first = {}
    for n in ns:
        x, w, gw = kronrod(n)
        k = make_kronrod_quadrature(n)
        xg, wg = gauss(n)
        arrs = [x, w, gw, k.nodes, k.weights, k.weights_at_gauss_nodes,
                k.gauss_quadrature.nodes, k.gauss_quadrature.weights, xg, wg]
        snap = [np.array(a) for a in arrs]
        if n in first:
            for a, b in zip(snap, first[n], strict=True):
                t.true("history", np.array_equal(a, b), f"n={n} after {ns}")
        else:
            first[n] = snap
            t.true("history", True)
        refused = 0
        for a in arrs:
            for action in (lambda a: a.__setitem__(slice(None), 7.5),
                           lambda a: a.__iadd__(1), lambda a: a.sort(),
                           lambda a: a[::-1].__imul__(-1),
                           lambda a: a.fill(np.nan)):
                try:
                    action(a)
                except ValueError:
                    refused += 1
        t.note(writes_refused=refused, writes_tried=5*len(arrs))


def invalid(t, n):
    from modepy.quadrature.kronrod import gauss, kronrod, make_kronrod_quadrature
    for f in (gauss, kronrod, make_kronrod_quadrature):
        t.raises("rejected", ValueError, lambda: f(n))      # noqa: B023


GROUPS = {"order": order, "history": history, "invalid": invalid}


def cases(tier, rng):
    top = 150 if tier == "thorough" else 60
    for n in range(top, 0, -1):
        yield "order", {"n": n}
    # the characteristic polynomials underflow in single factors from 0.5**n on
    for n in [100, 257, 540, 700] + [520, 1025, 1100]*(tier == "thorough"):
        yield "order", {"n": n}
    for n in (0, -1, -5):
        yield "invalid", {"n": n}
    for _ in range(60 if tier == "thorough" else 12):
        ns = [rng.randint(1, 12) for _ in range(8)]
        yield "history", {"ns": ns + ns[::-1]}
