"""P07: transplant maps."""
from __future__ import annotations

import math
from functools import partial

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("pointwise oracle (extended-precision closed forms, theta series, "
             "fundamental theorem of calculus) over sampled maps and parameters")
LEVEL_NOTE = (
    "Every odd sausage degree up to a bound, seeded KTE and strip parameters; each "
    "map is observed at hundreds of points including end points and their "
    "neighbourhood, and compared with an independent closed form. Parameters are "
    "sampled.")

RULE = ("one case per (map, parameter) with several hundred points; per (base rule, "
        "map, layout) for transplanted rules; non-trivial if values, derivatives "
        "and monotonicity were decided at all points.")
ASSUMPTIONS = [
    "strip map: 1.12 <= rho <= 100, compared with theta series from rho = 1.2 on; "
    "rho = 1.08 is a known finding (known_findings.json)",
    "KTE: alpha in (0, 1 - 1e-6]"]
REQUIRED = ("odd", "increasing", "fixed end points", "derivative", "closed form",
            "weights scaled", "base untouched", "analytic convergence",
            "rejected")

LD = ref.LD


def get_map(kind, p):
    from modepy.quadrature.transplanted import (
        map_identity, map_kosloff_tal_ezer, map_sausage, map_strip)
    if kind == "identity":
        return map_identity
    if kind == "sausage":
        return partial(map_sausage, degree=p)
    if kind == "kte_rho":
        return partial(map_kosloff_tal_ezer, rho=p)
    if kind == "kte_alpha":
        return partial(map_kosloff_tal_ezer, alpha=p)
    if kind == "kte_default":
        return map_kosloff_tal_ezer
    if kind == "strip":
        return partial(map_strip, rho=p)
    if kind == "strip_default":
        return map_strip
    raise ValueError(kind)


def theta(q, z):
    """theta_1/theta_4 and its derivative, theta_2/theta_3"""
    q = LD(q)
    t1 = t2 = LD(0)
    t4 = np.ones_like(z)
    t3 = LD(1)
    d1 = d4 = np.zeros_like(z)
    for n in range(400):
        e = (LD(n)+LD(1)/2)**2
        c = 2*q**e
        s = -1 if n % 2 else 1
        t1 = t1 + s*c*np.sin((2*n+1)*z)
        d1 = d1 + s*c*(2*n+1)*np.cos((2*n+1)*z)
        t2 = t2 + c
        m = n+1
        c4 = 2*q**(LD(m)**2)
        s4 = -1 if m % 2 else 1
        t4 = t4 + s4*c4*np.cos(2*m*z)
        d4 = d4 - s4*c4*2*m*np.sin(2*m*z)
        t3 = t3 + c4
        if c < 1e-24:
            break
    return t1/t4, (d1*t4 - t1*d4)/t4**2, t2/t3


def closed_form(kind, p, s):
    """(g, g', tolerance) or None"""
    s = np.asarray(s, dtype=LD)
    if kind == "identity":
        return s, np.ones_like(s), 0
    if kind == "sausage":
        g = np.zeros_like(s)
        gp = np.zeros_like(s)
        tot = LD(0)
        for k in range((p+1)//2):
            c = LD(math.comb(2*k, k))/LD(4)**k
            tot += c/(2*k+1)
            g = g + c/(2*k+1)*s**(2*k+1)
            gp = gp + c*s**(2*k)
        return g/tot, gp/tot, 2e-15*p + 2e-14
    if kind.startswith("kte"):
        if kind == "kte_default":
            p = 1.4
        al = LD(p) if kind == "kte_alpha" else 2/(LD(p)+1/LD(p))
        cond = float(1/(1-al))
        return (np.arcsin(al*s)/np.arcsin(al),
                al/(np.arcsin(al)*np.sqrt(1-al*al*s*s)), 1e-14*cond + 1e-14)
    if kind.startswith("strip"):
        rho = 1.4 if kind == "strip_default" else p
        if rho < 1.2:
            return None
        # nome exp(-pi K'/K) = rho^-4
        z = np.arcsin(s)
        r, rp, k2 = theta(LD(rho)**-4, z)
        den = np.arctanh(k2)
        gp = rp/(1-r*r)/den/np.cos(z)
        return np.arctanh(r)/den, gp, (1e-5 if rho < 1.4 else 1e-8)
    raise ValueError(kind)


def one_map(t, kind, p, seed):
    fn = get_map(kind, p)
    rng = C.nprng(seed)
    strip = kind.startswith("strip")
    s = np.concatenate([
        np.linspace(-1, 1, 101), rng.uniform(-1, 1, 200),
        1-10.0**rng.uniform(-6, 0, 30), [0.0, 1e-8, 1e-300, -1e-5]])
    s = np.unique(np.concatenate([s, -s]))
    if strip:
        s = s[np.abs(s) < 1-1e-7]
    s0 = s.copy()
    g, gp = fn(s)
    t.true("argument untouched", np.array_equal(s, s0))
    t.true("shapes", g.shape == s.shape and gp.shape == s.shape)
    d = f"{kind} {p}"
    t.close("odd", g, -g[::-1], 4e-15, d)
    t.close("odd", gp, gp[::-1], 1e-9*np.max(np.abs(gp)) if strip
            else 1e-13*np.max(np.abs(gp)), d + " derivative even")
    t.true("increasing", np.all(gp > 0) and np.all(np.isfinite(gp)), d)
    gap = np.diff(s) > 1e-9
    t.true("increasing", np.all(np.diff(g)[gap] > 0) and np.all(np.diff(g) >= -2e-12),
           f"{d}: map not increasing")
    t.true("contained", np.all(np.abs(g) <= 1+1e-14))
    if strip:
        e = np.array([-1+1e-12, 1-1e-12])
        ge, _ = fn(e)
        # |g(1-h) - 1| ~ h g'
        t.close("fixed end points", ge, [-1.0, 1.0], 1e-9, d)
    else:
        e = np.array([-1.0, 1.0])
        t.close("fixed end points", fn(e)[0], e, 1e-14, d)
    t.close("fixed end points", fn(np.array([0.0]))[0], [0.0], 1e-15, d)
    # single points, other shapes
    i = rng.integers(0, len(s), 5)
    for j in i:
        a, b = fn(s[j:j+1])
        t.close("pointwise", a, g[j:j+1], 1e-14*(1+abs(g[j])), d)
        t.close("pointwise", b, gp[j:j+1], 1e-12*abs(gp[j]), d)
    cf = closed_form(kind, p, s)
    if cf is not None:
        cg, cgp, tol = cf
        t.close("closed form", g, cg.astype(float), tol + 1e-15, d)
        near = 1e-16/np.maximum(1-np.abs(s), 1e-16) if strip else 0.0
        t.close("closed form", gp, cgp.astype(float),
                (30*tol + 3e-15 + near*1e2)*np.maximum(1, np.abs(
                    cgp.astype(float)))*(1 + float(np.max(cgp))), d)
    # g(b) - g(a) = int_a^b g'
    x, w = np.polynomial.legendre.leggauss(40)
    ends = [(-0.9, -0.2), (0.0, 0.5), (0.3, 0.8), (-0.05, 0.9)]
    ends += [tuple(sorted(rng.uniform(-0.97, 0.97, 2))) for _ in range(6)]
    for a, b in ends:
        y = a + (b-a)*(x+1)/2
        integral = np.sum(w*fn(y)[1])*(b-a)/2
        want = fn(np.array([b]))[0][0] - fn(np.array([a]))[0][0]
        t.close("derivative", integral, want, 1e-9, f"{d} over [{a}, {b}]")
    # centred differences, fourth order
    h = 1e-3
    y = np.linspace(-0.95, 0.95, 39)
    fd = (8*(fn(y+h)[0] - fn(y-h)[0]) - (fn(y+2*h)[0] - fn(y-2*h)[0]))/(12*h)
    t.close("derivative", fn(y)[1], fd, 1e-5*np.maximum(1, np.abs(fd)), d)
    t.state(kind, p)
    t.show(map=kind, parameter=p, points=int(s.size),
           slope_range=[float(gp.min()), float(gp.max())])


def many(t, kind, p, n):
    """a long array, each entry on its own"""
    fn = get_map(kind, p)
    s = np.sin(np.pi*(np.arange(n)+0.5-n/2)/n*0.999)/1.01
    g, gp = fn(s)
    d = f"{kind} {p} n={n}"
    if not t.true("shapes", g.shape == (n,) and gp.shape == (n,), d):
        return
    t.true("increasing", np.all(np.diff(g) > 0) and np.all(gp > 0), d)
    for i in {0, n-1, n//2, n//3, min(n-1, 128), min(n-1, 520), min(n-1, 1024),
              *(int(j) for j in np.linspace(0, n-1, 40))}:
        a, b = fn(s[i:i+1])
        t.close("pointwise", a[0], g[i], 1e-14*(1+abs(g[i])), d)
        t.close("pointwise", b[0], gp[i], 1e-12*abs(gp[i]), d)
    t.show(map=kind, parameter=p, points=n)


def base(name, n, force):
    import modepy as mp
    kw = {"force_dim_axis": force}
    return {"gl": lambda: mp.LegendreGaussQuadrature(n, **kw),
            "gll": lambda: mp.LegendreGaussLobattoQuadrature(n, **kw),
            "cc": lambda: mp.ClenshawCurtisQuadrature(n, **kw),
            "f1": lambda: mp.FejerQuadrature(n, kind=1, **kw),
            "f2": lambda: mp.FejerQuadrature(n, kind=2, **kw),
            "cheb": lambda: mp.ChebyshevGaussQuadrature(n, **kw)}[name]()


def rule(t, kind, p, name, n, force):
    from modepy import transplanted_1d_quadrature
    fn = get_map(kind, p)
    q = base(name, n, force)
    x0, w0 = q.nodes.copy(), q.weights.copy()
    d = f"{kind} {p} on {name}({n}) force={force}"
    tq = transplanted_1d_quadrature(q, fn)
    t.true("base untouched", np.array_equal(q.nodes, x0)
           and np.array_equal(q.weights, w0), d)
    t.true("layout", tq.nodes.shape == x0.shape and tq.weights.shape == w0.shape
           and tq.dim == 1, f"{tq.nodes.shape} {d}")
    g, gp = fn(x0.reshape(-1))
    t.close("nodes mapped", tq.nodes.reshape(-1), g, 1e-15, d)
    t.close("weights scaled", tq.weights, w0*gp,
            1e-14*np.max(np.abs(w0*gp), initial=0), d)
    if kind == "identity" and name not in ("f1", "f2"):
        t.true("exact degree", tq.exact_to == q.exact_to)
    else:
        t.raises("exact degree", AttributeError, lambda: tq.exact_to, d)
    # what the caller does to the new rule must not reach the base rule
    try:
        tq.nodes[...] = 7
        tq.weights[...] = 7
    except ValueError:
        pass
    t.true("base untouched", np.array_equal(q.nodes, x0)
           and np.array_equal(q.weights, w0), d + " (after overwriting the result)")


def gauss(t, kind, p, n, force):
    """the convenience constructor is the composition"""
    import modepy as mp
    fn = get_map(kind, p)
    q = mp.transplanted_legendre_gauss_quadrature(n, fn, force_dim_axis=force)
    r = mp.transplanted_1d_quadrature(
        mp.LegendreGaussQuadrature(n, force_dim_axis=force), fn)
    t.close("convenience", q.nodes, r.nodes, 1e-15)
    t.close("convenience", q.weights, r.weights, 1e-15)
    for b in ("builtin", "scipy"):
        qb = mp.transplanted_legendre_gauss_quadrature(
            n, fn, backend=b, force_dim_axis=force)
        t.close("convenience", qb.nodes, q.nodes, 1e-12)
        t.close("convenience", qb.weights, q.weights, 1e-11)


FUNCS = {
    "exp": (np.exp, math.e - 1/math.e),
    "runge": (lambda x: 1/(1+16*x*x), math.atan(4.0)/2),
    "cos": (lambda x: np.cos(7*x+0.3),
            (math.sin(7.3) - math.sin(-6.7))/7),
    "cube": (lambda x: x**3 + x**2, 2/3),
    "one": (np.ones_like, 2.0),
    "pole": (lambda x: 1/(x-1.2), math.log(0.2/2.2)),
}


def converge(t, kind, p, fname):
    import modepy as mp
    fn = get_map(kind, p)
    f, want = FUNCS[fname]
    errs = []
    for n in (10, 40, 160, 320):
        q = mp.transplanted_legendre_gauss_quadrature(
            n, fn, force_dim_axis=n % 20 == 0)
        errs.append(abs(float(q(lambda x: f(x.reshape(-1)) if x.ndim == 1
                                else f(x[0]))) - want))
    t.true("analytic convergence", errs[-1] <= 1e-9 and errs[-2] <= 1e-5
           and errs[-1] <= 10*errs[0] + 1e-9,
           f"{kind} {p} {fname}: errors {errs}")
    t.state("converge", kind, p, fname)
    t.show(map=kind, parameter=p, f=fname, errors=errs)


def reject(t):
    import modepy as mp
    from modepy.quadrature.transplanted import (
        map_kosloff_tal_ezer, map_sausage, map_strip)
    s = np.linspace(-0.9, 0.9, 5)
    for deg in (0, -1, -3, 2, 4, 10):
        t.raises("rejected", ValueError, lambda: map_sausage(s, deg))  # noqa: B023
        t.raises("rejected", ValueError,
                 lambda: mp.transplanted_legendre_gauss_quadrature(
                     5, partial(map_sausage, degree=deg)))     # noqa: B023
    for rho in (1.0, 0.5, 0.0, -2.0, 1):
        t.raises("rejected", ValueError,
                 lambda: map_kosloff_tal_ezer(s, rho=rho))     # noqa: B023
        t.raises("rejected", ValueError, lambda: map_strip(s, rho=rho))  # noqa: B023
    for al in (0.0, 1.0, -0.3, 1.5, math.nan, math.inf, -math.inf, 2):
        t.raises("rejected", ValueError,
                 lambda: map_kosloff_tal_ezer(s, alpha=al))    # noqa: B023
    for bad in ([-1.0, 0.0], [0.0, 1.0], [1.5], [-1.0000001]):
        t.raises("rejected", ValueError, lambda: map_strip(np.array(bad)))  # noqa: B023
    for name in ("gll", "cc"):
        t.raises("rejected", ValueError,
                 lambda: mp.transplanted_1d_quadrature(
                     base(name, 4, True), map_strip))      # noqa: B023
    for q in (mp.XiaoGimbutasSimplexQuadrature(3, 2),
              mp.LegendreGaussTensorProductQuadrature(2, 2),
              mp.ZeroDimensionalQuadrature()):
        t.raises("rejected", ValueError,
                 lambda: mp.transplanted_1d_quadrature(
                     q, get_map("sausage", 3)))     # noqa: B023
    # alpha overrules rho, even an inadmissible one
    a = map_kosloff_tal_ezer(s, alpha=0.5, rho=0.3)
    b = map_kosloff_tal_ezer(s, alpha=0.5)
    t.close("alpha overrules rho", a[0], b[0], 0)


def strip_edge(t, rho):
    """nearer to rho = 1"""
    from modepy.quadrature.transplanted import map_strip
    g, _gp = map_strip(np.array([-1+1e-12, -0.5, 0.0, 0.5, 1-1e-12]), rho=rho)
    t.true("contained near rho = 1", np.all(np.abs(g) <= 1+1e-9),
           f"strip map with rho = {rho} maps end point to {g[-1]!r}")


GROUPS = {"strip_edge": strip_edge, "one_map": one_map, "many": many, "rule": rule, "gauss": gauss, "converge": converge,
          "reject": reject}


def params(rng, n):
    yield "identity", None
    yield "kte_default", None
    yield "strip_default", None
    for _ in range(n):
        yield "kte_rho", 1+10**rng.uniform(-2.5, 1.5)
        yield "kte_alpha", rng.choice([
            rng.uniform(1e-6, 1), 1-10**rng.uniform(-6, -1),
            10**rng.uniform(-6, 0)*0.999])
        yield "strip", 1.12+10**rng.uniform(-2.5, 1)


def cases(tier, rng):
    thorough = tier == "thorough"
    yield "reject", {}
    yield "strip_edge", {"rho": 1.08}
    for deg in range(1, 200 if thorough else 60, 2):
        yield "one_map", {"kind": "sausage", "p": deg, "seed": rng.randrange(10**6)}
    for deg in (67, 85, 103, 131, 201, 257, 401, 1001):
        yield "one_map", {"kind": "sausage", "p": deg, "seed": rng.randrange(10**6)}
    for kind, p in (("sausage", 9), ("sausage", 201), ("kte_default", None),
                    ("kte_alpha", 0.97), ("strip_default", None), ("strip", 1.7)):
        for n in (1, 2, 700, 2500, 5001):
            yield "many", {"kind": kind, "p": p, "n": n}
    for rho in (1.12, 1.15, 1.2, 1.25, 1.3, 1.4, 1.6, 2.0, 3.0, 5.0, 10.0, 50.0, 100.0):
        yield "one_map", {"kind": "strip", "p": rho, "seed": 1}
        yield "one_map", {"kind": "kte_rho", "p": rho, "seed": 1}
    for al in (1e-6, 0.01, 0.3, 0.5, 0.9, 0.99, 0.999, 1-1e-6):
        yield "one_map", {"kind": "kte_alpha", "p": al, "seed": 1}
    for kind, p in params(rng, 300 if thorough else 40):
        yield "one_map", {"kind": kind, "p": p, "seed": rng.randrange(10**6)}
    some = [("identity", None), ("sausage", 1), ("sausage", 5), ("sausage", 9),
            ("kte_default", None), ("kte_rho", 1.2), ("kte_alpha", 0.9),
            ("strip_default", None), ("strip", 1.8)]
    for kind, p in some:
        for name in ("gl", "gll", "cc", "f1", "f2", "cheb"):
            if kind.startswith("strip") and name in ("gll", "cc"):
                continue
            for n in (2, 5, 12):
                for force in (False, True):
                    yield "rule", {"kind": kind, "p": p, "name": name, "n": n,
                                   "force": force}
        for n in (0, 1, 4, 11):
            yield "gauss", {"kind": kind, "p": p, "n": n, "force": n % 2 == 0}
        for f in FUNCS:
            yield "converge", {"kind": kind, "p": p, "fname": f}
    for kind, p in params(rng, 60 if thorough else 8):
        if kind == "kte_rho" and p < 1.1 or kind == "kte_alpha" and p > 0.98 \
                or kind == "strip" and p < 1.2:
            continue
        for f in FUNCS:
            yield "converge", {"kind": kind, "p": p, "fname": f}
