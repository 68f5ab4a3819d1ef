"""P10: gradients and derivatives."""
from __future__ import annotations

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("pointwise oracle (forward-mode differentiated reference modes in "
             "extended precision), cross-check of both derivative interfaces")
LEVEL_NOTE = (
    "Every partial derivative of every function of every sampled basis is compared "
    "with an independent exact derivative at vertices, edges, points next to "
    "collapsed edges and random points. Orders and Jacobi parameters are sampled.")

RULE = ("one case per (alpha, beta), per (kind of basis, shape, orders) and per "
        "composition of bases; non-trivial if every gradient component of every "
        "function was compared with the exact derivative at all points.")
ASSUMPTIONS = [
    "tolerance 1e-12 (1+order) relative to the largest derivative at the point; "
    "within 1e-9 of a collapsed edge 3e-9 (1+order)^3 relative to the largest "
    "derivative anywhere (documented tolerance of the collapse)"]
REQUIRED = ("jacobi derivative", "gradient", "derivatives interface",
            "components", "monomial gradient", "mixed product gradient",
            "high gradients", "high derivatives", "high jacobi derivative")


def jac(t, a, b, n, seed):
    import modepy as mp
    rng = C.nprng(seed)
    x = np.concatenate([
        np.linspace(-1, 1, 21), rng.uniform(-1, 1, 20),
        1-10.0**rng.uniform(-14, 0, 6), -1+10.0**rng.uniform(-14, 0, 6)])
    r = ref.jacobi_orthonormal_deriv_all(a, b, n, x)
    run = np.zeros(len(x))
    for k in range(n+1):
        rk = np.asarray(r[k], dtype=float)
        run = np.maximum(run, np.abs(rk))
        tol = 2e-13*(3+k)*(run + 1e-3*np.max(np.abs(rk))) \
            * (1 + 0.1*max(abs(a), abs(b)))
        t.close("jacobi derivative", mp.grad_jacobi(a, b, k, x), rk, tol,
                f"alpha={a} beta={b} n={k}")
    t.state("jacobi", a, b)


def tols(desc, orders, x, g):
    """g: (dim, npts, nmodes) exact gradients"""
    n = max(orders, default=0)
    scale = np.max(np.abs(g), axis=(0, 2), initial=0.0).astype(float)
    near = C.near_collapsed(desc, x)
    return (1e-12*(1+n)*scale
            + np.where(near, 3e-9*(1+n)**3, 0)*scale.max(initial=0)
            + 1e-15)


def basis(t, desc, orders, seed, default):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    make = mp.basis_for_space if default else mp.orthonormal_basis_for_space
    b = make(C.mk_space(desc, orders), C.mk_shape(desc))
    rng = C.nprng(seed)
    x = ref.hostile_points(desc, rng)
    keys, _v, g = ref.tp_vander_grad(desc, orders, x)
    tol = tols(desc, orders, x, g)
    g = g.astype(float)
    ids = [C.flat_mode(m) for m in b.mode_ids]
    t.true("sizes", len(b.gradients) == len(ids) and sorted(ids) == sorted(keys))
    pos = {k: i for i, k in enumerate(keys)}
    derivs = [b.derivatives(ax) for ax in range(dim)]
    for i, (m, gf) in enumerate(zip(ids, b.gradients, strict=True)):
        got = gf(x)
        if not t.true("components", isinstance(got, tuple) and len(got) == dim,
                      f"{type(got).__name__} of length {len(got)}"):
            continue
        for ax in range(dim):
            d = f"{desc} {orders} mode {m} axis {ax}"
            t.close("gradient", np.broadcast_to(got[ax], x.shape[1:])
                    if np.ndim(got[ax]) == 0 else got[ax],
                    g[ax, :, pos[m]], tol, d)
            t.close("derivatives interface", derivs[ax][i](x), got[ax],
                    tol*1e-1 + 1e-14, d)
    t.state("basis", desc, orders)
    t.note(points_compared=len(ids)*x.shape[1]*dim)
    t.show(shape=desc, orders=orders, functions=len(ids), points=int(x.shape[1]))


def mono_ref(m, ax, x):
    x = np.asarray(x, dtype=ref.LD)
    v = np.ones(x.shape[1:], dtype=ref.LD)
    for i, e in enumerate(m):
        if i == ax:
            v = v*(e*x[i]**(e-1) if e else 0)
        else:
            v = v*x[i]**e
    return v.astype(float)


def mono(t, desc, orders, seed):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    make = mp.monomial_basis_for_space
    b = make(C.mk_space(desc, orders), C.mk_shape(desc))
    x = ref.hostile_points(desc, C.nprng(seed))
    x = np.concatenate([x, np.zeros((dim, 1))], axis=1)
    ids = [C.flat_mode(m) for m in b.mode_ids]
    derivs = [b.derivatives(ax) for ax in range(dim)]
    for i, (m, gf) in enumerate(zip(ids, b.gradients, strict=True)):
        got = gf(x)
        t.true("components", isinstance(got, tuple) and len(got) == dim)
        for ax in range(dim):
            want = mono_ref(m, ax, x)
            d = f"{desc} {orders} monomial {m} axis {ax}"
            tol = 1e-14*(1+max(m))*(1+sum(m))
            t.close("monomial gradient", got[ax], want, tol, d)
            t.close("derivatives interface", derivs[ax][i](x), want, tol, d)
    t.state("mono", desc, orders)


def one_grad(kind, d, o, m, y):
    """exact value and gradient of one function of a factor basis"""
    if kind == "mono":
        v = np.prod([y[i]**e for i, e in enumerate(m)], axis=0)
        return v, [mono_ref(m, ax, y) for ax in range(d)]
    v, g = ref.simplex_modes(d, o, y, grad=True)
    return v[m].astype(float), [g[m][ax].astype(float) for ax in range(d)]


def mixed(t, parts, seed):
    """products of orthonormal and monomial factors of several dimensions"""
    import modepy as mp
    dims = tuple(d for _k, d, _o in parts)
    bases = []
    for k, d, o in parts:
        f = mp.monomial_basis_for_space if k == "mono" \
            else mp.orthonormal_basis_for_space
        bases.append(f(mp.PN(d, o), mp.Simplex(d)))
    tp = mp.TensorProductBasis(bases, dims_per_basis=dims)
    y = ref.random_points(dims, 7, C.nprng(seed))
    ofs = np.cumsum([0, *dims])
    fac = []
    for i, (k, d, o) in enumerate(parts):
        fac.append({m: one_grad(k, d, o, m, y[ofs[i]:ofs[i+1]])
                    for m in (C.flat_mode(mm) for mm in bases[i].mode_ids)})
    for i, (mid, gf) in enumerate(zip(tp.mode_ids, tp.gradients, strict=True)):
        m = C.flat_mode(mid)
        ms = [m[ofs[j]:ofs[j+1]] for j in range(len(parts))]
        got = gf(y)
        t.true("components", len(got) == sum(dims))
        ax = 0
        for j in range(len(parts)):
            for a in range(dims[j]):
                want = np.ones(y.shape[1])
                for jj, mm in enumerate(ms):
                    v, g = fac[jj][mm]
                    want = want*(g[a] if jj == j else v)
                tol = 1e-11*(1+np.abs(want).max())
                d = f"{parts} mode {m} axis {ax}"
                t.close("mixed product gradient", got[ax], want, tol, d)
                t.close("derivatives interface", tp.derivatives(ax)[i](y), want,
                        tol, d)
                ax += 1
    t.state("mixed", tuple(k for k, _d, _o in parts), dims)


def jac_high(t, a, b, ks, seed):
    import modepy as mp
    rng = C.nprng(seed)
    x = np.concatenate([np.linspace(-1, 1, 15), rng.uniform(-1, 1, 10)])
    r = ref.jacobi_orthonormal_deriv_all(a, b, max(ks), x)
    big = np.max(np.abs(np.asarray(r)), axis=0).astype(float)
    for k in ks:
        rk = np.asarray(r[k], dtype=float)
        run = np.minimum(big, np.max(np.abs(rk)))
        tol = 2e-13*(3+k)*(run + 1e-3*np.max(np.abs(rk))) \
            * (1 + 0.1*max(abs(a), abs(b)))
        t.close("high jacobi derivative", mp.grad_jacobi(a, b, k, x), rk, tol,
                f"alpha={a} beta={b} n={k}")
    t.state("jacobi high", a, b)


def high(t, d, n, count, seed):
    """the gradients of a sample of the modes of a simplex basis of high order"""
    import modepy as mp
    rng = C.nprng(seed)
    b = mp.orthonormal_basis_for_space(mp.PN(d, n), mp.Simplex(d))
    x = np.concatenate([
        rng.dirichlet(np.ones(d+1), 7).T[1:]*2-1,
        rng.dirichlet(np.full(d+1, 0.15), 2).T[1:]*2-1], axis=1)
    want = {(*(0,)*k, v, *(0,)*(d-1-k)) for k in range(d) for v in (n, n//2)}
    for _ in range(count):
        m = []
        for _k in range(d):
            m.append(int(rng.integers(0, n-sum(m)+1)))
        # of total degree n: these have the largest parameters
        if rng.random() < 0.5:
            m[rng.integers(0, d)] += n - sum(m)
        want.add(tuple(m))
    pos = {m: i for i, m in enumerate(b.mode_ids)}
    gs = b.gradients
    ds = [b.derivatives(ax) for ax in range(d)]
    for m in sorted(want):
        chain = [(*m[:-1], k) for k in range(m[-1]+1)]
        v, g = ref.simplex_modes(d, n, x, grad=True, only=chain)
        # what a change of the coordinates in the 14th digit does to the result
        cg = 0
        for _ in range(3):
            xp = ref.LD(1e-13)*rng.uniform(-1, 1, x.shape) + x
            _vp, gp = ref.simplex_modes(d, n, xp, grad=True, only=[m])
            cg = cg + np.abs(gp[m] - g[m])/10
        sc = np.max([np.abs(v[c]) for c in chain], axis=0)
        sg = np.max([np.abs(g[c]).max(axis=0) for c in chain], axis=0)
        # next to a vertex all modes of a chain are powers of a small, inexact number
        sc = sc + 1e-30*max(sc)
        sg = sg + 1e-30*max(sg)
        tol = np.asarray(4e-13*(3+n)*(sg + n*sc) + cg + 1e-300, dtype=float)
        w = np.asarray(g[m], dtype=float)
        got = gs[pos[m]](x)
        if not t.true("components", isinstance(got, tuple) and len(got) == d):
            continue
        t.close("high gradients", np.array(got), w, tol, f"d={d} n={n} {m}")
        ax = int(rng.integers(0, d))
        t.close("high derivatives", ds[ax][pos[m]](x), w[ax], tol[ax],
                f"d={d} n={n} {m} axis {ax}")
    t.state("high", d, n)
    t.note(points_compared=len(want)*x.shape[1]*d)
    t.show(d=d, n=n, modes=len(want))


GROUPS = {"jac": jac, "basis": basis, "mono": mono, "mixed": mixed, "high": high,
          "jac_high": jac_high}


def cases(tier, rng):
    from mv.props.p08 import PAIRS
    thorough = tier == "thorough"
    n = 120 if thorough else 50
    for a, b in PAIRS:
        yield "jac", {"a": a, "b": b, "n": n, "seed": rng.randrange(10**6)}
    for _ in range(400 if thorough else 30):
        a = rng.choice([rng.uniform(-0.99, 1), rng.uniform(-0.99, 8),
                        rng.randint(0, 25)])
        b = rng.choice([rng.uniform(-0.99, 1), rng.uniform(-0.99, 8),
                        rng.randint(0, 10)])
        yield "jac", {"a": a, "b": b, "n": rng.choice([5, 20, n]),
                      "seed": rng.randrange(10**6)}
    for d, lo, top, extra in [
            (1, 31, 60, [64, 80, 100, 128, 129, 150, 180, 200, 256, 257, 300, 500]),
            (2, 17, 45, [48, 50, 52, 56, 60, 64, 65, 72, 80, 90, 100, 120]),
            (3, 9, 24, [26, 28, 30, 32, 33, 36, 40, 45, 50])]:
        for o in [*range(lo, top+1), *extra]:
            yield "high", {"d": d, "n": o, "count": 40 if thorough else 6,
                           "seed": rng.randrange(10**6)}
    ks = [*range(51, 70), 75, 80, 90, 100, 110, 127, 128, 129, 150, 175, 200, 220,
          255, 256, 257, 258, 300, 400, 500, 513]
    for a, b in [(0, 0), (1, 0), (0, 1), (0.5, 0.5), (-0.5, -0.5), (2, 5), (7, 0),
                 (-0.3, 1.7)]:
        yield "jac_high", {"a": a, "b": b, "ks": ks, "seed": rng.randrange(10**6)}
    lim = 600 if thorough else 150
    for desc in C.SHAPES:
        hi = C.max_order(desc, lim)
        if len(desc) == 1:
            hi = {1: 50 if thorough else 30, 2: 30 if thorough else 16,
                  3: 13 if thorough else 8}[desc[0]]
        for o in range(hi+1):
            for _ in range(4 if thorough else 1):
                yield "basis", {"desc": list(desc), "orders": [o]*len(desc),
                                "seed": rng.randrange(10**6),
                                "default": o % 3 == 1}
        if len(desc) > 1:
            for _ in range(50 if thorough else 8):
                o = C.random_orders(desc, rng, lim)
                yield "basis", {"desc": list(desc), "orders": list(o),
                                "seed": rng.randrange(10**6),
                                "default": rng.random() < 0.3}
    for desc in [*C.SHAPES, (4,), (5,), (4, 1), (1, 4)]:
        for o in range(C.max_order(desc, 150 if thorough else 70)+1):
            if o <= 20:
                yield "mono", {"desc": list(desc), "orders": [o]*len(desc),
                               "seed": rng.randrange(10**6)}
        if len(desc) > 1:
            for _ in range(10 if thorough else 3):
                o = C.random_orders(desc, rng, 80)
                yield "mono", {"desc": list(desc), "orders": list(o),
                               "seed": rng.randrange(10**6)}
    for desc, o in (((1,), (33,)), ((1,), (64,)), ((1,), (128,)), ((2,), (16,)),
                    ((2,), (24,)), ((1, 1), (34, 3)), ((1, 1), (2, 66)), ((3,), (9,)),
                    ((2, 1), (7, 33))):
        yield "mono", {"desc": list(desc), "orders": list(o),
                       "seed": rng.randrange(10**6)}
    for _ in range(300 if thorough else 40):
        m = rng.choice([1, 2, 2, 3])
        parts = []
        size = 1
        for _i in range(m):
            d = rng.choice([1, 1, 2, 3])
            o = rng.randint(0, {1: 4, 2: 3, 3: 2}[d])
            size *= ref.space_dim((d,), (o,))
            parts.append([rng.choice(["onb", "mono"]), d, o])
        if size <= 130:
            yield "mixed", {"parts": parts, "seed": rng.randrange(10**6)}
