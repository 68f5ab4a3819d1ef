"""P26: Lebesgue constants."""
from __future__ import annotations


import numpy as np

from mv import common as C, ref
from mv.props.p18 import lattice

TECHNIQUE = ("recomputation of the Lebesgue function in extended precision from an "
             "independent basis; relations between runs on permuted and reflected node "
             "sets and between resolutions; published growth tables")
LEVEL_NOTE = (
    "Simplices to 4D, hypercubes to 4D and prisms in both factor orders; edge-clustered, "
    "equispaced, scattered, interior and permuted nodes; orders up to a bound.")

RULE = ("one case per (shape, order, node set); non-trivial if the estimate was compared "
        "with the recomputed maximum.")
ASSUMPTIONS = [
    "the resolution of the lattice is the established one, 30 n in two dimensions and "
    "10 n otherwise (n at least one)",
    "growth bounds: tables 1 and 2 of Warburton (2006) with one percent slack up to the "
    "orders given there, geometric growth at the observed rate beyond"]
REQUIRED = ("equals lattice maximum", "at least one", "never above the true constant",
            "order of nodes", "symmetries", "benign growth", "below equispaced",
            "equispaced growth", "product of factors", "nodes unchanged", "a number",
            "orders zero and one")


def lebesgue_values(desc, n, x, y):
    """Lebesgue function of nodes *x* at *y*: sum of absolute Lagrange functions"""
    o = (n,)*len(desc)
    _k, v = ref.tp_vander(desc, o, x)
    v64 = v.astype(float)
    out = np.empty(y.shape[1])
    inv = np.linalg.inv(v64)
    step = max(1, 3_000_000//max(1, v.shape[1]))
    for i in range(0, y.shape[1], step):
        _k, e = ref.tp_vander(desc, o, y[:, i:i+step])
        lag = e.astype(float) @ inv
        # one step of refinement with residuals in extended precision
        res = (e - lag.astype(ref.LD) @ v).astype(float)
        lag = lag + res @ inv
        out[i:i+step] = np.sum(np.abs(lag), axis=1)
    return out


def estimate(n, x, desc):
    from modepy.tools import estimate_lebesgue_constant
    return estimate_lebesgue_constant(n, x, C.mk_shape(desc))


def resolution(desc, n):
    return (30 if sum(desc) == 2 else 10)*max(n, 1)


def lattice_points(desc, m):
    return np.array(lattice(desc, (m,)*len(desc)), dtype=float).T/m*2 - 1


def make_nodes(kind, desc, n, seed):
    rng = np.random.default_rng(seed)
    if len(desc) == 1 and desc[0] > 3 and kind in ("clustered", "permuted", "interior"):
        kind = "equi"
    return np.asarray(C.mk_nodes(kind, desc, (n,)*len(desc), rng))


def constant(t, desc, n, kind, seed):
    desc = tuple(desc)
    x = make_nodes(kind, desc, n, seed)
    keep = x.copy()
    est = estimate(n, x, desc)
    t.true("nodes unchanged", np.array_equal(x, keep))
    t.true("a number", isinstance(est, float | np.floating) and np.isfinite(est),
           repr(est))
    v = ref.tp_vander(desc, (n,)*len(desc), x)[1].astype(float)
    tol = 1e-12 + 30*C.EPS*C.cond(v)
    if len(desc) == 1 and desc[0] > 3:
        tol *= 100      # monomials
    y = lattice_points(desc, resolution(desc, n))
    lam = lebesgue_values(desc, n, x, y)
    want = float(np.max(lam))
    det = f"{desc} n={n} {kind}"
    t.close("equals lattice maximum", est/want, 1.0, tol, det)
    t.true("at least one", est >= 1 - tol, f"{est} {det}")
    # the constant on the shape: climb from the best points of another point set
    rng = np.random.default_rng(seed)
    z = np.concatenate([ref.random_points(desc, 300, rng), y[:, np.argsort(-lam)[:40]]],
                       axis=1)
    sup = 0.0
    h = 1.0/resolution(desc, n)
    for _ in range(4):
        vals = lebesgue_values(desc, n, x, z)
        sup = max(sup, float(np.max(vals)))
        best = z[:, np.argsort(-vals)[:10]]
        p = ref.random_points(desc, 10, rng)
        # towards random points of the shape, so that we stay inside
        lams = h*rng.uniform(0, 1, (1, 10, 10))
        z = (best[:, :, None]*(1-lams) + p[:, None, :]*lams).reshape(len(best), -1)
        h /= 2
    t.true("never above the true constant", est <= sup*(1+tol), f"{est} > {sup} {det}")
    t.state(desc, n, kind)
    t.show(shape=desc, order=n, nodes=kind, estimate=est, recomputed=want)

    # order of the nodes, memory layout
    for _ in range(2):
        p = rng.permutation(x.shape[1])
        t.close("order of nodes", estimate(n, x[:, p], desc)/est, 1.0, tol, det)
    t.close("order of nodes", estimate(n, np.asfortranarray(x), desc)/est, 1.0, tol, det)
    for s in images(desc, x, rng, 2):
        t.close("symmetries", estimate(n, s, desc)/est, 1.0, 2*tol, det)


def images(desc, x, rng, k):
    """random images of the nodes under symmetries of the shape"""
    for _ in range(k):
        y = x.copy()
        ofs = 0
        rows = []
        for d in desc:
            b = np.concatenate([(1+x[ofs:ofs+d])/2,
                                1-np.sum((1+x[ofs:ofs+d])/2, axis=0, keepdims=True)])
            rows.append(2*b[rng.permutation(d+1)][:d] - 1)
            ofs += d
        # equal factors may be exchanged
        for d in set(desc):
            idx = [i for i, e in enumerate(desc) if e == d]
            new = rng.permutation(idx)
            old = list(rows)
            for i, j in zip(idx, new, strict=True):
                rows[i] = old[j]
        y = np.concatenate(rows)
        yield y


TRI = (1, 1.00, 1.67, 2.12, 2.67, 3.13, 3.71, 4.28, 4.97, 5.74, 6.68, 7.91, 9.37, 11.48,
       13.98, 17.65)
TET = (1, 1.00, 2.00, 2.94, 4.08, 5.33, 7.02, 9.22, 12.55, 17.03, 24.38)


def bound(d, n):
    if d == 1:
        # Legendre-Gauss-Lobatto points
        return 1.0 if n < 2 else 2/np.pi*np.log(n+1) + 0.685
    tab, rate = {2: (TRI, 1.41), 3: (TET, 1.52)}[d]
    if n < len(tab):
        return tab[n]*1.01
    return tab[-1]*rate**(n-len(tab)+1)


def growth(t, desc, n):
    import modepy as mp
    desc = tuple(desc)
    shape, space = C.mk_shape(desc), C.mk_space(desc, (n,)*len(desc))
    est = estimate(n, mp.edge_clustered_nodes_for_space(space, shape), desc)
    b = 1.0
    for d in desc:
        b *= bound(d, n)
    t.le("benign growth", est, b*(1+1e-9), f"{desc} n={n}")
    if len(desc) == 1 and desc[0] <= 3:
        wb = mp.warp_and_blend_nodes(desc[0], n)
        t.close("benign growth", estimate(n, wb, desc)/est, 1.0, 1e-9, f"{desc} n={n}")
    t.true("at least one", est >= 1-1e-9)
    # equispaced nodes: 2**n/(e n log n) in one dimension
    equi = estimate(n, mp.equispaced_nodes_for_space(space, shape), desc)
    if n <= 1:
        t.close("orders zero and one", [est, equi], [1.0, 1.0], 1e-12, f"{desc} {n}")
        return
    if desc == (1,) and n >= 10:
        law = 2.0**(n+1)/(np.e*n*(np.log(n)+.5772))
        t.true("equispaced growth", .7*law < equi < 1.3*law, f"n={n}: {equi} vs {law}")
    if n >= 6:
        fac = {1: 2.0, 2: 2.0, 3: 1.8}[max(desc)]
        grow = {1: 1.5, 2: 1.25, 3: 1.1}[max(desc)]**(n-6)
        t.true("below equispaced", est*fac*grow <= equi, f"{desc} n={n}: {est} {equi}")
    elif n >= 3:
        t.true("below equispaced", est <= equi*(1+1e-9), f"{desc} n={n}: {est} {equi}")


def product(t, desc, n, seed):
    """tensor grids: the constant is the product of the factors' constants"""
    import modepy as mp
    desc = tuple(desc)
    rng = np.random.default_rng(seed)
    fac = [make_nodes("scattered" if rng.random() < .5 else "interior", (d,), n,
                      int(rng.integers(10**9))) for d in desc]
    x = mp.tensor_product_nodes(fac)
    est = estimate(n, x, desc)
    m = resolution(desc, n)
    want, tol = 1.0, 1e-12
    for d, f in zip(desc, fac, strict=True):
        want *= float(np.max(lebesgue_values((d,), n, f, lattice_points((d,), m))))
        v = ref.tp_vander((d,), (n,), f)[1].astype(float)
        tol += 30*C.EPS*C.cond(v)**len(desc)
    t.close("product of factors", est/want, 1.0, tol, f"{desc} {n}")
    t.state("product", desc, n)


GROUPS = {"constant": constant, "growth": growth, "product": product}

# largest order: quick, thorough
ORDERS = {(1,): (20, 32), (2,): (8, 13), (3,): (5, 7), (4,): (2, 2), (1, 1): (6, 9),
          (1, 1, 1): (3, 4), (2, 1): (3, 4), (1, 2): (3, 4), (1, 1, 1, 1): (1, 1),
          (3, 1): (1, 1), (1, 3): (1, 1), (1, 2, 1): (1, 1)}


def cases(tier, rng):
    thorough = tier == "thorough"
    for desc, mx in ORDERS.items():
        mx = mx[thorough]
        for n in range(mx+1):
            kinds = list(C.NODE_KINDS) if thorough else rng.sample(C.NODE_KINDS, 2)
            if not thorough and n == mx:
                kinds = kinds[:1]
            for k in kinds:
                for _ in range(3 if thorough and k == "scattered" else 1):
                    yield "constant", dict(desc=desc, n=n, kind=k,
                                           seed=rng.randrange(10**9))
    for n in (25, 30, 40, 64, 100, 130, 200, 260):
        yield "constant", dict(desc=(1,), n=n, kind=rng.choice(["clustered", "permuted"]),
                               seed=rng.randrange(10**9))
    for desc, n in [((2,), 12), ((2,), 16), ((1, 1), 8), ((1, 1), 11), ((3,), 7),
                    ((1, 1, 1), 4), ((2, 1), 4), ((1, 2), 4)]:
        yield "constant", dict(desc=desc, n=n, kind=rng.choice(["clustered", "permuted"]),
                               seed=rng.randrange(10**9))
    top = {(1,): (40, 60), (2,): (15, 22), (3,): (8, 11), (1, 1): (8, 12),
           (1, 1, 1): (3, 5), (2, 1): (4, 6), (1, 2): (4, 6)}
    for desc, mx in top.items():
        for n in range(mx[thorough]+1):
            yield "growth", dict(desc=desc, n=n)
    for desc in ((1, 1), (2, 1), (1, 2), (1, 1, 1)):
        for n in range(1, 5 if desc == (1, 1) else 4):
            for _ in range(3 if thorough else 1):
                yield "product", dict(desc=desc, n=n, seed=rng.randrange(10**9))


