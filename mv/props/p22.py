"""P22: degree vectors and error-estimator matrices."""
from __future__ import annotations

import random
import warnings

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("application of every estimator matrix to nodal values of random members "
             "with known coefficients, evaluated independently in extended precision; "
             "degree vectors compared with degrees measured on the functions themselves")
LEVEL_NOTE = (
    "All shapes, basis kinds, several node families, unequal orders and every number of "
    "tail orders (none and too many included), orders up to a bound.")

RULE = ("one case per (basis, shape, orders, nodes); non-trivial if at least one "
        "matrix was applied to a member with known coefficients.")
ASSUMPTIONS = ["tolerances grow with the condition number of the Vandermonde matrix"]
REQUIRED = ("degree vector", "degree vector measured", "shape of the estimator",
            "highest coefficients", "lower-order members", "all coefficients",
            "no tail orders", "deprecated variant", "arguments unchanged",
            "independent of the nodes", "unsupported basis")


def my_degrees(basis, desc):
    """overall degrees from the (flattened) mode identifiers, in basis order"""
    r = []
    for m in basis.mode_ids:
        m = C.flat_mode(m)
        i, d = 0, 0
        for k in desc:
            d = max(d, sum(m[i:i+k]))
            i += k
        r.append(d)
    return np.array(r, dtype=int)


def measured_degree(f, desc, top, rng):
    """degree of f in each factor's coordinates along generic lines: the number of
    nonvanishing Chebyshev coefficients, maximum over lines and factors"""
    best = 0
    ofs = 0
    c = ref.random_points(desc, 1, rng)[:, 0]
    npt = top+3
    s = np.cos(np.pi*(np.arange(npt)+0.5)/npt)
    for d in desc:
        for _ in range(4 if d > 1 else min(d, 1)):
            # long chords in directions far from any axis
            pts = ref.random_points((d,), 60, rng)
            far = np.min(np.abs(pts[:, :, None]-pts[:, None, :]), axis=0)
            i, j = np.unravel_index(int(far.argmax()), far.shape)
            a, b = pts[:, i], pts[:, j]
            x = np.repeat(c[:, None], npt, axis=1)
            x[ofs:ofs+d] = ((a+b)/2)[:, None] + ((b-a)/2)[:, None]*s
            v = np.asarray(f(x), dtype=float)*np.ones(npt)
            co = np.polynomial.chebyshev.chebfit(s, v, npt-1)
            nz = np.nonzero(np.abs(co) > 1e-11*max(np.abs(co).max(), 1e-30))[0]
            best = max(best, int(nz.max(initial=0)))
        ofs += d
    return best


def estimator(t, kind, desc, orders, nodes, seed):
    import modepy as mp
    from modepy.modal_decay import (
        degree_vector,
        interp_error_coefficient_estimator_matrix as estim,
    )
    desc, orders = tuple(desc), tuple(orders)
    rng = C.nprng(seed)
    prng = random.Random(seed)
    basis = C.mk_basis(kind, desc, orders)
    x = C.mk_nodes(nodes, desc, orders, rng)
    if seed % 3 == 0:
        x = np.asfortranarray(x)
    elif seed % 3 == 1:
        x.flags.writeable = False
    keep = x.copy()
    name = f"{kind} {desc} {orders} {nodes}"
    deg = my_degrees(basis, desc)
    dv = degree_vector(basis)
    if not t.true("degree vector", np.shape(dv) == deg.shape
                  and np.issubdtype(np.asarray(dv).dtype, np.integer)
                  and np.array_equal(dv, deg), f"{dv} vs {deg} {name}"):
        return
    top = int(deg.max())
    if len(deg) <= 130:
        for i in prng.sample(range(len(deg)), min(len(deg), 12)):
            m = measured_degree(basis.functions[i], desc, max(orders, default=0), rng)
            t.true("degree vector measured", m == deg[i],
                   f"mode {basis.mode_ids[i]}: {m} vs {deg[i]} {name}")
    v = mp.vandermonde(basis.functions, x)
    c = C.cond(v)
    tol = 1e-14*(10+min(c, 1e12))*len(deg)
    # members of the space: known coefficients.  Values through an independent
    # evaluation where there is one, else through the basis functions themselves.
    nt = len(deg)
    members = []
    for _ in range(3):
        co = rng.normal(size=nt)
        members.append((co, v @ co))
    one = np.zeros(nt)
    one[int(rng.integers(0, nt))] = 1
    members.append((one, v @ one))
    if kind == "onb":
        p = ref.random_poly(desc, orders, prng)
        co = np.array([float(p.coeffs[C.flat_mode(m)])
                       for m in basis.mode_ids])
        members.append((co, p(x).astype(float)))
    ns = sorted({0, 1, 2, top, top+1, top+4, prng.randint(0, top+1)})
    for n in ns:
        m = estim(x, n, basis) if seed % 2 else estim(
            unit_nodes=x, n_tail_orders=n, basis=basis)
        sel = deg > top-n
        if not t.true("shape of the estimator", m.shape == (sel.sum(), nt),
                      f"{m.shape} tail={n} {name}"):
            continue
        if n == 0:
            t.true("no tail orders", m.shape[0] == 0, name)
        for co, val in members:
            t.close("highest coefficients" if n <= top else "all coefficients", m @ val,
                    co[sel], tol*(1+np.abs(co).max()), f"tail={n} {name}")
        # members of the lower-order space give zero
        co = rng.normal(size=nt)*(~sel)
        t.close("lower-order members", m @ (v @ co), np.zeros(sel.sum()),
                tol*(1+np.abs(co).max()), f"tail={n} {name}")
    t.true("arguments unchanged", np.array_equal(x, keep), name)
    # the coefficients found do not depend on which unisolvent nodes sampled the member
    other = C.mk_nodes("permuted", desc, orders, rng)
    p = ref.random_poly(desc, orders, prng)
    n = 1
    a = estim(x, n, basis) @ p(keep).astype(float)
    b = estim(other, n, basis) @ p(other).astype(float)
    sc = np.abs(np.linalg.solve(v, p(keep).astype(float))).max(initial=1)
    c2 = C.cond(mp.vandermonde(basis.functions, other))
    t.close("independent of the nodes", a, b, 1e-13*(10+c+c2)*len(deg)*sc, name)
    if len(desc) == 1 and desc[0] > 0 and kind == "onb":
        from modepy.modal_decay import (
            simplex_interp_error_coefficient_estimator_matrix as dep,
        )
        for n in ns:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                m = dep(x, orders[0], n)
            t.close("deprecated variant", m, estim(x, n, basis),
                    1e-13*(10+c)*(1+np.abs(m).max(initial=0)), f"tail={n} {name}")
        t.true("arguments unchanged", np.array_equal(x, keep), name)
    t.state(kind, desc, orders, nodes)
    t.show(basis=kind, shape=desc, orders=orders, degrees=dv[:12])


def nested(t, desc, orders, kind, seed):
    """a product of products is the flat product, and a hand-made product of bases
    has the maximum over its factors"""
    import modepy as mp
    from modepy.modal_decay import degree_vector
    desc, orders = tuple(desc), tuple(orders)
    fs = [C.mk_basis(kind, (d,), (n,)) for d, n in zip(desc, orders, strict=True)]
    b = mp.modes.TensorProductBasis(fs)
    dv = degree_vector(b)
    t.true("degree vector", np.array_equal(dv, my_degrees(b, desc)),
           f"{dv} {desc} {orders}")
    if len(fs) > 2:
        nb = mp.modes.TensorProductBasis([fs[0], mp.modes.TensorProductBasis(fs[1:])])
        t.true("degree vector", np.array_equal(
            degree_vector(nb), my_degrees(nb, desc)), f"nested {desc} {orders}")
    t.state("nested", desc, orders, kind)


def unsupported(t, which):
    import modepy as mp
    from modepy.modal_decay import degree_vector
    basis = mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2))
    bad = {"functions": basis.functions, "none": None, "list": [1, 2],
           "basis": mp.Basis}[which]
    t.raises("unsupported basis", TypeError, lambda: degree_vector(bad), which)
    t.state("unsupported", which)


GROUPS = {"estimator": estimator, "nested": nested, "unsupported": unsupported}


def cases(tier, rng):
    thorough = tier == "thorough"
    lim = 400 if thorough else 120
    shapes = [(), (0,), (4,), *C.SHAPES]
    for desc in shapes:
        top = 8 if desc in ((), (0,)) else C.max_order(desc, lim)
        if desc == ():
            top = 0
        for o in range(min(16, top)+1):
            for kind in C.BASIS_KINDS:
                if desc == (4,) and kind == "onb":
                    continue
                if (kind == "mono" or desc == (4,)) and o > 7:
                    continue
                for _ in range(6 if thorough else 1):
                    nodes = rng.choice(C.NODE_KINDS)
                    if nodes == "equi" and o > 8:
                        nodes = "clustered"
                    if not sum(desc) or desc == (4,):
                        nodes = "equi" if desc == (4,) else "clustered"
                    if desc == (4,) and o == 0:
                        continue
                    yield "estimator", {"kind": kind, "desc": list(desc),
                                        "orders": [o]*len(desc), "nodes": nodes,
                                        "seed": rng.randrange(10**6)}
        if len(desc) > 1:
            for _ in range(60 if thorough else 8):
                kind = rng.choice(C.BASIS_KINDS)
                o = list(C.random_orders(desc, rng, lim))
                if kind == "mono":
                    o = [min(i, 5) for i in o]
                nodes = rng.choice(C.NODE_KINDS)
                if nodes == "equi" and max(o) > 8:
                    nodes = "clustered"
                yield "estimator", {"kind": kind, "desc": list(desc), "orders": o,
                                    "nodes": nodes, "seed": rng.randrange(10**6)}
    for e in C.big(rng, thorough, 10**9 if thorough else 580):
        yield "estimator", {**e, "kind": "onb", "seed": rng.randrange(10**6),
                            "nodes": rng.choice(["clustered", "permuted"])}
    for desc in [(1, 1), (2, 1), (1, 2), (1, 2, 1), (1, 1, 1), (2, 2), (0, 1), (1, 0),
                 (3, 2), (2, 3, 1), (2, 1, 2)]:
        for _ in range(12 if thorough else 4):
            yield "nested", {"desc": list(desc),
                             "orders": [rng.randint(0, 4) for _ in desc],
                             "kind": rng.choice(C.BASIS_KINDS),
                             "seed": rng.randrange(10**6)}
    for w in ("functions", "none", "list", "basis"):
        yield "unsupported", {"which": w}
