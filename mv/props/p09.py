"""P09: size, span, identifiers and product structure of bases."""
from __future__ import annotations

import itertools

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("structural monitor on basis objects plus span oracle (least-squares "
             "expansion in independent reference modes)")
LEVEL_NOTE = (
    "Every sampled basis is decided completely: counts, identifiers, the "
    "correspondence of functions, gradients, derivatives and identifiers, and the "
    "span (each function expands in the reference modes of the space with "
    "vanishing residual and an invertible coefficient matrix). Orders are sampled.")

RULE = ("one case per (kind of basis, shape, orders), per composition of bases, "
        "and per mismatched combination; non-trivial if span, identifiers and "
        "ordering of all functions were decided.")
ASSUMPTIONS = [
    "linear independence is judged with monomials only up to total order where "
    "their coefficient matrix has condition below 1e10"]
REQUIRED = ("count", "distinct ids", "span residual", "independent",
            "order of gradients", "order of derivatives", "monomials",
            "product functions", "first factor fastest", "weight")


def make(kind, desc, orders):
    import modepy as mp
    f = {"default": mp.basis_for_space, "onb": mp.orthonormal_basis_for_space,
         "mono": mp.monomial_basis_for_space}[kind]
    return f(C.mk_space(desc, orders), C.mk_shape(desc))


def basis(t, kind, desc, orders, seed):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    b = make(kind, desc, orders)
    n = ref.space_dim(desc, orders)
    d = f"{kind} {desc} {orders}"
    fs, ids = b.functions, b.mode_ids
    t.true("count", len(fs) == n and len(ids) == n
           and C.mk_space(desc, orders).space_dim == n, f"{len(fs)} {len(ids)} {n} {d}")
    has_grad = dim > 0 and 0 not in desc
    if has_grad:
        t.true("count", len(b.gradients) == n
               and all(len(b.derivatives(ax)) == n for ax in range(dim)), d)
    t.true("distinct ids", len(set(ids)) == n, d)
    t.true("hashable ids", all(isinstance(hash(m), int) for m in ids))
    t.true("stable ids", b.mode_ids == ids and len(b.functions) == n)

    rng = C.nprng(seed)
    x, w = C.tp_quad(desc, tuple(o+1 for o in orders))
    keys, v = ref.tp_vander(desc, orders, x)
    v = v.astype(float)
    f = np.array([fi(x) for fi in fs]).reshape(n, -1)
    coef = (f*w) @ v            # functions x reference modes
    scale = np.sqrt(np.maximum((f*f) @ w, 1e-300))[:, None]
    # the quadrature is exact for the space, but functions outside of it could
    # alias: check on independent points
    y = ref.random_points(desc, 40, rng)
    _k, vy = ref.tp_vander(desc, orders, y)
    vy = vy.astype(float)
    fy = np.array([fi(y) for fi in fs]).reshape(n, -1)
    bound = 1e-11*(3+max(orders, default=0))*(1+np.abs(fy).max(initial=0)
                                             + np.abs(vy).max(initial=0))
    t.close("span residual", fy, coef @ vy.T, bound, d)
    sv = np.linalg.svd(coef/scale, compute_uv=False)
    cnd = sv[0]/max(sv[-1], 1e-300)
    if kind != "mono" or max(orders, default=0) <= 12:
        t.true("independent", cnd < (1e3 if kind == "onb" else 1e12),
               f"condition {cnd:.3g} {d}")
    if kind == "onb" or not desc or (kind == "default" and max(desc) <= 3):
        t.close("weight", b.orthonormality_weight(), 1.0, 0, d)
    else:
        t.raises("weight", mp.BasisNotOrthonormal, b.orthonormality_weight, d)

    # identifiers name the functions
    fids = [C.flat_mode(m) for m in ids]
    if kind == "mono" or (max(desc, default=0) > 3 and len(desc) == 1):
        for m, fi in zip(fids, fy, strict=True):
            want = np.prod([y[i]**e for i, e in enumerate(m)], axis=0) \
                if dim else np.ones(y.shape[1])
            t.close("monomials", fi, want, 1e-13, f"{d} {m}")
    elif max(desc, default=0) <= 3:
        for i, m in enumerate(fids):
            t.close("ids name functions", coef[i, keys.index(m)] if m in keys
                    else 0.0, 1.0, 1e-9, f"{d} {m}")
    # ordering of gradients and derivatives agrees with the functions: central
    # differences of function i (loose; exactness is P10's business)
    if has_grad:
        z = (ref.random_points(desc, 3, rng)*0.5
             + np.repeat(C.tp_quad(desc, 1)[0][:, :1], 3, axis=1)*0.5)
        h = 1e-5
        for ax in range(dim):
            e = np.zeros((dim, 1))
            e[ax] = h
            fd = np.array([(fi(z+e) - fi(z-e))/(2*h) for fi in fs])
            sc = np.abs(fd).max() + np.abs(fy).max() + 1
            tol = 1e-6*sc*(1+max(orders))**2
            g = np.array([gi(z)[ax] for gi in b.gradients])
            t.close("order of gradients", g, fd, tol, f"{d} axis {ax}")
            dd = np.array([di(z) for di in b.derivatives(ax)])
            t.close("order of derivatives", dd, fd, tol, f"{d} axis {ax}")
    # a total-degree/maximum-degree sum rule: identifiers enumerate the space
    want_ids = {()}
    for di, o in zip(desc, orders, strict=True):
        want_ids = {a+i for a in want_ids for i in ref.simplex_indices(di, o)}
    t.true("ids enumerate", set(fids) == want_ids and len(fids) == n, d)
    t.state(kind, desc, orders)
    t.show(kind=kind, shape=desc, orders=orders, functions=n,
           ids=[repr(m) for m in ids[:4]])


def product(t, parts, seed):
    """TensorProductBasis composed by hand from bases of different kinds."""
    import modepy as mp
    bases = [make(k, (d,), (o,)) for k, d, o in parts]
    dims = tuple(d for _k, d, _o in parts)
    tp = mp.TensorProductBasis(bases, dims_per_basis=dims)
    t.true("bases exposed", len(tuple(tp.bases)) == len(bases)
           and all(a is b for a, b in zip(tp.bases, bases, strict=True)))
    rng = C.nprng(seed)
    y = ref.random_points(dims, 9, rng)
    ofs = np.cumsum([0, *dims])
    sizes = [len(b.functions) for b in bases]
    vals = [np.array([f(y[ofs[i]:ofs[i+1]]) for f in b.functions])
            for i, b in enumerate(bases)]
    fs = tp.functions
    t.true("count", len(fs) == np.prod(sizes, dtype=int) == len(tp.mode_ids))
    t.true("distinct ids", len(set(tp.mode_ids)) == len(fs))
    k = 0
    # first factor fastest
    for rev in itertools.product(*[range(s) for s in sizes[::-1]]):
        idx = rev[::-1]
        want = np.prod([vals[i][j] for i, j in enumerate(idx)], axis=0)
        t.close("product functions", fs[k](y), want, 1e-13*(1+np.abs(want).max()),
                f"{parts} {k} {idx}")
        flat = sum((C.flat_mode(b.mode_ids[j])
                    for b, j in zip(bases, idx, strict=True)), ())
        t.true("first factor fastest", C.flat_mode(tp.mode_ids[k]) == flat,
               f"{tp.mode_ids[k]} {flat}")
        k += 1
    ax = 0
    for i, b in enumerate(bases):
        for j in range(dims[i]):
            dv = np.array([f(y[ofs[i]:ofs[i+1]]) for f in b.derivatives(j)])
            ds = tp.derivatives(ax)
            gs = tp.gradients
            for k, rev in enumerate(itertools.product(
                    *[range(s) for s in sizes[::-1]])):
                idx = rev[::-1]
                want = np.prod([dv[jj] if ii == i else vals[ii][jj]
                                for ii, jj in enumerate(idx)], axis=0)
                tol = 1e-13*(1+np.abs(want).max())
                t.close("product derivatives", ds[k](y), want, tol, f"{parts}")
                g = gs[k](y)
                t.true("count", len(g) == sum(dims))
                t.close("product derivatives", g[ax], want, tol, f"{parts}")
            ax += 1
    if all(k == "onb" or (k == "default" and d <= 3) for k, d, _o in parts):
        t.close("weight", tp.orthonormality_weight(), 1.0, 0)
    else:
        t.raises("weight", mp.BasisNotOrthonormal, tp.orthonormality_weight)
    t.state("product", tuple(k for k, _d, _o in parts), dims)


def nested(t, descs, orders, kind):
    """tensor products of tensor products flatten to the same basis"""
    import modepy as mp
    flat_s = sum((tuple(d) for d in descs), ())
    flat_o = sum((tuple(o) for o in orders), ())
    shp = mp.TensorProductShape(tuple(C.mk_shape(tuple(d)) for d in descs))
    spc = mp.TensorProductSpace(tuple(
        C.mk_space(tuple(d), tuple(o)) for d, o in zip(descs, orders, strict=True)))
    f = {"default": mp.basis_for_space, "onb": mp.orthonormal_basis_for_space,
         "mono": mp.monomial_basis_for_space}[kind]
    a = f(spc, shp)
    b = make(kind, flat_s, flat_o)
    t.true("nested ids", [C.flat_mode(m) for m in a.mode_ids]
           == [C.flat_mode(m) for m in b.mode_ids], f"{descs}")
    y = ref.random_points(flat_s, 5, C.nprng(3))
    for p, q in zip(a.functions, b.functions, strict=True):
        t.close("nested functions", p(y), q(y), 1e-13)


GROUPS = {"basis": basis, "product": product, "nested": nested}


def cases(tier, rng):
    thorough = tier == "thorough"
    lim = 500 if thorough else 130
    yield "basis", {"kind": "onb", "desc": [], "orders": [], "seed": 1}
    yield "basis", {"kind": "mono", "desc": [], "orders": [], "seed": 1}
    for k in ("default", "onb", "mono"):
        for o in (0, 1, 3):
            yield "basis", {"kind": k, "desc": [0], "orders": [o], "seed": 1}
        for desc, o in [((0, 1), (0, 4)), ((1, 0), (3, 0)), ((0, 1), (3, 2))]:
            yield "basis", {"kind": k, "desc": list(desc), "orders": list(o),
                            "seed": 1}
        for desc in [*C.SHAPES, (4,), (5,), (4, 1), (1, 4)]:
            if k == "onb" and max(desc) > 3:
                continue
            for o in range(C.max_order(desc, lim)+1):
                if len(desc) == 1 and o > (30 if k != "mono" else 12):
                    break
                if k == "mono" and o > 12:
                    break
                yield "basis", {"kind": k, "desc": list(desc),
                                "orders": [o]*len(desc),
                                "seed": rng.randrange(10**6)}
            if len(desc) > 1:
                for _ in range(40 if thorough else 6):
                    o = C.random_orders(desc, rng, lim)
                    yield "basis", {"kind": k, "desc": list(desc),
                                    "orders": list(o),
                                    "seed": rng.randrange(10**6)}
    for desc, o in (((1,), (16,)), ((1,), (33,)), ((1,), (64,)), ((2,), (14,)),
                    ((2,), (17,)), ((1, 1), (34, 3)), ((1, 1), (2, 66))):
        yield "basis", {"kind": "mono", "desc": list(desc), "orders": list(o),
                        "seed": rng.randrange(10**6)}
    # spaces of many functions
    for c in C.big(rng, thorough, 900 if thorough else 600, 2):
        for k in ("onb", "mono", "default"):
            if (k == "mono" and max(c["orders"]) > 12) or (
                    k == "default" and rng.random() < 0.6):
                continue
            yield "basis", {"kind": k, **c, "seed": rng.randrange(10**6)}
    for _ in range(300 if thorough else 40):
        m = rng.choice([1, 2, 2, 3])
        parts = []
        size = 1
        for _i in range(m):
            d = rng.choice([1, 1, 2, 3])
            o = rng.randint(0, {1: 4, 2: 3, 3: 2}[d])
            size *= ref.space_dim((d,), (o,))
            parts.append([rng.choice(["onb", "mono", "default"]), d, o])
        if size <= 130:
            yield "product", {"parts": parts, "seed": rng.randrange(10**6)}
    for k in ("default", "onb", "mono"):
        for descs, orders in [
                ([[1], [1, 1]], [[2], [3, 1]]), ([[1, 1], [1]], [[2, 2], [3]]),
                ([[2], [1, 1]], [[2], [1, 2]]), ([[1, 2], [1]], [[2, 1], [2]]),
                ([[1, 1], [1, 1]], [[1, 2], [2, 1]]), ([[1], [2]], [[2], [2]]),
                ([[1], [1, 2]], [[2], [1, 2]])]:
            yield "nested", {"descs": descs, "orders": orders, "kind": k}
