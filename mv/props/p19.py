"""P19: reshaping arrays of tensor-product coefficients."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("element-by-element monitor of reshaped arrays against the index "
             "arithmetic of the documented axis order, and semantic monitors on "
             "reshaped nodes, node tuples, mode identifiers and separable functions")
LEVEL_NOTE = (
    "Arrays of many ranks, dtypes and memory layouts, every admissible axis; factor "
    "sizes up to a bound.")

RULE = ("one case per (factor dimensions and orders, array rank, axis, layout) and per "
        "product space for the semantic monitors; non-trivial if at least one array was "
        "reshaped or rejected.")
ASSUMPTIONS = ["product bases and node sets enumerate the first factor fastest (P09, "
               "P12)"]
REQUIRED = ("shape of the result", "entries follow the factor axes", "other axes",
            "round trip", "argument unchanged", "pass-through", "nodes", "node tuples",
            "mode identifiers", "separable function", "factorwise evaluation",
            "wrong length rejected", "axis out of range rejected",
            "wrong factor axes rejected")


def mk(desc, orders, nest):
    """the product space, possibly built in a roundabout way"""
    import modepy as mp
    import modepy.tools as mt
    fs = [mp.PN(d, n) for d, n in zip(desc, orders, strict=True)]
    if nest == "qn":
        return mp.QN(len(desc), orders[0])
    if nest == "nested" and len(fs) > 2:
        return mp.TensorProductSpace((fs[0], mp.TensorProductSpace(tuple(fs[1:]))))
    return mp.TensorProductSpace(tuple(fs))


def make_array(shape, dtype, layout, rng):
    n = math.prod(shape)
    # distinct entries, so that any misplaced one is seen
    flat = rng.permutation(n)
    if dtype == "complex":
        a = (flat + 1j*rng.permutation(n)).reshape(shape)
    elif dtype == "object":
        a = np.empty(n, dtype=object)
        a[:] = [("id", int(i)) for i in flat]
        a = a.reshape(shape)
    elif dtype == "str":
        a = np.array([f"e{i}" for i in flat], dtype=object).astype(str).reshape(shape)
    elif dtype == "bool":
        a = rng.integers(0, 2, shape).astype(bool)
    else:
        a = flat.astype(dtype).reshape(shape)
    if layout == "F":
        a = np.asfortranarray(a)
    elif layout == "strided":
        big = np.empty(tuple(2*s for s in shape), dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in shape)
        big[sl] = a
        a = big[sl]
    elif layout == "reversed" and a.ndim:
        sl = tuple(slice(None, None, -1) for _ in shape)
        a = np.ascontiguousarray(a[sl])[sl]
    elif layout == "transposed" and a.ndim > 1:
        a = np.ascontiguousarray(a.T).T
    elif layout == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def entries(t, desc, orders, nest, lead, trail, neg, dtype, layout, seed):
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    space = mk(desc, orders, nest)
    fdims = tuple(ref.space_dim((d,), (n,)) for d, n in zip(desc, orders, strict=True))
    n = math.prod(fdims)
    lead, trail = tuple(lead), tuple(trail)
    shape = (*lead, n, *trail)
    a = make_array(shape, dtype, layout, rng)
    keep = a.copy()
    axis = len(lead)
    ax = axis - len(shape) if neg else axis
    name = f"{desc} {orders} {nest} array {shape} axis {ax} {dtype} {layout}"
    if ax == -1 and seed % 2:
        r = mt.reshape_array_for_tensor_product_space(space, a)
    elif seed % 3 == 0:
        r = mt.reshape_array_for_tensor_product_space(space, a, axis=ax)
    else:
        r = mt.reshape_array_for_tensor_product_space(space, a, ax)
    if not t.true("shape of the result", r.shape == lead + fdims + trail,
                  f"{r.shape} {name}"):
        return
    t.true("shape of the result", r.dtype == a.dtype, name)
    # brute force: each destination multi-index
    bad = []
    for idx in itertools.product(*[range(k) for k in fdims]):
        src, stride = 0, 1
        for i, k in zip(idx, fdims, strict=True):
            src += i*stride
            stride *= k
        sl = (*[slice(None)]*len(lead), *idx, *[slice(None)]*len(trail))
        ss = (*[slice(None)]*len(lead), src, *[slice(None)]*len(trail))
        if not np.array_equal(r[sl], keep[ss]):
            bad.append(idx)
    t.true("entries follow the factor axes", not bad, f"{bad[:3]} {name}")
    if (lead or trail) and all(lead) and all(trail):
        # the other axes: a slice of the result is the result of the slice
        li = tuple(int(rng.integers(0, k)) for k in lead)
        ti = tuple(int(rng.integers(0, k)) for k in trail)
        sub = keep[(*li, slice(None), *ti)]
        rs = mt.reshape_array_for_tensor_product_space(space, sub)
        t.true("other axes", np.array_equal(
            rs, r[(*li, *[slice(None)]*len(fdims), *ti)]), name)
    # inverse: the axis counts the axes of the original array
    u = mt.unreshape_array_for_tensor_product_space(space, r, ax) if seed % 2 or \
        ax != -1 else mt.unreshape_array_for_tensor_product_space(space, r)
    t.true("round trip", u.shape == shape and u.dtype == a.dtype
           and np.array_equal(u, keep), name)
    # a fresh (C-contiguous) array of the reshaped form, unreshaped and back
    b = make_array(lead + fdims + trail, dtype, layout, rng)
    kb = b.copy()
    ub = mt.unreshape_array_for_tensor_product_space(space, b, axis)
    if t.true("round trip", ub.shape == shape, name):
        t.true("round trip", np.array_equal(
            mt.reshape_array_for_tensor_product_space(space, ub, axis), kb), name)
        t.true("entries follow the factor axes", all(
            np.array_equal(
                ub[(*[slice(None)]*len(lead), src, *[slice(None)]*len(trail))],
                kb[(*[slice(None)]*len(lead), *idx, *[slice(None)]*len(trail))])
            for src, idx in enumerate(
                i[::-1] for i in itertools.product(*[range(k) for k in fdims[::-1]]))),
            "inverse " + name)
    t.true("argument unchanged", np.array_equal(a, keep) and np.array_equal(b, kb)
           and a.shape == shape, name)
    t.state(tuple(desc), tuple(orders), nest, len(lead), len(trail), neg)
    t.show(factors=desc, orders=orders, array=shape, axis=ax, result=r.shape)


class _Wrapped:
    """An array-like that only supports finding the shape and reshaping."""

    def __init__(self, a):
        self._a = a

    @property
    def shape(self):
        return self._a.shape

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        return _Wrapped(self._a.reshape(shape, order=order))


def semantic(t, desc, orders, nest, seed):
    """nodes, node tuples, mode ids and functions along the new axes"""
    import modepy as mp
    import modepy.tools as mt
    desc, orders = tuple(desc), tuple(orders)
    rng = C.nprng(seed)
    space = mk(desc, orders, nest)
    shape = mp.TensorProductShape(tuple(mp.Simplex(d) for d in desc)) \
        if nest != "qn" else mp.Hypercube(len(desc))
    reshape = mt.reshape_array_for_tensor_product_space
    nf = len(desc)
    fdims = tuple(ref.space_dim((d,), (n,)) for d, n in zip(desc, orders, strict=True))
    name = f"{desc} {orders} {nest}"
    ofs = np.cumsum([0, *desc])

    for which in ("clustered", "equi"):
        x = mp.edge_clustered_nodes_for_space(space, shape) if which == "clustered" \
            else mp.equispaced_nodes_for_space(space, shape)
        r = reshape(space, x)
        if not t.true("shape of the result", r.shape == (sum(desc), *fdims), name):
            return
        for k in range(nf):
            rk = np.moveaxis(r[ofs[k]:ofs[k+1]], k+1, 1)    # (d_k, n_k, others...)
            rk = rk.reshape(desc[k], fdims[k], -1)
            t.true("nodes", np.array_equal(rk, np.broadcast_to(rk[:, :, :1], rk.shape)),
                   f"factor {k} varies with another axis; {which} {name}")
            sp, sh = mp.PN(desc[k], orders[k]), mp.Simplex(desc[k])
            xk = (mp.edge_clustered_nodes_for_space if which == "clustered"
                  else mp.equispaced_nodes_for_space)(sp, sh)
            t.close("nodes", rk[:, :, 0], xk, 1e-13, f"factor {k} {which} {name}")

    tup = np.array([[int(i) for i in tt] for tt in mp.node_tuples_for_space(space)],
                   dtype=int).T.reshape(sum(desc), -1)
    r = reshape(space, tup)
    for k in range(nf):
        rk = np.moveaxis(r[ofs[k]:ofs[k+1]], k+1, 1).reshape(desc[k], fdims[k], -1)
        ok = np.array_equal(rk, np.broadcast_to(rk[:, :, :1], rk.shape))
        tk = np.array([[int(i) for i in tt] for tt in mp.node_tuples_for_space(
            mp.PN(desc[k], orders[k]))], dtype=int).T.reshape(desc[k], -1)
        t.true("node tuples", ok and np.array_equal(rk[:, :, 0], tk),
               f"factor {k} {name}")

    get = mp.orthonormal_basis_for_space if seed % 2 else mp.basis_for_space
    basis = get(space, shape)
    ids = np.empty(len(basis.mode_ids), dtype=object)
    ids[:] = [tuple(C.flat_mode(m)) for m in basis.mode_ids]
    r = reshape(space, ids)
    fbases = [get(mp.PN(d, n), mp.Simplex(d)) for d, n in zip(desc, orders, strict=True)]
    fids = [[tuple(C.flat_mode(m)) for m in fb.mode_ids] for fb in fbases]
    t.true("mode identifiers", r.shape == fdims and all(
        r[i] == sum((fids[k][i[k]] for k in range(nf)), ())
        for i in itertools.product(*[range(k) for k in fdims])), name)

    # nodal values of a separable function form an outer product
    xs = [mp.edge_clustered_nodes_for_space(mp.PN(d, n), mp.Simplex(d))
          for d, n in zip(desc, orders, strict=True)]
    x = mp.edge_clustered_nodes_for_space(space, shape)
    ws = [rng.normal(size=d) for d in desc]
    val = np.ones(x.shape[1])
    for k in range(nf):
        val = val*np.cos(ws[k] @ x[ofs[k]:ofs[k+1]] + k + 0.3)
    outer = np.ones(())
    for k in range(nf):
        outer = np.multiply.outer(outer, np.cos(ws[k] @ xs[k] + k + 0.3))
    t.close("separable function", reshape(space, val), outer, 1e-12, name)
    w = reshape(space, _Wrapped(val))
    t.close("separable function", w._a, outer, 1e-12, "array-like " + name)
    t.close("round trip", mt.unreshape_array_for_tensor_product_space(space, w)._a, val,
            0, "array-like " + name)

    # evaluating factor by factor along the axes is evaluating the basis
    c = rng.normal(size=(2, math.prod(fdims)))
    full = c @ mp.vandermonde(basis.functions, x).T
    rc = reshape(space, c)
    for k in range(nf):
        vk = mp.vandermonde(fbases[k].functions, xs[k])
        rc = np.moveaxis(np.tensordot(rc, vk, (k+1, 1)), -1, k+1)
    back = mt.unreshape_array_for_tensor_product_space(space, rc)
    t.close("factorwise evaluation", back, full,
            1e-10*(1+np.abs(full).max()), name)
    t.state("sem", desc, orders, nest)


def plain(t, dim, n, seed):
    """spaces without product structure"""
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    space = mp.PN(dim, n)
    for shape in [(space.space_dim,), (3, space.space_dim), (space.space_dim, 2), (5, 7),
                  (), (0,)]:
        a = rng.normal(size=shape)
        keep = a.copy()
        for ax in (-1, 0, 5):
            r = mt.reshape_array_for_tensor_product_space(space, a, ax)
            u = mt.unreshape_array_for_tensor_product_space(space, a, ax)
            t.true("pass-through", r.shape == shape and u.shape == shape
                   and np.array_equal(r, keep) and np.array_equal(u, keep)
                   and np.array_equal(a, keep), f"PN({dim}, {n}) {shape} {ax}")
    t.state("plain", dim, n)


def reject(t, desc, orders, nest, seed):
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    space = mk(desc, orders, nest)
    fdims = tuple(ref.space_dim((d,), (n,)) for d, n in zip(desc, orders, strict=True))
    n = math.prod(fdims)
    name = f"{desc} {orders} {nest}"
    rs, un = (mt.reshape_array_for_tensor_product_space,
              mt.unreshape_array_for_tensor_product_space)
    for bad in {n+1, n-1, 2*n, n*fdims[0], 0, *fdims} - {n}:
        if bad < 0:
            continue
        for sh, ax in [((bad,), -1), ((bad,), 0), ((n, bad), -1), ((n, bad), 1),
                       ((bad, n), 0), ((bad, n), -2), ((2, bad, 3), 1),
                       ((2, bad, 3), -2)]:
            t.raises("wrong length rejected", ValueError,
                     lambda sh=sh, ax=ax: rs(space, np.zeros(sh), ax),
                     f"{sh} axis {ax} {name}")
    for sh in [(n,), (n, n), (n, n, n)]:
        for ax in (len(sh), len(sh)+1, -len(sh)-1, -len(sh)-2, -2*len(sh), -7, 9):
            if -len(sh) <= ax < len(sh):
                continue
            t.raises("axis out of range rejected", ValueError,
                     lambda sh=sh, ax=ax: rs(space, np.zeros(sh), ax),
                     f"{sh} axis {ax} {name}")
    # inverse
    k = len(fdims)
    for lead, trail in [((), ()), ((2,), ()), ((), (3,)), ((2,), (3,))]:
        nax = len(lead)+len(trail)+1
        a = np.zeros(lead + fdims + trail)
        for ax in (nax, nax+1, -nax-1, -nax-2, -9, 11):
            t.raises("axis out of range rejected", ValueError,
                     lambda a=a, ax=ax: un(space, a, ax),
                     f"inverse {a.shape} axis {ax} {name}")
        for p in set(itertools.permutations(fdims)) - {fdims}:
            b = np.zeros(lead + p + trail)
            t.raises("wrong factor axes rejected", ValueError,
                     lambda b=b, ax=len(lead): un(space, b, ax), f"{b.shape} {name}")
        for j in range(k):
            for dlt in (-1, 1):
                f = list(fdims)
                f[j] += dlt
                b = np.zeros(lead + tuple(f) + trail)
                t.raises("wrong factor axes rejected", ValueError,
                         lambda b=b, ax=len(lead): un(space, b, ax), f"{b.shape} {name}")
        for ax in range(-nax, nax):
            pos = ax % nax
            if pos != len(lead) and (lead+fdims+trail)[pos:pos+k] != fdims:
                t.raises("wrong factor axes rejected", ValueError,
                         lambda a=a, ax=ax: un(space, a, ax), f"{a.shape} {ax} {name}")
    rng.normal()
    t.state("reject", tuple(desc), tuple(orders))


def empty_product(t, nlead, ntrail, seed):
    """a product of no factors: its only coefficient has no axis"""
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    lead = tuple(int(i) for i in rng.integers(0, 4, nlead))
    trail = tuple(int(i) for i in rng.integers(0, 4, ntrail))
    space = mp.QN(0, 1)
    a = rng.normal(size=(*lead, 1, *trail))
    r = mt.reshape_array_for_tensor_product_space(space, a, nlead)
    t.true("shape of the result", r.shape == lead + trail, f"{r.shape}")
    t.true("entries follow the factor axes", np.array_equal(
        r, a[(*[slice(None)]*nlead, 0)]))
    u = mt.unreshape_array_for_tensor_product_space(space, r, nlead)
    t.true("round trip", np.array_equal(u, a) and u.shape == a.shape)
    t.state("none", nlead, ntrail)


GROUPS = {"entries": entries, "semantic": semantic, "plain": plain, "reject": reject,
          "empty_product": empty_product}

PRODUCTS = [(1, 1), (1, 1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (1, 2, 1), (2, 1, 1),
            (1, 1, 2), (1, 1, 1, 1), (2, 2), (2, 3), (0, 1), (1, 0), (1, 0, 1), (1,),
            (2,), (0,)]


def _orders(desc, rng, limit):
    for _ in range(300):
        o = [rng.randint(0, {0: 3, 1: 8, 2: 5, 3: 4}[d]) for d in desc]
        if ref.space_dim(tuple(desc), tuple(o)) <= limit:
            return o
    return [1]*len(desc)


def cases(tier, rng):
    thorough = tier == "thorough"
    lim = 400 if thorough else 120
    for desc in PRODUCTS:
        for _ in range(60 if thorough else 14):
            o = _orders(desc, rng, lim)
            nest = rng.choice(["plain", "plain", "nested"])
            if set(desc) == {1} and len(set(o)) == 1 and len(desc) > 1:
                nest = rng.choice(["plain", "qn", "nested"])
            yield "entries", {
                "desc": list(desc), "orders": o, "nest": nest,
                "lead": [rng.randint(1, 4) for _ in range(rng.randint(0, 2))],
                "trail": [rng.choice([0, 1, 2, 3, 4])
                          for _ in range(rng.randint(0, 2))],
                "neg": rng.random() < 0.5,
                "dtype": rng.choice(["float64", "float64", "float32", "int64", "complex",
                                     "object", "str", "bool", "longdouble"]),
                "layout": rng.choice(["C", "C", "F", "strided", "reversed",
                                      "transposed", "readonly"]),
                "seed": rng.randrange(10**6)}
    more = [((1,)*5, (1, 2, 0, 3, 2)), ((1,)*6, (2, 1, 1, 3, 1, 1)),
            ((1,)*7, (1, 2, 1, 1, 0, 1, 2)), ((1,)*8, (1, 0, 1, 2, 1, 0, 1, 1)),
            ((1,)*9, (1, 0, 1, 0, 2, 1, 0, 0, 1)), ((1,)*10, (0, 1, 1, 0, 1, 2, 0, 0, 1, 0)),
            ((1,)*12, (1, 0, 1, 0, 0, 1, 2, 0, 0, 1, 0, 0)), ((2, 1, 1, 1, 1), (2, 1, 0, 3, 1)),
            ((1, 1, 1, 1, 2), (2, 1, 0, 3, 1)), ((1, 2, 1, 3, 1, 1), (1, 2, 1, 1, 0, 2)),
            ((2, 2, 2, 1, 1), (1, 2, 1, 3, 1)), ((1, 1), (130, 2)), ((1, 1), (3, 200)),
            ((1, 1), (260, 1)), ((1, 1), (40, 30)), ((1, 1, 1), (10, 20, 12)),
            ((2, 1), (20, 9)), ((1, 2), (12, 18)), ((1, 3), (5, 9)), ((1, 1), (200, 180))]
    for desc, o in more:
        for lead, trail in [([], []), ([2], [3]), ([1, 2, 1, 2], [2]), ([2], [1, 3, 2, 1]),
                            ([1, 2, 1, 2, 1, 3], [1, 2]), ([], [2, 1, 2, 1, 1, 2, 1])]:
            if ref.space_dim(desc, o) > 2000 and len(lead + trail) > 2:
                continue
            yield "entries", {
                "desc": list(desc), "orders": list(o), "lead": lead, "trail": trail,
                "nest": rng.choice(["plain", "plain", "nested"]),
                "neg": rng.random() < 0.5, "dtype": rng.choice(["float64", "int64"]),
                "layout": rng.choice(["C", "F", "strided", "transposed"]),
                "seed": rng.randrange(10**6)}
    for n in range(0, 5):
        for d in (2, 3):
            yield "entries", {"desc": [1]*d, "orders": [n]*d, "nest": "qn", "lead": [2],
                              "trail": [3], "neg": bool(n % 2), "dtype": "float64",
                              "layout": "C", "seed": rng.randrange(10**6)}
    for desc in PRODUCTS:
        # shapes that exist: at most one factor that is not a segment
        if sum(1 for d in desc if d != 1) > 1 or 0 in desc or len(desc) < 2:
            continue
        for _ in range(20 if thorough else 4):
            o = _orders(desc, rng, lim)
            yield "semantic", {"desc": list(desc), "orders": o,
                               "nest": rng.choice(["plain", "nested"]),
                               "seed": rng.randrange(10**6)}
        if set(desc) == {1}:
            for n in range(0, 5 if len(desc) < 4 else 3):
                yield "semantic", {"desc": list(desc), "orders": [n]*len(desc),
                                   "nest": "qn", "seed": rng.randrange(10**6)}
    for d in range(0, 5):
        for n in range(0, 4):
            yield "plain", {"dim": d, "n": n, "seed": rng.randrange(10**6)}
    for desc in PRODUCTS:
        if len(desc) == 1:      # just its only factor, no product structure
            continue
        for _ in range(12 if thorough else 3):
            o = _orders(desc, rng, 60)
            yield "reject", {"desc": list(desc), "orders": o, "nest": "plain",
                             "seed": rng.randrange(10**6)}
    for i in range(3):
        for j in range(3):
            yield "empty_product", {"nlead": i, "ntrail": j,
                                    "seed": rng.randrange(10**6)}
