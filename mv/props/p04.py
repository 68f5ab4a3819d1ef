"""P04: tensor-product and space-matched quadrature."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mv import common as C, ref

TECHNIQUE = "moment oracle over composed rules, spaces, shapes and factor orders"
LEVEL_NOTE = (
    "Each sampled rule is decided completely: every moment of a basis of the space "
    "it must integrate is compared with its exact value. Factor combinations and "
    "orders are sampled (all orders of single-factor spaces up to a bound; every "
    "Witherden-Vincent table entry).")

RULE = ("one case per composed rule (list of factor rules), per (shape, orders) pair "
        "for space-matched rules, and per Witherden-Vincent table entry; "
        "non-trivial if all moments of the space were decided.")
ASSUMPTIONS = ["tensor-product shapes have at most one factor that is not a segment "
               "(the library's own restriction)"]
REQUIRED = ("space moments", "tensor moments", "total-degree moments",
            "stated degree", "wv moments", "wv symmetric")


def rule(name, n):
    """-> (quadrature, factor dim, degree to which it is exact, stated?)"""
    import modepy as mp
    kw = {"force_dim_axis": True}
    if name == "gl":
        return mp.LegendreGaussQuadrature(n, **kw), 1, 2*n+1, True
    if name == "gl1d":      # without a dimension axis
        return mp.LegendreGaussQuadrature(n), 1, 2*n+1, True
    if name == "gll":
        return mp.LegendreGaussLobattoQuadrature(max(n, 1), **kw), 1, \
            2*max(n, 1)-1, True
    if name == "cc":
        return mp.ClenshawCurtisQuadrature(max(n, 1), **kw), 1, max(n, 1), True
    if name == "f1":
        return mp.FejerQuadrature(max(n, 1), kind=1, **kw), 1, max(n, 1)-1, False
    if name == "f2":
        return mp.FejerQuadrature(max(n, 2), kind=2, **kw), 1, max(n, 2)-2, False
    if name == "xg2":
        return mp.XiaoGimbutasSimplexQuadrature(max(n, 1), 2), 2, max(n, 1), True
    if name == "xg3":
        return mp.XiaoGimbutasSimplexQuadrature(max(n, 1), 3), 3, max(n, 1), True
    if name == "gm2":
        return mp.GrundmannMoellerSimplexQuadrature(n//2, 2), 2, 2*(n//2)+1, True
    if name == "vr2":
        q = mp.VioreanuRokhlinSimplexQuadrature(n, 2)
        return q, 2, q.exact_to, True
    if name == "zero":
        return mp.ZeroDimensionalQuadrature(), 0, math.inf, True
    if name == "wv2":
        n = 2*(n//2) + 1
        return mp.WitherdenVincentQuadrature(n, 2), (1, 1), n, True
    raise ValueError(name)


def _modes_moments(t, name, desc, orders, x, w, detail, tot=None):
    keys, v = ref.tp_vander(desc, orders, x)
    w = np.asarray(w, dtype=ref.LD)
    got = (w @ v).astype(float)
    scale = (np.abs(w) @ np.abs(v)).astype(float)
    want = np.zeros(len(keys))
    i0 = keys.index((0,)*sum(desc))
    want[i0] = math.sqrt(ref.shape_volume(desc))
    if tot is not None:
        keep = np.array([sum(k) <= tot for k in keys])
        got, want, scale = got[keep], want[keep], scale[keep]
    t.close(name, got, want, 2e-13*np.maximum(scale, 1.0), detail)
    return len(got)


def tensor(t, names, ns):
    import modepy as mp
    rules = [rule(nm, n) for nm, n in zip(names, ns, strict=True)]
    qs = [r[0] for r in rules]
    q = mp.TensorProductQuadrature(qs)
    desc = []
    for r in rules:
        desc += list(r[1]) if isinstance(r[1], tuple) else [r[1]]
    dim = sum(desc)
    t.true("shapes", q.nodes.shape == (dim, q.weights.size) and q.dim == dim
           and q.weights.size == math.prod(f.weights.size for f in qs),
           f"{q.nodes.shape} {q.weights.shape}")
    t.true("factors", len(tuple(q.quadratures)) == len(qs)
           and all(a is b for a, b in zip(q.quadratures, qs, strict=True)))
    # stated degree
    degs = [r[2] for r in rules]
    if not all(r[3] for r in rules):
        t.raises("stated degree", AttributeError, lambda: q.exact_to)
    else:
        want = min(degs, default=math.inf)
        if want == math.inf:
            e = q.exact_to
            for k in (0, 1, 10**9, 2.5, -3):
                t.true("stated degree", e >= k and e > k and not (e < k)
                       and not (e <= k) and k < e and k <= e and not (k > e)
                       and not (k >= e) and e != k and min(e, k) == k == min(k, e)
                       and max(e, k) is e and max(k, e) is e, f"{e} {k}")
            t.true("stated degree", e >= e and e <= e and not (e > e) and not (e < e)
                   and e == mp.ZeroDimensionalQuadrature().exact_to
                   and e + 1 >= 10**9, f"{e}")
        else:
            t.true("stated degree", q.exact_to == want, f"{q.exact_to} != {want}")
    # products, each factor with its own degree, in factor order
    fdesc, forders = [], []
    left = {4: 3, 5: 3, 6: 2, 7: 1}.get(dim, 6 if dim <= 3 else 1)
    for r in rules:
        ds = r[1] if isinstance(r[1], tuple) else (r[1],)
        for d in ds:
            fdesc.append(d)
            deg = r[2] if not isinstance(r[1], tuple) else r[2]//len(r[1])
            forders.append(int(min(deg, left if len(rules) > 1 else 30)))
    m = 0
    if q.nodes.size or not dim:
        m = _modes_moments(t, "tensor moments", tuple(fdesc), tuple(forders),
                           q.nodes.reshape(dim, q.weights.size), q.weights,
                           f"{names} {ns} per-factor degrees {forders}")
    fin = [d for d in degs if d != math.inf]
    deg = min(fin, default=0)
    deg = int(min(deg, {0: 0, 1: 40, 2: 20, 3: 10, 4: 5, 5: 5,
                        6: 2, 7: 2}.get(dim, 1)))
    _modes_moments(t, "total-degree moments", tuple(fdesc), (deg,)*len(fdesc),
                   q.nodes.reshape(dim, q.weights.size), q.weights,
                   f"{names} {ns} total degree {deg}", tot=deg)
    t.state("tensor", tuple(names), tuple(desc))
    # a separable function, through the rule object: catches weights in a
    # different node order than the nodes
    a = [0.3 + 0.2*i for i in range(dim)]

    def f(x):
        return np.prod([1 + ai*x[i] for i, ai in enumerate(a)], axis=0) \
            if dim else np.full(x.shape[1:], 1.0)
    if all(d >= 1 for d in degs) and all(d == 1 for d in fdesc):
        t.close("callable", q(f), 2.0**dim, 1e-12*2**dim)
    t.show(factors=list(names), orders=list(ns), nnodes=int(q.weights.size),
           exact_products_decided=m)


def gl_tensor(t, kind, n, dims):
    import modepy as mp
    cls = {"gl": mp.LegendreGaussTensorProductQuadrature,
           "gll": mp.LegendreGaussLobattoTensorProductQuadrature}[kind]
    q = cls(n, dims)
    deg = 2*n+1 if kind == "gl" else 2*n-1
    t.true("shapes", q.nodes.shape == (dims, (n+1)**dims))
    if dims:
        t.true("stated degree", q.exact_to == deg)
    else:
        t.true("stated degree", q.exact_to > 10**9)
    m = {1: 25, 2: 12, 3: 6, 4: 3}.get(dims, 0)
    d = min(deg, m)
    _modes_moments(t, "tensor moments", (1,)*dims, (d,)*dims, q.nodes, q.weights,
                   f"{kind} {n} {dims}")
    if dims:
        # an own degree in every single direction
        for ax in range(dims):
            o = [0]*dims
            o[ax] = deg
            _modes_moments(t, "tensor moments", (1,)*dims, tuple(o), q.nodes,
                           q.weights, f"{kind} {n} {dims} axis {ax}")


def space(t, desc, orders):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    sp, sh = C.mk_space(desc, orders), C.mk_shape(desc)
    q = mp.quadrature_for_space(sp, sh)
    dim = sum(desc)
    t.true("shapes", q.nodes.shape == (dim, q.weights.size) and q.dim == dim)
    t.close("weight sum", float(np.sum(q.weights)),
            float(ref.shape_volume(desc)), 1e-12*float(ref.shape_volume(desc))
            * max(1.0, float(np.sum(np.abs(q.weights)))))
    for i, n in enumerate(orders):
        if desc[i]:
            t.true("degree covers the space", q.exact_to >= min(orders),
                   f"{q.exact_to} < {n}")
    m = _modes_moments(t, "space moments", desc, orders, q.nodes, q.weights,
                       f"{desc} {orders}")
    import random
    rng = random.Random(f"{desc}{orders}")
    p = ref.random_poly(desc, orders, rng)
    pn = np.asarray(p(q.nodes), dtype=float)
    t.close("random member", q(lambda x: np.asarray(p(x), dtype=float)),
            float(p.integral()),
            1e-12*max(1.0, float(np.abs(q.weights) @ np.abs(pn))))
    t.state("space", desc)
    t.show(shape=desc, orders=orders, nnodes=int(q.weights.size), moments=m)


def space_made(t, desc, order):
    """the space is created for the shape by the library"""
    import modepy as mp
    desc = tuple(desc)
    sh = C.mk_shape(desc)
    o = order if isinstance(order, int) else tuple(order)
    sp = mp.space_for_shape(sh, o)
    q = mp.quadrature_for_space(sp, sh)
    orders = (o,)*len(desc) if isinstance(o, int) else o
    _modes_moments(t, "space moments", desc, orders, q.nodes, q.weights,
                   f"{desc} {orders}")


def wv(t, order, dim):
    import modepy as mp
    try:
        q = mp.WitherdenVincentQuadrature(order, dim)
    except mp.QuadratureRuleUnavailable as e:
        avail = (dim == 2 and order in range(1, 22, 2)) or (
            dim == 3 and order in range(1, 12, 2))
        t.true("wv availability", not avail, f"has become unavailable: {e}")
        return
    x, w = q.nodes, q.weights
    t.true("shapes", x.shape == (dim, w.size) and q.dim == dim)
    t.true("wv stated degree", q.exact_to == order, f"{q.exact_to}")
    t.true("wv positive", np.all(w > 0))
    t.true("wv contained", np.max(np.abs(x)) <= 1)
    t.close("weight sum", np.sum(w), 2.0**dim, 1e-13*2**dim)
    _modes_moments(t, "wv moments", (1,)*dim, (order,)*dim, x, w,
                   f"order {order} dim {dim}", tot=order)
    # invariant under the hyperoctahedral group, weights included
    n = 0
    for perm in itertools.permutations(range(dim)):
        for signs in itertools.product((1, -1), repeat=dim):
            y = np.array(signs)[:, None]*x[list(perm)]
            dist = np.max(np.abs(y[:, :, None] - x[:, None, :]), axis=0)
            j = np.argmin(dist, axis=1)
            ok = (np.all(dist[np.arange(w.size), j] < 1e-12)
                  and len(set(j.tolist())) == w.size
                  and np.all(np.abs(w[j] - w) < 1e-13))
            t.true("wv symmetric", ok, f"{perm} {signs}")
            n += 1
    t.state("wv", dim, order)
    t.show(order=order, dim=dim, nnodes=int(w.size), symmetries=n)


GROUPS = {"tensor": tensor, "gl_tensor": gl_tensor, "space": space,
          "space_made": space_made, "wv": wv}


def cases(tier, rng):
    thorough = tier == "thorough"
    for dim in (1, 2, 3, 4):
        for order in range(-1, 26):
            yield "wv", {"order": order, "dim": dim}
    for kind in ("gl", "gll"):
        for dims in range(5):
            for n in ([0, 1, 2, 3, 5] if kind == "gl" else [1, 2, 3, 5]):
                if (n+1)**dims <= 1300:
                    yield "gl_tensor", {"kind": kind, "n": n, "dims": dims}
    # composed
    yield "tensor", {"names": [], "ns": []}
    names = ["gl", "gll", "cc", "f1", "f2", "xg2", "xg3", "gm2", "vr2", "zero",
             "gl1d", "wv2"]
    for nm in names:
        for n in (1, 3, 6):
            yield "tensor", {"names": [nm], "ns": [n]}
    for a in names:
        for b in names:
            if "gl1d" in (a, b) and False:
                continue
            yield "tensor", {"names": [a, b], "ns": [rng.randint(1, 6),
                                                     rng.randint(1, 6)]}
    for _ in range(400 if thorough else 60):
        k = rng.choice([2, 3, 3, 4])
        nm = [rng.choice(names) for _ in range(k)]
        ns = [rng.randint(0 if x == "gl" else 1, 5) for x in nm]
        npts = math.prod({"xg3": 4, "xg2": 3}.get(x, 1)*(n+1)
                         for x, n in zip(nm, ns, strict=True))
        dim = sum({"xg3": 3, "xg2": 2, "gm2": 2, "vr2": 2, "wv2": 2,
                   "zero": 0}.get(x, 1) for x in nm)
        if npts <= 4000 and dim <= 5:
            yield "tensor", {"names": nm, "ns": ns}
    # many factors
    for k in range(5, 13):
        pool = ["gl", "gll", "cc", "f1"] + (["xg2", "zero"] if k < 8 else [])
        for _ in range(2):
            nm = [rng.choice(pool) for _ in range(k)]
            if sum(2 if x == "xg2" else 1 for x in nm) <= 8 or k > 8:
                nm = nm if k <= 8 else [rng.choice(["gl", "gll"]) for _ in range(k)]
                ns = [rng.randint(0, 1) if x == "gl" and k > 8 else
                      rng.randint(1, 2 if k < 7 else 1) for x in nm]
                if k > 8:       # few enough nodes
                    ns = [1 if i < 3 or nm[i] == "gll" else 0
                          for i, x in enumerate(nm)]
                    nm = [x if i < 5 else "gl" for i, x in enumerate(nm)]
                    ns = [n if nm[i] != "gl" or i < 3 else 0
                          for i, n in enumerate(ns)]
                yield "tensor", {"names": nm, "ns": ns}
    # many nodes, factors of quite different sizes
    for nm, ns in ((["gl", "gll"], [30, 40]), (["cc", "gl"], [130, 9]),
                   (["gl", "cc"], [9, 140]), (["f1", "f2"], [70, 75]),
                   (["gl", "gl"], [150, 160]), (["xg2", "gl"], [30, 45]),
                   (["gl", "xg2"], [45, 30]), (["xg3", "gl"], [12, 30]),
                   (["gl", "gll", "cc"], [9, 11, 14]),
                   (["gll", "gl", "f1"], [20, 19, 25]),
                   (["gl", "gl", "gl", "gl"], [4, 6, 5, 7]),
                   (["xg2", "xg2"], [20, 15]), (["vr2", "gm2"], [9, 12])):
        yield "tensor", {"names": nm, "ns": ns}
    # spaces: all orders of single factors
    for n in range(0, 60 if thorough else 41):
        yield "space", {"desc": [1], "orders": [n]}
    for n in range(0, 56 if thorough else 55):
        if thorough or n <= 24 or (n % 3 == 0 and n < 50) or n in (49, 50, 51):
            yield "space", {"desc": [2], "orders": [n]}
    for n in range(0, 21 if thorough else 19):
        yield "space", {"desc": [3], "orders": [n]}
    for n in range(0, 12 if thorough else 9):
        yield "space", {"desc": [4], "orders": [n]}
    for n in range(0, 7 if thorough else 5):
        yield "space", {"desc": [5], "orders": [n]}
    for n in range(0, 5):
        yield "space", {"desc": [0], "orders": [n]}
    yield "space", {"desc": [], "orders": []}
    for desc in [(1, 1), (1, 1, 1), (1, 1, 1, 1), (2, 1), (1, 2), (3, 1), (1, 3),
                 (1, 2, 1), (1, 1, 2), (2, 1, 1)]:
        for n in range(0, C.max_order(desc, 900 if thorough else 350)+1):
            yield "space", {"desc": list(desc), "orders": [n]*len(desc)}
            yield "space_made", {"desc": list(desc), "order": n}
        for _ in range(60 if thorough else 14):
            o = list(C.random_orders(desc, rng, 900 if thorough else 400))
            yield "space", {"desc": list(desc), "orders": o}
            yield "space_made", {"desc": list(desc), "order": o}
    for desc, o in [((2, 1), (1, 9)), ((2, 1), (9, 1)), ((1, 2), (1, 9)),
                    ((1, 2), (11, 0)), ((3, 1), (0, 6)), ((1, 3), (7, 1)),
                    ((1, 1), (0, 12)), ((1, 1), (12, 0)), ((1, 1, 1), (0, 5, 2)),
                    ((3, 1), (16, 0)), ((2, 1), (0, 20))]:
        yield "space", {"desc": list(desc), "orders": list(o)}
        yield "space_made", {"desc": list(desc), "order": list(o)}
