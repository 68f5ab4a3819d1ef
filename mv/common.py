"""Helpers shared by the property modules: building library objects through the
public interface from plain descriptions, and small numerical utilities."""
from __future__ import annotations

import numpy as np

from mv import ref

EPS = ref.EPS


def nprng(seed):
    return np.random.default_rng(seed)


def mk_shape(desc):
    """desc: tuple of simplex dimensions, e.g. (), (0,), (2,), (1, 1), (2, 1)."""
    import modepy as mp
    desc = tuple(desc)
    if len(desc) == 1:
        return mp.Simplex(desc[0])
    if all(d == 1 for d in desc):
        return mp.Hypercube(len(desc))
    return mp.TensorProductShape(tuple(mp.Simplex(d) for d in desc))


def mk_space(desc, orders):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    if len(desc) == 1:
        return mp.PN(desc[0], orders[0])
    if desc and all(d == 1 for d in desc) and len(set(orders)) == 1:
        return mp.QN(len(desc), orders[0])
    if not desc:
        return mp.QN(0, 1)
    return mp.TensorProductSpace(tuple(
        mp.PN(d, n) for d, n in zip(desc, orders, strict=True)))


def flat_mode(mode_id):
    """Flatten (nested) mode identifiers of product bases into one tuple."""
    if isinstance(mode_id, tuple):
        r = ()
        for m in mode_id:
            r += flat_mode(m)
        return r
    return (int(mode_id),)


def cond(a):
    a = np.asarray(a, dtype=np.float64)
    if a.size == 0:
        return 1.0
    return float(np.linalg.cond(a))


def short(a, n=4):
    """First few entries, for evidence samples."""
    a = np.asarray(a)
    return np.round(a.reshape(-1)[:n].astype(float), 12).tolist()


# shapes with everything (orthonormal bases, nodes): dims up to 3 simplices,
# squares, cubes, 4-cubes, prisms in both factor orders, prism x segment
SHAPES = [(1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 2), (3, 1), (1, 3),
          (1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 1, 1, 1)]


# spaces with more than 128 functions, beyond what the systematic lists reach
BIG = [((1,), (60,)), ((1,), (130,)), ((1,), (260,)), ((2,), (15,)), ((2,), (18,)),
       ((2,), (22,)), ((3,), (8,)), ((3,), (10,)), ((3,), (12,)), ((1, 1), (12, 10)),
       ((1, 1), (15, 17)), ((1, 1), (23, 23)), ((1, 1), (1, 130)), ((1, 1), (129, 2)),
       ((1, 1, 1), (5, 4, 4)), ((1, 1, 1), (6, 6, 6)), ((1, 1, 1), (1, 32, 8)),
       ((2, 1), (6, 5)), ((2, 1), (8, 11)), ((1, 2), (4, 9)), ((1, 2), (33, 4)),
       ((3, 1), (4, 6)), ((1, 3), (2, 7)), ((1, 1, 1, 1), (3, 3, 3, 3)),
       ((1, 2, 1), (3, 4, 4)), ((2, 1, 1), (3, 5, 4)), ((1, 1), (24, 32)),
       ((2,), (32,)), ((3,), (14,)), ((1, 1, 1), (8, 8, 9))]


def big(rng, thorough, limit=10**9, fewer=1):
    """cases over BIG: all in the thorough tier, a share in the quick tier"""
    todo = [(d, o) for d, o in BIG if ref.space_dim(d, o) <= limit]
    if not thorough and fewer > 1:
        # always one of each decade of sizes
        todo.sort(key=lambda e: ref.space_dim(*e))
        k = rng.randrange(fewer)
        todo = todo[k::fewer] + todo[-2:]
    for d, o in todo:
        yield {"desc": list(d), "orders": list(o)}


def max_order(desc, ndofs):
    """largest uniform order whose space has at most ndofs dimensions"""
    n = 0
    while ref.space_dim(tuple(desc), (n+1,)*len(desc)) <= ndofs and n < 60:
        n += 1
    return n


def random_orders(desc, rng, ndofs):
    """random per-factor orders with a bounded number of degrees of freedom"""
    for _ in range(200):
        hi = {1: 12, 2: 9, 3: 6}
        o = tuple(rng.randint(0, hi.get(d, 3)) for d in desc)
        if ref.space_dim(tuple(desc), o) <= ndofs:
            return o
    return (1,)*len(desc)


_quad_cache = {}


def simplex_quad(d, n):
    """Collapsed Gauss-Jacobi rule on the bi-unit simplex (scipy, not modepy),
    exact to degree 2n-1: nodes (d, npts), weights."""
    if (d, n) in _quad_cache:
        return _quad_cache[d, n]
    from scipy.special import roots_jacobi
    if d == 0:
        return np.zeros((0, 1)), np.ones(1)
    # x_1 .. x_d with collapsed coordinates: barycentric stick breaking
    pts = [()]
    wts = [1.0]
    for k in range(d, 0, -1):
        x, w = roots_jacobi(n, k-1, 0)
        u = (1+x)/2
        w = w/2**k
        pts = [(*p, ui) for p in pts for ui in u]
        wts = [wi*wj for wi in wts for wj in w]
    pts = np.array(pts).T
    y = np.empty_like(pts)
    rest = np.ones(pts.shape[1])
    for k in range(d):
        y[k] = rest*pts[k]
        rest = rest*(1-pts[k])
    res = (2*y-1, np.array(wts)*2.0**d)
    _quad_cache[d, n] = res
    return res


def tp_quad(desc, n):
    """Product of the above; n: points per direction (int or per factor)."""
    ns = (n,)*len(desc) if isinstance(n, int) else tuple(n)
    x = np.zeros((0, 1))
    w = np.ones(1)
    for d, ni in zip(desc, ns, strict=True):
        xi, wi = simplex_quad(d, ni)
        na, nb = len(w), len(wi)
        x = np.concatenate([np.repeat(x, nb, axis=1), np.tile(xi, (1, na))])
        w = np.repeat(w, nb)*np.tile(wi, na)
    return x, w


def mode_scale(desc, orders, x):
    """max over the modes of |phi| at each point: natural rounding scale"""
    _keys, v = ref.tp_vander(desc, orders, x)
    return np.max(np.abs(v), axis=1).astype(float) if v.shape[1] else np.zeros(len(v))


def near_collapsed(desc, x, tol=1e-9):
    """points so near a collapsed edge that the library treats them as on it"""
    near = np.zeros(x.shape[1], dtype=bool)
    ofs = 0
    for d in desc:
        y = x[ofs:ofs+d]
        if d >= 2:
            near |= np.abs(1-y[-1]) < tol
        if d >= 3:
            near |= np.abs(y[-1]+y[-2]) < tol
        ofs += d
    return near


# {{{ node sets and bases by description (used by the matrix properties)

BASIS_KINDS = ("onb", "default", "mono")


def mk_basis(kind, desc, orders):
    import modepy as mp
    make = {"onb": mp.orthonormal_basis_for_space, "default": mp.basis_for_space,
            "mono": mp.monomial_basis_for_space}[kind]
    return make(mk_space(desc, orders), mk_shape(desc))


def fekete_like(desc, orders, rng):
    """well-conditioned scattered unisolvent nodes: QR-pivoted random points"""
    from scipy.linalg import qr
    n = ref.space_dim(tuple(desc), tuple(orders))
    x = ref.random_points(tuple(desc), 12*n + 30, rng)
    _k, v = ref.tp_vander(tuple(desc), tuple(orders), x)
    _q, _r, piv = qr(v.astype(float).T, pivoting=True, mode="economic")
    return x[:, piv[:n]]


def mk_nodes(kind, desc, orders, rng):
    """unisolvent node sets of several kinds, plain arrays"""
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    if kind == "scattered":
        return fekete_like(desc, orders, rng)
    space, shape = mk_space(desc, orders), mk_shape(desc)
    if kind == "equi":
        return mp.equispaced_nodes_for_space(space, shape)
    x = mp.edge_clustered_nodes_for_space(space, shape)
    if kind == "permuted":
        return x[:, rng.permutation(x.shape[1])]
    if kind == "interior":
        # shrunk towards the centroid: no node on the boundary
        c = x.mean(axis=1, keepdims=True)
        return c + 0.9*(x-c)
    assert kind == "clustered"
    return x


NODE_KINDS = ("clustered", "equi", "scattered", "permuted", "interior")

# }}}
