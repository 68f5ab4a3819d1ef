"""P12: interpolation node sets."""
from __future__ import annotations

import itertools

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("structural oracle on returned node sets (lattice arithmetic, symmetry "
             "group action on node tuples, independent extended-precision "
             "warp-and-blend construction), statistics of unisolvence")
LEVEL_NOTE = (
    "Node sets of every order up to a bound (beyond the tabulated blending "
    "parameters) for simplices of dimension 0-5 and products are compared node by "
    "node with what their node tuples denote. Tuple permutations and per-factor "
    "orders are sampled.")

RULE = ("one case per (family, shape, orders) with random permutations of the node "
        "tuples; non-trivial if every node was checked against its node tuple.")
ASSUMPTIONS = [
    "unisolvence is judged by the condition number of the reference modes' "
    "Vandermonde matrix on the returned nodes (edge-clustered sets); equispaced "
    "sets are compared with the exact lattice, which is unisolvent",
    "node-by-node comparison up to order 50 (2D) and 28 (3D) for edge-clustered sets: "
    "beyond, interpolation from equispaced points in the published construction "
    "amplifies rounding above the tolerance; see the known finding",
]
REQUIRED = ("count", "contained", "vertices", "lattice", "unisolvent",
            "edge nodes are LGL", "symmetric", "node tuples permute nodes",
            "published construction", "product nodes", "random nodes contained",
            "random nodes reproducible")

A2 = [0.0000, 0.0000, 1.4152, 0.1001, 0.2751, 0.9800, 1.0999, 1.2832, 1.3648,
      1.4773, 1.4959, 1.5743, 1.5770, 1.6223, 1.6258]
A3 = [0, 0, 0, 0.1002, 1.1332, 1.5608, 1.3413, 1.2577, 1.1603, 1.10153, 0.6080,
      0.4523, 0.8856, 0.8717, 0.9655]


def lgl(n):
    """Legendre-Gauss-Lobatto points by Newton iteration in long double"""
    if n == 1:
        return np.array([-1, 1], dtype=ref.LD)
    x = -np.cos(np.pi*np.arange(1, n, dtype=ref.LD)/n)
    for _ in range(60):
        # zeros of P_n'
        p = ref.jacobi_all(0, 0, n, x)
        d1 = n*(x*p[n]-p[n-1])/(x*x-1)
        d2 = (2*x*d1 - n*(n+1)*p[n])/(1-x*x)
        dx = d1/d2
        x = x-dx
        if np.max(np.abs(dx)) < 1e-18:
            break
    return np.concatenate([[-1], x, [1]]).astype(ref.LD)


def warpfac(n, r):
    """scaled 1D warp of the book (w(r)/(1-r^2)), barycentric interpolation"""
    eq = -1 + 2*np.arange(n+1, dtype=ref.LD)/n
    dst = lgl(n)-eq
    # the warp vanishes at both ends: interpolate w/(1-r^2) on interior nodes
    if n == 1:
        return np.zeros_like(r)
    xi = eq[1:-1]
    f = dst[1:-1]/(1-xi*xi)
    res = np.zeros_like(r)
    for j in range(len(xi)):
        ell = np.ones_like(r)
        for k in range(len(xi)):
            if k != j:
                ell = ell*(r-xi[k])/(xi[j]-xi[k])
        res = res + f[j]*ell
    return res


def shift2(n, l1, l2, l3, alpha):
    """barycentric displacement vector (toward vertices 1, 2, 3) of the 2D warp;
    tangent displacement of length s along edge (i, j) of an equilateral triangle
    with edge 2 moves lambda_i by s/2 and lambda_j by -s/2"""
    lam = [l1, l2, l3]
    d = [np.zeros_like(l1) for _ in range(3)]
    for i in range(3):
        j, k = (i+1) % 3, (i+2) % 3
        w = 4*lam[j]*lam[k]*warpfac(n, lam[k]-lam[j])*(1+(alpha*lam[i])**2)
        d[k] = d[k] + w/2
        d[j] = d[j] - w/2
    return d


def warp_blend(d, n, tuples):
    """bi-unit coordinates, long double, of the warp-and-blend nodes"""
    tup = np.array(tuples, dtype=ref.LD).T
    lam = np.concatenate([[n - tup.sum(axis=0)], tup])/ref.LD(n)
    if d == 1:
        return lgl(n)[np.array([t[0] for t in tuples])][None]
    if d == 2:
        al = A2[n-1] if n <= 15 else ref.LD(5)/3
        sh = np.array(shift2(n, *lam, al))
        return 2*(lam+sh)[1:]-1
    al = ref.LD(A3[n-1]) if n <= 15 else ref.LD(1)
    tot = np.zeros_like(lam)
    onface = np.zeros(lam.shape[1], dtype=bool)
    for f in range(4):
        oth = [i for i in range(4) if i != f]
        l1 = lam[f]
        l2, l3, l4 = (lam[i] for i in oth)
        sh = shift2(n, l2, l3, l4, al)
        den = (l2+l1/2)*(l3+l1/2)*(l4+l1/2)
        with np.errstate(all="ignore"):
            bl = np.where(den > 1e-12, l2*l3*l4/den*(1+(al*l1)**2), 0)
        for i, s in zip(oth, sh, strict=True):
            tot[i] = tot[i] + bl*s
        # points of edges: only the 1D warp of that edge
        onface |= (l1 == 0)
    # faces' boundaries (edges): blending is undefined there, take the edge warp
    nz = (lam > 0).sum(axis=0)
    for p in np.where(nz == 2)[0]:
        i, j = np.where(lam[:, p] > 0)[0]
        r = lam[j, p]-lam[i, p]
        s = (1-r*r)*warpfac(n, np.array([r]))[0]
        tot[:, p] = 0
        tot[j, p] = s/2
        tot[i, p] = -s/2
    tot[:, nz == 1] = 0
    return 2*(lam+tot)[1:]-1


def perms(t, d, n, tuples, nodes, name, tol):
    """action of the symmetric group on the vertices"""
    pos = {tuple(tt): i for i, tt in enumerate(tuples)}
    bary = np.concatenate([[1-(0.5*(nodes+1)).sum(axis=0)], 0.5*(nodes+1)])
    for p in itertools.permutations(range(d+1)):
        idx = []
        for tt in tuples:
            full = (n-sum(tt), *tt)
            idx.append(pos[tuple(full[p[i]] for i in range(d+1))[1:]])
        t.close("symmetric", bary[:, idx], bary[list(p)], tol, f"{name} perm {p}")


def simplex(t, family, d, n, seed):
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    rng = C.nprng(seed)
    space, shape = mp.PN(d, n), mp.Simplex(d)
    if family == "equi":
        nodes = mp.equispaced_nodes_for_space(space, shape)
        func = mp.equidistant_nodes
    else:
        nodes = mp.edge_clustered_nodes_for_space(space, shape)
        func = mp.warp_and_blend_nodes if d <= 3 else mp.equidistant_nodes
    tuples = [tuple(int(i) for i in tt) for tt in node_tuples_for_space(space)]
    nn = ref.space_dim((d,), (n,))
    name = f"{family} d={d} n={n}"
    # last-bit differences, as amplified by the published construction
    amp = 2e-18*2.0**n/n if family != "equi" and 26 <= n and 2 <= d <= 3 else 0.0
    t.true("count", len(tuples) == len(set(tuples)) == nn and all(
        len(tt) == d and min(tt, default=0) >= 0 and sum(tt) <= n for tt in tuples),
        f"{name}: {len(tuples)} tuples")
    if not t.true("count", nodes.shape == (d, nn) == func(d, n).shape,
                  f"{name}: {nodes.shape}, {func(d, n).shape}"):
        return
    t.close("same nodes from both interfaces", func(d, n), nodes, 1e-14, name)
    t.true("contained", ref.simplex_contains(nodes, 1e-12 + amp).all(), name)
    if n == 0:
        t.close("lattice", nodes, np.full((d, 1), -1+2/(d+1)), 1e-14, name)
    else:
        lat = np.array(tuples, dtype=float).reshape(nn, d).T/n*2-1
        vert = mp.unit_vertices_for_shape(shape)
        for v in vert.T:
            t.true("vertices", nn and np.min(np.max(np.abs(
                nodes-v[:, None]), axis=0, initial=0)) < 1e-12 + amp,
                f"{name} vertex {v}")
        if family == "equi" or d > 3:
            t.close("lattice", nodes, lat, 1e-14, name)
        if d >= 1 and d <= 3:
            perms(t, d, n, tuples, nodes, name,
                  1e-12 if n < 12 else 1e-11 + amp)
        if family != "equi" and 1 <= d <= 3:
            g = lgl(n).astype(float)
            for i, tt in enumerate(tuples):
                full = (n-sum(tt), *tt)
                nz = [k for k, f in enumerate(full) if f]
                if len(nz) > 2:
                    continue
                # node on edge (a, b): parameter along the edge
                a, b = (nz[0], nz[-1]) if len(nz) == 2 else \
                    (nz[0], (nz[0]+1) % (d+1))
                s = (1+g[full[b]])/2
                want = vert[:, a]*(1-s) + vert[:, b]*s
                t.close("edge nodes are LGL", nodes[:, i], want,
                        1e-11 + (0 if n < 30 or d == 1 else 1e-17*2.0**n/n),
                        f"{name} tuple {tt}")
            wb = warp_blend(d, n, tuples).astype(float)
            t.close("published construction", nodes, wb,
                    1e-11 if n <= 12 else 1e-9 if n <= 20
                    else 1e-7 if n < 35 else 1e-5, name)
            _k, v = ref.tp_vander((d,), (n,), nodes)
            c = C.cond(v)
            t.le("unisolvent", c, 30 * (1+n)**(d*1.2) * (1 + 1.5**max(0, n-14)),
                 name)
        # permuted tuples permute the nodes
        for _ in range(3):
            p = rng.permutation(nn)
            tp = [tuples[i] for i in p]
            t.close("node tuples permute nodes", func(d, n, tp), nodes[:, p],
                    1e-12 + amp, name)
            t.close("node tuples permute nodes",
                    func(d, n, node_tuples=tuple(tp)), nodes[:, p], 1e-12 + amp,
                    name)
        rev = tuples[::-1]
        t.close("node tuples permute nodes", func(d, n, rev), nodes[:, ::-1],
                1e-12 + amp, name)
        # after explicit tuples, the default order is what it was
        t.close("default order", func(d, n), nodes, 1e-14, name)
    t.state(family, d, n)
    t.show(family=family, dim=d, order=n, nodes=nn, first=C.short(nodes))


def product(t, family, desc, orders, seed):
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    desc, orders = tuple(desc), tuple(orders)
    space, shape = C.mk_space(desc, orders), C.mk_shape(desc)
    get = mp.equispaced_nodes_for_space if family == "equi" else \
        mp.edge_clustered_nodes_for_space
    nodes = get(space, shape)
    tuples = [tuple(int(i) for i in tt) for tt in node_tuples_for_space(space)]
    name = f"{family} {desc} {orders}"
    nn = ref.space_dim(desc, orders)
    if not t.true("count", nodes.shape == (sum(desc), nn) and len(tuples) == nn
                  == len(set(tuples)), f"{name} {nodes.shape}"):
        return
    t.true("contained", ref.tp_contains(desc, nodes, 1e-12).all(), name)
    if all(o >= 1 for o, d in zip(orders, desc, strict=True) if d):
        for v in mp.unit_vertices_for_shape(shape).T:
            t.true("vertices", np.min(np.max(np.abs(nodes-v[:, None]), axis=0,
                                             initial=0)) < 1e-12, name)
    # each node is what its tuple says, factor by factor
    want = np.empty_like(nodes)
    ofs = 0
    for d, o in zip(desc, orders, strict=True):
        fn = get(mp.PN(d, o), mp.Simplex(d))
        ft = {tuple(int(i) for i in tt): k for k, tt in enumerate(
            node_tuples_for_space(mp.PN(d, o)))}
        for i, tt in enumerate(tuples):
            if not t.true("tuples of factors", tt[ofs:ofs+d] in ft, f"{name} {tt}"):
                return
            want[ofs:ofs+d, i] = fn[:, ft[tt[ofs:ofs+d]]]
        ofs += d
    t.close("product nodes", nodes, want, 1e-14, name)
    # axis order: first factor varies fastest
    seq = [t0 for t0 in tuples]
    nf = ref.space_dim(desc[:1], orders[:1])
    d0 = desc[0]
    ok = all(len({tt[d0:] for tt in seq[k:k+nf]}) == 1
             and len({tt[:d0] for tt in seq[k:k+nf]}) == nf
             for k in range(0, nn, nf))
    t.true("first factor fastest", ok, name)
    if family != "equi" and nn <= 700:
        _k, v = ref.tp_vander(desc, orders, nodes)
        t.le("unisolvent", C.cond(v), float(np.prod(
            [5*(2+o)**(1.2*d) for d, o in zip(desc, orders, strict=True)])), name)
    t.state(family, desc, orders)


def tpnodes(t, dims, counts, form, seed):
    """tensor_product_nodes of arbitrary node arrays"""
    import modepy as mp
    rng = C.nprng(seed)
    sets = [rng.uniform(-1, 1, (d, c)) for d, c in zip(dims, counts, strict=True)]
    arg = sets
    if form == "flat":
        arg = [s.reshape(-1) if s.shape[0] == 1 else s for s in sets]
    elif form == "tuple":
        arg = tuple(sets)
    elif form == "f32":
        arg = sets = [s.astype(np.float32) for s in sets]
    elif form == "mixed":
        # integer, single and double precision, complex: the result holds them all
        types = [np.int64, np.float64, np.float32, np.int32, np.complex128]
        arg = sets = [(9*s).astype(rng.choice(types[:4+seed % 2])) for s in sets]
    elif form == "strided":
        arg = [np.repeat(s, 2, axis=1)[:, ::2] for s in sets]
    if form == "int":
        sets = [sets[0].reshape(-1)[:counts[0]].reshape(1, -1)]*len(dims)
        got = mp.tensor_product_nodes(len(dims), sets[0] if seed % 2
                                      else sets[0].reshape(-1))
        dims, counts = [1]*len(dims), [sets[0].shape[1]]*len(dims)
    else:
        got = mp.tensor_product_nodes(arg)
    tot = int(np.prod(counts)) if counts else 1
    if not t.true("count", got.shape == (sum(dims), tot), f"{got.shape}"):
        return
    if sets and form == "mixed":
        t.true("dtype kept", all(np.can_cast(s.dtype, got.dtype) for s in sets),
               f"{[s.dtype for s in sets]} {got.dtype}")
    elif sets and form != "int":
        t.true("dtype kept", got.dtype == sets[0].dtype, got.dtype)
    want = np.empty((sum(dims), tot), complex if form == "mixed" else float)
    for i in range(tot):
        k = i
        ofs = 0
        for s, c, d in zip(sets, counts, dims, strict=True):
            want[ofs:ofs+d, i] = s[:, k % c]
            k //= c
            ofs += d
    t.close("product nodes", got, want, 0, f"{dims} {counts} {form}")
    t.state("tpnodes", tuple(dims), form)


def named(t, dims, n):
    import modepy as mp
    g, _w = np.polynomial.legendre.leggauss(n+1)
    for nm, f, x in (("gauss", mp.legendre_gauss_tensor_product_nodes, g),
                     ("lobatto", mp.legendre_gauss_lobatto_tensor_product_nodes,
                      lgl(n).astype(float) if n else np.zeros(1))):
        if nm == "lobatto" and n == 0:
            continue
        got = f(dims, n)
        want = np.array(np.meshgrid(*[x]*dims, indexing="ij")).reshape(
            dims, *[n+1]*dims)
        want = want.reshape(dims, -1, order="F")
        t.close("named product nodes", got, want, 1e-13, f"{nm} {dims} {n}")
    t.state("named", dims, n)


def rand(t, desc, npts, seed):
    import modepy as mp
    shape = C.mk_shape(desc)
    dim = sum(desc)
    a = mp.random_nodes_for_shape(shape, npts, rng=C.nprng(seed))
    b = mp.random_nodes_for_shape(shape, npts, C.nprng(seed))
    if not t.true("random nodes count", a.shape == (dim, npts), f"{a.shape}"):
        return
    t.true("random nodes contained", ref.tp_contains(tuple(desc), a, 1e-14).all())
    t.true("random nodes reproducible", np.array_equal(a, b))
    c = mp.random_nodes_for_shape(shape, npts, rng=C.nprng(seed+1))
    e = mp.random_nodes_for_shape(shape, npts)
    t.true("random nodes count", c.shape == e.shape == (dim, npts))
    t.true("random nodes contained", ref.tp_contains(tuple(desc), e, 1e-14).all())
    if dim and npts > 1:
        # in each coordinate all values are different, and so are other draws
        for x in a:
            t.true("random nodes distinct", len(np.unique(x)) == npts)
        t.true("random nodes differ between generators", not np.array_equal(a, c))
        r = C.nprng(seed)
        a1 = mp.random_nodes_for_shape(shape, npts, rng=r)
        a2 = mp.random_nodes_for_shape(shape, npts, rng=r)
        t.true("random nodes reproducible", np.array_equal(a1, a))
        t.true("generator advances", not np.array_equal(a1, a2))
    t.state("random", tuple(desc), npts)


def extreme(t, d, n):
    """containment only, at orders where rounding dominates the construction"""
    import modepy as mp
    x = mp.warp_and_blend_nodes(d, n)
    t.true("contained at extreme orders", ref.tp_contains((d,), x, 1e-10).all(),
           f"{d}D order {n}")
    t.state("extreme", d, n)


GROUPS = {"extreme": extreme, "simplex": simplex, "product": product, "tpnodes": tpnodes,
          "named": named, "rand": rand}


def cases(tier, rng):
    thorough = tier == "thorough"
    top = {"equi": {0: 3, 1: 40, 2: 25, 3: 14 if thorough else 11, 4: 6, 5: 4},
           "clustered": {0: 3, 1: 60 if thorough else 40, 2: 27 if thorough else 22,
                         3: 20 if thorough else 17, 4: 5, 5: 3}}
    for fam, tt in top.items():
        for d, hi in tt.items():
            for n in range(hi+1):
                for _ in range(3 if thorough else 1):
                    yield "simplex", {"family": fam, "d": d, "n": n,
                                      "seed": rng.randrange(10**6)}
    for fam, d, o in [("equi", 1, 41), ("equi", 1, 60), ("equi", 1, 64),
                      ("equi", 1, 100), ("equi", 1, 128), ("equi", 1, 200),
                      ("equi", 1, 257), ("equi", 2, 28), ("equi", 2, 32),
                      ("equi", 2, 33), ("equi", 2, 40), ("equi", 2, 51),
                      ("equi", 3, 12), ("equi", 3, 13), ("equi", 3, 14),
                      ("equi", 3, 16), ("equi", 3, 17), ("equi", 3, 20),
                      ("equi", 3, 24), ("equi", 4, 7), ("equi", 4, 8), ("equi", 4, 10),
                      ("equi", 5, 5), ("equi", 5, 6), ("equi", 6, 3),
                      ("clustered", 1, 41), ("clustered", 1, 50),
                      ("clustered", 1, 64), ("clustered", 1, 65),
                      ("clustered", 1, 80), ("clustered", 1, 100),
                      ("clustered", 1, 128), ("clustered", 1, 200),
                      ("clustered", 1, 257), ("clustered", 2, 23),
                      ("clustered", 2, 24), ("clustered", 2, 25),
                      ("clustered", 2, 26), ("clustered", 2, 28),
                      ("clustered", 2, 30), ("clustered", 2, 32),
                      ("clustered", 2, 33), ("clustered", 2, 40),
                      ("clustered", 2, 50),
                      ("clustered", 3, 18), ("clustered", 3, 19),
                      ("clustered", 3, 20), ("clustered", 3, 21),
                      ("clustered", 3, 22), ("clustered", 3, 24),
                      ("clustered", 3, 26), ("clustered", 3, 28)]:
        yield "simplex", {"family": fam, "d": d, "n": o, "seed": rng.randrange(10**6)}
    for d, o in [(1, 300), (2, 48), (2, 55), (2, 64), (3, 30), (3, 34)]:
        yield "extreme", {"d": d, "n": o}
    for fam in top:
        for desc in [*C.SHAPES, (0, 1), (1, 0), (2, 1, 1), (4, 1)]:
            if len(desc) == 1:
                continue
            for o in range(min(14, C.max_order(desc, 1500 if thorough else 500))+1):
                yield "product", {"family": fam, "desc": list(desc),
                                  "orders": [o]*len(desc), "seed": 0}
            for _ in range(40 if thorough else 8):
                o = C.random_orders(desc, rng, 1500 if thorough else 500)
                yield "product", {"family": fam, "desc": list(desc),
                                  "orders": list(o), "seed": 0}
    for _ in range(400 if thorough else 60):
        m = rng.randint(1, 4)
        dims = [rng.choice([1, 1, 2, 3, 0]) for _ in range(m)]
        yield "tpnodes", {"dims": dims,
                          "counts": [rng.randint(1, 5) if d else 1 for d in dims],
                          "form": rng.choice(["list", "flat", "tuple", "strided",
                                              "f32", "mixed", "mixed"]),
                          "seed": rng.randrange(10**6)}
    for m in (1, 2, 3, 4):
        for s in (0, 1):
            yield "tpnodes", {"dims": [1]*m, "counts": [3]*m, "form": "int",
                              "seed": s}
        for n in range(9 if m < 3 else 5):
            yield "named", {"dims": m, "n": n}
    yield "tpnodes", {"dims": [], "counts": [], "form": "list", "seed": 0}
    for desc in [(0,), (), (1,), (2,), (3,), (4,), (5,), (1, 1), (1, 1, 1), (2, 1),
                 (1, 2), (3, 1), (1, 3), (1, 2, 1), (1,)*5]:
        for npts in (0, 1, 2, 7, 100, 2000):
            for _ in range(4 if thorough else 1):
                yield "rand", {"desc": list(desc), "npts": npts,
                               "seed": rng.randrange(10**6)}
