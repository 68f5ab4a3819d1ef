"""P14: differentiation matrices."""
from __future__ import annotations

import itertools

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("action of the matrices on random members of the space whose exact "
             "derivatives are evaluated independently in extended precision; "
             "algebraic monitors (commutation, permutation)")
LEVEL_NOTE = (
    "Matrices for bases of all kinds, all shapes, several node families and "
    "different in- and output nodes are applied to random members of the space; "
    "orders up to a bound, members sampled.")

RULE = ("one case per (basis, shape, orders, input nodes, output nodes) and per "
        "(shape, order, ordering of node tuples); non-trivial if every matrix was "
        "applied to members with known derivatives.")
ASSUMPTIONS = ["tolerances grow with the condition number of the Vandermonde matrix "
               "at the input nodes and with the largest derivative"]
REQUIRED = ("one matrix per axis", "derivative of members", "constants",
            "matrices commute", "permutation", "permutation relates matrices",
            "different output nodes")


def diff(t, kind, desc, orders, old, new, iface, seed):
    import random

    import modepy as mp
    from mv.props.p13 import new_nodes
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    rng = C.nprng(seed)
    b = C.mk_basis(kind, desc, orders)
    xo = C.mk_nodes(old, desc, orders, rng)
    same = new == "default"
    xn = xo if same else new_nodes(new, xo, desc, rng)
    if iface == "basis":
        ms = mp.diff_matrices(b, xo) if same else mp.diff_matrices(b, xn, xo)
    elif iface == "kw":
        ms = mp.diff_matrices(b, nodes=xn, from_nodes=xo)
    else:
        ms = mp.differentiation_matrices(b.functions, b.gradients, xo) if same else \
            mp.differentiation_matrices(b.functions, b.gradients, xn,
                                        from_nodes=xo)
    if not isinstance(ms, tuple):
        ms = (ms,)          # documented form for non-tuple gradients
    name = f"{kind} {desc} {orders} from={old} to={new}"
    if not t.true("one matrix per axis", len(ms) == dim and all(
            m.shape == (xn.shape[1], xo.shape[1]) for m in ms),
            f"{[m.shape for m in ms]} {name}"):
        return
    c = C.cond(mp.vandermonde(b.functions, xo))
    prng = random.Random(seed)
    near = C.near_collapsed(desc, xn)
    n1 = 1+max(orders, default=0)
    pol = [ref.random_poly(desc, orders, prng) for _ in range(3)]
    # the highest mode alone, and one linear function
    _k = list(ref.tp_modes(desc, orders, np.zeros((dim, 1))))
    pol.append(ref.RefPoly(desc, orders, {_k[-1]: 1.0}))
    for p in pol:
        u = p(xo).astype(float)
        g = p.grad(xn).astype(float)
        sc = 1+np.abs(g).max(initial=0)
        for ax in range(dim):
            rows = np.abs(ms[ax]).sum(axis=1)
            tol = 1e-13*(10+min(c, 1e10))*(sc + np.abs(u).max() + rows*np.abs(u).max()
                                           )*n1
            tol = tol + np.where(near, 3e-9*n1**3, 0)*sc*10
            if kind == "mono":
                tol = tol*10
            t.close("derivative of members" if same else "different output nodes",
                    ms[ax] @ u, g[ax], tol, f"axis {ax} {name}")
    for ax in range(dim):
        rows = np.abs(ms[ax]).sum(axis=1)
        t.close("constants", ms[ax].sum(axis=1), np.zeros(len(ms[ax])),
                1e-12*(10+min(c, 1e10))*(1+rows)*n1 + np.where(near, 1e-6*n1**3, 0),
                f"axis {ax} {name}")
    if same:
        for a, bb in itertools.combinations(range(dim), 2):
            x, y = ms[a] @ ms[bb], ms[bb] @ ms[a]
            nrm = np.abs(ms[a]).sum(axis=1).max()*np.abs(ms[bb]).sum(axis=1).max()
            t.close("matrices commute", x, y, 1e-12*(10+min(c, 1e10))*(1+nrm),
                    f"axes {a} {bb} {name}")
    t.state(kind, desc, orders, old, new)
    t.show(basis=kind, shape=desc, orders=orders, input=old, output=new,
           row0=C.short(ms[0][0]) if dim else [])


def perm(t, family, desc, n, shuffle, seed):
    """the published permutation, node tuples in any order"""
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    desc = tuple(desc)
    dim = sum(desc)
    rng = C.nprng(seed)
    orders = (n,)*len(desc)
    b = C.mk_basis("onb", desc, orders)
    tuples = [tuple(int(i) for i in tt)
              for tt in node_tuples_for_space(C.mk_space(desc, orders))]
    x = C.mk_nodes(family, desc, orders, rng)
    if shuffle:
        p = rng.permutation(len(tuples))
        tuples = [tuples[i] for i in p]
        if len(desc) == 1:
            get = mp.warp_and_blend_nodes if family == "clustered" else \
                mp.equidistant_nodes
            x = get(dim, n, tuples)
        else:
            x = x[:, p]
    ms = mp.diff_matrices(b, x)
    c = C.cond(mp.vandermonde(b.functions, x))
    for ax in range(dim):
        args = list(tuples) if seed % 2 else tuple(tuples)
        # only axes related by a symmetry of the node set
        sw = [(lambda s: (s.__setitem__(0, tt[ax]), s.__setitem__(ax, tt[0]),
                          tuple(s))[2])(list(tt)) for tt in tuples]
        if set(sw) != set(tuples):
            continue
        pm = mp.diff_matrix_permutation(args, ax)
        name = f"{family} {desc} n={n} axis {ax} shuffled={shuffle}"
        if not t.true("permutation", np.shape(pm) == (len(tuples),)
                      and sorted(np.asarray(pm).tolist()) == list(range(len(tuples)))
                      and np.issubdtype(np.asarray(pm).dtype, np.integer), name):
            continue
        t.close("permutation relates matrices", ms[0][pm][:, pm], ms[ax],
                1e-12*(10+c)*(1+np.abs(ms[0]).max()), name)
    t.state("perm", family, desc, n, shuffle)


def bigperm(t, dim, n, kind, seed):
    """the permutation of many tuples: it exchanges the axes of each"""
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    rng = C.nprng(seed)
    desc = (dim,) if kind == "simplex" else (1,)*dim
    tuples = [tuple(int(i) for i in tt)
              for tt in node_tuples_for_space(C.mk_space(desc, (n,)*len(desc)))]
    if seed % 2:
        tuples = [tuples[i] for i in rng.permutation(len(tuples))]
    a = np.array(tuples)
    for ax in range(dim):
        pm = np.asarray(mp.diff_matrix_permutation(tuples, ax))
        name = f"{kind} {dim}D n={n} {len(tuples)} tuples axis {ax}"
        if not t.true("permutation", pm.shape == (len(tuples),)
                      and np.issubdtype(pm.dtype, np.integer)
                      and np.array_equal(np.sort(pm), np.arange(len(tuples))), name):
            continue
        want = a.copy()
        want[:, [0, ax]] = a[:, [ax, 0]]
        t.true("permutation", np.array_equal(a[pm], want), name)
    t.state("bigperm", kind, dim, n)


def fourier(t, k, seed):
    """derivatives of complex trigonometric functions"""
    import modepy as mp
    rng = C.nprng(seed)
    ks = list(range(-k, k+1))
    fs = [(lambda x, q=q: np.exp(1j*np.pi*(q*x[0]))) for q in ks]
    gs = [(lambda x, q=q: (1j*np.pi*q*np.exp(1j*np.pi*(q*x[0])),)) for q in ks]
    xo = (-1 + 2*(np.arange(len(ks))+0.3)/len(ks))[None]
    xn = rng.uniform(-1, 1, (1, 6))
    m = mp.differentiation_matrices(fs, gs, xn, xo)
    m = m[0] if isinstance(m, tuple) else m
    c = rng.normal(size=len(ks)) + 1j*rng.normal(size=len(ks))
    u = sum(ci*f(xo) for ci, f in zip(c, fs, strict=True))
    du = sum(ci*g(xn)[0] for ci, g in zip(c, gs, strict=True))
    t.close("complex functions", m @ u, du, 1e-10, f"k={k}")


GROUPS = {"diff": diff, "perm": perm, "bigperm": bigperm, "fourier": fourier}


def _case(rng, desc, orders):
    hi = max(orders, default=0)
    kind = rng.choice(["onb", "onb", "default", "mono"])
    if kind == "mono" and hi > 8:
        kind = "onb"
    old = rng.choice(C.NODE_KINDS)
    if old == "equi" and hi > 8:
        old = "clustered"
    if not sum(desc) and old in ("scattered", "interior"):
        old = "clustered"
    return {"kind": kind, "desc": list(desc), "orders": orders, "old": old,
            "new": rng.choice(["default", "default", "random", "one", "same",
                               "subset", "many", "hostile"]),
            "iface": rng.choice(["basis", "kw", "functions"]),
            "seed": rng.randrange(10**6)}


def cases(tier, rng):
    thorough = tier == "thorough"
    lim = 300 if thorough else 100
    for desc in C.SHAPES:
        for o in range(min(18, C.max_order(desc, lim))+1):
            for _ in range(14 if thorough else 4):
                yield "diff", _case(rng, desc, [o]*len(desc))
        if len(desc) > 1:
            for _ in range(80 if thorough else 10):
                yield "diff", _case(rng, desc,
                                    list(C.random_orders(desc, rng, lim)))
    for desc in [(1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 2), (3, 1), (2, 2)]:
        if desc == (2, 2):
            continue
        for n in range(1 if len(desc) == 1 else 0,
                       min(12, C.max_order(desc, 200 if thorough else 90))+1):
            for fam in ("clustered", "equi"):
                if fam == "equi" and n > 8:
                    continue
                for sh in (False, True):
                    for _ in range(4 if thorough and sh else 1):
                        yield "perm", {"family": fam, "desc": list(desc), "n": n,
                                       "shuffle": sh, "seed": rng.randrange(10**6)}
    for e in C.big(rng, thorough):
        for new in ("default", "random"):
            yield "diff", {**e, "kind": "onb", "new": new, "seed": rng.randrange(10**6),
                           "old": rng.choice(["clustered", "permuted"]),
                           "iface": rng.choice(["basis", "kw", "functions"])}
    for dim, kind, ns in [(1, "simplex", (130, 300, 40000)),
                          (2, "simplex", (15, 22, 40, 90, 256)),
                          (3, "simplex", (8, 9, 11, 20, 57)), (4, "simplex", (6, 8)),
                          (2, "cube", (11, 15, 17, 40, 182)),
                          (3, "cube", (5, 6, 7, 15, 31)), (4, "cube", (3, 4, 6))]:
        for n in ns:
            yield "bigperm", {"dim": dim, "n": n, "kind": kind,
                              "seed": rng.randrange(10**6)}
    for k in range(0, 8):
        yield "fourier", {"k": k, "seed": rng.randrange(10**6)}
