"""P20: coordinate maps and reference helpers."""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("round-trip, affinity and vertex monitors on the coordinate maps; "
             "independent closed forms (cofactor determinants, exact rational monomial "
             "integrals); before/after snapshots of map objects")
LEVEL_NOTE = (
    "Random, vertex, far-away and degenerate points; affine maps of dimension 1 to 6 "
    "with moderate condition numbers, under arbitrary sequences of uses; monomials up "
    "to a bounded total degree.")

RULE = ("one case per (dimension, seed) and per (map size, kind, sequence of uses) and "
        "per monomial family; non-trivial if at least one conversion was compared.")
ASSUMPTIONS = ["tolerances grow with the condition number of the map and the size of "
               "the coordinates"]
REQUIRED = ("unit-barycentric round trip", "barycentric sum", "three systems agree",
            "vertices", "affine combinations", "equal edges", "arguments unchanged",
            "inverse undoes the map", "jacobian is the determinant", "map application",
            "map unchanged", "inverse of the inverse", "monomial values",
            "simplex integral", "monomial derivative", "hypercube integral", "monomial at corners",
            "integral matches values")


def _points(kind, dim, npts, rng):
    """barycentric coordinates"""
    if kind == "inside":
        b = rng.dirichlet(np.ones(dim+1), npts).T
    elif kind == "vertices":
        b = np.eye(dim+1)
    elif kind == "boundary":
        b = rng.dirichlet(np.ones(dim+1), npts).T
        b[rng.integers(0, dim+1, npts), np.arange(npts)] = 0
        b /= np.maximum(b.sum(axis=0), 1e-300)
        if dim == 0:
            b = np.ones((1, npts))
    elif kind == "outside":
        b = rng.normal(size=(dim+1, npts))*3
        b[0] = 1 - b[1:].sum(axis=0)
    elif kind == "far":
        b = rng.normal(size=(dim+1, npts))*1e6
        b[0] = 1 - b[1:].sum(axis=0)
    else:
        b = np.full((dim+1, npts), 1/(dim+1))
    return b.reshape(dim+1, -1)


def coords(t, dim, kind, npts, layout, seed):
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    b = _points(kind, dim, npts, rng)
    if layout == "F":
        b = np.asfortranarray(b)
    elif layout == "readonly":
        b.flags.writeable = False
    elif layout == "strided":
        big = np.zeros((dim+1, 2*b.shape[1]+1))
        big[:, ::2][:, :b.shape[1]] = b
        b = big[:, ::2][:, :b.shape[1]]
    keep = b.copy()
    sc = 1+np.abs(b).max(initial=0)
    tol = 1e-14*sc*(dim+2)
    name = f"dim={dim} {kind} {b.shape[1]} points {layout}"
    u = mt.barycentric_to_unit(b)
    v = mp.unit_vertices_for_shape(mp.Simplex(dim))
    # independent: origin vertex at -1, the others two further along an axis
    mine = -1*np.ones((dim, b.shape[1])) + 2*keep[1:] if dim else np.zeros((0, b.shape[1]))
    if kind in ("outside", "far"):
        mine = mine + (1-keep.sum(axis=0))      # rounding of the sum only
    t.close("barycentric to unit", u, mine, tol, name)
    back = mt.unit_to_barycentric(u) if dim else None
    if dim:
        t.close("unit-barycentric round trip", back, keep, tol*3, name)
        t.close("barycentric sum", back.sum(axis=0), np.ones(b.shape[1]), tol*3, name)
        # and starting from unit coordinates
        x = rng.uniform(-1.5, 1.5, (dim, max(npts, 1)))
        kx = x.copy()
        t.close("unit-barycentric round trip",
                mt.barycentric_to_unit(mt.unit_to_barycentric(x)), kx, 1e-14*(dim+2)*3,
                "from unit " + name)
        t.true("arguments unchanged", np.array_equal(x, kx), name)
        iv = mt.unit_to_barycentric(v)
        t.close("vertices", iv, np.eye(dim+1), 1e-15*(dim+2),
                "unit_to_barycentric " + name)
    t.close("vertices", mt.barycentric_to_unit(np.eye(dim+1)), v, 1e-15*(dim+2), name)
    t.close("vertices", mt.barycentric_to_unit(np.eye(dim+1)),
            -np.ones((dim, dim+1)) + 2*np.eye(dim+1)[1:], 1e-15*(dim+2), name)
    # integer-valued barycentric coordinates are the same points
    t.close("vertices", mt.barycentric_to_unit(np.eye(dim+1, dtype=int)), v,
            1e-15*(dim+2), "integers " + name)
    if dim in (1, 2, 3):
        e = mt.barycentric_to_equilateral(b)
        t.close("three systems agree", mt.equilateral_to_unit(e), u, tol*8, name)
        ev = mt.barycentric_to_equilateral(np.eye(dim+1))
        if t.true("vertices", ev.shape == (dim, dim+1), f"{ev.shape} {name}"):
            t.close("vertices", mt.equilateral_to_unit(ev), v, 1e-14,
                    "equilateral " + name)
            edges = [np.linalg.norm(ev[:, i]-ev[:, j])
                     for i, j in itertools.combinations(range(dim+1), 2)]
            t.close("equal edges", np.array(edges), np.full(len(edges), 2.0), 1e-13,
                    name)
            t.close("equal edges", ev.mean(axis=1), np.zeros(dim), 1e-14,
                    "centroid " + name)
            # orientation and order: published vertices
            s3, s6 = math.sqrt(3), math.sqrt(6)
            pub = {1: [[-1], [1]],
                   2: [[-1, -1/s3], [1, -1/s3], [0, 2/s3]],
                   3: [[-1, -1/s3, -1/s6], [1, -1/s3, -1/s6], [0, 2/s3, -1/s6],
                       [0, 0, 3/s6]]}[dim]
            t.close("vertices", ev, np.array(pub).T, 1e-14, "published " + name)
    # affine combinations
    fs = [("barycentric_to_unit", mt.barycentric_to_unit, lambda: _points(
        "outside", dim, 5, rng))]
    if dim:
        fs.append(("unit_to_barycentric", mt.unit_to_barycentric,
                   lambda: rng.uniform(-2, 2, (dim, 5))))
    if dim in (1, 2, 3):
        fs += [("barycentric_to_equilateral", mt.barycentric_to_equilateral,
                lambda: _points("outside", dim, 5, rng)),
               ("equilateral_to_unit", mt.equilateral_to_unit,
                lambda: rng.uniform(-2, 2, (dim, 5)))]
    for nm, f, gen in fs:
        p, q = gen(), gen()
        lam = float(rng.uniform(-1, 2))
        t.close("affine combinations", f(lam*p + (1-lam)*q), lam*f(p) + (1-lam)*f(q),
                1e-12, f"{nm} {name}")
        # one point at a time, and in any order
        perm = rng.permutation(p.shape[1])
        t.close("affine combinations", f(p[:, perm]), f(p)[:, perm], 1e-13,
                f"order {nm} {name}")
        t.close("affine combinations",
                np.hstack([f(p[:, i:i+1]) for i in range(p.shape[1])]), f(p), 1e-13,
                f"one by one {nm} {name}")
    t.true("arguments unchanged", np.array_equal(b, keep), name)
    t.state("coords", dim, kind, layout)
    t.show(dim=dim, kind=kind, barycentric=C.short(b[:, :1]), unit=C.short(u[:, :1]))


def _det(a):
    """determinant by permutation expansion (exact sum)"""
    n = len(a)
    terms = []
    if n > 6:
        from fractions import Fraction
        m = [[Fraction(float(v)) for v in r] for r in a]
        res = Fraction(1)
        for k in range(n):
            piv = next((i for i in range(k, n) if m[i][k]), None)
            if piv is None:
                return 0.0
            if piv != k:
                m[k], m[piv] = m[piv], m[k]
                res = -res
            res *= m[k][k]
            for i in range(k+1, n):
                q = m[i][k]/m[k][k]
                m[i] = [u - q*v for u, v in zip(m[i], m[k], strict=True)]
        return float(res)
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i) if p[j] > p[i])
        terms.append((-1)**inv*math.prod(float(a[i][p[i]]) for i in range(n)))
    return math.fsum(terms)


def _mk_map(kind, dim, rng):
    if kind == "random":
        a = rng.normal(size=(dim, dim)) + 2*np.eye(dim)*rng.choice([-1, 1])
    elif kind == "reflect":
        a = np.eye(dim)
        a[0, 0] = -1
    elif kind == "permute":
        a = np.eye(dim)[rng.permutation(dim)]
    elif kind == "triangular":
        a = np.triu(rng.normal(size=(dim, dim)), 1) + np.diag(rng.uniform(0.5, 2, dim))
    elif kind == "scaled":
        a = np.diag(10.0**rng.uniform(-6, 6, dim))
    elif kind == "tiny":
        a = (rng.normal(size=(dim, dim)) + 3*np.eye(dim))*1e-8
    elif kind == "huge":
        a = (rng.normal(size=(dim, dim)) + 3*np.eye(dim))*1e8
    elif kind == "sheared":
        a = np.eye(dim) + 100*np.triu(np.ones((dim, dim)), 1)
    else:
        a = rng.integers(-3, 4, (dim, dim)) + 7*np.eye(dim, dtype=int)
    b = rng.normal(size=dim)*10 if kind != "integer" else rng.integers(-9, 9, dim)
    return a, b


USES = ("call", "inverse", "jacobian", "inverse_call", "inverse_inverse",
        "inverse_jacobian", "call_point", "call_empty")


def affine(t, dim, kind, form, uses, seed, npts=7):
    """a map under an arbitrary sequence of uses"""
    from modepy.tools import AffineMap
    rng = C.nprng(seed)
    a, b = _mk_map(kind, dim, rng)
    if np.linalg.cond(np.asarray(a, dtype=float)) > 1e13:
        a, b = np.eye(dim), np.zeros(dim)
    fa, fb = np.array(a, dtype=float), np.array(b, dtype=float)
    if form == "list":
        m = AffineMap(fa.tolist(), fb.tolist())
        given = None
    elif form == "readonly":
        fa2, fb2 = fa.copy(), fb.copy()
        fa2.flags.writeable = fb2.flags.writeable = False
        m = AffineMap(fa2, fb2)
        given = (fa2, fb2)
    else:
        given = (np.array(a), np.array(b))
        m = AffineMap(*given)
    keep = None if given is None else tuple(g.copy() for g in given)
    c = np.linalg.cond(fa)
    # entries may span many magnitudes: row-wise scales
    name = f"dim={dim} {kind} {form} {uses}"
    x = rng.uniform(-1, 1, (dim, npts))
    x[:, 0] = 0
    xk = x.copy()
    det = _det(fa)
    perm_scale = math.prod(float(np.abs(r).sum()) for r in fa)
    if dim > 6:
        perm_scale = math.prod(math.sqrt(float(r @ r)) for r in fa)*dim**2
    y_ref = np.stack([[math.fsum([*(float(fa[i, k])*float(x[k, j]) for k in range(dim)),
                                  float(fb[i])]) for j in range(x.shape[1])]
                      for i in range(dim)])
    ysc = np.abs(fa) @ np.abs(x) + np.abs(fb)[:, None]
    got_inv = []
    for u in uses:
        if u == "call":
            t.close("map application", m(x), y_ref, 1e-14*(dim+2)*ysc, name)
        elif u == "call_point":
            t.close("map application", m(x[:, 2:3]), y_ref[:, 2:3],
                    1e-14*(dim+2)*ysc[:, 2:3], name)
        elif u == "call_empty":
            t.true("map application", m(x[:, :0]).shape == (dim, 0), name)
        elif u == "jacobian":
            t.close("jacobian is the determinant", m.jacobian, det,
                    1e-13*(dim+2)*perm_scale + 1e-300, name)
        elif u == "inverse_jacobian":
            if perm_scale < 1e6*abs(det):
                t.close("jacobian is the determinant", m.inverse.jacobian*det, 1.0,
                        1e-12*(c+10)*perm_scale/abs(det), name)
        else:
            inv = m.inverse
            got_inv.append((inv.a.copy(), inv.b.copy()))
            # tolerance: backward errors of inversion, column-scaled
            ia = np.linalg.inv(fa.astype(float))
            amp = np.abs(ia) @ np.abs(fa) @ (np.abs(ia) @ (ysc + np.abs(fb)[:, None]))
            if u in ("inverse", "inverse_call"):
                t.close("inverse undoes the map", inv(m(x)), x,
                        1e-13*(dim+2)*(amp+1) + 1e-15*min(c, 1e10), name)
                y = y_ref
                z = m(inv(y))
                amp2 = np.abs(fa) @ (amp+1)
                t.close("inverse undoes the map", z, y,
                        1e-13*(dim+2)*(amp2+ysc), "other way " + name)
            if u == "inverse_inverse":
                ii = inv.inverse
                t.close("inverse of the inverse", ii(x), y_ref,
                        1e-12*(dim+2)*(np.abs(fa) @ (amp+1) + ysc)*10, name)
        t.true("map unchanged", np.array_equal(m.a, fa) and np.array_equal(m.b, fb),
               f"after {u} {name}")
    t.true("map unchanged", all(np.array_equal(g[0], got_inv[0][0])
                                and np.array_equal(g[1], got_inv[0][1])
                                for g in got_inv), "inverse differs between uses " + name)
    t.true("arguments unchanged", np.array_equal(x, xk) and (
        given is None or all(np.array_equal(g, k)
                             for g, k in zip(given, keep, strict=True))), name)
    t.state("affine", dim, kind, form)


def lower(t, din, dout, seed):
    """maps between spaces of different dimension (faces) apply column by column"""
    from modepy.tools import AffineMap
    rng = C.nprng(seed)
    a, b = rng.normal(size=(dout, din)), rng.normal(size=dout)
    m = AffineMap(a, b)
    x = rng.normal(size=(din, 6))
    refv = np.stack([b + sum((a[:, k]*x[k, j] for k in range(din)), np.zeros(dout))
                     for j in range(6)], axis=1)
    t.close("map application", m(x), refv, 1e-13, f"{din}->{dout}")
    t.state("lower", din, dout)


def many(t, n, seed):
    """many maps alive at once keep their own inverses and Jacobians"""
    from modepy.tools import AffineMap
    rng = C.nprng(seed)
    mats = [rng.normal(size=(2, 2)) + 3*np.eye(2) for _ in range(n)]
    maps = [AffineMap(a, np.arange(2)) for a in mats]
    order = list(range(n))*2
    rng.shuffle(order)
    for i in order:
        t.close("jacobian is the determinant", maps[i].jacobian, _det(mats[i]), 1e-12)
        t.close("inverse undoes the map", maps[i].inverse.a @ mats[i], np.eye(2), 1e-12)
        if rng.random() < 0.3:
            # replacing a map must not revive what another one remembered
            mats[i] = rng.normal(size=(2, 2)) + 3*np.eye(2)
            maps[i] = AffineMap(mats[i], np.arange(2))
    # maps with equal entries
    p, q = AffineMap(mats[0], [0, 0]), AffineMap(mats[0], [1, 1])
    t.close("inverse undoes the map", p.inverse(p(np.eye(2))), np.eye(2), 1e-12)
    t.close("inverse undoes the map", q.inverse(q(np.eye(2))), np.eye(2), 1e-12)
    t.state("many", n)


def monomials(t, dim, exps, factor, seed):
    from modepy.tools import Monomial
    rng = C.nprng(seed)
    exps = tuple(exps)
    mono = Monomial(exps, factor) if factor is not None else Monomial(exps)
    f = 1.0 if factor is None else factor
    name = f"{exps} {factor}"
    x = ref.random_points((1,)*dim, 9, rng)
    xk = x.copy()
    val = np.full(x.shape[1], float(f))
    for j in range(x.shape[1]):
        for i, e in enumerate(exps):
            val[j] *= (float(x[i, j])/2+0.5)**e
    t.close("monomial values", mono(x)*np.ones(x.shape[1]), val,
            1e-13*(1+sum(exps))*abs(f), name)
    t.true("arguments unchanged", np.array_equal(x, xk), name)
    t.close("monomial at corners", mono(np.ones((dim, 1)))*np.ones(1), [f],
            1e-15*abs(f), name)
    if sum(exps):
        t.close("monomial at corners", mono(-np.ones((dim, 1)))*np.ones(1), [0.0], 0.0,
                name)
    # trailing axes
    y = x[:, :6].reshape(dim, 2, 3)
    t.close("monomial values", mono(y)*np.ones((2, 3)), val[:6].reshape(2, 3),
            1e-13*(1+sum(exps))*abs(f), "grid " + name)
    # bi-unit simplex
    num = math.prod(math.factorial(e) for e in exps)
    exact = f*float(Fraction(2**dim*num, math.factorial(dim+sum(exps))))
    t.close("simplex integral", mono.simplex_integral(), exact, 1e-13*abs(exact), name)
    hexact = f/math.prod(e+1 for e in exps)
    t.close("hypercube integral", mono.hypercube_integral(), hexact, 1e-13*abs(hexact),
            name)
    # consistency of values and integrals through an independent quadrature
    if dim and sum(exps) <= 24 and (max(exps)//2+2)**dim <= 50000 \
            and (sum(exps)//2+2)**dim <= 200000:
        n = sum(exps)//2+1
        q, w = C.simplex_quad(dim, n)
        t.close("integral matches values", float(np.sum(w*mono(q))),
                mono.simplex_integral(), 1e-12*abs(f)*2**dim, name)
        q, w = C.tp_quad((1,)*dim, max(exps)//2+1)
        t.close("integral matches values", float(np.sum(w*mono(q)))/2**dim,
                mono.hypercube_integral(), 1e-12*abs(f), "hypercube " + name)
    # derivative in the monomial's own coordinates, which are (x+1)/2
    for i, e in enumerate(exps):
        d = mono.diff(i)
        lower = (*exps[:i], max(e-1, 0), *exps[i+1:])
        want = np.array([f*e*math.prod((float(c)/2+0.5)**k for c, k in
                                       zip(x[:, j], lower, strict=True))
                         for j in range(x.shape[1])])
        t.close("monomial derivative", d(x)*np.ones(x.shape[1]), want,
                1e-13*(1+sum(exps))*abs(f)*max(e, 1), f"{name} axis {i}")
        num = f*e/math.prod(k+1 for k in lower)
        t.close("monomial derivative", d.hypercube_integral(), num,
                1e-13*abs(num), f"integral {name} axis {i}")
        if e:
            # fundamental theorem along the axis
            rest = f/math.prod(k+1 for j, k in enumerate(exps) if j != i)
            t.close("monomial derivative", d.hypercube_integral(), rest,
                    1e-13*abs(rest), f"integral {name} axis {i}")
    t.true("monomial values", tuple(mono.exponents) == exps and mono.factor == f, name)
    t.state("mono", exps, factor)


def masses(t, dim, npts, seed):
    """many points at once: the same as in pieces"""
    import modepy.tools as mt
    rng = C.nprng(seed)
    a, b = _mk_map("random", dim, rng)
    m = mt.AffineMap(a, b)
    x = rng.uniform(-1, 1, (dim, npts))
    fs = [("affine map", m), ("inverse map", m.inverse),
          ("unit_to_barycentric", mt.unit_to_barycentric),
          ("barycentric_to_unit",
           lambda y: mt.barycentric_to_unit(np.vstack([1-y.sum(axis=0), y])))]
    if dim <= 3:
        fs.append(("barycentric_to_equilateral", lambda y: mt.barycentric_to_equilateral(
            np.vstack([1-y.sum(axis=0), y]))))
        fs.append(("equilateral_to_unit", mt.equilateral_to_unit))
    for name, f in fs:
        y = f(x)
        want = np.hstack([f(x[:, i:i+50]) for i in range(0, npts, 50)])
        t.close("many points at once", y, want, 1e-13, f"{name} {dim}D {npts} points")
    t.state("masses", dim, npts)


GROUPS = {"masses": masses, "coords": coords, "affine": affine, "lower": lower, "many": many,
          "monomials": monomials}


def cases(tier, rng):
    thorough = tier == "thorough"
    rep = 6 if thorough else 1
    for dim in range(0, 13):
        for npts in (1, 40, 130, 300) if dim > 7 else (130, 300, 600):
            for layout in (rng.choice(("C", "F", "strided")),):
                yield "coords", {"dim": dim, "kind": rng.choice(["inside", "far"]),
                                 "npts": npts, "layout": layout,
                                 "seed": rng.randrange(10**6)}
    for dim in (1, 2, 3, 4):
        for npts in (1, 2, 130, 300, 1100):
            yield "affine", {"dim": dim, "kind": "random", "form": "array",
                             "npts": npts, "uses": ["call", "inverse_call"],
                             "seed": rng.randrange(10**6)}
        for npts in (3000, 12000, 33000, 120000):
            yield "masses", {"dim": dim, "npts": npts, "seed": rng.randrange(10**6)}
    for dim in range(7, 13):
        for kind in ("random", "permute", "triangular", "sheared", "integer"):
            yield "affine", {"dim": dim, "kind": kind, "form": "array",
                             "uses": list(USES) + ["call", "inverse", "jacobian"],
                             "seed": rng.randrange(10**6)}
        for _ in range(12*rep):
            exps = [rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(dim)]
            yield "monomials", {"dim": dim, "exps": exps,
                                "factor": rng.choice([None, -1.5]),
                                "seed": rng.randrange(10**6)}
    for dim in range(0, 8):
        for kind in ("inside", "vertices", "boundary", "outside", "far", "centroid"):
            for layout in ("C", "F", "readonly", "strided"):
                for _ in range(rep):
                    yield "coords", {"dim": dim, "kind": kind,
                                     "npts": rng.choice([0, 1, 2, dim+1, 17]),
                                     "layout": layout, "seed": rng.randrange(10**6)}
    for dim in range(1, 7):
        for kind in ("random", "reflect", "permute", "triangular", "scaled", "tiny",
                     "huge", "sheared", "integer"):
            for _ in range(4*rep):
                uses = [rng.choice(USES) for _ in range(rng.randint(2, 9))]
                yield "affine", {"dim": dim, "kind": kind,
                                 "form": rng.choice(["array", "list", "readonly"]),
                                 "uses": uses, "seed": rng.randrange(10**6)}
            yield "affine", {"dim": dim, "kind": kind, "form": "array",
                             "uses": list(USES) + ["call", "inverse", "jacobian"],
                             "seed": rng.randrange(10**6)}
    for din in range(0, 4):
        for dout in range(1, 5):
            yield "lower", {"din": din, "dout": dout, "seed": rng.randrange(10**6)}
    for n in (2, 10, 60):
        for _ in range(rep):
            yield "many", {"n": n, "seed": rng.randrange(10**6)}
    for dim in range(1, 6):
        top = {1: 20, 2: 9, 3: 5, 4: 3, 5: 2}[dim] + (3 if thorough else 0)
        for exps in itertools.product(range(top+1), repeat=dim):
            if sum(exps) > top:
                continue
            yield "monomials", {"dim": dim, "exps": list(exps),
                                "factor": rng.choice([None, 1, 2, -3.5, 0.25, 1e6]),
                                "seed": rng.randrange(10**6)}
        # degrees beyond the reach of 64-bit integers and floating-point factorials
        for _ in range(6*rep):
            exps = [rng.randint(0, rng.choice([30, 180, 700//dim]))
                    for _ in range(dim)]
            yield "monomials", {"dim": dim, "exps": exps,
                                "factor": rng.choice([None, -1.5, 2, 1e-3]),
                                "seed": rng.randrange(10**6)}
        for _ in range(20*rep):
            exps = [rng.randint(0, 12) for _ in range(dim)]
            yield "monomials", {"dim": dim, "exps": exps,
                                "factor": rng.choice([None, -1.5]),
                                "seed": rng.randrange(10**6)}
