"""P13: Vandermonde and resampling matrices."""
from __future__ import annotations

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("entrywise oracle (function values one point at a time), action of the "
             "matrices on random members of the space known exactly, optimality "
             "conditions of least squares")
LEVEL_NOTE = (
    "Matrices for bases of all kinds on all shapes and several node families are "
    "applied to random polynomials evaluated independently; orders up to a bound, "
    "node sets and data sampled.")

RULE = ("one case per (basis, shape, orders, old nodes, new nodes) or per mixture of "
        "functions; non-trivial if a matrix was compared entry by entry or applied "
        "to known members of the space.")
ASSUMPTIONS = ["tolerances grow with the condition number of the Vandermonde matrix "
               "of the basis at the old nodes; new nodes within 1e-9 of a collapsed edge are "
    "held to the tolerance of the basis functions there"]
REQUIRED = ("vandermonde entries", "multi_vandermonde entries", "resample member",
            "least squares member", "least squares optimal", "non-square refused",
            "complex functions kept", "complex resampling")

FUNCS = {
    "one": lambda x: np.ones(x.shape[-1]),
    "x": lambda x: x[0],
    "x2": lambda x: x[0]**2,
    "last": lambda x: x[-1],
    "sin": lambda x: np.sin(3*x[0]+x[-1]),
    "cexp": lambda x: np.exp(1j*np.pi*x[0]),
    "cexp2": lambda x: np.exp(-2j*np.pi*x[-1])*(1+2j),
    "int": lambda x: np.arange(x.shape[-1]),
    "bool": lambda x: x[0] > 0,
    "f32": lambda x: x[0].astype(np.float32),
    "c64": lambda x: (x[0]*(1+1j)).astype(np.complex64),
}


def vdm(t, names, dim, npts, seed):
    import modepy as mp
    rng = C.nprng(seed)
    x = rng.uniform(-1, 1, (dim, npts))
    x0 = x.copy()
    fs = [FUNCS[n] for n in names]
    v = mp.vandermonde(fs, x)
    if not t.true("vandermonde shape", v.shape == (npts, len(fs)),
                  f"{v.shape} for {npts} nodes, {len(fs)} functions"):
        return
    for j, f in enumerate(fs):
        want = np.array(f(x0))
        tol = 2e-7*(1+np.abs(want)) if all(n in ("f32", "c64") for n in names) else \
            1e-14
        t.close("complex functions kept" if np.iscomplexobj(want)
                else "vandermonde entries", v[:, j], want, tol,
                f"{names[j]} in {names}")
    v2 = mp.vandermonde(tuple(fs), x)
    t.true("tuple of functions", np.array_equal(v, v2))
    # tuple-valued functions mixing types from function to function and, within
    # one function, from component to component
    k = len(names)
    for shift in range(min(k, 3)):
        pairs = [(FUNCS[names[j]], FUNCS[names[(j+shift) % k]]) for j in range(k)]
        ms = mp.multi_vandermonde(
            [lambda y, p=p: (p[0](y), p[1](y)) for p in pairs], x)
        if not t.true("one matrix per component", len(ms) == 2, len(ms)):
            return
        for c in range(2):
            low = all(names[(j+c*shift) % k] in ("f32", "c64") for j in range(k))
            for j in range(k):
                want = np.array(pairs[j][c](x0))
                tol = 2e-7*(1+np.abs(want)) if low else 1e-14
                t.close("complex functions kept" if np.iscomplexobj(want)
                        else "multi_vandermonde entries", ms[c][:, j], want, tol,
                        f"{names[j]} shift {shift} component {c} in {names}")
    t.state(tuple(names))


def basisvdm(t, kind, desc, orders, seed, npts):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    b = C.mk_basis(kind, desc, orders)
    rng = C.nprng(seed)
    x = ref.random_points(desc, npts, rng)
    v = mp.vandermonde(b.functions, x)
    n = len(b.functions)
    name = f"{kind} {desc} {orders}"
    if not t.true("vandermonde shape", v.shape == (npts, n), f"{v.shape} {name}"):
        return
    want = np.array([[float(f(x[:, i:i+1])[0]) for f in b.functions]
                     for i in range(npts)]).reshape(npts, n)
    t.close("vandermonde entries", v, want, 1e-12*(1+np.abs(want).max(initial=0)),
            name)
    if dim:
        g = mp.multi_vandermonde(b.gradients, x)
        t.true("one matrix per axis", isinstance(g, tuple) and len(g) == dim,
               f"{type(g).__name__} {len(g)} {name}")
        for ax, (gm, df) in enumerate(zip(g, map(b.derivatives, range(dim)),
                                          strict=True)):
            want = np.array([np.asarray(f(x)) + np.zeros(npts) for f in df]).T
            t.close("multi_vandermonde entries", gm, want,
                    1e-12*(1+np.abs(want).max(initial=0)), f"axis {ax} {name}")
            t.close("vandermonde of derivatives", mp.vandermonde(df, x), want,
                    1e-12*(1+np.abs(want).max(initial=0)), f"axis {ax} {name}")
    # multi_vandermonde of functions with any number of components
    fs = [lambda y, k=k: (y[0]*k if dim else np.full(y.shape[1], 1.0*k),
                          np.full(y.shape[1], float(k)),
                          np.sin(k+np.arange(y.shape[1])))
          for k in range(1, 5)]
    ms = mp.multi_vandermonde(fs, x)
    t.true("one matrix per component", len(ms) == 3)
    for c in range(3):
        t.close("multi_vandermonde entries", ms[c],
                np.array([f(x)[c] for f in fs]).T, 1e-15, f"component {c}")
    # the deprecated spelling
    old = mp.vandermonde(fs, x)
    t.true("one matrix per component", isinstance(old, tuple) and len(old) == 3)
    for c in range(3):
        t.close("multi_vandermonde entries", old[c], ms[c], 0, f"component {c}")
    t.close("vandermonde shape", mp.vandermonde([], x), np.zeros((npts, 0)), 0)
    t.state("basis", kind, desc, orders)


def new_nodes(kind, old, desc, rng):
    if kind == "random":
        return ref.random_points(desc, int(rng.integers(1, 12)), rng)
    if kind == "one":
        return ref.random_points(desc, 1, rng)
    if kind == "same":
        return old
    if kind == "subset":
        return old[:, rng.permutation(old.shape[1])[:max(1, old.shape[1]//2)]]
    if kind == "many":
        return ref.random_points(desc, 3*old.shape[1]+5, rng)
    assert kind == "hostile"
    return ref.hostile_points(desc, rng)


def resample(t, kind, desc, orders, old, new, extra, seed):
    import random

    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    rng = C.nprng(seed)
    b = C.mk_basis(kind, desc, orders)
    xo = C.mk_nodes(old, desc, orders, rng)
    n = xo.shape[1]
    if extra > 0:
        xo = np.concatenate([xo, ref.random_points(desc, extra, rng)], axis=1)
        xo = xo[:, rng.permutation(xo.shape[1])]
    xn = new_nodes(new, xo, desc, rng)
    vo = mp.vandermonde(b.functions, xo)
    c = C.cond(vo)
    name = f"{kind} {desc} {orders} old={old}+{extra} new={new} cond={c:.2g}"
    if extra:
        t.raises("non-square refused", RuntimeError,
                 lambda: mp.resampling_matrix(b.functions, xn, xo), name)
        t.raises("non-square refused", RuntimeError,
                 lambda: mp.resampling_matrix(b.functions, xn, xo, False), name)
        m = mp.resampling_matrix(b.functions, xn, xo, least_squares_ok=True)
    else:
        m = mp.resampling_matrix(b.functions, xn, xo)
        m2 = mp.resampling_matrix(b.functions, xn, xo, least_squares_ok=True)
        t.close("square regardless of permission", m2, m,
                1e-14*c*(1+np.abs(m).max(initial=0))*10, name)
        if n > 1:
            t.raises("non-square refused", RuntimeError,
                     lambda: mp.resampling_matrix(b.functions, xn, xo[:, :-1]), name)
    if not t.true("resampling shape", m.shape == (xn.shape[1], xo.shape[1]),
                  f"{m.shape} {name}"):
        return
    prng = random.Random(seed)
    lebesgue = np.abs(m).sum(axis=1).max(initial=0)
    for _ in range(3):
        p = ref.random_poly(desc, orders, prng)
        uo, un = p(xo).astype(float), p(xn).astype(float)
        tol = 1e-13*(10+min(c, 1e10))*(1+np.abs(uo).max())*(1+0.1*lebesgue)
        # tolerance of the basis functions next to collapsed edges
        near = C.near_collapsed(desc, xn)
        tol = tol + np.where(near, 3e-9*(1+max(orders, default=0))**3, 0)*(
            1+np.abs(uo).max())
        if kind == "mono":
            tol *= 10
        t.close("least squares member" if extra else "resample member",
                m @ uo, un, tol, name)
    near = C.near_collapsed(desc, xn)
    t.close("constants", m.sum(axis=1), np.ones(len(m)),
            np.where(near, 1e-6, 0)+1e-13*(10+min(c, 1e10))*(1+0.1*lebesgue)*10, name)
    if not extra and new in ("same", "subset"):
        idx = [int(np.argmin(np.abs(xo-x[:, None]).sum(axis=0))) for x in xn.T]
        t.close("identity on same nodes", m, np.eye(xo.shape[1])[idx],
                1e-13*(10+min(c, 1e10))*10, name)
    if extra and c < 1e7:
        _k, vr = ref.tp_vander(desc, orders, xo)
        _k, vn = ref.tp_vander(desc, orders, xn)
        vr, vn = vr.astype(float), vn.astype(float)
        y = rng.normal(size=xo.shape[1])
        coeff, *_ = np.linalg.lstsq(vr, y, rcond=None)
        t.close("least squares optimal", m @ y, vn @ coeff,
                (1e-12*(10+c)+np.where(near, 3e-8*(1+max(orders, default=0))**3, 0))
                * (1+np.abs(vn).max()), name)
        m0 = mp.resampling_matrix(b.functions, xo, xo, least_squares_ok=True)
        t.close("least squares residual orthogonal", vr.T @ (y - m0 @ y),
                np.zeros(vr.shape[1]), 1e-12*(10+c)*(1+np.abs(vr).max())*len(y),
                name)
    t.state(kind, desc, orders, old, new, bool(extra))
    t.show(basis=kind, shape=desc, orders=orders, old=old, new=new, extra=extra,
           matrix=list(m.shape), condition=round(c, 3))


def fourier(t, k, nextra, seed):
    """complex functions: trigonometric interpolation"""
    import modepy as mp
    rng = C.nprng(seed)
    ks = list(range(-k, k+1))
    fs = [(lambda x, q=q: np.exp(1j*np.pi*q*x[0])) for q in ks]
    if seed % 2:
        fs[k] = lambda x: np.ones(x.shape[1])       # a real one among them
        order = [k, *[i for i in range(len(fs)) if i != k]]
        fs = [fs[i] for i in order]
        ks = [ks[i] for i in order]
    n = len(fs)+nextra
    xo = (-1 + 2*(np.arange(n)+0.3)/n)[None]
    xn = rng.uniform(-1, 1, (1, 7))
    m = mp.resampling_matrix(fs, xn, xo, least_squares_ok=bool(nextra))
    c = rng.normal(size=len(fs)) + 1j*rng.normal(size=len(fs))

    def u(x):
        return sum(ci*np.exp(1j*np.pi*q*x[0]) for ci, q in zip(c, ks, strict=True))
    t.close("complex resampling", m @ u(xo), u(xn), 1e-11, f"k={k} extra={nextra}")
    if nextra:
        y = rng.normal(size=n) + 1j*rng.normal(size=n)
        a = np.array([f(xo) for f in fs]).T
        cc, *_ = np.linalg.lstsq(a, y, rcond=None)
        t.close("complex resampling", m @ y, np.array([f(xn) for f in fs]).T @ cc,
                1e-11, f"least squares k={k} extra={nextra}")
    t.state("fourier", k, nextra)


def flat1d(t, a, b, n, seed):
    """one-dimensional functions on plain one-dimensional node arrays"""
    from functools import partial

    import modepy as mp
    rng = C.nprng(seed)
    fs = [partial(mp.jacobi, a, b, k) for k in range(n+1)]
    x = np.sort(rng.uniform(-1, 1, n+1))
    v = mp.vandermonde(fs, x)
    want = np.array(ref.jacobi_orthonormal_all(a, b, n, x)).astype(float).T
    t.close("vandermonde entries", v, want, 1e-11*(1+np.abs(want).max()),
            f"1D nodes alpha={a} beta={b} n={n}")
    x = -np.cos(np.pi*(np.arange(n+1)+0.5)/(n+1))
    y = rng.uniform(-1, 1, 5)
    m = mp.resampling_matrix(fs, y, x)
    c = rng.normal(size=n+1)
    t.close("resample member", m @ np.polynomial.chebyshev.chebval(x, c),
            np.polynomial.chebyshev.chebval(y, c),
            1e-12*(10+C.cond(mp.vandermonde(fs, x)))*(1+np.abs(c).sum()),
            f"1D nodes alpha={a} beta={b} n={n}")
    t.state("flat", a, b, n)


def tall(t, desc, orders, npts, seed):
    """many functions, many points"""
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    b = C.mk_basis("onb", desc, orders)
    x = ref.random_points(desc, npts, C.nprng(seed))
    fs, gs = b.functions, b.gradients
    name = f"{desc} {orders} at {npts} points"
    v = mp.vandermonde(fs, x)
    if not t.true("vandermonde shape", v.shape == (npts, len(fs)), f"{v.shape} {name}"):
        return
    g = mp.multi_vandermonde(gs, x)
    t.true("one matrix per axis", len(g) == dim and all(m.shape == v.shape for m in g),
           name)
    for j, (f, df) in enumerate(zip(fs, gs, strict=True)):
        want = f(x)
        t.close("vandermonde entries", v[:, j], want, 1e-13*(1+np.abs(want)),
                f"column {j} {name}")
        for ax, w in enumerate(df(x)):
            t.close("multi_vandermonde entries", g[ax][:, j], w + np.zeros(npts),
                    1e-13*(1+np.abs(w)), f"column {j} axis {ax} {name}")
    t.state("tall", desc, orders, npts)
    t.note(points_compared=npts*len(fs)*(1+dim))


GROUPS = {"tall": tall, "flat1d": flat1d, "vdm": vdm, "basisvdm": basisvdm, "resample": resample,
          "fourier": fourier}


def cases(tier, rng):
    thorough = tier == "thorough"
    names = sorted(FUNCS)
    for a in names:
        for b in names:
            yield "vdm", {"names": [a, b], "dim": 2, "npts": 5, "seed": 1}
    for _ in range(600 if thorough else 80):
        yield "vdm", {"names": [rng.choice(names) for _ in range(rng.randint(1, 7))],
                      "dim": rng.randint(1, 3), "npts": rng.choice([1, 2, 3, 10]),
                      "seed": rng.randrange(10**6)}
    lim = 250 if thorough else 90
    shapes = [(0,), (), *C.SHAPES]
    for desc in shapes:
        hi = 0 if not desc else min(20, C.max_order(desc, lim))
        for o in range(hi+1):
            for kind in C.BASIS_KINDS:
                if kind == "default" and o % 3:
                    continue
                yield "basisvdm", {"kind": kind, "desc": list(desc),
                                   "orders": [o]*len(desc),
                                   "seed": rng.randrange(10**6),
                                   "npts": rng.choice([1, 3, 8])}
    for desc in shapes:
        hi = 0 if not desc else min(16, C.max_order(desc, lim))
        for o in range(hi+1):
            for _ in range(12 if thorough else 3):
                yield "resample", _res(rng, desc, [o]*len(desc))
        if len(desc) > 1:
            for _ in range(60 if thorough else 8):
                yield "resample", _res(rng, desc,
                                       list(C.random_orders(desc, rng, lim)))
    for e in C.big(rng, thorough):
        yield "tall", {**e, "npts": rng.choice([5, 300]), "seed": rng.randrange(10**6)}
        for new, extra in [("random", 0), ("many", 40)]:
            yield "resample", {**e, "kind": "onb", "new": new, "extra": extra,
                               "old": rng.choice(["clustered", "permuted"]),
                               "seed": rng.randrange(10**6)}
    for desc, npts in [((1,), 1000), ((1,), 70000), ((2,), 33000), ((1, 1), 1030),
                       ((3,), 513), ((2, 1), 260), ((1,), 40000), ((1,), 5000)]:
        yield "tall", {"desc": list(desc), "orders": [3]*len(desc), "npts": npts,
                       "seed": rng.randrange(10**6)}
        yield "resample", {"desc": list(desc), "orders": [2]*len(desc), "kind": "onb",
                           "new": "many", "extra": min(npts, 1100), "old": "permuted",
                           "seed": rng.randrange(10**6)}
    for a, b in [(0, 0), (-0.5, -0.5), (1, 0), (0.5, 2)]:
        for n in range(0, 13):
            yield "flat1d", {"a": a, "b": b, "n": n, "seed": rng.randrange(10**6)}
    for k in range(0, 9):
        for e in (0, 1, 5):
            for s in (0, 1):
                yield "fourier", {"k": k, "nextra": e, "seed": s}


def _res(rng, desc, orders):
    kind = rng.choice(["onb", "onb", "default", "mono"])
    if kind == "mono" and max(orders, default=0) > 9:
        kind = "onb"
    old = rng.choice(C.NODE_KINDS)
    if old == "equi" and max(orders, default=0) > 9:
        old = "clustered"
    dim = sum(desc)
    return {"kind": kind, "desc": list(desc), "orders": orders, "old":
            old if dim else rng.choice(["clustered", "equi", "permuted"]),
            "new": rng.choice(["random", "one", "same", "subset", "many",
                               "hostile" if dim else "random"]),
            "extra": rng.choice([0, 0, 1, 7, 40]), "seed": rng.randrange(10**6)}
