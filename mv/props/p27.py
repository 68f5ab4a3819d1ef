"""P27: Evaluation is pointwise and keeps floating-point type and shape."""
from __future__ import annotations

from functools import partial

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("differential monitor: every batch evaluation is compared with one-point "
             "evaluations, other layouts, other precisions and integer points")
LEVEL_NOTE = (
    "All functions, gradients and derivatives of the bases up to a bounded order on all "
    "shapes and the coordinate maps are evaluated in differently shaped, laid out and "
    "typed batches of hostile points; points are sampled.")

RULE = ("one case per (basis or family of maps, kind of batch); non-trivial if at least "
        "one batch value was compared with an independent one-point evaluation.")
ASSUMPTIONS = [
    "single precision is judged away from collapsed edges to a tolerance growing with "
    "the degree, and at the vertices",
    "maps given by a double-precision matrix may return double precision",
]
REQUIRED = ("batch value", "empty batch", "single point", "trailing axes", "layout",
            "points untouched", "single precision dtype", "single precision value",
            "integer points", "double precision dtype", "vandermonde precision",
            "result independent of points", "large batch")


# {{{ the functions

def basis_functions(kind, desc, orders):
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    b = C.mk_basis(kind, desc, orders)
    res = [(f"{kind}{desc}{orders} f{i}", f) for i, f in enumerate(b.functions)]
    if dim:
        res += [(f"{kind}{desc}{orders} g{i}", f) for i, f in enumerate(b.gradients)]
        for a in range(dim):
            res += [(f"{kind}{desc}{orders} d{a},{i}", f)
                    for i, f in enumerate(b.derivatives(a))]
    return res


def line_functions():
    """functions of one array of coordinates, no axis of dimensions"""
    import modepy as mp
    import modepy.quadrature.transplanted as tr
    res = []
    for al, be in ((0, 0), (.5, .25), (-.5, -.5), (2, 0), (0, 3), (1, 1)):
        for n in (0, 1, 2, 5, 9):
            res += [(f"jacobi {al} {be} {n}", partial(mp.jacobi, al, be, n)),
                    (f"grad_jacobi {al} {be} {n}", partial(mp.grad_jacobi, al, be, n)),
                    (f"scaled_jacobi {al} {be} {n}",
                     partial(mp.scaled_jacobi, al, be, n))]
    res += [("identity", tr.map_identity), ("kte", tr.map_kosloff_tal_ezer)]
    res += [(f"kte {r}", partial(tr.map_kosloff_tal_ezer, rho=r)) for r in (1.2, 2.)]
    res += [(f"sausage {d}", partial(tr.map_sausage, degree=d)) for d in (1, 5, 9)]
    return res


def map_functions(dim, seed):
    import modepy as mp
    import modepy.tools as mt
    rng = C.nprng(seed)
    res = [("unit_to_barycentric", mt.unit_to_barycentric),
           ("equilateral_to_unit", mt.equilateral_to_unit),
           ("affine", mt.AffineMap(rng.normal(size=(dim, dim)), rng.normal(size=dim))),
           ("monomial", mt.Monomial(tuple(int(i) for i in rng.integers(0, 4, dim)))),
           ("monomial 0", mt.Monomial((0,)*dim))]
    shapes = {1: [(2,), (1, 1)], 2: [(3,), (1, 1, 1)]}.get(dim, [])
    for s in shapes:
        for i, f in enumerate(mp.faces_for_shape(C.mk_shape(s))):
            if f.dim == dim:
                res.append((f"face {i} of {s}", f.map_to_volume))
    return res


def bary_functions():
    import modepy.tools as mt
    return [("barycentric_to_unit", mt.barycentric_to_unit),
            ("barycentric_to_equilateral", mt.barycentric_to_equilateral)]

# }}}


def comps(r):
    """results as a list of arrays: components of a gradient"""
    return list(r) if isinstance(r, tuple) else [r]


def stack(r):
    return np.array([np.asarray(c) for c in comps(r)])


LAYOUTS = ("fortran", "strided", "reversed", "transposed", "readonly", "broadcast",
           "permuted", "axis-strided")


def lay(kind, x):
    """the points x (dim, n) stored differently; second: index of the points"""
    n = x.shape[1]
    idx = np.arange(n)
    if kind == "fortran":
        return np.asfortranarray(x), idx
    if kind == "strided":
        big = np.full((x.shape[0], 2*n), np.nan)
        big[:, ::2] = x
        return big[:, ::2], idx
    if kind == "axis-strided":
        big = np.full((2*x.shape[0]+1, n), np.nan)
        big[1::2] = x
        return big[1::2], idx
    if kind == "reversed":
        return x[:, ::-1], idx[::-1]
    if kind == "transposed":
        return np.array(x.T, order="C").T, idx
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y, idx
    if kind == "broadcast":
        return np.broadcast_to(x[:, :1], (x.shape[0], 4)), idx[[0, 0, 0, 0]]
    assert kind == "permuted"
    p = np.random.default_rng(n).permutation(n)
    return x[:, p], p


def pointwise(t, fs, x, scale, line=False, trailing=True):
    """the comparison of one family *fs* on points x"""
    n = x.shape[1]

    def pts(y):
        return y[0] if line else y

    for name, f in fs:
        x0 = x.copy()
        arg = pts(x)
        full = f(arg)
        t.true("points untouched", np.array_equal(x, x0), name)
        tup = isinstance(full, tuple)
        full = stack(full)
        if not t.true("one value per point", full.shape[-1] == n
                      and (full.ndim == 2 or not tup),
                      f"{name}: shape {full.shape} for {n} points"):
            continue
        t.true("double precision dtype", full.dtype == np.float64,
               f"{name}: {full.dtype}")
        fin = np.abs(full)
        tol = scale*C.EPS*(fin + np.max(fin, axis=-1, keepdims=True)) + 1e-300
        # one at a time
        one = np.concatenate([stack(f(pts(x[:, i:i+1]))) for i in range(n)], axis=-1)
        t.close("batch value", full, one, tol, name)
        t.true("single point", one.shape == full.shape, f"{name} {one.shape}")
        # none
        none = stack(f(pts(x[:, :0])))
        t.true("empty batch", none.shape == (*full.shape[:-1], 0),
               f"{name}: {none.shape}")
        # several axes of points
        if trailing and n >= 6:
            k = n//6
            for shp in ((2, 3*k), (3, 1, 2*k), (1, 6*k)):
                r = stack(f(pts(x[:, :6*k].reshape(x.shape[0], *shp))))
                want = full[..., :6*k].reshape(*full.shape[:-1], *shp)
                t.close("trailing axes", r, want,
                        tol[..., :6*k].reshape(want.shape), f"{name} {shp}")
        # stored otherwise
        for kind in LAYOUTS:
            y, idx = lay(kind, x)
            t.close("layout", stack(f(pts(y))), full[..., idx], tol[..., idx],
                    f"{name} {kind}")
        # overwriting the points afterwards does not change the values
        if "identity" not in name:
            y = x.copy()
            r = f(pts(y))
            y[...] = 7.25
            t.true("result independent of points",
                   np.array_equal(stack(r), full, equal_nan=True), name)


def basis(t, kind, desc, orders, seed):
    desc = tuple(desc)
    rng = C.nprng(seed)
    x = ref.hostile_points(desc, rng, 5)
    if x.shape[1] > 24:
        x = x[:, rng.permutation(x.shape[1])[:24]]
    pointwise(t, basis_functions(kind, desc, orders), x, 64)
    t.state("basis", kind, desc, tuple(orders))
    t.show(kind=kind, desc=desc, orders=orders, npoints=x.shape[1])


def lines(t, seed):
    rng = C.nprng(seed)
    x = np.concatenate([[-1, 1, 0], rng.uniform(-1, 1, 15)])[None]
    pointwise(t, line_functions(), x, 64, line=True)
    t.state("lines")


def maps(t, dim, seed):
    rng = C.nprng(seed)
    x = ref.hostile_points((dim,), rng, 5)
    fs = map_functions(dim, seed)
    pointwise(t, fs, x, 64, trailing=False)
    b = np.concatenate([1-(x.sum(axis=0, keepdims=True)+dim)/2, (x+1)/2])
    pointwise(t, bary_functions(), b, 64, trailing=False)
    t.state("maps", dim)


# {{{ precision

def interior_points(desc, n, rng):
    x = ref.random_points(desc, n, rng)
    c = np.concatenate([np.full(d, 2/(d+1)-1) for d in desc if d]) \
        if sum(desc) else np.zeros(0)
    x = c[:, None] + .9*(x-c[:, None])
    return x


def vertex_points(desc):
    cols = [()]
    for d in desc:
        vs = [tuple([-1.0]*d)] + [tuple(1.0 if j == i else -1.0 for j in range(d))
                                  for i in range(d)]
        cols = [(*c, *v) for c in cols for v in vs]
    return np.array(cols, dtype=float).reshape(-1, sum(desc)).T


E32 = float(np.finfo(np.float32).eps)


def single(t, fs, x, deg, line=False, keep=True):
    x32 = x.astype(np.float32)
    x64 = x32.astype(np.float64)
    for name, f in fs:
        r32 = f(x32[0] if line else x32)
        r64 = stack(f(x64[0] if line else x64))
        if keep and not all(c.dtype == np.float32 for c in comps(r32)):
            t.fail("single precision dtype",
                   f"{name}: {[str(c.dtype) for c in comps(r32)]}")
        else:
            t._rec("single precision dtype")
        s = np.max(np.abs(r64), initial=0)
        t.close("single precision value", stack(r32).astype(float), r64,
                30*E32*(1+deg)**2*(1e-3+s), name)


def precision(t, kind, desc, orders, seed):
    desc = tuple(desc)
    rng = C.nprng(seed)
    fs = basis_functions(kind, desc, orders)
    deg = max(orders, default=0)
    single(t, fs, interior_points(desc, 12, rng), deg)
    if sum(desc):
        v = vertex_points(desc)
        single(t, fs, v, deg)
        integers(t, fs, v, deg, rng)
    t.state("precision", kind, desc, tuple(orders))


def integers(t, fs, v, deg, rng, line=False):
    """integer-valued points are the same points"""
    for dt in (np.int64, np.int32, np.int8):
        vi = v.astype(dt)
        for name, f in fs:
            want = stack(f(v[0] if line else v)).astype(float)
            got = stack(f(vi[0] if line else vi))
            eps = C.EPS if dt == np.int64 else E32
            if got.dtype in (np.float16,):
                eps = 1e-3
            s = np.max(np.abs(want), initial=0)
            t.close("integer points", got.astype(float), want,
                    30*eps*(1+deg)**2*(1e-3+s), f"{name} {dt.__name__}")


def lineprecision(t, seed):
    rng = C.nprng(seed)
    x = np.concatenate([[-1, 1, 0], rng.uniform(-.95, .95, 15)])[None]
    fs = line_functions()
    single(t, fs, x, 9, line=True)
    v = np.array([[-1., 0, 1, 1, -1]])
    integers(t, [f for f in fs if "identity" not in f[0]], v, 9, rng, line=True)
    t.state("lineprecision")


def mapprecision(t, dim, seed):
    rng = C.nprng(seed)
    x = ref.hostile_points((dim,), rng, 9)
    fs = map_functions(dim, seed)
    keep = [f for f in fs if f[0].startswith(("monomial", "unit_to_bary"))]
    single(t, keep, x, 3)
    single(t, [f for f in fs if f not in keep], x, 3, keep=False)
    integers(t, fs, vertex_points((dim,)), 3, rng)
    b = np.concatenate([1-(x.sum(axis=0, keepdims=True)+dim)/2, (x+1)/2])
    single(t, bary_functions(), b, 3, keep=False)
    integers(t, bary_functions(), np.eye(dim+1), 3, rng)
    t.state("mapprecision", dim)


def vander(t, kind, desc, orders, seed):
    """matrices assembled at single-precision points"""
    import modepy as mp
    desc = tuple(desc)
    rng = C.nprng(seed)
    b = C.mk_basis(kind, desc, orders)
    x = interior_points(desc, 9, rng).astype(np.float32)
    v32 = mp.vandermonde(b.functions, x)
    v64 = mp.vandermonde(b.functions, x.astype(float))
    deg = max(orders, default=0)
    t.true("vandermonde precision", v32.dtype == np.float32 and v64.dtype == np.float64,
           f"{v32.dtype} {v64.dtype} {kind} {desc} {orders}")
    t.close("vandermonde precision", v32.astype(float), v64,
            30*E32*(1+deg)**2*(1e-3+np.max(np.abs(v64), axis=0)), f"{kind} {desc}")
    if sum(desc):
        for a, w in zip(mp.multi_vandermonde(b.gradients, x),
                        mp.multi_vandermonde(b.gradients, x.astype(float)),
                        strict=True):
            t.close("vandermonde precision", a.astype(float), w,
                    30*E32*(1+deg)**2*(1e-3+np.max(np.abs(w))), f"grad {kind} {desc}")
    t.state("vander", kind, desc, tuple(orders))

# }}}


def single_point(t, kind, desc, orders, seed):
    """a point without an axis of points"""
    desc = tuple(desc)
    rng = C.nprng(seed)
    x = ref.random_points(desc, 3, rng)
    for name, f in basis_functions(kind, desc, orders):
        full = stack(f(x))
        for i in range(3):
            r = stack(f(x[:, i]))
            w = full[..., i]
            t.close("single point", r, w,
                    64*C.EPS*(np.abs(w) + np.max(np.abs(full))), name)
    t.state("single_point", kind, desc)


# {{{ large batches

BIG = (127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2000,
       2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193, 10000, 10007, 16385, 20000,
       32769, 50001, 65536, 65537, 100003)


def large(t, what, kind, desc, orders, n, seed):
    """batches of thousands of points: pieces of odd sizes give the same values"""
    import modepy as mp
    desc = tuple(desc)
    rng = C.nprng(seed)
    line = what == "line"
    if what == "basis":
        fs = basis_functions(kind, desc, orders)
        fs = [fs[i] for i in sorted(rng.permutation(len(fs))[:5])]
        x = ref.random_points(desc, n, rng)
    elif line:
        fs = line_functions()
        fs = [fs[i] for i in rng.permutation(len(fs))[:4]]
        x = rng.uniform(-1, 1, (1, n))
    else:
        dim = desc[0]
        fs = map_functions(dim, seed)
        x = ref.random_points(desc, n, rng)
    # hostile points at both ends and in between
    h = ref.hostile_points((1,) if line else desc, rng, 2)
    k = min(h.shape[1], n//4)
    for at in (slice(0, k), slice(n-k, n), slice(n//2, n//2+k)):
        x[:, at] = h[:, :k]
    cuts = np.unique(np.concatenate([
        [0, n, n-1, 1], rng.integers(0, n, 4), np.arange(0, n, 1237)]))
    pick = np.unique(np.concatenate([[0, n-1, n//2], rng.integers(0, n, 20)]))

    def pts(y):
        return y[0] if line else y

    for name, f in fs:
        full = stack(f(pts(x)))
        if not t.true("one value per point", full.shape[-1] == n,
                      f"{name}: shape {full.shape} for {n} points"):
            continue
        tol = 64*C.EPS*(np.abs(full) + np.max(np.abs(full), axis=-1, keepdims=True)) \
            + 1e-300
        pieces = np.concatenate(
            [stack(f(pts(np.ascontiguousarray(x[:, a:b]))))
             for a, b in zip(cuts[:-1], cuts[1:], strict=True)], axis=-1)
        t.close("large batch", pieces, full, tol, f"{name} {n} points in pieces")
        one = np.concatenate([stack(f(pts(x[:, i:i+1]))) for i in pick], axis=-1)
        t.close("large batch", full[..., pick], one, tol[..., pick], f"{name} {n}")
        if not line and what == "basis":
            m = n - n % 2
            r = stack(f(x[:, :m].reshape(len(x), 2, m//2)))
            t.close("large batch", r.reshape(len(r), m), full[..., :m], tol[..., :m],
                    f"{name} 2x{m//2}")
    if what == "basis":
        b = C.mk_basis(kind, desc, orders)
        v = mp.vandermonde(b.functions, x)
        for i, f in enumerate(b.functions):
            want = f(x[:, pick])
            t.close("large batch", v[pick, i], want,
                    64*C.EPS*(np.abs(want)+np.max(np.abs(v[:, i])))+1e-300,
                    f"vandermonde {kind} {desc} {n}")
    t.state("large", what, kind, desc, tuple(orders), n)

# }}}


GROUPS = {"large": large, "basis": basis, "lines": lines, "maps": maps, "precision": precision,
          "lineprecision": lineprecision, "mapprecision": mapprecision,
          "vander": vander, "single_point": single_point}

DESCS = [(0,), (1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (1, 3), (3, 1),
         (1, 1, 1), (1, 1, 2), ()]


def has(kind, desc, orders):
    if kind == "onb" and any(d > 3 for d in desc):
        return False
    if any(d == 0 for d in desc):
        # no gradients without axes
        return sum(desc) == 0
    return True


def cases(tier, rng):
    thorough = tier == "thorough"
    seed = lambda: rng.randrange(10**9)     # noqa: E731
    for desc in DESCS:
        mx = {0: 2, 1: 6, 2: 4, 3: 3, 4: 2}[max(desc, default=0)]
        if len(desc) == 2:
            mx = 3 if max(desc) == 1 else 2
        elif len(desc) > 2:
            mx = 1 + (thorough and max(desc) == 1)
        olist = [(n,)*len(desc) for n in range(mx+1+2*(thorough and len(desc) == 1))] \
            if desc else [()]
        if len(desc) >= 2:
            for _ in range(4 if thorough else 1):
                olist.append(tuple(rng.randint(0, mx) for _ in desc))
        for kind in C.BASIS_KINDS:
            for o in olist:
                if not has(kind, desc, o):
                    continue
                for g in ("basis", "precision", "vander", "single_point"):
                    for _ in range(3 if thorough and g != "vander" else 1):
                        yield g, dict(kind=kind, desc=desc, orders=o, seed=seed())
    for _ in range(8 if thorough else 2):
        yield "lines", dict(seed=seed())
        for n in (BIG if thorough else rng.sample(BIG, 10)):
            desc = rng.choice([d for d in DESCS if sum(d)])
            mx = 3 if len(desc) == 1 else 1
            o = tuple(rng.randint(1, mx) for _ in desc)
            kind = rng.choice(C.BASIS_KINDS)
            if has(kind, desc, o):
                yield "large", dict(what="basis", kind=kind, desc=desc, orders=o, n=n,
                                    seed=seed())
        for n in rng.sample(BIG, 12 if thorough else 4):
            yield "large", dict(what="line", kind="", desc=(1,), orders=(), n=n,
                                seed=seed())
            yield "large", dict(what="map", kind="", desc=(rng.randint(1, 3),),
                                orders=(), n=n, seed=seed())
        yield "lineprecision", dict(seed=seed())
        for d in (1, 2, 3):
            yield "maps", dict(dim=d, seed=seed())
            yield "mapprecision", dict(dim=d, seed=seed())
