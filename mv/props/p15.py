"""P15: mass, test and bilinear-form matrices."""
from __future__ import annotations

import math
import warnings

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("action of the matrices on random members and data against exact modal "
             "inner products and directly accumulated quadrature sums; discrete "
             "integration by parts across derivative, mass and face matrices")
LEVEL_NOTE = (
    "Every matrix is tested as a bilinear form on random vectors, for random "
    "combinations of test, trial and interpolation functions, node sets, quadrature "
    "rules (including arbitrary ones) and point maps. Orders bounded, data sampled.")

RULE = ("one case per (shape, orders, nodes, functions, quadrature, map); non-trivial "
        "if a bilinear form or an inner product was compared with its definition.")
ASSUMPTIONS = ["tolerances grow with the condition number of the interpolation "
               "Vandermonde matrices"]
REQUIRED = ("inner product", "symmetric", "positive definite", "inverse",
            "non-orthonormal refused", "test matrix", "bilinear form",
            "bilinear form equals mass matrix", "integration by parts",
            "deprecated functions agree", "spectral diagonal", "lumped mass")


def mass(t, desc, orders, old, default, seed):
    import random

    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    rng = C.nprng(seed)
    b = C.mk_basis("default" if default else "onb", desc, orders)
    x = C.mk_nodes(old, desc, orders, rng)
    m = mp.mass_matrix(b, x)
    mi = mp.inverse_mass_matrix(b, x)
    n = x.shape[1]
    name = f"{desc} {orders} {old}"
    if not t.true("shape", m.shape == mi.shape == (n, n), f"{m.shape} {name}"):
        return
    _k, v = ref.tp_vander(desc, orders, x)
    v = v.astype(float)
    c = C.cond(v)
    nm = np.abs(m).max()
    prng = random.Random(seed)
    for _ in range(3):
        p, q = ref.random_poly(desc, orders, prng), ref.random_poly(desc, orders, prng)
        exact = math.fsum(p.coeffs[k]*q.coeffs[k] for k in p.coeffs)
        u, w = p(x).astype(float), q(x).astype(float)
        tol = 1e-13*(10+min(c, 1e8)**2)*(1+np.abs(u).max())*(1+np.abs(w).max())
        t.close("inner product", u @ m @ w, exact, tol, name)
        t.close("inner product", u @ np.linalg.solve(mi, w), exact, tol, name)
    t.close("symmetric", m, m.T, 1e-14*(10+min(c, 1e8)**2)*nm, name)
    t.close("symmetric", mi, mi.T, 1e-13*np.abs(mi).max(), name)
    t.close("inverse mass entries", mi, v @ v.T, 1e-12*(1+np.abs(v).max()**2)*n, name)
    t.close("inverse", m @ mi, np.eye(n), 1e-13*(10+min(c, 1e8)**2)*n, name)
    if c < 1e6:
        ev = np.linalg.eigvalsh((m+m.T)/2)
        t.true("positive definite", ev.min() > 0, f"{ev.min()} {name}")
        t.true("positive definite", np.linalg.eigvalsh((mi+mi.T)/2).min() > 0, name)
    vol = float(ref.shape_volume(desc))
    t.close("total mass", m.sum(), vol, 1e-13*(10+min(c, 1e8)**2)*(1+vol), name)
    # the deprecated sequence form agrees
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        m2 = mp.mass_matrix(b.functions, x)
        mi2 = mp.inverse_mass_matrix(list(b.functions), x)
    t.true("deprecation announced", sum(issubclass(w.category, DeprecationWarning)
                                        for w in wl) >= 2, name)
    t.close("deprecated functions agree", m2, m, 1e-13*(10+min(c, 1e8)**2)*nm, name)
    t.close("deprecated functions agree", mi2, mi, 1e-13*np.abs(mi).max(), name)
    t.state("mass", desc, orders, old)
    t.show(shape=desc, orders=orders, nodes=n, condition=round(c, 3))


def refuse(t, desc, orders, which):
    """bases that are not orthonormal with weight 1"""
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    b = C.mk_basis("mono", desc, orders)
    if which == "mixed" and len(desc) > 1:
        parts = [(C.mk_basis("onb" if i else "mono", (d,), (o,)))
                 for i, (d, o) in enumerate(zip(desc, orders, strict=True))]
        b = mp.TensorProductBasis(parts, dims_per_basis=desc)
    elif which == "weight":
        inner = C.mk_basis("onb", desc, orders)

        class Weighted(mp.Basis):
            mode_ids = inner.mode_ids
            functions = inner.functions
            gradients = inner.gradients

            def orthonormality_weight(self):
                return 0.5

            def derivatives(self, axis):
                return inner.derivatives(axis)
        b = Weighted()
    x = C.mk_nodes("clustered" if max(desc) < 4 else "equi", desc, orders, None)
    for nm, f in (("mass", mp.mass_matrix), ("inverse", mp.inverse_mass_matrix)):
        t.raises("non-orthonormal refused", NotImplementedError, lambda f=f: f(b, x),
                 f"{nm} {which} {desc} {orders}")
    t.state("refuse", which, desc)


def functions(which, desc, orders, rng):
    """a list of functions as long as the space, and a description"""
    if which in ("d0", "d1", "d2"):
        b = C.mk_basis("onb", desc, orders)
        ax = int(which[1:]) % sum(desc)
        return list(b.derivatives(ax))
    if which == "other":
        n = ref.space_dim(desc, orders)
        return [(lambda x, k=k: np.cos(k*x[0]+0.3*x[-1]*k)) for k in range(n)]
    return list(C.mk_basis(which, desc, orders).functions)


def some_quad(which, desc, orders, rng):
    import modepy as mp
    if which == "arbitrary":
        n = int(rng.integers(1, 9))
        return mp.Quadrature(ref.random_points(desc, n, rng), rng.normal(size=n))
    if which == "space":
        return mp.quadrature_for_space(
            C.mk_space(desc, tuple(2*o for o in orders)), C.mk_shape(desc))
    x, w = C.tp_quad(desc, max(orders, default=0)+1)
    return mp.Quadrature(x, w)


def some_map(which, dim, rng):
    if which == "none":
        return None
    a = rng.uniform(-0.5, 0.5, (dim, dim))
    bb = rng.uniform(-0.3, 0.3, (dim, 1))
    if which == "affine":
        return lambda x: a @ x/dim + bb
    return lambda x: 0.5*np.sin(a @ x) + bb


def testmat(t, desc, orders, old, quad, test, interp, mapping, seed):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    rng = C.nprng(seed)
    fi = functions(interp, desc, orders, rng)
    ft = functions(test, desc, orders, rng)
    mp_ = some_map(mapping, dim, rng)
    kw = {} if mp_ is None else {"test_function_node_map": mp_}
    if old == "none":
        # the nodes are those of the quadrature
        x = C.mk_nodes("scattered", desc, orders, rng)
        q = mp.Quadrature(x, rng.normal(size=x.shape[1]))
        a = mp.nodal_quadrature_test_matrix(q, ft, fi, **kw)
    else:
        x = C.mk_nodes(old, desc, orders, rng)
        q = some_quad(quad, desc, orders, rng)
        a = mp.nodal_quadrature_test_matrix(q, ft, fi, x, **kw) if seed % 2 else \
            mp.nodal_quadrature_test_matrix(q, ft, fi, nodes=x, **kw)
    name = f"{desc} {orders} {old} quad={quad} test={test} interp={interp} {mapping}"
    if not t.true("shape", a.shape == (len(fi), len(q.weights)),
                  f"{a.shape} {name}"):
        return
    c = C.cond(np.array([f(x) for f in fi]).T)
    y = q.nodes if mp_ is None else mp_(q.nodes)
    ft_v = np.array([f(y)+np.zeros(y.shape[1]) for f in ft])
    for _ in range(3):
        co = rng.normal(size=len(fi))
        v = np.array([f(x)+np.zeros(x.shape[1]) for f in fi]).T @ co
        u = rng.normal(size=len(q.weights))
        exact = float(np.sum(q.weights*u*(co @ ft_v), dtype=ref.LD))
        sc = np.sum(np.abs(q.weights*u)*(np.abs(co) @ np.abs(ft_v)))
        t.close("test matrix", v @ a @ u, exact,
                1e-13*(10+min(c, 1e10))*(sc + np.abs(v).max()*np.abs(a).sum()),
                name)
    t.state("test", desc, orders, old, quad, test, interp, mapping)


def bilinear(t, desc, orders, torders, old, out, quad, test, trial, itest, itrial,
             mapping, seed):
    """orders: test space, torders: trial space"""
    import modepy as mp
    desc, orders, torders = tuple(desc), tuple(orders), tuple(torders)
    dim = sum(desc)
    rng = C.nprng(seed)
    ft, fi = functions(test, desc, orders, rng), functions(itest, desc, orders, rng)
    gt, gi = functions(trial, desc, torders, rng), functions(itrial, desc, torders,
                                                              rng)
    xin = C.mk_nodes(old, desc, torders, rng)
    xout = None if out == "none" else C.mk_nodes(out, desc, orders, rng)
    q = some_quad(quad, desc, tuple(map(max, orders, torders)), rng)
    mp_ = some_map(mapping, dim, rng)
    kw = {} if mp_ is None else {"test_function_node_map": mp_}
    a = mp.nodal_quadrature_bilinear_form_matrix(
        q, ft, gt, fi, gi, xin, **({} if xout is None else {"output_nodes": xout}),
        **kw)
    if xout is None:
        xout = xin
    name = (f"{desc} {orders}/{torders} {old}/{out} quad={quad} test={test}/{itest} "
            f"trial={trial}/{itrial} {mapping}")
    if not t.true("shape", a.shape == (len(fi), len(gi)), f"{a.shape} {name}"):
        return

    def ev(fs, x):
        return np.array([f(x)+np.zeros(x.shape[1]) for f in fs])
    y = q.nodes if mp_ is None else mp_(q.nodes)
    vt, vg = ev(ft, y), ev(gt, q.nodes)
    vo, vi = ev(fi, xout).T, ev(gi, xin).T
    c = C.cond(vo)*C.cond(vi)
    for _ in range(3):
        co, ci = rng.normal(size=len(fi)), rng.normal(size=len(gi))
        exact = float(np.sum(q.weights*(co @ vt)*(ci @ vg), dtype=ref.LD))
        sc = np.sum(np.abs(q.weights)*(np.abs(co) @ np.abs(vt))
                    * (np.abs(ci) @ np.abs(vg)))
        v, u = vo @ co, vi @ ci
        t.close("bilinear form", v @ a @ u, exact,
                1e-13*(10+min(c, 1e10))*(
                    sc + np.abs(v).max()*np.abs(u).max()*np.abs(a).sum()), name)
    t.state("bilinear", desc, orders, torders, quad, test, trial, mapping)
    t.show(case=name, shape=list(a.shape))


def parts(t, desc, n, old, seed):
    """integration by parts with derivative, mass and face matrices"""
    from modepy.matrices import modal_quad_mass_matrix
    import modepy as mp
    desc = tuple(desc)
    dim = sum(desc)
    orders = (n,)*len(desc)
    rng = C.nprng(seed)
    shape = C.mk_shape(desc)
    b = C.mk_basis("onb", desc, orders)
    x = C.mk_nodes(old, desc, orders, rng)
    ds = mp.diff_matrices(b, x)
    m = mp.mass_matrix(b, x)
    quad = mp.quadrature_for_space(C.mk_space(desc, (2*n,)*len(desc)), shape)
    bf = mp.nodal_quadrature_bilinear_form_matrix(
        quad, b.functions, b.functions, b.functions, b.functions, x)
    c = C.cond(mp.vandermonde(b.functions, x))
    name = f"{desc} n={n} {old}"
    t.close("bilinear form equals mass matrix", bf, m,
            1e-13*(10+c*c)*np.abs(m).max()*len(m), name)
    # the weak derivative: test with derivatives of the test functions
    for ax in range(dim):
        wk = mp.nodal_quadrature_bilinear_form_matrix(
            quad, b.derivatives(ax), b.functions, b.functions, b.functions, x)
        t.close("weak derivative matrix", wk, ds[ax].T @ m,
                1e-12*(10+c*c)*np.abs(m).max()*len(m)*(1+np.abs(ds[ax]).max()),
                f"axis {ax} {name}")
        tm = mp.nodal_quadrature_test_matrix(quad, b.derivatives(ax), b.functions, x)
        up = mp.resampling_matrix(b.functions, quad.nodes, x)
        t.close("weak derivative matrix", tm @ up, wk,
                1e-12*(10+c*c)*np.abs(m).max()*len(m)*(1+np.abs(ds[ax]).max()),
                f"axis {ax} {name}")
    faces = mp.faces_for_shape(shape)
    co, ci = rng.normal(size=len(b.functions)), rng.normal(size=len(b.functions))
    vdm = mp.vandermonde(b.functions, x)
    v, u = vdm @ co, vdm @ ci
    tot = np.zeros(dim)
    scale = 1.0
    for f in faces:
        fspace = mp.space_for_shape(f, n)
        fshape = f
        fb = mp.orthonormal_basis_for_space(fspace, fshape)
        fx = mp.edge_clustered_nodes_for_space(fspace, fshape)
        fq = mp.quadrature_for_space(mp.space_for_shape(f, 2*n), fshape)
        # area element of the face map (reference vertices are 2 apart)
        nrm = mp.face_normal(f, normalize=False)/2.0**f.dim
        fm = mp.nodal_quadrature_bilinear_form_matrix(
            fq, b.functions, fb.functions, b.functions, fb.functions,
            fx, x, f.map_to_volume)
        uf = mp.vandermonde(b.functions, f.map_to_volume(fx)) @ ci
        val = v @ fm @ uf
        tot += val*nrm
        scale += abs(val)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fm2 = mp.nodal_mass_matrix_for_face(
                f, fq, fb.functions, b.functions, x, fx)
            fm3 = mp.nodal_quad_mass_matrix_for_face(f, fq, b.functions, x)
            fm4 = mp.modal_mass_matrix_for_face(f, fq, fb.functions, b.functions)
            fm5 = mp.modal_quad_mass_matrix_for_face(f, fq, b.functions)
        tol = 1e-12*(10+c*c)*(1+np.abs(fm).max())
        d = f"face {f.face_index} {name}"
        t.close("deprecated functions agree", fm2, fm, tol, d)
        upf = mp.resampling_matrix(fb.functions, fq.nodes, fx)
        t.close("deprecated functions agree", fm3 @ upf, fm, tol, d)
        t.close("deprecated functions agree", vdm.T @ fm3, fm5, tol, d)
        t.close("deprecated functions agree",
                fm4, vdm.T @ fm @ mp.vandermonde(fb.functions, fx), tol*10, d)
        t.close("deprecated functions agree", fm5, np.array(
            [g(f.map_to_volume(fq.nodes)) for g in b.functions])*fq.weights,
            1e-13*(1+np.abs(fm5).max()), d)
    for ax in range(dim):
        lhs = v @ m @ (ds[ax] @ u) + (ds[ax] @ v) @ m @ u
        t.close("integration by parts", lhs, tot[ax],
                1e-12*(10+c*c)*(scale + np.abs(v).max()*np.abs(u).max()
                                * np.abs(ds[ax]).sum(axis=1).max())*(1+n),
                f"axis {ax} {name}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        q1 = modal_quad_mass_matrix(quad, b.functions)
        q2 = mp.nodal_quad_mass_matrix(quad, b.functions, x)
    t.close("deprecated functions agree", q1, np.array(
        [g(quad.nodes) for g in b.functions])*quad.weights,
        1e-13*(1+np.abs(q1).max()), name)
    t.close("deprecated functions agree", q2,
            mp.nodal_quadrature_test_matrix(quad, b.functions, b.functions, x),
            1e-12*(10+c)*(1+np.abs(q2).max()), name)
    t.close("deprecated functions agree",
            q2 @ mp.resampling_matrix(b.functions, quad.nodes, x), m,
            1e-12*(10+c*c)*(1+np.abs(m).max()), name)
    t.state("parts", desc, n, old)
    t.note(faces=len(faces))


def nodenone(t, desc, n, seed):
    """deprecated nodal mass matrix on the quadrature's own nodes"""
    import modepy as mp
    desc = tuple(desc)
    rng = C.nprng(seed)
    x = C.mk_nodes("scattered", desc, (n,)*len(desc), rng)
    q = mp.Quadrature(x, rng.uniform(0.1, 1, x.shape[1]))
    b = C.mk_basis("onb", desc, (n,)*len(desc))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = mp.nodal_quad_mass_matrix(q, b.functions)
    # Lagrange functions at their own nodes: the diagonal of the weights
    c = C.cond(mp.vandermonde(b.functions, x))
    t.close("deprecated functions agree", a, np.diag(q.weights),
            1e-12*(10+c), f"{desc} {n}")
    a = mp.nodal_quadrature_test_matrix(q, b.functions, b.functions)
    t.close("test matrix", a, np.diag(q.weights), 1e-12*(10+c), f"{desc} {n}")


def spectral(t, orders, kind):
    import modepy as mp
    orders = tuple(orders)
    d = len(orders)
    desc = (1,)*d
    if kind == "named" and len(set(orders)) == 1:
        gl = mp.LegendreGaussTensorProductQuadrature(orders[0], d)
        ll = mp.LegendreGaussLobattoTensorProductQuadrature(orders[0], d) \
            if orders[0] else None
    else:
        gl = mp.TensorProductQuadrature([
            mp.LegendreGaussQuadrature(o, force_dim_axis=bool(i % 2))
            for i, o in enumerate(orders)])
        ll = mp.TensorProductQuadrature([
            mp.LegendreGaussLobattoQuadrature(o, force_dim_axis=True)
            for o in orders]) if min(orders) else None
    b = C.mk_basis("onb", desc, orders)
    diag = mp.spectral_diag_nodal_mass_matrix(gl)
    x = gl.nodes.reshape(d, -1)
    m = mp.mass_matrix(b, x)
    t.close("spectral diagonal", np.diag(diag), m, 1e-11*(1+max(orders)),
            f"GL {orders}")
    w0 = gl.weights.copy()
    diag *= -3
    t.true("result is the caller's own", np.array_equal(gl.weights, w0),
           f"GL {orders}: scaling the mass matrix changed the quadrature rule")
    if ll is not None:
        diag = mp.spectral_diag_nodal_mass_matrix(ll)
        m = mp.mass_matrix(b, ll.nodes.reshape(d, -1))
        t.close("lumped mass", diag, m.sum(axis=1), 1e-11*(1+max(orders)),
                f"GLL {orders}")
    t.state("spectral", orders)


GROUPS = {"mass": mass, "refuse": refuse, "testmat": testmat, "bilinear": bilinear,
          "parts": parts, "nodenone": nodenone, "spectral": spectral}


def _old(rng, orders, dim=1):
    old = rng.choice(C.NODE_KINDS)
    if old == "equi" and max(orders, default=0) > 7:
        old = "clustered"
    if not dim:
        old = "clustered"
    return old


def cases(tier, rng):
    thorough = tier == "thorough"
    lim = 220 if thorough else 90
    for desc in [(0,), (), *C.SHAPES]:
        hi = 0 if not sum(desc) else min(16, C.max_order(desc, lim))
        if desc == (0,):
            hi = 2
        for o in range(hi+1):
            for _ in range(5 if thorough else 1):
                orders = [o]*len(desc)
                yield "mass", {"desc": list(desc), "orders": orders,
                               "old": _old(rng, orders, sum(desc)),
                               "default": rng.random() < 0.3,
                               "seed": rng.randrange(10**6)}
        if len(desc) > 1:
            for _ in range(25 if thorough else 5):
                o = list(C.random_orders(desc, rng, lim))
                yield "mass", {"desc": list(desc), "orders": o, "old": _old(rng, o),
                               "default": rng.random() < 0.3,
                               "seed": rng.randrange(10**6)}
    for desc in [*C.SHAPES, (4,)]:
        for which in ("mono", "mixed", "weight"):
            if desc == (4,) and which == "weight":
                continue
            yield "refuse", {"desc": list(desc), "orders": [2]*len(desc),
                             "which": which}
    fs = ["onb", "default", "mono", "d0", "d1", "d2"]
    shapes = [s for s in C.SHAPES if sum(s) <= 4]
    for _ in range(1500 if thorough else 200):
        desc = rng.choice(shapes)
        o = list(C.random_orders(desc, rng, 60))
        if max(o) > 7:
            o = [min(i, 7) for i in o]
        yield "testmat", {
            "desc": list(desc), "orders": o,
            "old": rng.choice([_old(rng, o), _old(rng, o), "none"]),
            "quad": rng.choice(["arbitrary", "space", "exact"]),
            "test": rng.choice([*fs, "other"]), "interp": rng.choice(fs[:3]),
            "mapping": rng.choice(["none", "none", "affine", "nonlinear"]),
            "seed": rng.randrange(10**6)}
    for _ in range(2000 if thorough else 250):
        desc = rng.choice(shapes)
        o = [min(i, 6) for i in C.random_orders(desc, rng, 50)]
        o2 = o if rng.random() < 0.4 else [
            min(i, 6) for i in C.random_orders(desc, rng, 50)]
        out = rng.choice(["none", _old(rng, o), _old(rng, o)]) if o2 == o else \
            _old(rng, o)
        yield "bilinear", {
            "desc": list(desc), "orders": o, "torders": o2, "old": _old(rng, o2),
            "out": out, "quad": rng.choice(["arbitrary", "space", "exact"]),
            "test": rng.choice([*fs, "other"]), "trial": rng.choice([*fs, "other"]),
            "itest": rng.choice(fs[:3]), "itrial": rng.choice(fs[:3]),
            "mapping": rng.choice(["none", "none", "affine", "nonlinear"]),
            "seed": rng.randrange(10**6)}
    for desc, hi in {(1,): 10, (2,): 8, (3,): 6 if thorough else 5,
                     (1, 1): 6, (1, 1, 1): 4 if thorough else 3}.items():
        for n in range(hi+1):
            for _ in range(4 if thorough else 2):
                yield "parts", {"desc": list(desc), "n": n,
                                "old": _old(rng, [n]),
                                "seed": rng.randrange(10**6)}
    for desc in shapes:
        for n in range(4):
            yield "nodenone", {"desc": list(desc), "n": n,
                               "seed": rng.randrange(10**6)}
    for e in C.big(rng, thorough, 700):
        yield "mass", {**e, "old": rng.choice(["clustered", "permuted"]),
                       "default": False, "seed": rng.randrange(10**6)}
        yield "testmat", {
            **e, "old": rng.choice(["clustered", "permuted"]), "quad": "space",
            "test": rng.choice(["onb", "d0"]), "interp": "onb",
            "mapping": rng.choice(["none", "affine"]), "seed": rng.randrange(10**6)}
        if ref.space_dim(tuple(e["desc"]), tuple(e["orders"])) < 350 or thorough:
            yield "bilinear", {
                **e, "torders": e["orders"], "old": "clustered", "out": "permuted",
                "quad": "space", "test": "onb", "trial": rng.choice(["onb", "d0"]),
                "itest": "onb", "itrial": "onb", "mapping": "none",
                "seed": rng.randrange(10**6)}
    for desc, n in [((1,), 60), ((2,), 15), ((3,), 7), ((1, 1), 11), ((1, 1), 16),
                    ((1, 1, 1), 5)]:
        yield "parts", {"desc": list(desc), "n": n, "old": "clustered",
                        "seed": rng.randrange(10**6)}
    for o in [(60,), (130,), (257,), (11, 12), (16, 16), (22, 24), (130, 3), (5, 5, 5),
              (6, 7, 5), (8, 8, 8), (3, 33, 4)]:
        yield "spectral", {"orders": list(o), "kind": "factors"}
    for n, d in [(150, 1), (15, 2), (22, 2), (7, 3), (3, 4)]:
        yield "spectral", {"orders": [n]*d, "kind": "named"}
    for d in (1, 2, 3):
        for n in range({1: 16, 2: 9, 3: 5}[d]):
            yield "spectral", {"orders": [n]*d, "kind": "named"}
        for _ in range(40 if thorough else 8):
            yield "spectral", {"orders": [rng.randint(0, 6 if d < 3 else 4)
                                          for _ in range(d)], "kind": "factors"}
