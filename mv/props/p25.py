"""P25: mismatched and invalid arguments raise the documented exceptions."""
from __future__ import annotations

import random
from functools import partial

import numpy as np

from mv import common as C, ref
from mv.props.p01 import AVAILABLE

TECHNIQUE = ("exception monitor over tables of invalid calls and their valid "
             "neighbours, generated from catalogs of shapes, spaces, node sets, bases, "
             "orders and parameters")
LEVEL_NOTE = (
    "All pairs of a catalog of spaces and shapes at all space-based entry points, all "
    "orders in and around the tables, random invalid and valid parameters, node counts, "
    "point dimensions and array shapes.")

RULE = ("one case per table of calls; non-trivial if at least one invalid call was seen "
        "to raise and at least one valid call to return.")
ASSUMPTIONS = [
    "where modepy raises an exception of its own choice, exactly that type (or a "
    "subclass) is expected; where unpacking, an assertion or numpy rejects the call, any "
    "exception of the usual kinds is accepted"]
REQUIRED = ("space/shape mismatch", "space/shape match", "not a shape or space",
            "rule unavailable", "rule available", "1D rule parameters",
            "1D rule valid", "interval", "map parameters", "map valid", "quadgk",
            "not unisolvent", "unisolvent accepted", "not orthonormal",
            "operators of wrong rules", "point dimension", "face point dimension",
            "node tuples", "modal arrays", "unsupported shapes", "supported shapes",
            "reshape", "reshape valid", "construction", "missing degree",
            "missing order", "order types", "tensor nodes", "function dimension 4",
            "empty basis", "lebesgue", "derivative axis")

#: kinds of errors Python and numpy raise by themselves
USUAL = (ValueError, TypeError, IndexError, KeyError, AssertionError,
         NotImplementedError, AttributeError)


def ok(t, name, fn, detail=""):
    """*fn* must return"""
    try:
        res = fn()
    except Exception as e:
        t.fail(name, f"valid call raised {type(e).__name__}: {e} {detail}")
        return None
    t.true(name, res is not None, f"returned None {detail}")
    return res


# {{{ spaces and shapes

def _entry_points():
    import modepy as mp
    return {
        "basis": mp.basis_for_space, "onb": mp.orthonormal_basis_for_space,
        "mono": mp.monomial_basis_for_space,
        "equi": mp.equispaced_nodes_for_space,
        "edge": mp.edge_clustered_nodes_for_space,
        "quad": mp.quadrature_for_space}


SHAPE_DESCS = ((0,), (1,), (2,), (3,), (4,), (), (1, 1), (1, 1, 1), (1, 1, 1, 1), (2, 1),
               (1, 2), (3, 1), (1, 3), (2, 1, 1), (1, 2, 1), (1, 1, 2))


def _shape(desc):
    import modepy as mp
    return mp.Hypercube(0) if not desc else C.mk_shape(desc)


def pairs(t, entry, seed):
    import modepy as mp
    rng = random.Random(seed)
    f = _entry_points()[entry]
    for sd in SHAPE_DESCS:
        for pd in SHAPE_DESCS:
            if not pd:
                space = mp.QN(0, 2)
            else:
                orders = [rng.randint(1, 3)]*len(pd)
                if rng.random() < 0.5:
                    orders = [rng.randint(0, 3) for _ in pd]
                space = C.mk_space(pd, orders)
            shape = _shape(sd)
            what = f"{entry}({space}, {shape})"
            if sd == pd:
                # match; edge-clustered nodes and orthonormal bases exist up to 3D only
                r = ok(t, "space/shape match", lambda: f(space, shape), what)
                if r is not None and entry in ("equi", "edge"):
                    t.true("space/shape match", r.shape[0] == sum(sd), what)
                continue
            family = (len(sd) == 1) != (len(pd) == 1)
            dims = sum(sd) != sum(pd)
            exc = ((NotImplementedError, ValueError) if family and dims
                   else NotImplementedError if family else ValueError)
            t.raises("space/shape mismatch", exc, lambda: f(space, shape), what)
            t.state(entry, sd, pd)


class _Own:
    """neither a shape nor a space, though it has their attributes"""
    dim = spatial_dim = 2
    order = 2
    bases = ()
    space_dim = 6
    nvertices = 3


def foreign(t, seed):
    import modepy as mp
    rng = random.Random(seed)
    things = [None, "simplex", 2, (2, 1), _Own(), object(), np.zeros(3), mp.Simplex,
              mp.PN]
    n = "not a shape or space"
    for entry, f in _entry_points().items():
        for x in things:
            for sd in ((2,), (1, 1), (1, 2), ()):
                shape = _shape(sd)
                space = C.mk_space(sd, [rng.randint(1, 3)]*len(sd))
                t.raises(n, NotImplementedError, lambda: f(x, shape), f"{entry} {x} {sd}")
                t.raises(n, NotImplementedError, lambda: f(space, x), f"{entry} {sd} {x}")
            t.raises(n, NotImplementedError, lambda: f(x, x), f"{entry} {x} {x}")
        # the other way round
        t.raises(n, NotImplementedError, lambda: f(mp.Simplex(2), mp.PN(2, 2)), entry)
        t.raises(n, NotImplementedError, lambda: f(mp.Hypercube(2), mp.QN(2, 2)), entry)
        t.raises(n, NotImplementedError, lambda: f(mp.PN(2, 2), mp.PN(2, 2)), entry)
    for x in [*things, mp.PN(2, 2), mp.QN(2, 1)]:
        for g in (mp.unit_vertices_for_shape, mp.faces_for_shape,
                  lambda s: mp.space_for_shape(s, 2),
                  lambda s: mp.space_for_shape(s, (2, 1)),
                  lambda s: mp.submesh_for_shape(s, [(0, 0), (1, 0), (0, 1)]),
                  lambda s: mp.random_nodes_for_shape(s, 3)):
            t.raises(n, NotImplementedError, lambda: g(x), repr(x))
    for x in [*things, mp.Simplex(2), mp.Hypercube(2)]:
        t.raises(n, NotImplementedError, lambda: mp.node_tuples_for_space(x), repr(x))
    for x in (None, "x", object(), _Own()):
        from modepy.modal_decay import degree_vector
        t.raises(n, TypeError, lambda: degree_vector(x), repr(x))


def orders(t, seed):
    """orders for spaces: integers for simplices, one or one per factor for products"""
    import modepy as mp
    rng = random.Random(seed)
    n = "order types"
    for sd in ((1,), (2,), (3,)):
        s = _shape(sd)
        for o in (2.0, "2", None, (2,), (2, 2), [2], np.zeros(1)):
            t.raises(n, USUAL, lambda: mp.space_for_shape(s, o), f"{sd} {o!r}")
        ok(t, n, lambda: mp.space_for_shape(s, rng.randint(0, 5)))
    for sd in ((1, 1), (1, 1, 1), (2, 1), (1, 2), (1, 2, 1), (3, 1)):
        s = _shape(sd)
        for o in (2.0, "2", None):
            t.raises(n, USUAL, lambda: mp.space_for_shape(s, o), f"{sd} {o!r}")
        for k in range(0, 6):
            o = tuple(rng.randint(0, 4) for _ in range(k))
            if k == len(sd):
                ok(t, n, lambda: mp.space_for_shape(s, o), f"{sd} {o}")
            else:
                t.raises(n, ValueError, lambda: mp.space_for_shape(s, o), f"{sd} {o}")
    n = "missing order"
    for sp in (mp.TensorProductSpace((mp.PN(1, 1), mp.PN(1, 2))),
               mp.TensorProductSpace((mp.PN(2, 1), mp.PN(1, 2))),
               mp.TensorProductSpace((mp.PN(1, 3), mp.PN(1, 3), mp.PN(1, 2)))):
        t.raises(n, AttributeError, lambda: sp.order, repr(sp))
        t.true(n, not hasattr(sp, "order"), repr(sp))
    for sp, o in ((mp.PN(2, 3), 3), (mp.QN(2, 4), 4), (mp.QN(3, 0), 0),
                  (mp.TensorProductSpace((mp.PN(1, 2), mp.PN(1, 2))), 2)):
        t.true(n, sp.order == o, repr(sp))

# }}}


# {{{ rules

def tables(t, fam, dim, lo, hi):
    import modepy as mp
    cls = {"xg": mp.XiaoGimbutasSimplexQuadrature,
           "vr": mp.VioreanuRokhlinSimplexQuadrature,
           "js": mp.JaskowiecSukumarQuadrature,
           "wv": mp.WitherdenVincentQuadrature}[fam]
    avail = AVAILABLE.get((fam, dim), WV_AVAILABLE.get(dim, set()) if fam == "wv"
                          else set())
    bad = [None, "3", 2.5, -1.0, float("nan"), float("inf"), 10**9, -10**9, (3,)]
    for o in [*range(lo, hi), *bad]:
        if isinstance(o, int) and o in avail:
            q = ok(t, "rule available", lambda: cls(o, dim), f"{fam} {o} {dim}")
            if q is not None:
                t.true("rule available", q.nodes.shape == (dim, len(q.weights))
                       and len(q.weights) > 0)
        else:
            t.raises("rule unavailable", mp.QuadratureRuleUnavailable,
                     lambda: cls(o, dim), f"{fam} order {o!r} dim {dim}")
    for d in (-1, 0, 1, 4, 5, None, "2", 2.5):
        for o in (1, 2, 3, 5, 1000):
            t.raises("rule unavailable", mp.QuadratureRuleUnavailable,
                     lambda: cls(o, d), f"{fam} order {o} dim {d!r}")
    if fam == "js":
        for o in range(0, 21):
            t.raises("rule unavailable", mp.QuadratureRuleUnavailable,
                     lambda: cls(o, 2), f"js order {o} dim 2")
    # remembering failures must not change anything
    for o in (lo - 1, 10**6, None):
        for _ in range(3):
            t.raises("rule unavailable", mp.QuadratureRuleUnavailable,
                     lambda: cls(o, dim), f"{fam} order {o!r} dim {dim} again")
    t.true("rule unavailable", issubclass(mp.QuadratureRuleUnavailable, RuntimeError))


WV_AVAILABLE = {2: {1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21},
                3: {1, 3, 5, 7, 9, 11}}


def rules_1d(t, seed):
    import modepy as mp
    from modepy.quadrature import (
        Transformed1DQuadrature, jacobi_gauss as jg, kronrod as kr)
    rng = random.Random(seed)
    n, v = "1D rule parameters", "1D rule valid"
    fda = rng.random() < 0.5
    for o in (-7, -2, -1, 0, 1, 2, 3):
        for name, lo, fn in (
                ("cc", 1, lambda: mp.ClenshawCurtisQuadrature(o, force_dim_axis=fda)),
                ("f1", 1, lambda: mp.FejerQuadrature(o, kind=1, force_dim_axis=fda)),
                ("f2", 2, lambda: mp.FejerQuadrature(o, kind=2, force_dim_axis=fda)),
                ("lgl", 1, lambda: mp.LegendreGaussLobattoQuadrature(
                    o, force_dim_axis=fda)),
                ("jgl", 1, lambda: mp.JacobiGaussLobattoQuadrature(
                    .5, .25, o, force_dim_axis=fda)),
                ("kronrod", 1, lambda: kr.kronrod(o)),
                ("gauss", 1, lambda: kr.gauss(o)),
                ("make", 1, lambda: kr.make_kronrod_quadrature(o)),
                ("quadgk", 1, lambda: kr.quadgk(np.cos, 0.0, 1.0, order=o))):
            if o >= lo:
                ok(t, v, fn, f"{name} {o}")
            else:
                t.raises(n, ValueError, fn, f"{name} {o}")
    for kind in (0, 3, -1, None, "1", "first", 1.5):
        t.raises(n, ValueError, lambda: mp.FejerQuadrature(4, kind=kind), repr(kind))
        t.raises(n, ValueError, lambda: mp.ChebyshevGaussQuadrature(4, kind=kind),
                 repr(kind))
    for be in ("numpy", "", "Scipy", "BUILTIN", 1):
        for fn in (lambda: mp.JacobiGaussQuadrature(0, 0, 3, backend=be),
                   lambda: mp.LegendreGaussQuadrature(3, backend=be),
                   lambda: mp.GaussGegenbauerQuadrature(0.3, 3, backend=be),
                   lambda: mp.ChebyshevGaussQuadrature(3, backend=be),
                   lambda: mp.JacobiGaussLobattoQuadrature(0, 0, 3, backend=be),
                   lambda: mp.LegendreGaussLobattoQuadrature(3, backend=be),
                   lambda: jg.jacobi_gauss_lobatto_nodes(0, 0, 3, backend=be),
                   lambda: jg.legendre_gauss_lobatto_nodes(3, backend=be)):
            t.raises(n, NotImplementedError, fn, repr(be))
    # Jacobi weights
    for _ in range(40):
        a, b = rng.uniform(-1, 4), rng.uniform(-1, 4)
        if rng.random() < 0.3:
            b = rng.choice([-.9, 0, 1, 2])
        if abs(a + b + 1) < .05:
            continue
        be = rng.choice(["builtin", "scipy"])
        o = rng.randint(1, 6)
        if min(a, b) > -.97:
            ok(t, v, lambda: mp.JacobiGaussQuadrature(a, b, o, backend=be), f"{a} {b}")
            ok(t, v, lambda: mp.JacobiGaussLobattoQuadrature(a, b, o, backend=be),
               f"{a} {b}")
        bad = -1 - rng.choice([0, 1e-12, .1, 1, rng.uniform(0, 3)])
        for aa, bb in ((bad, b), (a, bad), (bad, bad), (np.nan, b), (a, np.nan)):
            for cls in (mp.JacobiGaussQuadrature, mp.JacobiGaussLobattoQuadrature):
                t.raises(n, ValueError, lambda: cls(aa, bb, o, backend=be),
                         f"{cls.__name__} {aa} {bb} {be}")
        # alpha + beta = -1 is documented as unsupported by the builtin backend
        a = rng.uniform(-.95, -.05)
        if abs(a + .5) > 1e-3:
            t.raises(n, ValueError, lambda: mp.JacobiGaussQuadrature(
                a, -1-a, o, backend="builtin"), f"{a} {-1-a}")
            ok(t, v, lambda: mp.JacobiGaussQuadrature(a, -1-a, o, backend="scipy"))
    ok(t, v, lambda: mp.JacobiGaussQuadrature(-.5, -.5, 4))

    # intervals
    n = "interval"
    rules = (mp.LegendreGaussQuadrature(3), mp.ClenshawCurtisQuadrature(4),
             mp.LegendreGaussQuadrature(3, force_dim_axis=True),
             mp.FejerQuadrature(3, kind=1))
    for q in rules:
        for _ in range(10):
            a = rng.uniform(-5, 5)
            h = rng.choice([1e-8, .1, 1, 1e5])
            ok(t, n, lambda: Transformed1DQuadrature(q, a, a+h), f"{a} {h}")
            for lo, hi in ((a, a), (a+h, a), (a, np.nan), (np.nan, a), (a, np.inf),
                           (-np.inf, a), (-np.inf, np.inf), (np.nan, np.nan)):
                t.raises(n, ValueError, lambda: Transformed1DQuadrature(q, lo, hi),
                         f"[{lo}, {hi}]")
    for q in (mp.XiaoGimbutasSimplexQuadrature(3, 2), mp.WitherdenVincentQuadrature(3, 3),
              mp.ZeroDimensionalQuadrature(),
              mp.TensorProductQuadrature([rules[0], rules[0]])):
        t.raises(n, ValueError, lambda: Transformed1DQuadrature(q, 0, 1), repr(q.dim))


def maps(t, seed):
    import modepy as mp
    from modepy.quadrature import transplanted as tr
    rng = random.Random(seed)
    s = np.linspace(-.95, .95, 7)
    n, v = "map parameters", "map valid"
    all_maps = (tr.map_identity, partial(tr.map_sausage, degree=5),
                tr.map_kosloff_tal_ezer, partial(tr.map_strip, rho=1.4))
    for d in range(-9, 30):
        if d > 0 and d % 2:
            ok(t, v, lambda: tr.map_sausage(s, d), f"sausage {d}")
        else:
            t.raises(n, ValueError, lambda: tr.map_sausage(s, d), f"sausage {d}")
    for rho in (1, 1.0, .999999, .5, 0, -1, -1.4, np.nan, -np.inf):
        t.raises(n, ValueError, lambda: tr.map_kosloff_tal_ezer(s, rho=rho), f"kte {rho}")
        if rho == rho:
            t.raises(n, ValueError, lambda: tr.map_strip(s, rho=rho), f"strip {rho}")
    for a in (0, 1, 1.0, -1e-9, -.5, 1.5, 2, np.nan, np.inf, -np.inf):
        t.raises(n, ValueError, lambda: tr.map_kosloff_tal_ezer(s, alpha=a), f"kte {a}")
    for _ in range(10):
        rho = rng.uniform(1.1, 3)
        ok(t, v, lambda: tr.map_kosloff_tal_ezer(s, rho=rho), f"kte {rho}")
        ok(t, v, lambda: tr.map_strip(s, rho=rho), f"strip {rho}")
        a = rng.uniform(.01, .99)
        ok(t, v, lambda: tr.map_kosloff_tal_ezer(s, alpha=a), f"kte {a}")
    for bad in (1.0, -1.0, 1.5, -3.0, 1+1e-9):
        for k in (0, 3, 6):
            s2 = s.copy()
            s2[k] = bad
            t.raises(n, ValueError, lambda: tr.map_strip(s2, rho=1.4), f"{bad} at {k}")
    for q in (mp.XiaoGimbutasSimplexQuadrature(3, 2), mp.ZeroDimensionalQuadrature(),
              mp.VioreanuRokhlinSimplexQuadrature(2, 3),
              mp.LegendreGaussTensorProductQuadrature(3, 2)):
        for m in all_maps:
            t.raises(n, ValueError, lambda: mp.transplanted_1d_quadrature(q, m),
                     f"dim {q.dim} {m}")
    for q in (mp.LegendreGaussQuadrature(4), mp.FejerQuadrature(4, kind=1),
              mp.LegendreGaussQuadrature(4, force_dim_axis=True)):
        for m in all_maps:
            ok(t, v, lambda: mp.transplanted_1d_quadrature(q, m))

    n = "quadgk"
    from modepy.quadrature.kronrod import quadgk
    for pts in ((), (0,), (1.0,), (np.inf,)):
        t.raises(n, ValueError, lambda: quadgk(np.cos, *pts), repr(pts))
    nan = float("nan")
    for f in (lambda x: nan*x, lambda x: np.where(x > .3, np.nan, x),
              lambda x: np.where(np.abs(x-.5) < .2, np.inf, 1.0),
              lambda x: -np.inf + 0*x, lambda x: np.full(np.shape(x), 1j*np.inf)):
        for a, b in ((0.0, 1.0), (1.0, 0.0), (-2.0, 3.0), (0.0, np.inf),
                     (-np.inf, np.inf)):
            t.raises(n, ValueError, lambda: quadgk(f, a, b), f"{a} {b}")
    t.raises(n, ValueError, lambda: quadgk(np.cos, 0.0, nan))
    t.raises(n, ValueError, lambda: quadgk(np.cos, nan, 1.0))
    t.raises(n, ValueError, lambda: quadgk(np.cos, 0.0, nan, 1.0))
    ok(t, n, lambda: quadgk(np.cos, 0.0, 1.0))
    ok(t, n, lambda: quadgk(lambda x: np.exp(-x*x), -np.inf, 0.0, np.inf))

    n = "missing degree"
    g = mp.LegendreGaussQuadrature(3, force_dim_axis=True)
    nod = mp.Quadrature(g.nodes, g.weights)
    for q in (nod, mp.TensorProductQuadrature([nod]), mp.TensorProductQuadrature([g, nod]),
              mp.TensorProductQuadrature([nod, g]),
              mp.transplanted_1d_quadrature(g, all_maps[1]),
              Transformed(nod)):
        t.raises(n, AttributeError, lambda: q.exact_to, type(q).__name__)
        t.true(n, not hasattr(q, "exact_to"), type(q).__name__)
    for q, d in ((g, 7), (mp.TensorProductQuadrature([g, g]), 7), (Transformed(g), 7),
                 (mp.Quadrature(g.nodes, g.weights, 0), 0),
                 (mp.Quadrature(g.nodes, g.weights, exact_to=4), 4)):
        t.true(n, q.exact_to == d, f"{type(q).__name__} {d}")


def Transformed(q):
    from modepy.quadrature import Transformed1DQuadrature
    return Transformed1DQuadrature(q, -1, 3)

# }}}


# {{{ nodes, bases, operators

def operators(t, desc, orders, kind, seed):
    import modepy as mp
    rng = np.random.default_rng(seed)
    desc, orders = tuple(desc), tuple(orders)
    basis = C.mk_basis(kind, desc, orders)
    fs, gs = basis.functions, basis.gradients
    x = np.asarray(C.mk_nodes("scattered", desc, orders, rng))
    nn = x.shape[1]
    quad = mp.quadrature_for_space(
        C.mk_space(desc, tuple(2*o+1 for o in orders)), C.mk_shape(desc))
    d = sum(desc)
    n, v = "not unisolvent", "unisolvent accepted"
    sets = [("more", np.hstack([x, ref.random_points(desc, 1, rng)]), fs, gs),
            ("many", np.hstack([x, ref.random_points(desc, nn+2, rng)]), fs, gs),
            ("double", np.hstack([x, x]), fs, gs)]
    if nn > 1:
        sets += [("less", x[:, :-1], fs, gs), ("one", x[:, :1], fs, gs),
                 ("fewer functions", x, fs[:-1], gs[:-1])]
    for what, y, f, g in sets:
        det = f"{desc} {orders} {kind} {what}"
        t.raises(n, RuntimeError, lambda: mp.resampling_matrix(f, x, y), det)
        t.raises(n, RuntimeError, lambda: mp.resampling_matrix(
            f, x, y, least_squares_ok=False), det)
        t.raises(n, ValueError, lambda: mp.differentiation_matrices(f, g, y), det)
        t.raises(n, ValueError, lambda: mp.differentiation_matrices(
            f, g, x, from_nodes=y), det)
        t.raises(n, ValueError, lambda: mp.nodal_quadrature_test_matrix(
            quad, fs, f, y), det)
        t.raises(n, ValueError, lambda: mp.nodal_quadrature_bilinear_form_matrix(
            quad, fs, fs, f, fs, y, x), det)
        t.raises(n, ValueError, lambda: mp.nodal_quadrature_bilinear_form_matrix(
            quad, fs, fs, fs, f, x, y), det)
        t.raises(n, ValueError, lambda: mp.nodal_quad_mass_matrix(quad, f, y), det)
        if f is fs:
            t.raises(n, ValueError, lambda: mp.diff_matrices(basis, y), det)
            t.raises(n, ValueError, lambda: mp.diff_matrices(basis, x, from_nodes=y), det)
            if kind != "mono":
                t.raises(n, ValueError, lambda: mp.mass_matrix(basis, y), det)
                t.raises(n, ValueError, lambda: mp.inverse_mass_matrix(basis, y), det)
        else:
            t.raises(n, ValueError, lambda: mp.inverse_mass_matrix(f, y), det)
            t.raises(n, ValueError, lambda: mp.mass_matrix(f, y), det)
        # these are all fine
        ok(t, v, lambda: mp.resampling_matrix(f, y, x if f is fs else x[:, :-1]), det)
        ok(t, v, lambda: mp.resampling_matrix(f, x, y, least_squares_ok=True), det)
        ok(t, v, lambda: mp.differentiation_matrices(fs, gs, y, from_nodes=x), det)
        ok(t, v, lambda: mp.vandermonde(f, y), det)
        ok(t, v, lambda: mp.multi_vandermonde(g, y), det)
        t.state(desc, orders, kind, what)
    if len(quad.weights) != nn:
        # default nodes are those of the rule
        t.raises(n, ValueError, lambda: mp.nodal_quadrature_test_matrix(quad, fs, fs))
        t.raises(n, ValueError, lambda: mp.nodal_quad_mass_matrix(quad, fs))
    if kind == "mono":
        t.raises("not orthonormal", mp.BasisNotOrthonormal, basis.orthonormality_weight)
        for f in (mp.mass_matrix, mp.inverse_mass_matrix):
            t.raises("not orthonormal", NotImplementedError, lambda: f(basis, x))
    else:
        t.true("not orthonormal", basis.orthonormality_weight() == 1)
        for f in (mp.mass_matrix, mp.inverse_mass_matrix):
            ok(t, v, lambda: f(basis, x))
    t.raises("empty basis", ValueError, lambda: mp.multi_vandermonde((), x))
    t.raises("empty basis", ValueError, lambda: mp.multi_vandermonde([], x))

    # {{{ points of the wrong dimension

    n = "point dimension"
    for bad in range(0, 6):
        if bad == d:
            continue
        p = rng.uniform(-.5, .5, (bad, 4))
        k = len(fs)-1
        det = f"{desc} {orders} {kind} {bad}"
        t.raises(n, USUAL, lambda: fs[k](p), det)
        t.raises(n, USUAL, lambda: fs[0](p), det)
        t.raises(n, USUAL, lambda: gs[k](p), det)
        t.raises(n, USUAL, lambda: mp.vandermonde(fs, p), det)
        t.raises(n, USUAL, lambda: mp.multi_vandermonde(gs, p), det)
        t.raises(n, USUAL, lambda: mp.resampling_matrix(fs, p, x), det)
        for f in basis.derivatives(d-1)[-1:]:
            t.raises(n, USUAL, lambda: f(p), det)
        p = rng.uniform(-.5, .5, (bad, nn))
        t.raises(n, USUAL, lambda: mp.diff_matrices(basis, p), det)
        t.raises(n, USUAL, lambda: mp.diff_matrices(basis, p, from_nodes=x), det)
        if kind != "mono":
            t.raises(n, USUAL, lambda: mp.mass_matrix(basis, p), det)
    ok(t, n, lambda: fs[-1](x))
    n = "derivative axis"
    for ax in (d, d+1, 17):
        t.raises(n, USUAL, lambda: [f(x) for f in basis.derivatives(ax)],
                 f"{desc} {orders} {kind} axis {ax}")
    for ax in range(d):
        ok(t, n, lambda: [f(x) for f in basis.derivatives(ax)])
    if len(desc) > 1:
        for ax in (-1, -2, d):
            t.raises(n, ValueError, lambda: basis.derivatives(ax),
                     f"{desc} {orders} {kind} axis {ax}")

    # }}}


def helpers(t, seed):
    import modepy as mp
    from modepy import modes as mm, tools as mt
    from modepy.quadrature import construction as qc
    from modepy.tools import Monomial
    rng = random.Random(seed)
    nprng = np.random.default_rng(seed)

    n = "operators of wrong rules"
    g = mp.LegendreGaussQuadrature(2, force_dim_axis=True)
    x2 = mp.XiaoGimbutasSimplexQuadrature(4, 2)
    for q in (x2, g, mp.LegendreGaussQuadrature(2), mp.WitherdenVincentQuadrature(3, 3),
              mp.TensorProductQuadrature([x2, g]), mp.TensorProductQuadrature([g, x2])):
        t.raises(n, ValueError, lambda: mp.spectral_diag_nodal_mass_matrix(q),
                 type(q).__name__)
    for dd in (1, 2, 3):
        ok(t, n, lambda: mp.spectral_diag_nodal_mass_matrix(
            mp.LegendreGaussTensorProductQuadrature(3, dd)))

    # {{{ points of the wrong dimension

    n = "point dimension"
    for d in range(0, 6):
        e = tuple(rng.randint(0, 3) for _ in range(d))
        good, m = nprng.uniform(-1, 1, (d, 3)), Monomial(e)
        if d:
            ok(t, n, lambda: m(good))
        for bad in range(0, 6):
            if bad == d:
                continue
            p = nprng.uniform(-1, 1, (bad, 3))
            t.raises(n, ValueError, lambda: m(p), f"{e} {bad}")
            for f in (mm.monomial, mm.grad_monomial):
                t.raises(n, USUAL, lambda: f(e, p), f"{e} {bad}")
            if d:
                t.raises(n, USUAL, lambda: mm.diff_monomial(e, d-1, p), f"{e} {bad}")
        n2 = "derivative axis"
        for ax in (-1, d, d+3, -d-1):
            t.raises(n2, ValueError, lambda: mm.diff_monomial(e, ax, good), f"{e} {ax}")
        for ax in range(d):
            ok(t, n2, lambda: mm.diff_monomial(e, ax, good))
    for bad in (0, 1, 3, 4):
        p = nprng.uniform(-.5, .5, (bad, 3))
        t.raises(n, USUAL, lambda: mm.pkdo_2d((1, 1), p), bad)
        t.raises(n, USUAL, lambda: mm.grad_pkdo_2d((1, 1), p), bad)
    for bad in (0, 1, 2, 4):
        p = nprng.uniform(-.5, .5, (bad, 3))
        t.raises(n, USUAL, lambda: mm.pkdo_3d((1, 1, 0), p), bad)
        t.raises(n, USUAL, lambda: mm.grad_pkdo_3d((1, 1, 0), p), bad)
    A = mt.AffineMap(nprng.normal(size=(2, 2)), np.zeros(2))
    for bad in (1, 3, 4):
        t.raises(n, USUAL, lambda: A(np.zeros((bad, 5))), bad)
    ok(t, n, lambda: A(np.zeros((2, 5))))
    t.raises(n, USUAL, lambda: mt.AffineMap(np.zeros((2, 2)), np.zeros(2)).inverse)
    t.raises(n, USUAL, lambda: mt.AffineMap(np.ones((3, 2)), np.zeros(3)).jacobian)
    t.raises(n, USUAL, lambda: mt.AffineMap(np.ones((3, 2)), np.zeros(3)).inverse)
    n = "face point dimension"
    for s in (mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(2),
              mp.Hypercube(3)):
        for face in mp.faces_for_shape(s):
            for d in range(0, 5):
                for npts in (1, 2, d, face.dim or 5):
                    p = np.full((d, npts), .2)
                    if d == face.dim:
                        ok(t, n, lambda: face.map_to_volume(p))
                    else:
                        t.raises(n, ValueError, lambda: face.map_to_volume(p),
                                 f"{face.volume_shape} {face.face_index} {p.shape}")

    # }}}

    # {{{ nodes

    n = "node tuples"
    for d in (1, 2, 3):
        for o in (1, 2, 4):
            nt = list(mp.node_tuples_for_space(mp.PN(d, o)))
            for bad in (nt[:-1], [*nt, nt[0]], nt[:1], [], nt + nt):
                if len(bad) == len(nt):
                    continue
                t.raises(n, ValueError, lambda: mp.equidistant_nodes(d, o, bad),
                         f"{d} {o} {len(bad)}")
                t.raises(n, ValueError, lambda: mp.warp_and_blend_nodes(d, o, bad),
                         f"{d} {o} {len(bad)}")
            ok(t, n, lambda: mp.equidistant_nodes(d, o, nt))
            ok(t, n, lambda: mp.warp_and_blend_nodes(d, o, nt))
    n = "unsupported shapes"
    for d in (4, 5, 7, -1):
        t.raises(n, NotImplementedError, lambda: mp.warp_and_blend_nodes(d, 2), d)
    for s in (mp.Simplex(0), mp.Simplex(4), mp.Simplex(5), mp.Hypercube(0),
              mp.Hypercube(4), mp.Hypercube(5),
              mp.TensorProductShape((mp.Simplex(2), mp.Simplex(1))),
              mp.TensorProductShape((mp.Simplex(1), mp.Simplex(2)))):
        t.raises(n, NotImplementedError, lambda: mp.faces_for_shape(s), repr(s))
    for s in (mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(2),
              mp.Hypercube(3)):
        f = ok(t, "supported shapes", lambda: mp.faces_for_shape(s), repr(s))
        t.true("supported shapes", f is not None and len(f) == s.nfaces)
    for a, b in ((2, 2), (2, 3), (3, 2), (4, 2), (3, 3)):
        for extra in ((), (1,), (1, 1)):
            ds = [a, b, *extra]
            rng.shuffle(ds)
            t.raises(n, NotImplementedError, lambda: mp.TensorProductShape(
                tuple(mp.Simplex(k) for k in ds)), repr(ds))
    for ds in ((2, 1), (1, 3), (1, 2, 1), (1, 1), (1, 1, 4)):
        ok(t, "supported shapes", lambda: mp.TensorProductShape(
            tuple(mp.Simplex(k) for k in ds)), repr(ds))
    for d in (4, 5):
        t.raises(n, NotImplementedError, lambda: mp.submesh_for_shape(
            mp.Simplex(d), mp.node_tuples_for_space(mp.PN(d, 1))), d)
    for d in (1, 2, 3):
        ok(t, "supported shapes", lambda: mp.submesh_for_shape(
            mp.Simplex(d), mp.node_tuples_for_space(mp.PN(d, 1))), d)
    n = "function dimension 4"
    for d in (4, 5):
        b = mp.orthonormal_basis_for_space(mp.PN(d, 2), mp.Simplex(d))
        t.raises(n, NotImplementedError, lambda: b.functions, d)
        t.raises(n, NotImplementedError, lambda: b.gradients, d)
        b = mp.basis_for_space(mp.PN(d, 2), mp.Simplex(d))
        ok(t, n, lambda: b.functions)
        ok(t, n, lambda: b.gradients)
        t.raises(n, mp.BasisNotOrthonormal, b.orthonormality_weight, d)

    n = "tensor nodes"
    x1 = nprng.uniform(-1, 1, 3)
    for dd in (1, 2, 3):
        t.raises(n, ValueError, lambda: mp.tensor_product_nodes(dd), dd)
        t.raises(n, ValueError, lambda: mp.tensor_product_nodes([x1]*dd, x1), dd)
        for k in (2, 3):
            t.raises(n, ValueError, lambda: mp.tensor_product_nodes(
                dd, nprng.normal(size=(k, 4))), (dd, k))
        ok(t, n, lambda: mp.tensor_product_nodes(dd, x1))
        ok(t, n, lambda: mp.tensor_product_nodes(dd, x1.reshape(1, -1)))
        ok(t, n, lambda: mp.tensor_product_nodes([x1]*dd))
        ok(t, n, lambda: mp.tensor_product_nodes([nprng.normal(size=(2, 4))]*dd))

    # }}}

    # {{{ Lebesgue constants

    n = "lebesgue"
    for desc, o in (((1,), 3), ((2,), 3), ((3,), 2), ((1, 1), 2), ((1, 1, 1), 1)):
        s, sp = C.mk_shape(desc), C.mk_space(desc, (o,)*len(desc))
        y = mp.edge_clustered_nodes_for_space(sp, s)
        ok(t, n, lambda: mt.estimate_lebesgue_constant(o, y, s))
        for bad in ((1,), (2,), (3,), (1, 1), (1, 1, 1), (4,)):
            if sum(bad) != sum(desc):
                t.raises(n, ValueError, lambda: mt.estimate_lebesgue_constant(
                    o, y, C.mk_shape(bad)), f"{desc} {bad}")
        if sum(desc) == 3:
            t.raises(n, ValueError, lambda: mt.estimate_lebesgue_constant(
                o, y, s, visualize=True), desc)
    for d in (0, 4, 5):
        t.raises(n, RuntimeError, lambda: mt.plot_element_values(
            2, np.zeros((d, 5)), np.zeros(5)), d)

    # }}}

    # {{{ modal decay, permutations, coordinates

    from modepy import modal_decay as md
    n = "modal arrays"
    for d, o in ((1, 4), (2, 3), (3, 2)):
        nm = ref.space_dim((d,), (o,))
        ok(t, n, lambda: md.fit_modal_decay(nprng.normal(size=(2, nm)), d, o))
        ok(t, n, lambda: md.estimate_relative_expansion_residual(
            nprng.normal(size=(2, nm)), d, o))
        for bad in ((2, nm-1), (2, nm+1), (1, nm+3), (nm,)):
            a = nprng.normal(size=bad)
            t.raises(n, USUAL, lambda: md.fit_modal_decay(a, d, o), f"{d} {o} {bad}")
            t.raises(n, USUAL, lambda: md.estimate_relative_expansion_residual(
                a, d, o), f"{d} {o} {bad}")
        bs = mp.orthonormal_basis_for_space(mp.PN(d, o), mp.Simplex(d))
        y = mp.equidistant_nodes(d, o)
        ok(t, n, lambda: md.interp_error_coefficient_estimator_matrix(y, 1, bs))
        t.raises(n, USUAL, lambda: md.interp_error_coefficient_estimator_matrix(
            y[:, :-1], 1, bs), f"{d} {o}")
        nt = list(mp.node_tuples_for_space(mp.PN(d, o)))
        ok(t, n, lambda: mp.diff_matrix_permutation(nt, d-1))
        t.raises(n, USUAL, lambda: mp.diff_matrix_permutation(nt, d+2))
    n = "operators of wrong rules"
    for bad in (x2.nodes[:, :-1], x2.nodes):
        q = mp.Quadrature(bad, np.append(x2.weights, 1.0))
        t.raises(n, USUAL, lambda: q(lambda x: x[0]), bad.shape)

    # }}}

    # {{{ construction

    n = "construction"
    b = mp.orthonormal_basis_for_space(mp.PN(2, 2), mp.Simplex(2))
    fs = b.functions
    xs = mp.warp_and_blend_nodes(2, 2)
    w = np.ones(6)
    ints = np.zeros(6)
    ok(t, n, lambda: qc.find_weights_undetermined_coefficients(fs, xs, ints))
    ds = [b.derivatives(0), b.derivatives(1)]
    ok(t, n, lambda: qc.quad_residual_and_jacobian(xs, w, fs, ds, ints))
    for k in (1, 3, 5, 7):
        ik = np.zeros(k)
        t.raises(n, ValueError, lambda: qc.find_weights_undetermined_coefficients(
            fs, xs, ik), k)
        if k < 6:
            t.raises(n, ValueError, lambda: qc.find_weights_undetermined_coefficients(
                fs[:k], xs, ints), k)
            t.raises(n, ValueError, lambda: qc.quad_residual_and_jacobian(
                xs, w, fs, [ds[0], ds[1][:k]], ints), k)
            t.raises(n, ValueError, lambda: qc.quad_residual_and_jacobian(
                xs, w, fs, [ds[0][:k], ds[1]], ints), k)
    for bad in ([], ds[:1], [*ds, ds[0]]):
        t.raises(n, ValueError, lambda: qc.quad_residual_and_jacobian(
            xs, w, fs, bad, ints), len(bad))
    for k in (1, 5, 7):
        t.raises(n, USUAL, lambda: qc.LinearCombinationIntegrand(
            np.ones(k), fs), k)
        t.raises(n, USUAL, lambda: qc.linearly_combine(np.ones(k), fs), k)

    # }}}


def reshape(t, desc, orders, seed):
    from modepy.tools import (
        reshape_array_for_tensor_product_space as resh,
        unreshape_array_for_tensor_product_space as unresh,
    )
    rng = random.Random(seed)
    space = C.mk_space(desc, orders)
    dims = [ref.space_dim((d,), (o,)) for d, o in zip(desc, orders, strict=True)]
    nd = int(np.prod(dims))
    n, v = "reshape", "reshape valid"
    for nax in (1, 2, 3, 4):
        for axis in range(-nax, nax):
            shp = [rng.randint(1, 3) for _ in range(nax)]
            shp[axis] = nd
            a = np.zeros(shp)
            pos = axis % nax
            full = [*shp[:pos], *dims, *shp[pos+1:]]
            r = ok(t, v, lambda: resh(space, a, axis=axis), f"{shp} {axis}")
            t.true(v, r is not None and r.shape == tuple(full),
                   f"{shp} {axis}: {getattr(r, 'shape', None)}")
            # negative axes count in the array without product axes
            u = ok(t, v, lambda: unresh(space, np.zeros(full), axis=axis),
                   f"{full} {axis}")
            t.true(v, u is not None and u.shape == tuple(shp), f"{full} {axis}")
            for wrong in (nd-1, nd+1, 2*nd, 0):
                s2 = list(shp)
                s2[axis] = wrong
                t.raises(n, ValueError, lambda: resh(space, np.zeros(s2), axis=axis),
                         f"{s2} {axis}")
            for k in range(len(dims)):
                f2 = list(full)
                f2[pos+k] += rng.choice([1, 2])
                t.raises(n, ValueError, lambda: unresh(space, np.zeros(f2), axis=axis),
                         f"{f2} {axis}")
            if dims != dims[::-1]:
                f2 = [*shp[:pos], *dims[::-1], *shp[pos+1:]]
                t.raises(n, ValueError, lambda: unresh(space, np.zeros(f2), axis=axis),
                         f"{f2} {axis}")
        shp = [nd]*nax
        for axis in (nax, nax+1, -nax-1, -nax-3, 100):
            t.raises(n, ValueError, lambda: resh(space, np.zeros((1,)*(nax-1) + (nd,)),
                                                 axis=axis), f"{nax} {axis}")
            full = [1]*(nax-1) + dims
            t.raises(n, ValueError, lambda: unresh(space, np.zeros(full), axis=axis),
                     f"{full} {axis}")
    t.state(tuple(desc), tuple(orders))

# }}}


GROUPS = {"pairs": pairs, "foreign": foreign, "orders": orders, "tables": tables,
          "rules_1d": rules_1d, "maps": maps, "operators": operators,
          "helpers": helpers, "reshape": reshape}


def cases(tier, rng):
    thorough = tier == "thorough"
    reps = 6 if thorough else 1
    for _ in range(reps):
        for e in ("basis", "onb", "mono", "equi", "edge", "quad"):
            yield "pairs", dict(entry=e, seed=rng.randrange(10**9))
        for g in ("foreign", "orders", "rules_1d", "maps", "helpers"):
            yield g, dict(seed=rng.randrange(10**9))
        for desc in C.SHAPES:
            for kind in C.BASIS_KINDS:
                o = tuple(rng.randint(1, {1: 5, 2: 3, 3: 2}[d]) for d in desc)
                if ref.space_dim(desc, o) > 60:
                    o = (1,)*len(desc)
                yield "operators", dict(desc=desc, orders=o, kind=kind,
                                        seed=rng.randrange(10**9))
            if len(desc) > 1:
                for _ in range(2):
                    o = tuple(rng.randint(1, 4) for d in desc)
                    yield "reshape", dict(desc=desc, orders=o, seed=rng.randrange(10**9))
    for fam in ("xg", "vr", "js", "wv"):
        for d in ((3,) if fam == "js" else (2, 3)):
            yield "tables", dict(fam=fam, dim=d, lo=-4, hi=120 if thorough else 70)

