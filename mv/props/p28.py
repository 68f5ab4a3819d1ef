"""P28: valid calls run clean under strict floating-point and warning settings."""
from __future__ import annotations

import importlib
import json
import os
import random
import sys
import warnings

import numpy as np

from mv.props import p24_ops as O

TECHNIQUE = ("a floating-point sanitizer: overflow, division by zero, invalid operations "
             "and discarded imaginary parts trapped or recorded with the frame that "
             "caused them, under the workloads of all other properties; warnings "
             "turned into errors")
LEVEL_NOTE = (
    "Every public entry point in trapping mode with its result compared to the "
    "ordinary run's, a sample of the workloads of P01-P24, P26 and P27 under a "
    "recording sanitizer, basis functions and maps at the singular points of every "
    "reference shape; numpy's and scipy's own internals count as part of the modepy "
    "function calling them.")
RULE = ("one case per operation and argument selection or per workload case of another "
        "property; non-trivial if a modepy call was observed under the sanitizer.")
ASSUMPTIONS = [
    "underflow to zero is not a hazard",
    "hazards inside callables supplied by the workload are the workload's own",
    "modal decay fits that do not ignore the constant mode, and residuals of "
    "expansions that do not decay, are undefined and left out"]
REQUIRED = ("trapping mode", "same result in trapping mode", "no hazard in workload",
            "no hazard in modal decay", "finite modal decay",
            "no hazard at singular points", "finite at singular points",
            "deprecated call warns", "deprecated call same result",
            "no warning without deprecation")

STRICT = {"over": "raise", "divide": "raise", "invalid": "raise", "under": "ignore"}


class Recorder:
    """records floating-point hazards whose innermost frame outside of numpy and scipy
    belongs to modepy"""

    def __init__(self):
        self.hazards = []
        self.total = 0

    def __enter__(self):
        from mv.core import REPO, VERIF
        self.prefix, self.own = REPO + "/modepy/", VERIF
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        warnings.simplefilter("always")
        warnings.showwarning = self.show
        return self

    def __exit__(self, *a):
        return self.cw.__exit__(*a)

    def show(self, message, category, filename, lineno, file=None, line=None):
        self.total += 1
        if not issubclass(category, RuntimeWarning):
            return
        fr = sys._getframe(1)
        while fr is not None:
            f = fr.f_code.co_filename
            if f.startswith(self.prefix):
                self.hazards.append(
                    f"{category.__name__}: {message} in "
                    f"{os.path.basename(f)} {fr.f_code.co_qualname}")
                return
            if f.startswith(self.own):
                return
            fr = fr.f_back


# {{{ every entry point

def op(t, name, k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        want = O.freeze(O.OPS[name](k)[1]())
    _args, call = O.OPS[name](k)
    with warnings.catch_warnings():
        # anything but the documented deprecations
        warnings.simplefilter("error")
        warnings.filterwarnings("ignore", message=".*deprecated.*")
        warnings.filterwarnings("ignore", message="Underdetermined quadrature system")
        try:
            with np.errstate(**STRICT):
                r = O.freeze(call())
        except (FloatingPointError, Warning) as e:
            t.fail("trapping mode", f"{name}({k}): {type(e).__name__}: {e}")
            return
    t.true("trapping mode", True)
    d = O.same(r, want)
    t.true("same result in trapping mode", not d, f"{name}({k}): {d}")
    t.state("op", name)
    t.show(operation=name, arguments=k)

# }}}


# {{{ the workloads of the other properties

SKIP = {"P24", "P25", "P28", "P21"}
# workloads feeding arguments outside of the documented domain
SKIP_GROUPS = {("P02", "restriction")}


def overlay(t, pid, group, params):
    from mv import core
    mod = importlib.import_module("mv.props." + pid.lower())
    inner = core.Trace()
    with Recorder() as rec:
        try:
            mod.GROUPS[group](inner, **params)
        except Exception:
            # for that property's own check to report
            t.note(workload_exceptions=1)
    t.true("no hazard in workload", not rec.hazards,
           lambda: f"{pid} {group}: " + "; ".join(sorted(set(rec.hazards))[:4]))
    t.note(oracle_decisions_of_workloads=inner.nchecks)
    t.state(pid, group)
    t.show(property=pid, workload=group, decisions=inner.nchecks)

# }}}


# {{{ singular points

def _points(desc, seed, dtype):
    """vertices, edge, face and collapsed-edge points, points within rounding of them"""
    rng = np.random.default_rng(seed)
    cols = []
    for d in desc:
        v = -np.ones((d, d+1))
        v[:, 1:] += 2*np.eye(d)
        pts = [v]
        for m in range(2, d+2):
            for _ in range(3):
                sub = rng.permutation(d+1)[:m]
                w = rng.dirichlet(np.ones(m), 3)
                pts.append(v[:, sub] @ w.T)
        for eps in (1e-17, 1e-16, 1e-12, 1e-9, 1e-5, 1e-300):
            c = (v @ np.full(d+1, 1/(d+1)))[:, None]
            pts.append(v + eps*(c - v))
        cols.append(np.hstack(pts))
    n = 60
    x = np.vstack([c[:, rng.integers(0, c.shape[1], n)] for c in cols])
    # every vertex of the product
    vs = [np.hstack([-np.ones((d, 1)), -np.ones((d, d)) + 2*np.eye(d)]) for d in desc]
    idx = np.indices([d+1 for d in desc]).reshape(len(desc), -1)
    x = np.hstack([x, np.vstack([v[:, i] for v, i in zip(vs, idx, strict=True)])])
    return np.ascontiguousarray(x, dtype)


def singular(t, desc, orders, kind, dtype, seed):
    import modepy as mp
    from mv import common as C
    desc, orders = tuple(desc), tuple(orders)
    sp, sh = C.mk_space(desc, orders), C.mk_shape(desc)
    b = {"onb": mp.orthonormal_basis_for_space, "default": mp.basis_for_space,
         "monomial": mp.monomial_basis_for_space}[kind](sp, sh)
    x = _points(desc, seed, dtype)
    done = 0
    with Recorder() as rec, np.errstate(**STRICT):
        for what, fs in (("function", b.functions), ("gradient", b.gradients),
                         *((f"derivative {i}", b.derivatives(i))
                           for i in range(sum(desc)))):
            for f in fs:
                try:
                    v = f(x)
                except FloatingPointError as e:
                    t.fail("no hazard at singular points", f"{what}: {e}")
                    return
                for vi in v if isinstance(v, tuple) else (v,):
                    t.true("finite at singular points", np.all(np.isfinite(vi)),
                           f"{what} of {kind}{desc}{orders}")
                    done += np.size(vi)
    t.true("no hazard at singular points", not rec.hazards,
           lambda: "; ".join(sorted(set(rec.hazards))[:4]))
    t.note(values_at_singular_points=done)
    t.state("singular", kind, desc, dtype)
    t.show(shape=list(desc), orders=list(orders), kind=kind, values=done)

# }}}


# {{{ deprecated entry points

def _deprecated(n, d):
    """name -> (deprecated call, replacement)"""
    import modepy as mp
    from modepy import matrices as mx
    from modepy import modal_decay as md
    sh = mp.Simplex(d)
    sp = mp.PN(d, n)
    b = mp.orthonormal_basis_for_space(sp, sh)
    x = mp.edge_clustered_nodes_for_space(sp, sh)
    q = mp.quadrature_for_space(mp.PN(d, 2*n), sh)
    face = mp.faces_for_shape(sh)[d]
    out = {
        "vandermonde of gradients": (
            lambda: mp.vandermonde(b.gradients, x),
            lambda: mp.multi_vandermonde(b.gradients, x)),
        "inverse_mass_matrix of functions": (
            lambda: mp.inverse_mass_matrix(b.functions, x),
            lambda: mp.inverse_mass_matrix(b, x)),
        "modal_quad_mass_matrix": (
            lambda: mx.modal_quad_mass_matrix(q, b.functions),
            lambda: np.array([f(q.nodes)*q.weights for f in b.functions])),
        "nodal_quad_mass_matrix": (
            lambda: mx.nodal_quad_mass_matrix(q, b.functions, x),
            lambda: mp.nodal_quadrature_test_matrix(q, b.functions, b.functions, x)),
        "simplex estimator": (
            lambda: md.simplex_interp_error_coefficient_estimator_matrix(x, n, 1),
            lambda: md.interp_error_coefficient_estimator_matrix(x, 1, b)),
    }
    if d > 1:
        fsp = mp.PN(d-1, n)
        fb = mp.orthonormal_basis_for_space(fsp, face)
        fx = mp.edge_clustered_nodes_for_space(fsp, face)
        fq = mp.quadrature_for_space(mp.PN(d-1, 2*n), face)
        fv = face.map_to_volume(fq.nodes)
        out |= {
            "modal_mass_matrix_for_face": (
                lambda: mx.modal_mass_matrix_for_face(
                    face, fq, fb.functions, b.functions),
                lambda: np.array([[np.sum(f(fv)*g(fq.nodes)*fq.weights)
                                   for g in fb.functions] for f in b.functions])),
            "nodal_mass_matrix_for_face": (
                lambda: mx.nodal_mass_matrix_for_face(
                    face, fq, fb.functions, b.functions, x, fx),
                lambda: mp.nodal_quadrature_bilinear_form_matrix(
                    fq, b.functions, fb.functions, b.functions, fb.functions,
                    fx, x, test_function_node_map=face.map_to_volume)),
            "modal_quad_mass_matrix_for_face": (
                lambda: mx.modal_quad_mass_matrix_for_face(face, fq, b.functions),
                lambda: np.array([f(fv)*fq.weights for f in b.functions])),
            "nodal_quad_mass_matrix_for_face": (
                lambda: mx.nodal_quad_mass_matrix_for_face(face, fq, b.functions, x),
                lambda: mp.nodal_quadrature_test_matrix(
                    fq, b.functions, b.functions, x,
                    test_function_node_map=face.map_to_volume)),
        }
    else:
        q1 = [mp.LegendreGaussQuadrature, lambda k, **kw: mp.ClenshawCurtisQuadrature(
                  max(k, 1), **kw),
              lambda k, **kw: mp.FejerQuadrature(k+2, 1, **kw),
              lambda k, **kw: mp.FejerQuadrature(k+2, 2, **kw),
              lambda k, **kw: mp.JacobiGaussQuadrature(0.5, 0.25, k, **kw)]
        for i, r in enumerate(q1):
            out[f"rule {i} without dimension axis"] = (
                lambda r=r: _flat(r(n)), lambda r=r: _flat(r(n, force_dim_axis=True)))
    return out


def _flat(q):
    return np.array([q.nodes.reshape(-1), q.weights])


def deprecated(t, n, d):
    for name, (old, new) in _deprecated(n, d).items():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            a = old()
        dep = [i for i in w if "deprecated" in str(i.message)]
        t.true("deprecated call warns", len(dep) >= 1, name)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            c = new()
        t.true("no warning without deprecation", not w,
               lambda: f"{name}: {[str(i.message) for i in w]}")
        if not isinstance(a, tuple):
            a, c = (a,), (c,)
        t.true("deprecated call same result", len(a) == len(c), name)
        for i, j in zip(a, c, strict=False):
            t.close("deprecated call same result", i, j,
                    1e-11*max(1, np.abs(j).max()), name)
        t.state("deprecated", name)
    t.show(order=n, dim=d)

# }}}


# {{{ modal decay of decaying data

def decay(t, dims, n, ignored, rate, seed):
    from modepy import modal_decay as md

    import modepy as mp
    rng = np.random.default_rng(seed)
    k = np.array([sum(i) for i in mp.node_tuples_for_space(mp.PN(dims, n))])
    c = 1e-2*np.maximum(k, 1.)**-rate * rng.choice([-1., 1.], (4, len(k)))
    with Recorder() as rec, np.errstate(**STRICT):
        e, const = md.fit_modal_decay(c, dims, n, ignored)
        r = md.estimate_relative_expansion_residual(c, dims, n, ignored)
    t.true("no hazard in modal decay", not rec.hazards,
           lambda: "; ".join(sorted(set(rec.hazards))[:4]))
    t.true("finite modal decay", all(np.all(np.isfinite(i)) for i in (e, const, r)))
    t.show(dims=dims, n=n, exponents=e.tolist())

# }}}


GROUPS = {"decay": decay, "op": op, "overlay": overlay, "singular": singular, "deprecated": deprecated}

DESCS = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (3, 1), (1, 1, 2)]


def cases(tier, rng):
    quick = tier == "quick"
    out = []
    for name in sorted(set(O.OPS) - {"modal_decay"}):
        for k in [0, 1, 2, 3, *(rng.randrange(4, 210) for _ in range(4 if quick else 40))]:
            out.append(("op", {"name": name, "k": k}))
    for desc in DESCS:
        for kind in ("onb", "monomial", "default"):
            for i in range(3 if quick else 12):
                hi = {1: 20, 2: 10, 3: 6, 4: 3}[sum(desc)]
                out.append(("singular", {
                    "desc": desc, "kind": kind, "dtype": ["float64", "float32"][i % 2],
                    "orders": [rng.randint(0 if i else 2, hi) for _ in desc],
                    "seed": rng.randrange(10**6)}))
    for _ in range(30 if quick else 300):
        dims = rng.randint(1, 3)
        out.append(("decay", {"dims": dims, "n": rng.randint(6, {1: 20, 2: 12, 3: 8}[dims]),
                              "ignored": rng.randint(1, 2), "rate": rng.uniform(1.5, 6),
                              "seed": rng.randrange(10**6)}))
    for d in (1, 2, 3):
        for n in range(1, 5 if quick else 9):
            out.append(("deprecated", {"n": n, "d": d}))

    from mv import core
    with open(os.path.join(core.VERIF, "properties.jsonl")) as f:
        pids = [json.loads(ln)["id"] for ln in f if ln.strip()]
    for pid in pids:
        if pid in SKIP:
            continue
        mod = importlib.import_module("mv.props." + pid.lower())
        by = {}
        for g, p in mod.cases("quick", random.Random(rng.randrange(1 << 30))):
            by.setdefault(g, []).append(p)
        for g in sorted(by):
            if (pid, g) in SKIP_GROUPS:
                continue
            n = 20 if quick else 400
            for p in rng.sample(by[g], min(n, len(by[g]))):
                out.append(("overlay", {"pid": pid, "group": g, "params": p}))
    return out
