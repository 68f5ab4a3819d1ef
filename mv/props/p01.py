"""P01: simplex cubature rules."""
from __future__ import annotations

import math

import numpy as np

from mv import common as C, ref

TECHNIQUE = 'moment oracle over every tabulated cubature rule'
LEVEL_NOTE = 'Every table entry is exercised completely: each moment of a basis of the stated space is compared with its exact value, so any error in the rule larger than the tolerance is seen. Grundmann-Moeller is sampled in dimensions up to 7. Trusts the long-double reference modes (self-tested against exact rational arithmetic).'

RULE = ("one case per (family, dimension, order): every order of every table plus "
        "orders around and beyond them, Grundmann-Moeller in dimensions 0..7; a "
        "case is non-trivial if the rule was built and its moments against *all* "
        "reference modes up to the stated degree were decided (or the rejection "
        "was observed). Random polynomials are integrated through the rule object.")
ASSUMPTIONS = [
    "80-bit long double reference modes; tolerance 1e-13 relative to "
    "sum|w| * max|phi| (table accuracy)",
    "positivity is only claimed for Vioreanu-Rokhlin and Jaskowiec-Sukumar"]
REQUIRED = ("moments", "contained", "weight sum", "unavailable raises")

# what the tables offered when the properties were written
AVAILABLE = {
    ("xg", 2): set(range(1, 51)), ("xg", 3): set(range(1, 16)),
    ("vr", 2): set(range(21)), ("vr", 3): set(range(11)),
    ("js", 3): set(range(20)),
}


def make(fam, order, dim):
    import modepy as mp
    return {"xg": mp.XiaoGimbutasSimplexQuadrature,
            "vr": mp.VioreanuRokhlinSimplexQuadrature,
            "js": mp.JaskowiecSukumarQuadrature,
            "gm": mp.GrundmannMoellerSimplexQuadrature}[fam](order, dim)


def table(t, fam, order, dim):
    import modepy as mp
    try:
        q = make(fam, order, dim)
    except mp.QuadratureRuleUnavailable as e:
        t.true("unavailable raises", order not in AVAILABLE.get((fam, dim), set()),
               f"rule has become unavailable: {e}")
        return
    if fam == "gm":
        deg_expected = 2*order + 1
    elif fam == "xg":
        deg_expected = order
    else:
        deg_expected = None
    check_rule(t, fam, q, dim, deg_expected, order)


def check_rule(t, fam, q, dim, deg_expected, order):
    deg = q.exact_to
    if dim == 0:
        t.true("dim", q.dim == 0 and q.nodes.shape == (0, 1))
        t.close("weight sum", np.sum(q.weights), 1.0, 1e-14)
        t.close("callable", q(lambda x: np.full(x.shape[1:], 3.25)), 3.25, 1e-13)
        t.true("stated degree", deg >= 10**6, "0D rules are exact for everything")
        for k in ("moments", "contained"):
            t.true(k, True)
        return
    if deg_expected is not None:
        t.true("stated degree", deg == deg_expected, f"{deg} != {deg_expected}")
    else:
        t.true("stated degree", deg >= max(1, order), f"{deg} for order {order}")
    n = q.weights.size
    t.true("shapes", q.nodes.shape == (dim, n) and q.weights.shape == (n,)
           and q.dim == dim, f"{q.nodes.shape} {q.weights.shape}")
    x = np.asarray(q.nodes, dtype=np.float64)
    w = np.asarray(q.weights, dtype=ref.LD)
    t.true("contained", bool(np.all(ref.simplex_contains(x, 1e-13))),
           "nodes outside the simplex")
    t.true("distinct nodes", len({tuple(np.round(c, 11)) for c in x.T}) == n)
    vol = float(ref.simplex_volume(dim))
    scale = float(np.sum(np.abs(w)))
    t.close("weight sum", float(np.sum(w)), vol, 2e-13*max(vol, scale))
    if fam in ("vr", "js"):
        t.true("positive weights", bool(np.all(w > 0)))
    modes = ref.simplex_modes(dim, deg, x)
    keys = list(modes)
    v = np.array([modes[k] for k in keys])
    got = (v @ w).astype(np.float64)
    want = np.array([math.sqrt(vol) if not any(k) else 0.0 for k in keys])
    mx = np.max(np.abs(v), axis=1).astype(np.float64)
    t.close("moments", got, want, 1e-13*np.maximum(max(1, vol**-0.5), mx)*max(vol, scale),
            f"degree {deg}")
    t.state(fam, dim, deg)
    t.show(family=fam, dim=dim, degree=deg, nodes=n, modes_checked=len(keys),
           worst_moment_defect=float(np.max(np.abs(got-want))))
    # the sum at the next degree is *not* expected to vanish; observe through
    # the callable interface with random members of P^deg
    rng = __import__("random").Random(1000*dim + order)
    sub = [k for k in keys if rng.random() < 8/len(keys)] + [keys[-1], keys[0]]
    p = ref.RefPoly((dim,), (deg,), {k: rng.gauss(0, 1) for k in sub})

    def f(y):
        return p(y).astype(np.float64)
    tolf = 2e-13*max(vol, scale)*sum(
        abs(c)*max(1, mx[keys.index(k)]) for k, c in p.coeffs.items())
    t.close("callable", q(f), p.integral(), tolf)
    # vector-valued integrand: one integral per component
    r = np.asarray(q(lambda y: np.array([f(y), np.ones(y.shape[1])])))
    t.close("callable, several components", r, np.array([p.integral(), vol]),
            tolf + 1e-13*max(vol, scale))


def unavailable(t, fam, order, dim):
    """Requests no table can serve."""
    import modepy as mp
    t.raises("unavailable raises", mp.QuadratureRuleUnavailable,
             lambda: make(fam, order, dim), f"{fam} {order} {dim}")
    t.state("unavail", fam, dim, order)


def exact_rational(t, order, dim):
    """Grundmann-Moeller on monomials, against exact rational integrals."""
    q = make("gm", order, dim)
    x = (np.asarray(q.nodes, dtype=ref.LD) + 1)/2
    w = np.asarray(q.weights, dtype=ref.LD)
    deg = 2*order + 1
    if q.exact_to != deg:
        t.fail("stated degree", f"{q.exact_to}")
    scale = float(np.sum(np.abs(w)))
    rng = __import__("random").Random(order*31 + dim)
    idx = ref.simplex_indices(dim, deg)
    if len(idx) > 400:
        idx = rng.sample(idx, 400)
    for e in idx:
        got = float(np.sum(w*np.prod(x**np.array(e).reshape(-1, 1), axis=0)))
        t.close("monomial moment", got, float(ref.simplex_monomial_integral(e)),
                1e-13*scale)


GROUPS = {"table": table, "unavailable": unavailable,
          "exact_rational": exact_rational}


def cases(tier, rng):
    for fam, dim in AVAILABLE:
        for order in range(-1, 62):
            if order in AVAILABLE[fam, dim] or order > 0:
                yield "table", {"fam": fam, "order": order, "dim": dim}
        for order in (-5, -1, 200, 10**6):
            yield "unavailable", {"fam": fam, "order": order, "dim": dim}
    for fam, dims in (("xg", (0, 1, 4, 5, -1)), ("vr", (0, 1, 4, 7)),
                      ("js", (0, 1, 2, 4))):
        for dim in dims:
            for order in (0, 1, 2, 3, 5):
                yield "unavailable", {"fam": fam, "order": order, "dim": dim}
    yield "unavailable", {"fam": "xg", "order": 0, "dim": 2}
    top = {0: 4, 1: 12, 2: 10, 3: 7, 4: 5, 5: 3, 6: 2, 7: 2}
    if tier == "thorough":
        top = {0: 12, 1: 20, 2: 16, 3: 11, 4: 7, 5: 5, 6: 4, 7: 3, 8: 2, 9: 1, 10: 1}
    for dim, hi in top.items():
        for s in range(hi+1):
            yield "table", {"fam": "gm", "order": s, "dim": dim}
            if dim:
                yield "exact_rational", {"order": s, "dim": dim}
