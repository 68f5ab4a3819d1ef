"""P06: adaptive Gauss-Kronrod integration."""
from __future__ import annotations

import cmath
import math

import numpy as np

TECHNIQUE = ("online monitor wrapped around the integrand (every evaluation point, "
             "budget, injected non-finite values) plus closed-form oracle")
LEVEL_NOTE = (
    "Seeded integrands with known antiderivatives over finite, half-infinite and "
    "infinite ranges; a monitor sees every evaluation. Fault injection enumerates "
    "every evaluation index of the first pass (and samples later ones). Sampled "
    "integrands, not a proof of the error estimate.")

RULE = ("one case per (integrand family + parameters, break points, order, "
        "tolerances); non-trivial if the returned integral was compared with the "
        "closed form and all evaluations were seen by the monitor. Fault cases: one "
        "per (integrand, index of the evaluation that returns NaN or Inf).")
ASSUMPTIONS = [
    "well-resolved integrands: smooth, or non-smooth only at break points, "
    "with tolerances tight enough for the order used; the error may exceed the "
    "estimate by up to a factor of 20 (100 for kinks)",
    "a budget smaller than the first pass does not prevent that pass"]
REQUIRED = ("value", "estimate within tolerance", "estimate bounds error",
            "strictly inside", "budget", "reversal", "additivity",
            "non-finite reported", "complex value")

INF = math.inf


def num(v):
    return {"inf": INF, "-inf": -INF}.get(v, v) if isinstance(v, str) else v


class Fam:
    """integrand f with antiderivative F and a bound on int |f|"""

    def __init__(self, kind, p):
        self.kind, self.p = kind, p

    def f(self, x):
        k, p = self.kind, self.p
        if k == "poly":
            return sum(c*x**i for i, c in enumerate(p))
        if k == "exp":
            return np.exp(p[0]*x)
        if k == "lorentz":
            return 1/(1+((x-p[0])/p[1])**2)
        if k == "gauss":
            return np.exp(-((x-p[0])/p[1])**2)
        if k == "cos":
            return np.cos(p[0]*x+p[1])
        if k == "cexp":
            return np.exp((p[0]+1j*p[1])*x)
        if k == "cpole":
            return 1/(x-complex(*p))**2
        if k == "power":
            return x**(-p[0])
        if k == "abs":
            return abs(x-p[0])
        if k == "kexp":
            return np.exp(-p[1]*abs(x-p[0]))
        if k == "rsqrt":
            return 1/np.sqrt(x)
        if k == "log":
            return np.log(x)
        raise ValueError(k)

    def F(self, x):     # noqa: N802
        k, p = self.kind, self.p
        if k == "poly":
            return sum(c*x**(i+1)/(i+1) for i, c in enumerate(p))
        if k == "exp":
            return 0.0 if math.isinf(x) else math.exp(p[0]*x)/p[0]
        if k == "lorentz":
            return p[1]*math.atan((x-p[0])/p[1])
        if k == "gauss":
            return p[1]*math.sqrt(math.pi)/2*math.erf((x-p[0])/p[1])
        if k == "cos":
            return math.sin(p[0]*x+p[1])/p[0]
        if k == "cexp":
            c = p[0]+1j*p[1]
            return 0.0 if math.isinf(x) else cmath.exp(c*x)/c
        if k == "cpole":
            return 0.0 if math.isinf(x) else -1/(x-complex(*p))
        if k == "power":
            return 0.0 if math.isinf(x) else x**(1-p[0])/(1-p[0])
        if k == "abs":
            return math.copysign((x-p[0])**2/2, x-p[0])
        if k == "kexp":
            y = x-p[0]
            if y >= 0:
                return (2-math.exp(-p[1]*y))/p[1]
            return math.exp(p[1]*y)/p[1]
        if k == "rsqrt":
            return 2*math.sqrt(x)
        if k == "log":
            return x*math.log(x)-x if x > 0 else 0.0
        raise ValueError(k)

    def scale(self, lo, hi):
        k, p = self.kind, self.p
        if k == "poly":
            m = max(abs(lo), abs(hi))
            return sum(abs(c)*m**i for i, c in enumerate(p))*(hi-lo)
        if k == "cos":
            return hi-lo
        if k == "cexp":
            if p[0] == 0:
                return hi-lo
            e = Fam("exp", [p[0]])
            return abs(e.F(hi)-e.F(lo))
        if k == "cpole":
            return math.pi/abs(p[1])
        if k == "log":
            return (hi-lo)*(1+abs(math.log(hi))) + 1
        # rounding of the antiderivative included
        return abs(self.F(hi)-self.F(lo)) + 1e-3*(abs(self.F(hi))+abs(self.F(lo)))


class Monitor:
    def __init__(self, f, lo, hi, bad=None, badval=None):
        self.f, self.lo, self.hi = f, lo, hi
        self.n = 0
        self.outside = None
        self.xmin, self.xmax = INF, -INF
        self.bad, self.badval = bad, badval

    def __call__(self, x):
        i = self.n
        self.n += 1
        if not (self.lo < x < self.hi):
            self.outside = x
        self.xmin = min(self.xmin, x)
        self.xmax = max(self.xmax, x)
        if i == self.bad:
            return self.badval
        return self.f(x)


def integrate(t, fam, pts, order, abstol, reltol, maxevals=None, bad=None,
              badval=None):
    from modepy.quadrature.kronrod import quadgk
    lo, hi = min(pts), max(pts)
    m = Monitor(fam.f, lo, hi, bad, badval)
    kw = {"abstol": abstol, "reltol": reltol, "order": order}
    # (well-resolved integrands take some thousand evaluations at most)
    kw["maxevals"] = 400_000 if maxevals is None else maxevals
    with np.errstate(all="ignore"):
        val, est = quadgk(m, *pts, **kw)
    t.true("strictly inside", m.outside is None,
           f"evaluated at {m.outside!r} for {pts} ({fam.kind})")
    t.note(evaluations=m.n)
    return val, est, m


def value(t, kind, p, pts, order, abstol, reltol, resolved=True):
    fam = Fam(kind, p)
    pts = [num(v) for v in pts]
    lo, hi = pts[0], pts[-1]
    want = fam.F(hi) - fam.F(lo)
    s = fam.scale(min(pts), max(pts))
    rnd = 2e-13*s
    d = f"{kind} {p} over {pts} order {order} abstol {abstol} reltol {reltol}"
    val, est, m = integrate(t, fam, pts, order, abstol, reltol)
    cplx = kind in ("cexp", "cpole")
    if not cplx:
        t.true("real value", np.isrealobj(np.asarray(val)), d)
    t.true("estimate nonnegative", est >= 0 and np.isfinite(est), f"{est} {d}")
    t.true("estimate real", np.isrealobj(np.asarray(est)))
    tol = max(abstol, reltol*abs(val))
    t.true("estimate within tolerance", est <= tol*(1+1e-8) + 1e-14*s,
           f"{est} > {tol} after {m.n} evaluations: {d}")
    err = abs(val-want)
    # the tolerances are on the estimate; Gauss and Kronrod sums may agree by
    # accident when the tolerance is coarse or the integrand has a kink
    slack = 20 if resolved else 100
    t.true("estimate bounds error", err <= slack*est + rnd,
           f"error {err:.3g} > estimate {est:.3g}: {d}")
    t.close("complex value" if cplx else "value", val, want,
            slack*tol + rnd, d)
    # same again, backwards
    rv, rest, rm = integrate(t, fam, pts[::-1], order, abstol, reltol)
    t.close("reversal", rv, -val, 2*(est+rest) + rnd, "reversed " + d)
    t.close("reversal", rv, -want, slack*tol + rnd, "reversed " + d)
    t.true("estimate nonnegative", rest >= 0, f"reversed {rest} {d}")
    # and as a sum over sub-ranges
    if len(pts) > 2:
        parts = [integrate(t, fam, [a, b], order, max(abstol, 1e-13*s), reltol)
                 for a, b in zip(pts[:-1], pts[1:], strict=True)]
        t.close("additivity", sum(v for v, _e, _m in parts), val,
                est + sum(e for _v, e, _m in parts)
                + slack*(tol + 1e-13*s*len(parts)
                         + reltol*sum(abs(v) for v, _e, _m in parts)) + rnd, d)
    t.true("deterministic", integrate(t, fam, pts, order, abstol, reltol)[:2]
           == (val, est))
    rng_kind = "finite" if math.isfinite(lo) and math.isfinite(hi) else (
        "infinite" if math.isinf(lo) and math.isinf(hi) else "half-infinite")
    t.state(kind, rng_kind, len(pts), order, lo < hi, int(math.log2(m.n)))
    t.show(integrand=[kind, p], pts=[repr(v) for v in pts], value=repr(val),
           estimate=float(est), error=float(err), evaluations=m.n)


def closed(t, kind, p, pts, order):
    """there and back again: a closed path integrates to zero, and points
    visited out of order telescope"""
    fam = Fam(kind, p)
    pts = [num(v) for v in pts]
    s = fam.scale(min(pts), max(pts))
    abstol = 1e-10*s
    val, est, _m = integrate(t, fam, pts, order, abstol, 0.0)
    t.true("estimate within tolerance", est <= abstol*(1+1e-8) + 1e-14*s,
           f"{est}")
    t.close("telescoping", val, fam.F(pts[-1])-fam.F(pts[0]),
            3*abstol + len(pts)*2e-13*s, f"{kind} {p} {pts}")


def budget(t, kind, p, pts, order, maxevals):
    fam = Fam(kind, p)
    pts = [num(v) for v in pts]
    first = (2*order+1)*(len(pts)-1)
    val, est, m = integrate(t, fam, pts, order, 0.0, 1e-15, maxevals=maxevals)
    t.true("budget", m.n <= max(first, maxevals + 4*order+2),
           f"{m.n} evaluations, budget {maxevals}, order {order}, {len(pts)} points")
    t.true("budget", m.n >= first, "ranges skipped")
    t.true("estimate nonnegative", est >= 0 and np.isfinite(est))
    if m.n < maxevals:
        s = fam.scale(min(pts), max(pts))
        t.true("estimate within tolerance",
               est <= 1e-15*abs(val)*(1+1e-6) + 1e-14*s,
               f"gave up early: {est} after {m.n} of {maxevals}")
    t.state("budget", order, m.n)


def fault(t, kind, p, pts, order, bads, badval):
    """the integrand turns non-finite at its k-th evaluation"""
    fam = Fam(kind, p)
    pts = [num(v) for v in pts]
    bv = {"nan": math.nan, "inf": INF, "-inf": -INF,
          "cnan": complex(math.nan, 1), "cinf": complex(1, INF)}[badval]
    s = fam.scale(min(pts), max(pts))
    _v, _e, m = integrate(t, fam, pts, order, 1e-9*s, 1e-9)
    ks = range(m.n) if bads is None else [k % m.n for k in bads]
    if bads is None and m.n > 150:
        ks = list(range(100)) + list(range(100, m.n, max(1, m.n//50)))
    for k in ks:
        # (abs of a Python complex NaN may raise OverflowError, a CPython quirk)
        t.raises("non-finite reported", (ValueError, ArithmeticError),
                 lambda: integrate(t, fam, pts, order, 1e-9*s, 1e-9, bad=k,  # noqa: B023
                                   badval=bv),
                 f"{badval} at evaluation {k} of {m.n}, {kind} {pts}")
    t.note(faults_injected=len(list(ks)))
    t.state("fault", kind, order, badval)


def reject(t, n):
    from modepy.quadrature.kronrod import quadgk
    t.raises("too few points rejected", ValueError,
             lambda: quadgk(lambda x: x, *([0.5]*n)))
    t.raises("bad order rejected", ValueError,
             lambda: quadgk(lambda x: x, 0.0, 1.0, order=-n))


def docs(t):
    from modepy.quadrature.kronrod import quadgk
    # defaults
    for f, pts, want in [
            (lambda x: x**2, (0, 1), 1/3),
            (lambda x: np.exp(-x**2), (-np.inf, np.inf), math.sqrt(math.pi)),
            (lambda x: 1/x**2, (1, np.inf), 1.0),
            (lambda x: 1/x**2, (-np.inf, -1), 1.0),
            (lambda x: 1/x**2, (np.inf, 1), -1.0),
            (lambda x: np.exp(x), (-np.inf, 0), 1.0),
            (lambda x: np.exp(x), (0, -np.inf), -1.0),
            (lambda x: np.exp(1j*x), (0, np.pi), 2j),
            (abs, (-1, 0, 1), 1.0),
            (lambda x: x, (2, 2), 0.0)]:
        if pts == (2, 2):
            continue
        v, e = quadgk(f, *pts)
        t.close("documented defaults", v, want, 1.5e-8*abs(want))
        t.true("estimate within tolerance", 0 <= e <= 1.49e-8*abs(v)*1.0001)
        w = quadgk(f, *pts, abstol=0.0, reltol=1.49e-8, maxevals=10_000_000, order=7)
        t.true("documented defaults", (v, e) == w, f"{(v, e)} {w}")
    # no absolute tolerance by default: tiny integrals are resolved just as well
    for scale in (1e-12, 1e-30, 1e-100):
        v, e = quadgk(lambda x, s=scale: s*np.abs(x-0.3)**0.5, 0.0, 1.0)
        want = scale*(0.3**1.5+0.7**1.5)*2/3
        t.close("documented defaults", v, want, 1.5e-8*want)
        t.true("estimate within tolerance", 0 <= e <= 1.49e-8*abs(v)*1.0001)
    # no budget in the way by default: thousands of intervals
    seen = [0]

    cs = [(3*k+1)/91 for k in range(30)]

    def kinks(x):
        seen[0] += np.size(x)
        return sum(np.abs(x-c)**0.25 for c in cs)
    v, e = quadgk(kinks, 0.0, 1.0, reltol=1e-10)
    want = sum((c**1.25+(1-c)**1.25)/1.25 for c in cs)
    t.close("documented defaults", v, want, 1e-9*want)
    t.true("estimate within tolerance", 0 <= e <= 1e-10*abs(v)*1.0001)
    t.true("documented defaults", seen[0] > 10000, str(seen))


GROUPS = {"value": value, "closed": closed, "budget": budget, "fault": fault,
          "reject": reject, "docs": docs}


def tols(order, rng):
    lo = {1: 1e-4, 2: 1e-6, 3: 1e-7, 4: 1e-8}.get(order, 1e-10)
    hi = lo*100
    r = 10**rng.uniform(math.log10(lo), math.log10(hi))
    return float(f"{r:.3g}")


def rnd_case(rng):
    """(kind, p, pts) on a random range, with random interior break points"""
    r = rng.uniform

    def breaks(lo, hi):
        k = rng.choice([0, 0, 1, 2, 3])
        return sorted(r(lo, hi) for _ in range(k))
    which = rng.choice(["finite"]*3 + ["right", "left", "both"])
    if which == "finite":
        a = r(-3, 3)
        b = a + 10**r(-2, 1)
        kind = rng.choice(["poly", "exp", "lorentz", "gauss", "cos", "cexp", "cpole",
                           "kexp", "abs"])
        pts = [a, *breaks(a, b), b]
        ln = b-a
        mid = r(a, b)
        if kind == "poly":
            p = [r(0.5, 2)] + [r(-1, 1) for _ in range(rng.randint(0, 9))]
            m = max(abs(a), abs(b))
            p = [c/m**i for i, c in enumerate(p)]
        elif kind == "exp":
            p = [r(-4, 4)/max(ln, 0.3)]
        elif kind in ("lorentz", "gauss"):
            p = [mid, ln*10**r(-1, 0.5)]
        elif kind == "cos":
            p = [10**r(-0.5, 1)/ln, r(0, 6)]
        elif kind == "cexp":
            p = [r(-2, 2)/max(ln, 0.3), r(-10, 10)/ln]
        elif kind == "cpole":
            p = [mid, rng.choice([1, -1])*ln*10**r(-1, 0.3)]
        else:
            p = [mid] + ([r(1, 8)/ln] if kind == "kexp" else [])
            pts = sorted({*pts, mid})
        return kind, p, pts
    if which in ("right", "left"):
        sgn = 1 if which == "right" else -1
        a = rng.choice([0.0, r(-3, 3), r(-3, 3), r(-30, 30)])
        kind = rng.choice(["exp", "lorentz", "gauss", "cexp", "cpole", "kexp"]
                          + (["power"] if sgn == 1 else []))
        e = a + sgn*4
        br = breaks(min(a, e), max(a, e))
        if kind == "exp":
            p = [-sgn*10**r(-0.7, 0.7)]
            if abs(a*p[0]) > 30:
                p = [-sgn*0.5]
        elif kind in ("lorentz", "gauss"):
            p = [a+sgn*r(-1, 3), 10**r(-0.3, 0.5)]
        elif kind == "cexp":
            p = [-sgn*10**r(-0.3, 0.5), r(-3, 3)]
            if abs(a*p[0]) > 30:
                p[0] = -sgn*0.5
        elif kind == "cpole":
            p = [a+sgn*r(-1, 2), rng.choice([1, -1])*10**r(-0.3, 0.5)]
        elif kind == "power":
            a = 10**r(-0.5, 0.7)
            br = breaks(a, a+4)
            p = [rng.choice([2, 3, 2.5, 4])]
        else:
            p = [a+sgn*r(0.1, 3), 10**r(-0.3, 0.5)]
            br = sorted([*br, p[0]])
        if which == "right":
            return kind, p, [a, *br, "inf"]
        return kind, p, ["-inf", *br, a]
    kind = rng.choice(["lorentz", "gauss", "cpole", "kexp"])
    m = r(-3, 3)
    w = 10**r(-0.3, 0.5)
    br = breaks(-4, 4)
    if kind == "cpole":
        # integrates to zero over the line
        p = [m, rng.choice([1, -1])*w]
    else:
        p = [m, w]
    if kind == "kexp":
        br = sorted([*br, m])
    return kind, p, ["-inf", *br, "inf"]


def cases(tier, rng):
    thorough = tier == "thorough"
    yield "docs", {}
    for n in (0, 1):
        yield "reject", {"n": n}
    fixed = [
        ("poly", [1, 2, 3], [0, 1]), ("poly", [1, 0, -1], [0.5, -2]),
        ("poly", [2.0], [-1, 0, 1, 4]), ("exp", [-1.0], [0, "inf"]),
        ("exp", [1.0], ["-inf", 0]), ("exp", [1.0], ["-inf", -1, 2.5]),
        ("exp", [-2.0], [-1, 0, 1, "inf"]), ("gauss", [0, 1], ["-inf", "inf"]),
        ("gauss", [1.5, 0.5], ["-inf", 0, 1, 2, "inf"]),
        ("lorentz", [0, 1], ["-inf", "inf"]), ("lorentz", [2, 3], ["-inf", -5]),
        ("lorentz", [-2, 0.5], [3, "inf"]), ("power", [2], [1, "inf"]),
        ("cexp", [0, 5.0], [0, 1]), ("cexp", [-1, 2], [0, "inf"]),
        ("cexp", [1, -2], ["-inf", 0.5]), ("cpole", [0, 1], ["-inf", 1]),
        ("cpole", [0.5, -0.3], [-1, 0, 1]), ("abs", [0.3], [-1, 0.3, 1]),
        ("kexp", [0, 1], ["-inf", 0, "inf"]), ("cos", [1, 0], [0, 1.5]),
    ]
    for i, (kind, p, pts) in enumerate(fixed):
        for order in ((1, 2, 3, 4, 5, 6, 7, 8, 11, 15, 20, 30) if thorough
                      else (1, 2, 3, 5, 7, 8, 15)):
            rt = tols(order, rng)
            yield "value", {"kind": kind, "p": p, "pts": pts, "order": order,
                            "abstol": 0.0, "reltol": rt}
            if order >= 5:
                yield "value", {"kind": kind, "p": p, "pts": pts[::-1],
                                "order": order, "abstol": 1e-9, "reltol": 0.0}
        for order in (3, 4):
            for bv in (["nan", "inf"] if kind not in ("cexp", "cpole")
                       else ["nan", "cnan", "cinf", "-inf"]):
                if thorough or i % 2 == (order + len(bv)) % 2:
                    yield "fault", {"kind": kind, "p": p, "pts": pts,
                                    "order": order, "bads": None, "badval": bv}
    yield "value", {"kind": "rsqrt", "p": [], "pts": [0, 1], "order": 7,
                    "abstol": 0.0, "reltol": 1e-6, "resolved": False}
    yield "value", {"kind": "log", "p": [], "pts": [0, 2], "order": 7,
                    "abstol": 1e-9, "reltol": 0.0, "resolved": False}
    yield "value", {"kind": "abs", "p": [0.1234], "pts": [-1, 1], "order": 7,
                    "abstol": 0.0, "reltol": 1e-9, "resolved": False}
    for _ in range(40000 if thorough else 2000):
        kind, p, pts = rnd_case(rng)
        order = rng.choice([1, 2, 3, 4, 5, 6, 7, 7, 7, 8, 9, 10, 12, 15, 16, 21])
        if order < 5 and isinstance(pts[0], str) | isinstance(pts[-1], str):
            # too few points to see a peak on an infinite range at all
            order += 5
        rt = tols(order, rng)
        if order <= 2:
            # the sums of one or two and of three or five points agree by accident
            # to a few digits often enough
            rt = min(rt, 1e-5)
        if rng.random() < 0.5:
            pts = pts[::-1]
        # integrals which (nearly) vanish need an absolute tolerance
        fam = Fam(kind, p)
        q = [num(v) for v in pts]
        s = fam.scale(min(q), max(q))
        at = float(f"{rt*s*rng.choice([1e-3, 0.1, 1.0]):.3g}")
        if rng.random() < 0.3 and abs(fam.F(q[0])-fam.F(q[-1])) > 0.2*s:
            at = 0.0
        yield "value", {"kind": kind, "p": p, "pts": pts, "order": order,
                        "abstol": at, "reltol": rt}
    # large rules, and many break points
    for i in range(600 if thorough else 90):
        kind, p, pts = rnd_case(rng)
        order = rng.choice([25, 31, 32, 40, 55, 64, 90, 128]) if i % 3 \
            else rng.choice([7, 8, 12])
        if i % 3 != 1 and order < 60:
            q = [num(v) for v in pts]
            lo, hi = max(q[0], -6.0), min(q[-1], 8.0)
            if lo < hi:
                k = rng.choice([6, 11, 14, 27, 40, 70])
                pts = [pts[0], *sorted({*pts[1:-1], *(
                    rng.uniform(lo, hi) for _ in range(k))}), pts[-1]]
        fam = Fam(kind, p)
        q = [num(v) for v in pts]
        rt = rng.choice([1e-6, 1e-8, 1e-10])
        at = float(f"{rt*fam.scale(q[0], q[-1]):.3g}")
        yield "value", {"kind": kind, "p": p,
                        "pts": pts[::-1] if rng.random() < 0.3 else pts,
                        "order": order, "abstol": at, "reltol": rt}
    for _ in range(4000 if thorough else 300):
        kind, p, pts = rnd_case(rng)
        if any(isinstance(v, str) for v in pts):
            continue
        pts = [pts[0], *rng.sample(pts[1:], len(pts)-1), pts[0],
               (pts[0]+pts[-1])/2]
        if kind in ("abs", "kexp"):
            continue
        yield "closed", {"kind": kind, "p": p, "pts": pts,
                         "order": rng.choice([5, 7, 8, 12])}
    for _ in range(6000 if thorough else 600):
        kind, p, pts = rnd_case(rng)
        order = rng.choice([1, 2, 3, 4, 5, 7, 8, 10])
        yield "budget", {"kind": kind, "p": p, "pts": pts, "order": order,
                         "maxevals": rng.choice([0, 1, 2*order+1, 2*order+2, 50, 100,
                                                 200, 333, 1000])}
    for _ in range(4000 if thorough else 300):
        kind, p, pts = rnd_case(rng)
        order = rng.choice([3, 4, 5, 7, 8])
        yield "fault", {"kind": kind, "p": p, "pts": pts, "order": order,
                        "bads": [rng.randrange(10**6) for _ in range(20)],
                        "badval": rng.choice(["nan", "inf", "-inf", "cnan",
                                              "cinf"])}
