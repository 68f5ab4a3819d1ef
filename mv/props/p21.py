"""P21: modal decay fits and residual estimates."""
from __future__ import annotations

import itertools

import numpy as np

from mv import common as C

TECHNIQUE = ("comparison of every fit with an independently computed log-log "
             "least-squares fit of independently filtered data; metamorphic monitors "
             "over batches, signs, scalings and ignored modes")
LEVEL_NOTE = (
    "Power-law, noisy, sparse, alternating and constant data in 1 to 3 dimensions (4 "
    "for the fit), batches of up to 10000 elements with hostile neighbours.  Data are "
    "normalised or small, because fits of large-amplitude data are affected by a known "
    "finding.")

RULE = ("one case per (dimension, order, data kind, ignored modes, batch) and per "
        "metamorphic relation; non-trivial if at least one fit was compared.")
ASSUMPTIONS = ["the baseline is the published one, |q_n|^2 + |q|^2 |b_n|^2 with "
               "b_n ~ n^-N; it is compared only where the published and the "
               "implemented scaling agree (unit norm) or it is negligible",
               "zero coefficients up to order 64: the squared baseline underflows "
               "beyond order 80 (known finding)",
               "modes are ordered as generate_nonnegative_integer_tuples_summing_to_"
               "at_most orders them, the order of the bases' mode identifiers"]
REQUIRED = ("fit equals reference fit", "recovers power law", "rescaling",
            "elements independent", "signs", "ignored modes", "faster decay",
            "residual equals tail of the fit", "residual in [0, 1]",
            "residual batch independent", "skyline bounds", "skyline nonincreasing",
            "skyline idempotent", "arguments unchanged", "skyline exact",
            "constant data")


def degrees(dims, n):
    """total degrees in the order of the simplex bases' modes (first index slowest)"""
    return np.array([sum(i) for i in itertools.product(range(n+1), repeat=dims)
                     if sum(i) <= n])


def ref_skyline(a):
    a = np.array(a)
    r = a.copy()
    for el in range(a.shape[0]):
        for m in range(a.shape[1]):
            r[el, m] = a[el, min(m, a.shape[1]-2):].max()
    return r


def ref_fit(c, dims, n, ignored, baseline=True):
    """documented algorithm, straight least squares by normal equations in
    extended precision"""
    k = degrees(dims, n)
    out = []
    for row in np.asarray(c, dtype=np.longdouble):
        q = ref_skyline((row**2)[None])[0]
        kk = k[ignored:].astype(np.longdouble)
        b = np.where(kk > 0, np.maximum(kk, 1)**(-np.longdouble(n)), 1)
        b = b**2/np.sum(b**2)
        y = q[ignored:]
        if baseline:
            y = y + np.sum(q)*b
        y = np.log(y)/2
        x = np.log(np.maximum(kk, 1))
        xm, ym = x.mean(), y.mean()
        sxx = np.sum((x-xm)**2)
        e = np.sum((x-xm)*(y-ym))/sxx if sxx > 0 else np.longdouble(0)
        out.append((e, np.exp(ym-e*xm)))
    r = np.array(out, dtype=float)
    return r[:, 0], r[:, 1]


def normalised(c):
    """scale each element so that its filtered data have unit norm, where the
    implemented baseline is the published one"""
    q = ref_skyline(c**2)
    return c/np.sqrt(q.sum(axis=1))[:, None]


def data(kind, nel, k, rng):
    m = len(k)
    kk = np.maximum(k, 1).astype(float)
    c = np.empty((nel, m))
    for i in range(nel):
        p = rng.uniform(0.5, 5)
        if kind == "power":
            v = kk**-p
        elif kind == "noisy":
            v = kk**-p*rng.uniform(0.2, 1.8, m)*rng.choice([-1, 1], m)
        elif kind == "alternating":
            v = kk**-p*np.where(k % 2, 1.0, 1e-8)
        elif kind == "sparse":
            v = np.zeros(m)
            v[rng.integers(0, m)] = 1.0
            v[0] = rng.normal()
        elif kind == "exponential":
            v = np.exp(-p*k)
        elif kind == "growing":
            v = kk**p
        elif kind == "flat":
            v = np.ones(m)
        else:
            v = rng.normal(size=m)
        c[i] = v
    return c


def fit(t, dims, n, kind, ignored, nel, scale, dtype, layout, seed):
    from modepy.modal_decay import (
        estimate_relative_expansion_residual,
        fit_modal_decay,
    )
    rng = C.nprng(seed)
    k = degrees(dims, n)
    c = normalised(data(kind, nel, k, rng))
    small = scale != 1.0
    c = c*scale
    if dtype == "float32":
        c = c.astype(np.float32)
    if layout == "F":
        c = np.asfortranarray(c)
    elif layout == "strided":
        big = np.zeros((2*nel, 2*c.shape[1]), dtype=c.dtype)
        big[::2, ::2] = c
        c = big[::2, ::2]
    elif layout == "readonly":
        c.flags.writeable = False
    keep = c.copy()
    name = f"dims={dims} n={n} {kind} ignored={ignored} scale={scale} {dtype}"
    r = fit_modal_decay(c, dims, n) if ignored == 1 and seed % 2 else \
        fit_modal_decay(c, dims, n, ignored_modes=ignored)
    e, const = r
    t.true("arguments unchanged", np.array_equal(c, keep), name)
    if not t.true("fit equals reference fit", e.shape == const.shape == (nel,),
                  f"{e.shape} {const.shape} {name}"):
        return
    if small:
        # the baseline is negligible only where the data are not themselves tiny
        kk = np.maximum(k, 1).astype(float)
        q = ref_skyline(keep.astype(float)**2)[:, ignored:]
        base = kk[ignored:]**-float(n)
        base = base/np.linalg.norm(base)
        tot = ref_skyline(keep.astype(float)**2).sum(axis=1)[:, None]
        ok = np.all(q > 1e8*(base*tot)**2, axis=1)
    else:
        ok = np.ones(nel, dtype=bool)
    if dtype == "float32":      # squares must not underflow
        ok &= np.all(ref_skyline(keep.astype(float)**2) > 1e-33, axis=1)
    re, rc = ref_fit(keep, dims, n, ignored, baseline=not small)
    tol = 1e-9 if dtype == "float64" else 2e-5
    if small:
        tol += 1e-6
    spread = 1+np.abs(re)
    if ok.any():
        t.close("fit equals reference fit", e[ok], re[ok], tol*spread[ok]*n,
                "exponent " + name)
        t.close("fit equals reference fit", (const/rc)[ok], np.ones(ok.sum()),
                tol*spread[ok]*10*n, "constant " + name)
    # the residual is the tail of that fit
    res = estimate_relative_expansion_residual(c, dims, n) \
        if ignored == 1 and seed % 3 == 0 else \
        estimate_relative_expansion_residual(c, dims, n, ignored)
    t.true("arguments unchanged", np.array_equal(c, keep), "residual " + name)
    nrm = np.sqrt(np.sum(keep.astype(float)**2, axis=1))
    with np.errstate(all="ignore"):
        p = 2*e.astype(float)+1
        # integral of (const x^e)^2 from n+1 to infinity
        tail = np.where(p < 0, const*np.sqrt((n+1.0)**p/np.abs(p))/nrm, np.nan)
    t.true("residual equals tail of the fit", res.shape == (nel,), name)
    fin = (p < -1e-6) & np.isfinite(tail)
    below = fin & (tail < 1-1e-5)
    if below.any():
        t.close("residual equals tail of the fit", res[below], tail[below],
                (1e-9 if dtype == "float64" else 3e-6)*tail[below]
                * (1+1/np.abs(p[below])), name)
    if fin.any():
        t.true("residual in [0, 1]", np.all((res[fin] >= 0) & (res[fin] <= 1)),
               f"{res[fin]} {name}")
    t.state(dims, n, kind, ignored, dtype)
    t.note(fits=int(ok.sum()), residuals=int(below.sum()))
    t.show(dims=dims, n=n, kind=kind, exponent=C.short(e), constant=C.short(const),
           residual=C.short(np.nan_to_num(res)))


def power(t, n, seed):
    """one-dimensional power laws are recovered up to the filter's last mode"""
    from modepy.modal_decay import fit_modal_decay
    rng = C.nprng(seed)
    k = np.arange(n+1)
    ps = rng.uniform(0.5, min(4.0, n/2), 12)
    a = 10.0**rng.uniform(-4, -3, 12)
    c = a[:, None]*np.maximum(k, 1)[None]**-ps[:, None]
    c[:, 0] = a*rng.uniform(-3, 3, 12)
    e, const = fit_modal_decay(c, 1, n)
    # effect of replacing the last entry by the one before: exact sensitivity
    x = np.log(np.arange(1, n+1))
    g = (x-x.mean())/np.sum((x-x.mean())**2)
    bias = g[-1]*np.log(n/(n-1.0))          # relative bias of the exponent
    t.close("recovers power law", e, -ps*(1-bias), 1e-3*(1+ps), f"n={n}")
    t.close("recovers power law", e/-ps, np.ones(12), bias+2e-3, f"n={n}")
    if n >= 8:
        t.close("recovers power law", const/a, np.ones(12), 0.15, f"n={n}")
    t.true("recovers power law", bias < 0.2 and (n < 8 or bias < 0.04), f"{bias}")
    t.state("power", n)


def relations(t, dims, n, kind, seed):
    from modepy.modal_decay import (
        estimate_relative_expansion_residual as resid,
        fit_modal_decay,
    )
    rng = C.nprng(seed)
    k = degrees(dims, n)
    nel = int(rng.integers(2, 12))
    c = normalised(data(kind, nel, k, rng))
    name = f"dims={dims} n={n} {kind}"
    e, const = fit_modal_decay(c, dims, n)
    rr = resid(c, dims, n)

    def same(check, c2, sel=slice(None), ign=1, refr=None):
        e2, k2 = fit_modal_decay(c2, dims, n, ign)
        r2 = resid(c2, dims, n, ign)
        re, rk, rres = refr if refr is not None else (e, const, rr)
        t.close(check, e2, re[sel], 1e-9*(1+np.abs(re[sel])), name)
        t.close(check, k2/rk[sel], np.ones(len(k2)), 1e-8*(1+np.abs(re[sel])), name)
        p = 2*re[sel]+1
        good = (p < -1e-6) & (np.abs(rres[sel]-1) > 1e-6) & np.isfinite(rres[sel])
        # estimates above one are cut off: compare only clearly below
        good &= (rres[sel] > 0)
        if good.any():
            t.close("residual batch independent" if check == "elements independent"
                    else check, r2[good], rres[sel][good],
                    1e-7*(1+1/np.abs(p[good])), "residual " + name)

    # element by element, reordered, repeated
    for i in range(nel):
        same("elements independent", c[i:i+1], slice(i, i+1))
    perm = rng.permutation(nel)
    same("elements independent", c[perm], perm)
    rep = rng.integers(0, nel, 3*nel)
    same("elements independent", c[rep], rep)
    # thousands of elements, fewer the more modes there are
    m = min(int(rng.choice([129, 257, 1000, 1025, 4097, 10007])), 150_000//c.shape[1])
    rep = rng.integers(0, nel, m)
    same("elements independent", c[rep], rep)
    # hostile neighbours must not leak into the others
    for val in (0.0, 1e150, np.nan, np.inf, 1e-200):
        bad = np.full((1, c.shape[1]), val)
        pos = int(rng.integers(0, nel+1))
        c2 = np.concatenate([c[:pos], bad, c[pos:]])
        keep = [i for i in range(nel+1) if i != pos]
        with np.errstate(all="ignore"):
            e2, k2 = fit_modal_decay(c2, dims, n)
            r2 = resid(c2, dims, n)
        t.close("elements independent", e2[keep], e, 1e-9*(1+np.abs(e)),
                f"neighbour {val} {name}")
        t.close("elements independent", k2[keep]/const, np.ones(nel),
                1e-8*(1+np.abs(e)), f"neighbour {val} {name}")
        p = 2*e+1
        good = (p < -1e-6) & (rr > 0)
        if good.any():
            t.close("residual batch independent", r2[keep][good], rr[good],
                    1e-7*(1+1/np.abs(p[good])), f"neighbour {val} {name}")
    # signs
    same("signs", -c)
    same("signs", c*rng.choice([-1.0, 1.0], c.shape))
    same("signs", np.abs(c))
    # ignored modes: values of the ignored ones matter only through the norm of the
    # baseline, so compare at small amplitude
    for ign in range(1, min(4, c.shape[1]-2)):
        s = 1e-6*np.abs(c) + 1e-6*np.maximum(k, 1)[None]**-float(min(n, 3))*0.1
        ea, ka = fit_modal_decay(s, dims, n, ign)
        s2 = s.copy()
        s2[:, :ign] *= rng.uniform(0.1, 5, (nel, ign))
        eb, kb = fit_modal_decay(s2, dims, n, ign)
        lim = 1e-4*(1+np.abs(ea))
        t.close("ignored modes", eb, ea, lim, f"ignored={ign} {name}")
        t.close("ignored modes", kb/ka, np.ones(nel), lim, f"ignored={ign} {name}")
    # small-amplitude rescaling
    s = 1e-6*(np.abs(c) + np.maximum(k, 1)[None]**-float(min(n, 3))*0.1)
    ea, ka = fit_modal_decay(s, dims, n)
    ra = resid(s, dims, n)
    for f in (0.5, 1e-2, 1e-3, 7.0):
        eb, kb = fit_modal_decay(f*s, dims, n)
        rb = resid(f*s, dims, n)
        lim = 1e-4*(1+np.abs(ea))
        t.close("rescaling", eb, ea, lim, f"factor {f} {name}")
        t.close("rescaling", kb/f/ka, np.ones(nel), lim, f"factor {f} {name}")
        p = 2*ea+1
        good = (p < -1e-2) & (ra > 0) & (ra < 1-1e-3)
        if good.any():
            t.close("rescaling", rb[good]/ra[good], np.ones(good.sum()), 1e-2,
                    f"residual factor {f} {name}")
    # each element its own factor
    f = 10.0**rng.uniform(-3, 0, nel)
    eb, kb = fit_modal_decay(f[:, None]*s, dims, n)
    t.close("rescaling", eb, ea, 1e-4*(1+np.abs(ea)), "factor per element " + name)
    t.close("rescaling", kb/f/ka, np.ones(nel), 1e-4*(1+np.abs(ea)),
            "factor per element " + name)
    t.state("rel", dims, n, kind)


def faster(t, dims, n, seed):
    """faster decay, more negative exponent"""
    from modepy.modal_decay import fit_modal_decay
    rng = C.nprng(seed)
    k = degrees(dims, n)
    ps = np.sort(rng.uniform(0.2, n-0.5, 8))
    ps = ps[np.concatenate([[True], np.diff(ps) > 0.05])]
    c = 1e-4*np.maximum(k, 1)[None]**-ps[:, None]
    noise = rng.uniform(0.5, 1, len(k))
    for mult, what in [(1.0, "plain"), (noise, "modulated")]:
        e, _ = fit_modal_decay(c*mult, dims, n)
        t.true("faster decay", np.all(np.diff(e) < 0) if what == "plain" else
               e[-1] < e[0] or len(ps) < 2 or ps[-1]-ps[0] < 1.5,
               f"{what} p={ps} e={e} dims={dims} n={n}")
        t.true("faster decay", what != "plain" or np.all(e < 0), f"{e}")
    t.state("faster", dims, n)


def constant(t, dims, n, seed):
    """data consisting of a constant alone decay as the baseline does"""
    from modepy.modal_decay import fit_modal_decay
    rng = C.nprng(seed)
    k = degrees(dims, n)
    c = np.zeros((5, len(k)))
    c[:, 0] = [1, -1, 0.5, 3.0, rng.uniform(0.1, 2)]
    e, const = fit_modal_decay(c, dims, n)
    t.close("constant data", e, np.full(5, -float(n)), 1e-8*n, f"dims={dims} n={n}")
    b = np.maximum(k[1:], 1)**-float(n)
    t.close("constant data", const[:2], np.full(2, 1/np.linalg.norm(b)), 1e-7,
            f"dims={dims} n={n}")
    t.state("const", dims, n)


def skyline(t, nel, nmodes, kind, seed):
    from modepy.modal_decay import skyline_pessimize
    rng = C.nprng(seed)
    a = rng.uniform(0, 1, (nel, nmodes))
    if kind == "sparse":
        a *= rng.random(a.shape) < 0.2
    elif kind == "ties":
        a = np.round(a*3)
    elif kind == "int":
        a = rng.integers(0, 100, a.shape)
    elif kind == "f32":
        a = a.astype(np.float32)
    elif kind == "decay":
        a = a*np.arange(1, nmodes+1)**-3.0
    elif kind == "grow":
        a = np.sort(a, axis=1)
    elif kind == "F":
        a = np.asfortranarray(a)
    keep = a.copy()
    r = skyline_pessimize(a)
    name = f"{nel}x{nmodes} {kind}"
    t.true("arguments unchanged", np.array_equal(a, keep), name)
    if not t.true("skyline bounds", r.shape == a.shape and np.all(r >= a), name):
        return
    t.true("skyline nonincreasing", np.all(np.diff(r, axis=1) <= 0), name)
    t.true("skyline idempotent", np.array_equal(skyline_pessimize(r), r), name)
    t.true("skyline exact", np.array_equal(r, ref_skyline(keep)), name)
    for i in range(nel):
        t.true("elements independent",
               np.array_equal(skyline_pessimize(a[i:i+1])[0], r[i]), name)
    t.state("skyline", nel, nmodes, kind)


def amplitude(t, n, p, scale):
    """rescaling at any amplitude (known finding for large ones)"""
    from modepy.modal_decay import fit_modal_decay
    k = np.arange(n+1)
    c = np.maximum(k, 1)[None]**-float(p)
    e0, _ = fit_modal_decay(1e-6*c, 1, n)
    e1, _ = fit_modal_decay(scale*c, 1, n)
    t.close("rescaling large amplitude", e1, e0, 1e-3, f"n={n} p={p} scale={scale}")


def underflow(t, n):
    """data whose last coefficients are exactly zero"""
    from modepy.modal_decay import fit_modal_decay
    c = np.zeros((1, n+1))
    c[0, :n//2] = np.maximum(np.arange(n//2), 1)**-2.0
    e, k = fit_modal_decay(c, 1, n)
    t.true("finite fit of data with a zero tail", np.isfinite(e).all()
           and np.isfinite(k).all(), f"exponent {e} constant {k} n={n}")


GROUPS = {"underflow": underflow, "fit": fit, "power": power, "relations": relations, "faster": faster,
          "constant": constant, "skyline": skyline, "amplitude": amplitude}

KINDS = ("power", "noisy", "alternating", "sparse", "exponential", "growing", "flat",
         "random")


def cases(tier, rng):
    thorough = tier == "thorough"
    rep = 8 if thorough else 2
    top = {1: 20, 2: 9, 3: 6, 4: 4}
    for dims in range(1, 5):
        for n in range(2, top[dims]+1):
            m = len(degrees(dims, n))
            for kind in KINDS:
                for _ in range(rep):
                    yield "fit", {
                        "dims": dims, "n": n, "kind": kind,
                        "ignored": rng.choice([1, 1, 1, 0, 2, 3]) if m > 5 else 1,
                        "nel": rng.choice([1, 2, 3, 17, 40]),
                        "scale": rng.choice([1.0, 1.0, 1e-6]),
                        "dtype": rng.choice(["float64", "float64", "float32"]),
                        "layout": rng.choice(["C", "F", "strided", "readonly"]),
                        "seed": rng.randrange(10**6)}
    more = [(1, n, ig) for n in (22, 26, 32, 41, 50, 64, 81, 100, 130, 200)
            for ig in (1, rng.randint(2, n//2))]
    more += [(2, n, ig) for n in (10, 12, 14, 17, 20, 24) for ig in (1, 3, 6)]
    more += [(3, n, ig) for n in (7, 8, 9, 10) for ig in (1, 4, 10)]
    more += [(4, 5, 1), (4, 6, 5), (5, 2, 1), (5, 3, 1), (5, 4, 6), (6, 2, 1), (6, 3, 7),
             (7, 2, 1), (7, 3, 1), (8, 2, 1), (9, 2, 1), (10, 2, 1), (1, 60, 20),
             (1, 100, 40), (2, 12, 28)]
    for dims, n, ig in more:
        for kind in rng.sample([k for k in KINDS if n <= 64 or k not in (
                "sparse", "exponential")], 3):
            yield "fit", {"dims": dims, "n": n, "kind": kind, "ignored": ig,
                          "nel": rng.choice([1, 3, 40]), "scale": 1.0,
                          "dtype": "float64", "layout": rng.choice(["C", "F"]),
                          "seed": rng.randrange(10**6)}
    for n in (3, 8, 20, 40, 60, 75, 200):
        yield "underflow", {"n": n}
    for nel in (130, 300, 520, 1100, 6000):
        yield "fit", {"dims": 2, "n": 3, "kind": "noisy", "ignored": 1, "nel": nel,
                      "scale": 1.0, "dtype": "float64", "layout": "C",
                      "seed": rng.randrange(10**6)}
    for n in (45, 64, 90, 128, 150):
        yield "power", {"n": n, "seed": rng.randrange(10**6)}
    for n in range(4, 41):
        for _ in range(rep):
            yield "power", {"n": n, "seed": rng.randrange(10**6)}
    for dims in range(1, 4):
        for n in range(3, top[dims]+1):
            for kind in KINDS:
                if not thorough and rng.random() < 0.5:
                    continue
                yield "relations", {"dims": dims, "n": n, "kind": kind,
                                    "seed": rng.randrange(10**6)}
            for _ in range(rep):
                yield "faster", {"dims": dims, "n": n, "seed": rng.randrange(10**6)}
            yield "constant", {"dims": dims, "n": n, "seed": rng.randrange(10**6)}
    for kind in ("random", "sparse", "ties", "int", "f32", "decay", "grow", "F"):
        for nm in (2, 3, 4, 5, 8, 21, 60):
            for _ in range(rep):
                yield "skyline", {"nel": rng.choice([0, 1, 2, 5]), "nmodes": nm,
                                  "kind": kind, "seed": rng.randrange(10**6)}
    # small amplitudes hold; the large one is the listed finding
    for scale in (1e-5, 1e-4, 1e-3, 1e6):
        yield "amplitude", {"n": 8, "p": 2, "scale": scale}
