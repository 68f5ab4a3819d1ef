"""P23: tools for constructing quadrature rules."""
from __future__ import annotations

import warnings

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("evaluation monitors on trees of combined functions; Gram matrices, normal "
             "equations, finite differences and independently assembled operators as "
             "oracles; convergence histories of Gauss-Newton runs")
LEVEL_NOTE = (
    "Randomly nested combinations, real and complex bases on intervals, triangles, "
    "squares and tetrahedra, square, over- and underdetermined weight problems, random "
    "and structured residuals; orders up to a bound.")

RULE = ("one case per combination tree, basis, node set or Gauss-Newton run; "
        "non-trivial if at least one function or matrix was compared.")
ASSUMPTIONS = ["inner products are computed by an independent collapsed Gauss rule, "
               "exact for the integrands passed"]
REQUIRED = ("combination value", "flattened", "arguments unchanged", "orthonormal",
            "nested spans", "weights reproduce integrals", "weights least squares",
            "mismatched lengths rejected", "residual", "derivative weights",
            "derivative nodes", "finite differences", "increment solves",
            "increment least squares", "increment minimum norm", "increment shape",
            "gauss-newton converges", "guess equals operator eigenvalues",
            "guess contained", "guess symmetric", "guess is gauss in 1D",
            "adapted functions", "underdetermined warning")


_memo = {}


def modes(desc, n, x, grad=False):
    """reference modes in double precision, remembered per point set (functions of a
    basis are evaluated one at a time by the tools under test)"""
    x = np.asarray(x)
    key = (desc, n, grad, x.shape, x.tobytes())
    if key not in _memo:
        if len(_memo) > 60:
            _memo.clear()
        o = (n,)*len(desc)
        if grad:
            keys, _v, g = ref.tp_vander_grad(desc, o, x)
            _memo[key] = keys, g.astype(float)
        else:
            keys, v = ref.tp_vander(desc, o, x)
            _memo[key] = keys, v.T.astype(float)
    return _memo[key]


# {{{ linear combinations

def _base_functions(rng, n, cplx):
    fs = []
    for i in range(n):
        a, b, c = rng.normal(size=3)
        if cplx and i % 2:
            fs.append(lambda x, a=a, b=b, c=c: np.exp(1j*(a*x[0] + b*x[-1]) + 0.2*c))
        else:
            fs.append(lambda x, a=a, b=b, c=c: np.cos(a*x[0] + b*x[-1] + c))
    return fs


def _coeffs(rng, n, cplx):
    c = rng.normal(size=n)
    return c + 1j*rng.normal(size=n) if cplx else c


def combine(t, depth, shared, cplx, cont, seed):
    """combinations of combinations; *shared*: how the bases relate"""
    from modepy.quadrature.construction import (
        LinearCombinationIntegrand,
        linearly_combine,
    )
    rng = C.nprng(seed)
    base = _base_functions(rng, 6, cplx)
    wrap = tuple if cont == "tuple" else list
    x = rng.normal(size=(2, 9))
    xk = x.copy()
    vals = {id(f): f(x) for f in base}
    made = []            # (object, expected value, coefficients copy)

    # level 0: plain functions
    level = [(f, vals[id(f)]) for f in base]
    for lev in range(depth):
        new = []
        if lev == 0:
            for i in range(4):
                if shared == "same":
                    sel = list(range(6))
                elif shared == "prefix":
                    sel = list(range(1+i+int(rng.integers(0, 2))))
                    if i == 0:
                        sel = list(range(int(rng.integers(1, 7))))
                elif shared == "disjoint":
                    sel = [i, (i+1) % 6]
                elif shared == "permuted":
                    sel = [int(k) for k in rng.permutation(6)]
                elif shared == "mixed":
                    sel = list(range(6))
                else:
                    sel = [0, 0, 1, 1, 2]      # repeated functions
                co = _coeffs(rng, len(sel), cplx and i % 2 == 0)
                fl = wrap(base[k] for k in sel)
                new.append((co, fl, sum((c*vals[id(base[k])]
                                         for c, k in zip(co, sel, strict=True)),
                                        np.zeros(9))))
        else:
            for i in range(3):
                sel = [int(k) for k in rng.integers(0, len(level), 1+int(
                    rng.integers(0, 4)))]
                co = _coeffs(rng, len(sel), cplx)
                items = [level[k] for k in sel]
                if shared == "mixed" and i == 0:
                    items[0] = (base[0], vals[id(base[0])])
                fl = wrap(it[0] for it in items)
                new.append((co, fl, sum((c*it[1]
                                         for c, it in zip(co, items, strict=True)),
                                        np.zeros(9))))
        nxt = []
        for co, fl, exp in new:
            keep = co.copy()
            flk = list(fl)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                lc = linearly_combine(co, fl)
            made.append((lc, exp))
            t.true("arguments unchanged", np.array_equal(co, keep)
                   and len(fl) == len(flk)
                   and all(a is b for a, b in zip(fl, flk, strict=True)),
                   f"level {lev} {shared}")
            if shared in ("same", "prefix", "repeated"):
                t.true("flattened", not any(
                    isinstance(f, LinearCombinationIntegrand) for f in lc.functions),
                    f"level {lev} {shared} {cont}")
            t.true("combination value", len(lc.coefficients) == len(lc.functions))
            nxt.append((lc, exp))
        level = nxt
        # every combination made so far, old ones too, still has its value
        for lc, exp in made:
            t.close("combination value", lc(x)*np.ones(9), exp,
                    1e-11*(1+np.abs(exp).max()), f"level {lev} {shared} cplx={cplx}")
    t.true("arguments unchanged", np.array_equal(x, xk), "points")
    # an empty combination is zero
    t.close("combination value", linearly_combine(np.zeros(0), wrap([]))(x)*np.ones(9),
            np.zeros(9), 0, "empty")
    t.state("combine", depth, shared, cplx, cont)
    t.note(combinations=len(made))


# }}}


# {{{ orthogonalisation

def long(t, n, cplx, seed):
    """combinations of many functions, and of combinations of many functions"""
    from modepy.quadrature.construction import linearly_combine
    rng = C.nprng(seed)
    x = rng.normal(size=(2, 5))
    fs = [(lambda y, k=k: np.cos(k*y[0] + 0.3*y[1]) + k % 3) for k in range(n)]
    vals = np.array([f(x) for f in fs])
    a = np.array([_coeffs(rng, n, cplx) for _ in range(n//2)])
    lev = [linearly_combine(row, fs) for row in a]
    for f, row in zip(lev, a, strict=True):
        t.close("combination value", f(x), row @ vals, 1e-13*n*n**0.5, f"{n} functions")
    b = _coeffs(rng, len(lev), cplx)
    t.close("combination value", linearly_combine(b, lev)(x), (b @ a) @ vals,
            1e-12*n**1.5, f"{n} combinations of {n} functions")
    t.state("long", n, cplx)
    t.show(functions=n, combinations=len(lev))


def _domain(name):
    return {"interval": (1,), "triangle": (2,), "square": (1, 1), "tet": (3,)}[name]


def _poly_basis(rng, desc, n, cplx):
    """a well-conditioned but not orthogonal basis of polynomials, low degree first"""
    keys = sorted(ref.tp_vander(desc, (n,)*len(desc), np.zeros((sum(desc), 1)))[0],
                  key=sum)
    fs = []
    for i, k in enumerate(keys):
        co = {kk: 0.3*rng.normal() for kk in keys[:i]}
        co[k] = 1.0
        im = {kk: 0.3*rng.normal() for kk in keys[:i]} if cplx else None

        def f(x, co=co, im=im):
            ks, v = modes(desc, n, x)
            r = np.array([co.get(kk, 0.0) for kk in ks]) @ v
            if im:
                r = r + 1j*(np.array([im.get(kk, 0.0) for kk in ks]) @ v)
            return r
        fs.append(f)
    return fs


def ortho(t, domain, n, cplx, seed):
    import numpy.linalg as la

    from modepy.quadrature.construction import orthogonalize_basis
    rng = C.nprng(seed)
    desc = _domain(domain)
    q, w = C.tp_quad(desc, n+1)
    fs = _poly_basis(rng, desc, n, cplx)
    if cplx == "phase":
        ph = np.exp(2j*np.pi*rng.random(len(fs)))
        fs = [(lambda x, f=f, p=p: p*f(x)) for f, p in zip(fs, ph, strict=True)]
    calls = []

    def integrate(f):
        v = f(q)
        calls.append(np.shape(v))
        return np.sum(w*v)

    onb = orthogonalize_basis(integrate, fs if seed % 2 else tuple(fs))
    name = f"{domain} n={n} cplx={cplx}"
    if not t.true("orthonormal", len(onb) == len(fs), name):
        return
    vq = np.array([f(q)*np.ones(len(w)) for f in onb])
    gram = (vq*w) @ vq.conj().T
    vb = np.array([f(q) for f in fs])
    cc = la.cond((vb*w) @ vb.conj().T)
    t.close("orthonormal", gram, np.eye(len(fs)), 1e-14*(100+cc)*len(fs), name)
    # <q_i, b_j> = 0 for j < i and b_i in span(q_0..q_i)
    cross = (vb*w) @ vq.conj().T        # b_i = sum_j cross[i, j] q_j
    nrm = np.sqrt(np.abs(np.sum(w*np.abs(vb)**2, axis=1)))[:, None]
    t.close("nested spans", np.triu(cross, 1), np.zeros_like(cross),
            1e-14*(100+cc)*len(fs)*nrm, name)
    t.true("nested spans", np.all(np.abs(np.diag(cross)) > 1e-3*nrm[:, 0]
                                  / np.sqrt(cc)), name)
    # as functions, not only at the quadrature nodes
    y = ref.random_points(desc, 8, rng)
    qy = np.array([f(y)*np.ones(8) for f in onb])
    by = np.array([f(y) for f in fs])
    t.close("nested spans", cross @ qy, by, 1e-12*(10+cc)*(1+np.abs(by).max()),
            "pointwise " + name)
    if not cplx:
        t.true("orthonormal", np.abs(np.imag(qy)).max() < 1e-13, "real stays real "+name)
    t.true("arguments unchanged", len(calls) > 0)
    t.state("ortho", domain, n, cplx)
    t.show(domain=domain, n=n, complex=cplx, gram_error=float(
        np.abs(gram-np.eye(len(fs))).max()))


def trig(t, k, shift, seed):
    """complex exponentials with a positive weight function"""
    from modepy.quadrature.construction import orthogonalize_basis
    q, w = C.tp_quad((1,), 60)
    fs = [(lambda x, m=m: np.exp(1j*m*np.pi*(x[0]*0.5+shift))) for m in range(k+1)]
    onb = orthogonalize_basis(lambda f: np.sum(w*(1.5+q[0])*f(q)), fs)
    v = np.array([f(q)*np.ones(len(w)) for f in onb])
    g = (v*w*(1.5+q[0])) @ v.conj().T
    vb = np.array([f(q) for f in fs])
    cc = np.linalg.cond((vb*w*(1.5+q[0])) @ vb.conj().T)
    t.close("orthonormal", g, np.eye(k+1), 1e-14*(100+cc)*(k+1), f"trig k={k}")
    cross = (vb*w*(1.5+q[0])) @ v.conj().T
    t.close("nested spans", np.triu(cross, 1), np.zeros_like(cross), 1e-14*(100+cc)*9,
            f"trig k={k}")
    t.state("trig", k)

# }}}


# {{{ weights

def weights(t, domain, n, how, form, cplx, seed, scales=0):
    import modepy as mp
    from modepy.quadrature.construction import find_weights_undetermined_coefficients
    rng = C.nprng(seed)
    desc = _domain(domain)
    dim = sum(desc)
    fs = _poly_basis(rng, desc, n, cplx)
    if scales:
        # functions of very different magnitude span the same space
        fs = [(lambda x, f=f, c=c: c*f(x))
              for f, c in zip(fs, 10.0**-rng.uniform(0, scales, len(fs)))]
    q, w = C.tp_quad(desc, n//2+2)
    integ = np.array([np.sum(w*f(q)) for f in fs])
    nf = len(fs)
    nn = {"square": nf, "under": nf+int(rng.integers(1, 6)),
          "over": max(1, nf-int(rng.integers(1, 4)))}[how]
    x = C.fekete_like(desc, (n,)*len(desc), rng)
    if how == "under":
        x = np.hstack([x, ref.random_points(desc, nn-nf, rng)])
    elif how == "over":
        x = x[:, :nn]
    x = x[:, rng.permutation(x.shape[1])]
    if form == "1d" and dim == 1:
        fs = [(lambda s, f=f: f(s[None] if s.ndim == 1 else s)) for f in fs]
        x = x[0]
    xk, ik = x.copy(), integ.copy()
    name = f"{domain} n={n} {how} cplx={cplx} {form}"
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ww = find_weights_undetermined_coefficients(fs, x, integ)
    under = x.shape[-1] > nf
    t.true("underdetermined warning", any(
        "nderdetermined" in str(r.message) for r in rec) == under, name)
    t.true("arguments unchanged", np.array_equal(x, xk) and np.array_equal(integ, ik),
           name)
    a = np.array([f(x) for f in fs])            # (nf, nn)
    if not t.true("weights shape", ww.shape == (x.shape[-1],), name):
        return
    c = np.linalg.cond(a)
    if how != "over":
        t.close("weights reproduce integrals", a @ ww, integ, 1e-13*(10+c)*(1+np.abs(
            a).sum(axis=1)), name)
        if c < 1e11:
            # a backward stable solution leaves a residual of rounding size,
            # whatever the condition number
            t.close("weights reproduce integrals", a @ ww, integ,
                    1e-14*(10+nf+x.shape[-1])*np.linalg.norm(a, 2)
                    * (1+np.linalg.norm(ww)), name)
    res = a @ ww - integ
    t.close("weights least squares", a.conj().T @ res, np.zeros(x.shape[-1]),
            1e-12*(10+c)*(1+np.abs(a).max()**2*nf), name)
    if how == "over" and nn >= 1:
        # nothing does better
        best = np.linalg.norm(res)
        for _ in range(5):
            dw = rng.normal(size=len(ww))*0.1
            t.true("weights least squares",
                   np.linalg.norm(a @ (ww+dw) - integ) >= best*(1-1e-12), name)
    if how == "under":
        # minimum norm among the solutions: in the row space
        _u, _s, vh = np.linalg.svd(a)
        null = vh[nf:]
        t.close("weights minimum norm", null.conj() @ ww if not cplx else null @ ww,
                np.zeros(len(null)), 1e-11*(10+c), name)
    for bad in (integ[:-1], np.append(integ, 1.0)):
        if len(bad) != nf:
            t.raises("mismatched lengths rejected", ValueError,
                     lambda bad=bad: find_weights_undetermined_coefficients(fs, x, bad),
                     name)
    # the deduced rule is the Gauss rule on Gauss nodes
    if desc == (1,) and how == "square" and not cplx and form != "1d" and not scales:
        g = mp.LegendreGaussQuadrature(n, force_dim_axis=True)
        wg = find_weights_undetermined_coefficients(fs, g.nodes, integ)
        t.close("weights reproduce integrals", wg, g.weights, 1e-11*(1+n), name)
    t.state("weights", domain, n, how, cplx)

# }}}


# {{{ residual and Gauss-Newton

def _members(desc, n, rng, cplx):
    """random combinations of the orthonormal modes and their gradients"""
    keys = ref.tp_vander(desc, (n,)*len(desc), np.zeros((sum(desc), 1)))[0]
    nf = len(keys)
    m = np.linalg.qr(rng.normal(size=(nf, nf)))[0]
    if cplx:
        m = m + 0.5j*np.linalg.qr(rng.normal(size=(nf, nf)))[0]

    def val(x):
        return m @ modes(desc, n, x)[1]

    def grad(x, ax):
        return m @ modes(desc, n, x, grad=True)[1][ax].T

    fs = [(lambda x, i=i: val(x)[i]) for i in range(nf)]
    gs = [[(lambda x, i=i, ax=ax: grad(x, ax)[i]) for i in range(nf)]
          for ax in range(sum(desc))]
    q, w = C.tp_quad(desc, n//2+2)
    return fs, gs, val(q) @ w, val, grad


def residual(t, domain, n, nn, form, cplx, seed):
    from modepy.quadrature.construction import (
        quad_gauss_newton_increment,
        quad_residual_and_jacobian,
    )
    rng = C.nprng(seed)
    desc = _domain(domain)
    dim = sum(desc)
    fs, gs, integ, val, grad = _members(desc, n, rng, cplx)
    nf = len(fs)
    x = ref.random_points(desc, nn, rng)
    w = rng.normal(size=nn)
    xk, wk, ik = x.copy(), w.copy(), integ.copy()
    name = f"{domain} n={n} nn={nn} {form} cplx={cplx}"
    if form == "1d" and dim == 1:
        f1 = [(lambda s, f=f: f(np.atleast_2d(s))) for f in fs]
        g1 = [[(lambda s, f=f: f(np.atleast_2d(s))) for f in gs[0]]]
        arg = x[0]
        r = quad_residual_and_jacobian(arg, w, f1, g1, integ)
    else:
        r = quad_residual_and_jacobian(x, w, tuple(fs) if seed % 2 else fs, gs, integ)
    t.true("arguments unchanged", np.array_equal(x, xk) and np.array_equal(w, wk)
           and np.array_equal(integ, ik), name)
    v = val(x)
    sc = 1+np.abs(v).max(initial=0)
    t.close("residual", r.residual, v @ wk - ik, 1e-12*sc*(nn+1), name)
    t.close("derivative weights", r.dresid_dweights, v, 1e-12*sc, name)
    exp = np.hstack([grad(x, ax)*wk for ax in range(dim)])
    t.close("derivative nodes", r.dresid_dnodes, exp, 1e-11*(1+np.abs(exp).max()), name)
    # as derivatives of the residual itself
    dw, dx = rng.normal(size=nn), rng.normal(size=(dim, nn))
    h = 1e-5

    def at(s):
        if form == "1d" and dim == 1:
            return quad_residual_and_jacobian((x + s*dx)[0], w + s*dw, f1, g1,
                                              integ).residual
        return quad_residual_and_jacobian(x + s*dx, w + s*dw, fs, gs, integ).residual
    fd = (8*(at(h)-at(-h)) - (at(2*h)-at(-2*h)))/(12*h)
    lin = r.dresid_dweights @ dw + r.dresid_dnodes @ dx.reshape(-1)
    t.close("finite differences", fd, lin, 1e-7*(1+np.abs(exp).max())*nn*(1+n)**4, name)
    # increment
    wi, xi = quad_gauss_newton_increment(r)
    if t.true("increment shape", wi.shape == (nn,) and xi.shape == (dim, nn),
              f"{wi.shape} {xi.shape} {name}"):
        jac = np.hstack([v, exp])
        full = np.concatenate([wi, xi.reshape(-1)])
        u, s, vh = np.linalg.svd(jac, full_matrices=False)
        # clear-cut rank only
        rank = int((s > 1e-9*s[0]).sum())
        if not np.any((s > 1e-14*s[0]) & (s < 1e-9*s[0])):
            ref_inc = -(vh[:rank].conj().T @ ((u[:, :rank].conj().T @ r.residual)
                                              / s[:rank]))
            t.close("increment solves", full, ref_inc,
                    1e-12*(10+s[0]/s[rank-1])*(1+np.abs(ref_inc).max())*s[0]/s[rank-1],
                    name)
    for bad in (gs[:-1], [*gs, gs[0]], [g[:-1] for g in gs]):
        if __debug__:
            t.raises("mismatched lengths rejected", ValueError,
                     lambda bad=bad: quad_residual_and_jacobian(x, w, fs, bad, integ),
                     name)
    t.state("residual", domain, n, nn, form, cplx)


def increment(t, nf, nn, dim, rank, seed):
    """the increment for synthetic residuals with known singular values"""
    from modepy.quadrature.construction import (
        QuadratureResidualJacobian,
        quad_gauss_newton_increment,
    )
    rng = C.nprng(seed)
    ncol = nn*(dim+1)
    k = min(nf, ncol)
    rank = min(rank, k) or k
    u = np.linalg.qr(rng.normal(size=(nf, nf)))[0][:, :rank]
    v = np.linalg.qr(rng.normal(size=(ncol, ncol)))[0][:, :rank]
    s = rng.uniform(0.5, 3, rank)
    jac = (u*s) @ v.T
    res = rng.normal(size=nf)
    jw, jx = jac[:, :nn].copy(), jac[:, nn:].copy()
    kw, kx, kr = jw.copy(), jx.copy(), res.copy()
    wi, xi = quad_gauss_newton_increment(QuadratureResidualJacobian(
        residual=res, dresid_dweights=jw, dresid_dnodes=jx))
    name = f"nf={nf} nn={nn} dim={dim} rank={rank}"
    t.true("arguments unchanged", np.array_equal(jw, kw) and np.array_equal(jx, kx)
           and np.array_equal(res, kr), name)
    if not t.true("increment shape", wi.shape == (nn,) and xi.shape == (dim, nn), name):
        return
    full = np.concatenate([wi, *[xi[a] for a in range(dim)]])
    exp = -(v @ ((u.T @ kr)/s))
    t.close("increment solves", full, exp, 1e-11*(1+np.abs(exp).max()), name)
    t.close("increment least squares", jac.T @ (jac @ full + kr), np.zeros(ncol), 1e-10,
            name)
    t.close("increment minimum norm", full - v @ (v.T @ full), np.zeros(ncol), 1e-10,
            name)
    t.state("increment", nf, nn, dim, rank)


def newton(t, rule, n, eps, seed):
    """iterating from a perturbed exact rule converges back to an exact rule"""
    import modepy as mp
    from modepy.quadrature.construction import (
        quad_gauss_newton_increment,
        quad_residual_and_jacobian,
    )
    rng = C.nprng(seed)
    if rule == "gauss":
        q, desc, deg = mp.LegendreGaussQuadrature(n, force_dim_axis=True), (1,), 2*n+1
    elif rule == "xg2":
        q, desc, deg = mp.XiaoGimbutasSimplexQuadrature(n, 2), (2,), n
    elif rule == "xg3":
        q, desc, deg = mp.XiaoGimbutasSimplexQuadrature(n, 3), (3,), n
    else:
        q, desc, deg = mp.VioreanuRokhlinSimplexQuadrature(n, 2), (2,), None
        deg = q.exact_to
    x, w = np.array(q.nodes), np.array(q.weights)
    space, shape = mp.PN(desc[0], deg), mp.Simplex(desc[0])
    b = mp.orthonormal_basis_for_space(space, shape)
    integ = np.zeros(len(b.functions))
    integ[0] = float(ref.shape_volume(desc))**0.5
    gs = [b.derivatives(ax) for ax in range(desc[0])]
    x = x + eps*rng.uniform(-1, 1, x.shape)
    w = w*(1 + eps*rng.uniform(-1, 1, w.shape))
    hist = []
    for _ in range(14):
        r = quad_residual_and_jacobian(x, w, b.functions, gs, integ)
        hist.append(float(np.abs(r.residual).max()))
        if hist[-1] < 1e-13:
            break
        dw, dx = quad_gauss_newton_increment(r)
        x, w = x + dx, w + dw
    name = f"{rule} n={n} eps={eps} history {['%.1e' % h for h in hist]}"
    t.le("gauss-newton converges", min(hist), 1e-11*(1+deg), name)
    # independent check of the resulting rule
    _k, v = ref.tp_vander(desc, (deg,), x)
    t.close("gauss-newton converges", v.astype(float).T @ w, integ, 1e-10*(1+deg),
            "independent " + name)
    t.state("newton", rule, n)
    t.note(iterations=len(hist))
    t.show(rule=rule, n=n, eps=eps, residuals=hist)

# }}}


# {{{ node guesses

def guess(t, domain, n, cplx, seed):
    from modepy.quadrature.construction import (
        adapt_2d_integrands_to_complex_arg,
        guess_nodes_vioreanu_rokhlin,
    )
    rng = C.nprng(seed)
    real = domain == "interval"
    if domain == "interval":
        desc, tf = (1,), None
    elif domain in ("triangle", "equilateral"):
        desc = (2,)
    else:
        desc = (1, 1)
    q, w = C.tp_quad(desc, n+2)
    keys = ref.tp_vander(desc, (n,)*len(desc), np.zeros((sum(desc), 1)))[0]
    nf = len(keys)
    # an affine image of the reference shape
    if domain == "equilateral":
        v = np.exp(2j*np.pi*(np.arange(3)/3 + 0.1))
        amat = np.array([[(v[1]-v[0]).real/2, (v[2]-v[0]).real/2],
                         [(v[1]-v[0]).imag/2, (v[2]-v[0]).imag/2]])
        off = np.array([((v[1]+v[2])/2).real, ((v[1]+v[2])/2).imag])
    elif real:
        amat, off = np.eye(1), np.zeros(1)
    else:
        amat, off = np.eye(2), np.zeros(2)
    det = abs(np.linalg.det(amat))
    ainv = np.linalg.inv(amat)
    rot = np.linalg.qr(rng.normal(size=(nf, nf)))[0] if cplx != "plain" else np.eye(nf)
    if cplx == "unitary":
        rot = np.linalg.qr(rng.normal(size=(nf, nf)) + 1j*rng.normal(size=(nf, nf)))[0]

    def val(p):
        return rot @ modes(desc, n, ainv @ (p - off[:, None]))[1]/np.sqrt(det)

    qq = amat @ q + off[:, None]
    ww = w*det
    fs = [(lambda p, i=i: val(p)[i]) for i in range(nf)]
    name = f"{domain} n={n} {cplx}"
    if real:
        z = qq[0]
        onb = [(lambda s, f=f: f(s[None])) for f in fs]
    else:
        z = qq[0] + 1j*qq[1]
        onb = adapt_2d_integrands_to_complex_arg(fs)
        t.close("adapted functions", np.array([f(z) for f in onb]), val(qq), 1e-13,
                name)
        zz = z.copy()
        onb[0](z)
        t.true("arguments unchanged", np.array_equal(z, zz), name)
    nodes = guess_nodes_vioreanu_rokhlin(lambda f: np.sum(ww*f(z)),
                                         onb if seed % 2 else tuple(onb))
    if not t.true("guess equals operator eigenvalues", nodes.shape == (nf,), name):
        return
    # independent: multiplication by z compressed to the space, unrotated basis
    v0 = ref.tp_vander(desc, (n,)*len(desc), q)[1].T.astype(float)
    op = (v0*w*z) @ v0.T
    ev = np.linalg.eigvals(op)

    def match(a, b):
        """largest distance in a greedy matching"""
        b = list(b)
        worst = 0
        for s in a:
            j = int(np.argmin([abs(s-u) for u in b]))
            worst = max(worst, abs(s-b[j]))
            b.pop(j)
        return worst
    # the operator is not normal: its eigenvalues' conditioning
    _w, r = np.linalg.eig(op)
    c = np.linalg.cond(r)
    tol = 1e-13*(10+c)*10
    if c < 1e8:
        t.le("guess equals operator eigenvalues", match(nodes, ev), tol, name)
    # inside the convex domain (numerical range)
    p = np.array([nodes.real, nodes.imag])[:sum(desc)]
    p = ainv @ (p - off[:, None])
    if c < 1e8:
        t.true("guess contained", bool(np.all(ref.tp_contains(desc, p, 1e-9+tol)))
               and (not real or np.abs(np.imag(nodes)).max() < 1e-9), name)
        if real:
            g = np.polynomial.legendre.leggauss(n+1)[0]
            t.close("guess is gauss in 1D", np.sort(nodes.real), g, 1e-11, name)
        if domain == "triangle":
            # reflection across the diagonal
            t.le("guess symmetric", match(1j*np.conj(nodes), nodes), 10*tol, name)
        elif domain == "square":
            t.le("guess symmetric", match(1j*nodes, nodes), 10*tol, name)
            t.le("guess symmetric", match(np.conj(nodes), nodes), 10*tol, name)
        elif domain == "equilateral":
            t.le("guess symmetric", match(np.exp(2j*np.pi/3)*nodes, nodes), 10*tol, name)
    t.state("guess", domain, n, cplx)
    t.note(conditioned=int(c < 1e8))

# }}}


GROUPS = {"combine": combine, "long": long, "ortho": ortho, "trig": trig, "weights": weights,
          "residual": residual, "increment": increment, "newton": newton,
          "guess": guess}


def cases(tier, rng):
    thorough = tier == "thorough"
    rep = 8 if thorough else 2
    for depth in (1, 2, 3, 4):
        for shared in ("same", "prefix", "disjoint", "permuted", "mixed", "repeated"):
            for cplx in (False, True):
                for _ in range(rep):
                    yield "combine", {"depth": depth, "shared": shared, "cplx": cplx,
                                      "cont": rng.choice(["list", "tuple"]),
                                      "seed": rng.randrange(10**6)}
    for n in (30, 70, 150, 300):
        yield "long", {"n": n, "cplx": n % 20 == 10, "seed": rng.randrange(10**6)}
    for dom, n in (("interval", 20), ("triangle", 9), ("square", 7), ("tet", 5)):
        for cplx in (False, True):
            yield "ortho", {"domain": dom, "n": n, "cplx": cplx,
                            "seed": rng.randrange(10**6)}
    tops = {"interval": 12, "triangle": 6, "square": 4, "tet": 4}
    for dom, top in tops.items():
        for n in range(0, top+(2 if thorough else 0)+1):
            for cplx in (False, True, "phase"):
                for _ in range(rep//2):
                    yield "ortho", {"domain": dom, "n": n, "cplx": cplx,
                                    "seed": rng.randrange(10**6)}
            for how in ("square", "under", "over"):
                for _ in range(rep):
                    yield "weights", {"domain": dom, "n": n, "how": how,
                                      "form": rng.choice(["2d", "1d"]),
                                      "cplx": rng.random() < 0.3,
                                      "seed": rng.randrange(10**6),
                                      "scales": rng.choice([0, 0, 3, 9])}
            for _ in range(2*rep):
                yield "residual", {"domain": dom, "n": n, "nn": rng.choice(
                    [1, 2, 3, 5, 9, 14]), "form": rng.choice(["2d", "1d"]),
                    "cplx": rng.random() < 0.3, "seed": rng.randrange(10**6)}
    for k in range(0, 7):
        yield "trig", {"k": k, "shift": rng.random(), "seed": 0}
    for _ in range(40*rep):
        yield "increment", {"nf": rng.randint(1, 25), "nn": rng.randint(1, 9),
                            "dim": rng.randint(1, 3), "rank": rng.choice([0, 0, 0, 1, 3]),
                            "seed": rng.randrange(10**6)}
    for rule, ns in [("gauss", range(0, 9)), ("xg2", (1, 2, 3, 4, 5, 6, 8, 10)),
                     ("xg3", (1, 2, 3, 4, 5, 6)), ("vr2", (1, 2, 3, 4, 5))]:
        for n in ns:
            for eps in (1e-5, 1e-3):
                for _ in range(rep//2):
                    yield "newton", {"rule": rule, "n": n, "eps": eps,
                                     "seed": rng.randrange(10**6)}
    for dom, top in [("interval", 14), ("triangle", 8), ("square", 5),
                     ("equilateral", 8)]:
        for n in range(0, top+1):
            for cplx in ("plain", "rotated", "unitary"):
                yield "guess", {"domain": dom, "n": n, "cplx": cplx,
                                "seed": rng.randrange(10**6)}
