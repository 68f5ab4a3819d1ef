"""P11: symbolic basis functions."""
from __future__ import annotations

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("differential oracle: three independent consumers of the symbolic "
             "expression (vectorised evaluator, lazy scalar evaluator, generated "
             "Python code) against numerical evaluation")
LEVEL_NOTE = (
    "Every function and gradient of every sampled basis is symbolised and evaluated "
    "at vertices, edges, points next to collapsed edges and random points; orders "
    "are swept for simplices and sampled for products.")

RULE = ("one case per (kind of basis, shape, orders) and per Jacobi parameters; "
        "non-trivial if the evaluated expression was compared with the function at "
        "every point.")
ASSUMPTIONS = ["the expression is evaluated in double precision by evaluators "
               "derived from pymbolic's; tolerance 1e-11 relative to the largest "
               "value of the basis at the point"]
REQUIRED = ("symbolic value", "symbolic gradient", "variables", "components",
            "lazy scalar evaluation", "generated code", "symbolic jacobi")


def evaluators():
    from pymbolic.mapper.evaluator import EvaluationMapper

    class Vec(EvaluationMapper):
        def map_if(self, expr):
            return np.where(self.rec(expr.condition), self.rec(expr.then),
                            self.rec(expr.else_))

    return Vec, EvaluationMapper


def variables(expr):
    from pymbolic.mapper.dependency import DependencyMapper
    from pymbolic.primitives import ExpressionNode
    if not isinstance(expr, ExpressionNode):
        return set(), set()
    deps = DependencyMapper(composite_leaves=False)(expr)
    names = {d.name for d in deps}
    subs = DependencyMapper(include_subscripts=True, include_calls=False)(expr)
    idx = set()
    for s in subs:
        i = getattr(s, "index_tuple", None)
        if i is not None and len(i) == 1:
            idx.add(int(i[0]))
    return names, idx


def generated(exprs, name, x):
    """Python code generated from the expressions (common subexpressions split),
    run for each point"""
    from pymbolic.mapper.stringifier import (
        CSESplittingStringifyMapperMixin, StringifyMapper)

    class S(CSESplittingStringifyMapperMixin, StringifyMapper):
        pass

    m = S()
    results = [m(e) for e in exprs]
    code = "\n".join(f"    {n} = {v}" for n, v in m.cse_name_list)
    src = f"def f({name}):\n{code}\n    return [{', '.join(results)}]\n"
    ns = {"abs": abs}
    exec(compile(src, "<generated>", "exec"), ns)
    with np.errstate(all="ignore"):
        return np.array([ns["f"](x[:, i].copy()) for i in range(x.shape[1])],
                        dtype=float).T


def bc(v, n):
    v = np.asarray(v)
    return np.broadcast_to(v, (n,)) if v.ndim == 0 else v


def check_one(t, f, dim, x, scale, name, what, cheap, detail):
    import modepy as mp
    Vec, Lazy = evaluators()
    num = f(x)
    sym = mp.symbolicize_function(f, dim) if name is None else \
        mp.symbolicize_function(f, dim, name)
    var = name or "r"
    ntup = isinstance(num, tuple)
    if not t.true("components", isinstance(sym, tuple) == ntup
                  and (not ntup or len(sym) == len(num) == dim),
                  f"{type(sym).__name__} for {type(num).__name__} {detail}"):
        return
    syms = sym if ntup else (sym,)
    nums = num if ntup else (num,)
    n = x.shape[1]
    for c, (s, v) in enumerate(zip(syms, nums, strict=True)):
        if cheap != "light":        # (walks shared subexpressions repeatedly)
            names, idx = variables(s)
            t.true("variables", names <= {var, "abs"}
                   and all(0 <= i < dim for i in idx), f"{names} {idx} {detail}")
        v = bc(v, n)
        sc = scale if what == "symbolic value" else np.maximum(scale, np.abs(v))
        with np.errstate(all="ignore"):
            t.close(what, bc(Vec({var: x, "abs": abs})(s), n), v, 1e-11*sc+1e-14,
                    f"component {c} {detail}")
            if not cheap:
                pts = range(0, n, max(1, n//12))
                got = []
                for i in pts:
                    got.append(float(Lazy({var: x[:, i], "abs": abs})(s)))
                t.close("lazy scalar evaluation", np.array(got), v[list(pts)],
                        (1e-11*sc+1e-14)[list(pts)], f"component {c} {detail}")
    if not cheap:
        # other variables for the same function, and the first ones again
        for other in ("q_", var):
            again = mp.symbolicize_function(f, dim, other)
            again = again if isinstance(again, tuple) else (again,)
            for s0, s in zip(syms, again, strict=True):
                names, idx = variables(s)
                t.true("variables", names <= {other, "abs"}, f"{names} {detail}")
                t.true("variables", bool(idx) == bool(variables(s0)[1]), detail)
                if other == var:
                    t.true("variables", s == s0, f"second call differs: {detail}")
    if not cheap:
        sub = x[:, ::max(1, n//12)]
        vv = np.array([bc(v, n) for v in nums]).reshape(len(nums), n)[
            :, ::max(1, n//12)]
        sc = np.maximum(scale[::max(1, n//12)], np.abs(vv).max(axis=0, initial=0))
        t.close("generated code", generated(syms, var, sub).reshape(vv.shape), vv,
                np.broadcast_to(1e-11*sc+1e-14, vv.shape), detail)


def basis(t, kind, desc, orders, name, seed):
    import modepy as mp
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    make = {"onb": mp.orthonormal_basis_for_space, "default": mp.basis_for_space,
            "mono": mp.monomial_basis_for_space}[kind]
    b = make(C.mk_space(desc, orders), C.mk_shape(desc))
    rng = C.nprng(seed)
    x = ref.hostile_points(desc, rng)
    nf = len(b.functions)
    full = set(rng.choice(nf, size=min(nf, 6), replace=False).tolist())
    light = sum(m for m in orders) > 20
    scale = np.max([np.abs(bc(f(x), x.shape[1])) for f in b.functions], axis=0)
    for i, (m, f) in enumerate(zip(b.mode_ids, b.functions, strict=True)):
        check_one(t, f, dim, x, scale, name, "symbolic value",
                  "light" if light else i not in full,
                  f"{kind} {desc} {orders} mode {m}")
    if desc == ():
        gscale = np.ones(x.shape[1])
        for f in b.gradients:
            t.true("components", mp.symbolicize_function(f, 0) == () == f(x))
    elif desc != (0,):
        gr = [g(x) for g in b.gradients]
        gscale = np.max([np.abs(np.array([bc(gi, x.shape[1]) for gi in g])).max(
            axis=0, initial=0) for g in gr], axis=0)
        for i, (m, f) in enumerate(zip(b.mode_ids, b.gradients, strict=True)):
            check_one(t, f, dim, x, gscale, name, "symbolic gradient",
                      "light" if light else i not in full, f"grad {kind} {desc} {orders} mode {m}")
        for ax in range(dim):
            for i, (m, f) in enumerate(zip(b.mode_ids, b.derivatives(ax),
                                           strict=True)):
                if i in full:
                    check_one(t, f, dim, x, gscale, name, "symbolic derivative",
                              "light" if light else True, f"d{ax} {kind} {desc} {orders} mode {m}")
    t.state(kind, desc, orders, name)
    t.note(functions=nf)
    t.show(kind=kind, shape=desc, orders=orders, functions=nf,
           points=int(x.shape[1]))


def jac_high(t, a, b, n, seed):
    jac(t, a, b, n, seed, sorted({n, n-1, n//2, n//3}))


def jac(t, a, b, n, seed, ks=None):
    import modepy as mp
    x = np.concatenate([[[-1, 1, 0]], C.nprng(seed).uniform(-1, 1, (1, 20))], axis=1)
    run = np.zeros(x.shape[1])
    for k in range(n+1) if ks is None else ks:
        for nm, fn in (("jacobi", mp.jacobi), ("grad", mp.grad_jacobi)):
            def f(r, fn=fn, k=k):
                return fn(a, b, k, r[0])
            v = f(x)
            run = np.maximum(run, np.abs(v))
            check_one(t, f, 1, x, run, None, "symbolic jacobi",
                      k % 4 != 0 if ks is None else "light",
                      f"{nm} alpha={a} beta={b} n={k}")
    t.state("jacobi", a, b)


GROUPS = {"basis": basis, "jac": jac, "jac_high": jac_high}

NAMES = [None, None, "r", "s", "xi", "ref_coord"]


def cases(tier, rng):
    thorough = tier == "thorough"
    hi = {0: 3, 1: 24 if thorough else 16, 2: 14 if thorough else 9,
          3: 9 if thorough else 6}
    for desc in [(0,), (), (1,), (2,), (3,), (1, 1), (1, 1, 1), (2, 1), (1, 2),
                 (3, 1), (1, 3), (1, 2, 1), (1, 1, 1, 1), (4,)]:
        top = hi.get(desc[0], 4) if len(desc) == 1 else \
            C.max_order(desc, 250 if thorough else 90)
        if desc == ():
            top = 0
        top = min(top, 12 if len(desc) > 1 else 40)
        for o in range(top+1):
            for kind in ("onb", "mono", "default"):
                if desc in ((), (0,)) and kind == "mono" and o > 1:
                    continue
                if desc == (4,) and kind == "onb":
                    continue
                if kind == "default" and o % 4 != 2:
                    continue
                yield "basis", {"kind": kind, "desc": list(desc),
                                "orders": [o]*len(desc), "name": rng.choice(NAMES),
                                "seed": rng.randrange(10**6)}
        if len(desc) > 1:
            for _ in range(25 if thorough else 4):
                o = C.random_orders(desc, rng, 250 if thorough else 90)
                yield "basis", {"kind": rng.choice(["onb", "mono"]),
                                "desc": list(desc), "orders": list(o),
                                "name": rng.choice(NAMES),
                                "seed": rng.randrange(10**6)}
    # high orders
    for desc, o in (((1,), 22), ((1,), 33), ((1,), 48), ((2,), 11), ((2,), 13),
                    ((3,), 8), ((3,), 9), ((1, 1), 13), ((1, 2), 7), ((2, 1), 7),
                    ((1, 1, 1), 5), ((3, 1), 5)):
        for kind in ("onb", "mono"):
            if kind == "mono" and o > 33:
                continue
            yield "basis", {"kind": kind, "desc": list(desc), "orders": [o]*len(desc),
                            "name": rng.choice(NAMES), "seed": rng.randrange(10**6)}
    for a, b, n in [(0, 0, 64), (0, 0, 110), (2, 0, 40), (-0.5, 0.5, 40)]:
        yield "jac_high", {"a": a, "b": b, "n": n, "seed": rng.randrange(10**6)}
    for a, b in [(0, 0), (-0.5, -0.5), (0.5, 0.5), (0, 1), (2, 0), (3, 2)]:
        yield "jac", {"a": a, "b": b, "n": 20, "seed": rng.randrange(10**6)}
    for _ in range(60 if thorough else 10):
        yield "jac", {"a": rng.uniform(-0.99, 6), "b": rng.uniform(-0.99, 6),
                      "n": 12, "seed": rng.randrange(10**6)}
