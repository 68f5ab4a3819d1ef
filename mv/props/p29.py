"""P29: copies of library objects behave like the originals."""
from __future__ import annotations

import copy
import os
import pickle
import random
import subprocess
import sys
import warnings

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("differential monitoring: everything observable about an object (results of "
             "all its methods on fixed inputs, attributes, equality) is recorded for the "
             "original, for copies and for copies loaded in fresh processes, and compared; "
             "then the arrays of one copy are ruined and the others observed again")
LEVEL_NOTE = (
    "All kinds of objects the library hands out, shapes to four dimensions, products in any "
    "factor order, random orders and parameters, all pickle protocols from 2 on, copies "
    "taken before and after first use.")
RULE = ("one case per object (group copies) or bundle of objects (group process); "
        "non-trivial if an observation of a copy was compared with the original's.")
ASSUMPTIONS = ["functions returned by Basis.derivatives are not required to be picklable"]
REQUIRED = ("pickled copy", "shallow copy", "deep copy", "copy of a copy",
            "original unaffected by copying", "deep copies are independent",
            "pickled copies are independent", "same in a fresh process",
            "type preserved", "printable")


# {{{ objects

def _shape_desc(rng):
    return rng.choice([(), (0,), (1,), (2,), (3,), (4,), *C.SHAPES[3:]])


KINDS = ("shape", "space", "basis", "functions", "gradients", "derivatives", "faces",
         "spacequad", "quad1d", "quadtab", "tpquad", "kronrod", "affine", "monomial",
         "combination", "orthogonalized", "adapted", "residual", "infinity")


def make(kind, seed):
    import modepy as mp
    from modepy import tools as T
    from modepy.quadrature import construction as K
    rng = random.Random(seed)
    nrng = C.nprng(seed)
    desc = _shape_desc(rng)
    big = desc == (4,)
    orders = C.random_orders(desc, rng, 40)
    if kind == "shape":
        return C.mk_shape(desc)
    if kind == "space":
        return C.mk_space(desc, orders)
    if kind in ("basis", "functions", "gradients", "derivatives"):
        if desc in ((), (0,)) and kind != "functions":
            desc, orders = (1, 2), (2, 1)
        bk = "mono" if big else rng.choice(C.BASIS_KINDS)
        b = C.mk_basis(bk, desc, orders)
        if kind == "basis":
            return b
        if kind == "functions":
            return b.functions
        if kind == "gradients":
            return b.gradients
        return b.derivatives(rng.randrange(sum(desc)))
    if kind == "faces":
        return mp.faces_for_shape(rng.choice(
            [mp.Simplex(1), mp.Simplex(2), mp.Simplex(3), mp.Hypercube(2),
             mp.Hypercube(3)]))
    if kind == "spacequad":
        return mp.quadrature_for_space(C.mk_space(desc, orders), C.mk_shape(desc))
    n = rng.randint(1, 12)
    if kind == "quad1d":
        q = rng.choice([
            lambda: mp.LegendreGaussQuadrature(n, force_dim_axis=True),
            lambda: mp.JacobiGaussQuadrature(.5, -.25, n, force_dim_axis=True),
            lambda: mp.ChebyshevGaussQuadrature(n, kind=2, force_dim_axis=True),
            lambda: mp.GaussGegenbauerQuadrature(.7, n, force_dim_axis=True),
            lambda: mp.LegendreGaussLobattoQuadrature(n, force_dim_axis=True),
            lambda: mp.ClenshawCurtisQuadrature(n, force_dim_axis=True),
            lambda: mp.FejerQuadrature(n+1, 2, force_dim_axis=True),
            lambda: mp.FejerQuadrature(n, 1, force_dim_axis=True),
            ])()
        if rng.random() < .3:
            from modepy.quadrature import Transformed1DQuadrature
            q = Transformed1DQuadrature(q, -1.5, 3.25)
        return q
    if kind == "quadtab":
        return rng.choice([
            lambda: mp.XiaoGimbutasSimplexQuadrature(n, 2),
            lambda: mp.XiaoGimbutasSimplexQuadrature(n, 3),
            lambda: mp.VioreanuRokhlinSimplexQuadrature(n % 8, 2),
            lambda: mp.VioreanuRokhlinSimplexQuadrature(n % 6, 3),
            lambda: mp.GrundmannMoellerSimplexQuadrature(n % 4, 1+n % 5),
            lambda: mp.JaskowiecSukumarQuadrature(2+n % 9, 3),
            lambda: mp.WitherdenVincentQuadrature(3, 2),
            lambda: mp.ZeroDimensionalQuadrature(),
            ])()
    if kind == "tpquad":
        return rng.choice([
            lambda: mp.LegendreGaussTensorProductQuadrature(n % 5, 2),
            lambda: mp.LegendreGaussLobattoTensorProductQuadrature(1+n % 5, 3),
            lambda: mp.TensorProductQuadrature([
                mp.FejerQuadrature(3, 1, force_dim_axis=True),
                mp.XiaoGimbutasSimplexQuadrature(2, 2)]),
            lambda: mp.TensorProductQuadrature([]),
            ])()
    if kind == "kronrod":
        from modepy.quadrature.kronrod import make_kronrod_quadrature
        return make_kronrod_quadrature(n)
    if kind == "affine":
        d = rng.randint(1, 4)
        return T.AffineMap(nrng.normal(size=(d, d)) + 3*np.eye(d), nrng.normal(size=d))
    if kind == "monomial":
        return T.Monomial([rng.randint(0, 5) for _ in range(rng.randint(0, 4))],
                          rng.choice([1, -2.5, 3]))
    b = C.mk_basis("onb", (2,), (2,))
    q = mp.XiaoGimbutasSimplexQuadrature(8, 2)
    co = nrng.normal(size=len(b.functions))
    if kind == "combination":
        if rng.random() < .5:
            return K.linearly_combine(co+1j, b.functions)
        return K.linearly_combine(co[:2], [K.linearly_combine(co, b.functions),
                                           K.linearly_combine(-co, b.functions)])
    if kind == "orthogonalized":
        m = C.mk_basis("mono", (2,), (2,))
        return tuple(K.orthogonalize_basis(q, m.functions))
    if kind == "adapted":
        return tuple(K.adapt_2d_integrands_to_complex_arg(b.functions))
    if kind == "residual":
        return K.quad_residual_and_jacobian(
            q.nodes, q.weights, b.functions, [b.derivatives(0), b.derivatives(1)],
            np.arange(6.))
    assert kind == "infinity"
    from modepy.quadrature import inf
    return inf

# }}}


# {{{ observations

def _pts(d, n=7):
    return C.nprng(d+100).uniform(-1, 1, size=(d, n)) * (1 if d < 2 else 1/d) - \
        (0 if d < 2 else 1-1.5/d)


def _fdim(kind, obj, seed):
    """number of coordinates functions of this kind take"""
    rng = random.Random(seed)
    desc = _shape_desc(rng)
    if desc in ((), (0,)) and kind != "functions":
        desc = (1, 2)
    return sum(desc)


def observe(kind, obj, seed):
    """everything a user can see of *obj*, as {label: value}"""
    import modepy as mp
    r = {}
    warnings.simplefilter("ignore")

    def absent(label, f):
        try:
            r[label] = f()
        except (AttributeError, ValueError):
            r[label] = "absent"

    def quad(q, pre=""):
        r[pre+"nodes"], r[pre+"weights"] = q.nodes, q.weights
        r[pre+"dim"] = q.dim
        for a in ("exact_to", "alpha", "beta", "kind", "left", "right"):
            absent(pre+a, lambda a=a: (
                "inf" if type(getattr(q, a)).__name__ == "_Inf" else getattr(q, a)))
        r[pre+"integral"] = q(lambda x: np.cos(np.sum(x.reshape(-1, x.shape[-1]), axis=0)))
        for i, s in enumerate(getattr(q, "quadratures", ())):
            quad(s, f"{pre}factor {i} ")

    def space(sp):
        r["spatial_dim"], r["space_dim"] = sp.spatial_dim, sp.space_dim
        absent("order", lambda: sp.order)
        r["tuples"] = tuple(map(tuple, mp.node_tuples_for_space(sp)))
        r["factors"] = len(getattr(sp, "bases", ()))

    if kind == "shape":
        r["dim"], r["nvertices"] = obj.dim, obj.nvertices
        r["vertices"] = mp.unit_vertices_for_shape(obj)
        r["equal"] = obj == make(kind, seed) and hash(obj) == hash(make(kind, seed))
        sp = mp.space_for_shape(obj, 2)
        space(sp)
        if obj.dim < 4:
            r["modes"] = len(mp.basis_for_space(sp, obj).functions)
    elif kind == "space":
        space(obj)
    elif kind == "basis":
        x = _pts(_fdim(kind, obj, seed))
        r["ids"] = obj.mode_ids
        for i, f in enumerate(obj.functions):
            r[f"f{i}"] = f(x)
        for i, f in enumerate(obj.gradients):
            r[f"g{i}"] = np.array(f(x))
        for ax in range(len(x)):
            for i, f in enumerate(obj.derivatives(ax)):
                r[f"d{ax} {i}"] = f(x)
        try:
            r["weight"] = obj.orthonormality_weight()
        except mp.BasisNotOrthonormal:
            r["weight"] = "none"
        r["kinds"] = tuple(type(b).__name__ for b in getattr(obj, "bases", ()))
    elif kind in ("functions", "derivatives"):
        x = _pts(_fdim(kind, obj, seed))
        for i, f in enumerate(obj):
            r[str(i)] = f(x)
    elif kind == "gradients":
        x = _pts(_fdim(kind, obj, seed))
        for i, f in enumerate(obj):
            r[str(i)] = np.array(f(x))
    elif kind == "faces":
        for i, f in enumerate(obj):
            r[f"dim {i}"], r[f"index {i}"] = f.dim, f.face_index
            r[f"vertices {i}"] = tuple(f.volume_vertex_indices)
            r[f"own vertices {i}"] = mp.unit_vertices_for_shape(f)
            r[f"mapped {i}"] = f.map_to_volume(_pts(f.dim))
            r[f"normal {i}"] = mp.face_normal(f)
            r[f"volume {i}"] = mp.unit_vertices_for_shape(f.volume_shape)
            r[f"same volume {i}"] = f.volume_shape == obj[0].volume_shape
    elif kind in ("spacequad", "quad1d", "quadtab", "tpquad"):
        quad(obj)
    elif kind == "kronrod":
        r["nodes"], r["weights"] = obj.nodes, obj.weights
        r["at gauss"] = obj.weights_at_gauss_nodes
        r["exact"], r["dim"] = obj.exact_to, obj.dim
        r["integral"] = obj(np.cos)
        quad(obj.gauss_quadrature, "gauss ")
    elif kind == "affine":
        x = _pts(len(obj.b))
        r["a"], r["b"] = obj.a, obj.b
        r["mapped"] = obj(x)
        r["jacobian"] = obj.jacobian
        r["inverse a"], r["inverse b"] = obj.inverse.a, obj.inverse.b
        r["back"] = obj.inverse(x)
    elif kind == "monomial":
        r["exponents"], r["factor"] = obj.exponents, obj.factor
        if obj.exponents:
            r["values"] = obj(_pts(len(obj.exponents)))
            r["diff"] = obj.diff(0)(_pts(len(obj.exponents)))
        r["simplex"], r["cube"] = obj.simplex_integral(), obj.hypercube_integral()
    elif kind == "combination":
        r["values"] = obj(_pts(2))
        r["coefficients"] = obj.coefficients
        r["n"] = len(obj.functions)
    elif kind == "orthogonalized":
        for i, f in enumerate(obj):
            r[str(i)] = f(_pts(2))
    elif kind == "adapted":
        x = _pts(2)
        for i, f in enumerate(obj):
            r[str(i)] = f(x[0] + 1j*x[1])
    elif kind == "residual":
        from modepy.quadrature.construction import quad_gauss_newton_increment
        r["residual"] = obj.residual
        r["dw"], r["dx"] = obj.dresid_dweights, obj.dresid_dnodes
        r["iw"], r["ix"] = quad_gauss_newton_increment(obj)
    else:
        from modepy.quadrature import inf, isinf
        r["equal"] = obj == inf and inf == obj
        r["isinf"] = isinf(obj)
        r["order"] = (obj > 3, obj >= 3, obj < 3, obj <= 3)
    return {k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in r.items()}


def same(a, b):
    """label of the first difference, or None"""
    if list(a) != list(b):
        return f"observables {sorted(set(a) ^ set(b))[:4]}"
    for k, v in a.items():
        w = b[k]
        if isinstance(v, np.ndarray) or isinstance(w, np.ndarray):
            v, w = np.asarray(v), np.asarray(w)
            if v.shape != w.shape or v.dtype != w.dtype:
                return f"{k}: {v.shape} {v.dtype} vs {w.shape} {w.dtype}"
            if v.size == 0:
                continue
            if not np.all(np.isfinite(w)):
                return f"{k}: not finite"
            # equal up to the last bits: memory layout and alignment may
            # influence the order of summation in numpy
            if np.max(np.abs(v-w)) > 1e-13*max(np.max(np.abs(v)), 1e-3):
                return f"{k}: differs by {np.max(np.abs(v-w)):.2e}"
        elif isinstance(v, float | np.floating):
            if abs(v-w) > 1e-13*max(abs(v), 1e-3):
                return f"{k}: {v} vs {w}"
        elif not (v == w):
            return f"{k}: {v!r} vs {w!r}"[:120]
    return None


def arrays_of(obj, depth=0, seen=None):
    """writable arrays reachable through public data of a copy"""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 6:
        return []
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        return [obj] if obj.flags.writeable and obj.dtype.kind in "fc" else []
    r = []
    if isinstance(obj, tuple | list):
        for o in obj:
            r += arrays_of(o, depth+1, seen)
    elif type(obj).__name__ == "partial":
        r += arrays_of((*obj.args, *obj.keywords.values()), depth+1, seen)
    elif type(obj).__module__.startswith("modepy"):
        for v in getattr(obj, "__dict__", {}).values():
            r += arrays_of(v, depth+1, seen)
    return r

# }}}


def copies(t, kind, seed, used):
    obj = make(kind, seed)
    name = f"{kind} {seed}"
    if used:
        before = observe(kind, obj, seed)
    pick = kind != "derivatives"
    made = [("shallow copy", copy.copy(obj)), ("deep copy", copy.deepcopy(obj))]
    if pick:
        made += [("pickled copy", pickle.loads(pickle.dumps(obj, protocol=p)))
                 for p in range(2, pickle.HIGHEST_PROTOCOL+1)]
        made.append(("copy of a copy", copy.deepcopy(pickle.loads(pickle.dumps(
            copy.copy(obj))))))
    if not used:
        # the copies have been made of an unused object; it is observed only now
        before = observe(kind, obj, seed)
    for how, c in made:
        t.true("type preserved", type(c) is type(obj), f"{name} {how}")
        d = same(before, observe(kind, c, seed))
        t.true(how, d is None, f"{name}: {d}")
        t.true("printable", isinstance(repr(c), str) and isinstance(str(c), str), name)
    d = same(before, observe(kind, obj, seed))
    t.true("original unaffected by copying", d is None, f"{name}: {d}")
    # ruin one copy after the other
    ruined = 0
    for how, c in made:
        if how == "shallow copy":
            continue
        for a in arrays_of(c):
            a[...] = np.nan
            ruined += 1
        d = same(before, observe(kind, obj, seed))
        label = ("deep copies are independent" if how == "deep copy"
                 else "pickled copies are independent")
        t.true(label, d is None, f"{name} after ruining a {how}: {d}")
    # and none of that may show in a new object
    d = same(before, observe(kind, make(kind, seed), seed))
    t.true("deep copies are independent", d is None, f"new {name}: {d}")
    t.state(kind, _shape_desc(random.Random(seed)), used)
    t.note(copies_made=len(made), arrays_ruined=ruined)


def process(t, seed, n, use_first):
    """objects travel to a fresh process, which observes them and sends back the
    observations and the objects"""
    rng = random.Random(seed)
    items = []
    for _ in range(n):
        kind = rng.choice([k for k in KINDS if k != "derivatives"])
        items.append((kind, rng.randrange(10**6)))
    objs = [make(*i) for i in items]
    if use_first:
        for (k, s), o in zip(items, objs, strict=True):
            observe(k, o, s)
    data = pickle.dumps([(k, s, pickle.dumps(o, protocol=2+s % 4))
                         for (k, s), o in zip(items, objs, strict=True)])
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(
        [os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
         "/repo"]))
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([sys.executable, "-c",
                        "from mv.props import p29; p29.child()"],
                       input=data, capture_output=True, env=env, check=False)
    if p.returncode:
        t.fail("same in a fresh process",
               p.stderr.decode(errors="replace").strip().splitlines()[-1][:300])
        return
    back = pickle.loads(p.stdout)
    for (k, s), o, (obs, err, o2) in zip(items, objs, back, strict=True):
        if err:
            t.fail("same in a fresh process", f"{k} {s}: {err}")
            continue
        here = observe(k, o, s)
        d = same(here, obs)
        t.true("same in a fresh process", d is None, f"{k} {s}: {d}")
        d = same(here, observe(k, pickle.loads(o2), s))
        t.true("same in a fresh process", d is None, f"{k} {s} and back: {d}")
        t.state("process", k, use_first)
    t.note(objects_sent=len(items), processes=1)


def child():
    res = []
    for k, s, d in pickle.load(sys.stdin.buffer):
        try:
            o = pickle.loads(d)
            first = pickle.dumps(o)     # forwarded without use
            res.append((observe(k, o, s), None, first))
        except Exception as e:
            res.append((None, f"{type(e).__name__}: {e}"[:200], b""))
    sys.stdout.buffer.write(pickle.dumps(res))
    sys.stdout.buffer.flush()


GROUPS = {"copies": copies, "process": process}


def cases(tier, rng):
    thorough = tier == "thorough"
    for kind in KINDS:
        for i in range(400 if thorough else 60):
            if kind == "infinity" and i > 1:
                break
            yield "copies", {"kind": kind, "seed": rng.randrange(10**6),
                             "used": bool(i % 2)}
    for i in range(120 if thorough else 8):
        yield "process", {"seed": rng.randrange(10**6), "n": 60,
                          "use_first": bool(i % 2)}


assert ref
