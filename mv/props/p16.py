"""P16: faces and normals."""
from __future__ import annotations

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("geometric oracle on faces, maps and normals: independent description of "
             "the boundary, coverage counting by sampled boundary points, divergence "
             "theorem for random polynomial fields")
LEVEL_NOTE = (
    "All five supported shapes are covered completely for the combinatorial clauses; "
    "affinity, coverage and the divergence theorem are decided on sampled points and "
    "polynomial fields of all degrees up to a bound.")

RULE = ("one case per (shape, seed) and per (shape, degree, seed); non-trivial if "
        "every face was compared with the independent boundary description.")
REQUIRED = ("numbering", "vertices to vertices", "affine", "in boundary",
            "covered exactly once", "normal orthogonal", "normal outward",
            "unit normal", "unnormalised length", "no net flux",
            "divergence theorem")


def shape_of(kind, d):
    import modepy as mp
    return mp.Simplex(d) if kind == "simplex" else mp.Hypercube(d)


def desc_of(kind, d):
    return (d,) if kind == "simplex" else (1,)*d


def facets(kind, d):
    """independent list of (outward unit normal, offset): n.x <= c"""
    out = []
    for i in range(d):
        e = np.zeros(d)
        e[i] = -1
        out.append((e, 1.0))
        if kind != "simplex":
            e = np.zeros(d)
            e[i] = 1
            out.append((e, 1.0))
    if kind == "simplex":
        out.append((np.full(d, 1/np.sqrt(d)), (2-d)/np.sqrt(d)))
    return out


def facet_points(kind, d, i, npts, rng):
    """random points in the relative interior of the i-th facet"""
    n, c = facets(kind, d)[i]
    if kind == "simplex":
        # barycentric coordinates: drop one
        drop = i+1 if i < d else 0
        w = rng.exponential(size=(d+1, npts)) + 0.01
        w[drop] = 0
        w /= w.sum(axis=0)
        return 2*w[1:] - 1
    x = rng.uniform(-0.999, 0.999, size=(d, npts))
    k = int(np.argmax(np.abs(n)))
    x[k] = c*n[k]
    return x


def geom(t, kind, d, seed):
    import modepy as mp
    rng = C.nprng(seed)
    shape = shape_of(kind, d)
    faces = mp.faces_for_shape(shape)
    verts = mp.unit_vertices_for_shape(shape)
    fdesc = desc_of(kind, d-1) if d > 1 else (0,)
    if kind == "cube" and d == 2:
        fdesc = (1,)
    nf = d+1 if kind == "simplex" or d == 1 else 2*d
    name = f"{kind} {d}"
    t.true("numbering", len(faces) == shape.nfaces == nf
           and [f.face_index for f in faces] == list(range(nf)), name)
    t.true("vertex sets distinct",
           len({frozenset(f.volume_vertex_indices) for f in faces}) == nf, name)
    fac = facets("simplex" if d == 1 else kind, d)
    seen = set()
    maps = []
    for f in faces:
        fn = f"{name} face {f.face_index}"
        vi = list(f.volume_vertex_indices)
        t.true("face is a shape", isinstance(f, mp.Shape) and f.dim == d-1
               and f.volume_shape == shape, fn)
        t.true("vertex count", len(vi) == f.nvertices == len(set(vi))
               and all(0 <= v < verts.shape[1] for v in vi), fn)
        rv = mp.unit_vertices_for_shape(f)
        t.close("vertices to vertices", f.map_to_volume(rv), verts[:, vi], 1e-14, fn)
        # affine in the face coordinates, for any number of points
        for npts in (1, 2, 9):
            p = ref.random_points(fdesc, npts, rng)
            y = f.map_to_volume(p)
            if not t.true("map shape", y.shape == (d, npts), f"{y.shape} {fn}"):
                return
            a = np.zeros((d, d-1))
            b = verts[:, vi[0]]
            # basis vectors from the face's reference vertices
            for k in range(d-1):
                # vertices 0 and k+1 (simplex) / 2^k (cube) differ in axis k only
                kv = int(np.nonzero((rv != rv[:, :1]).sum(axis=0)
                                    * (rv[k] != rv[k, 0]) == 1)[0][0])
                a[:, k] = (verts[:, vi[kv]]-verts[:, vi[0]])/(rv[k, kv]-rv[k, 0])
            o = rv[:, :1]
            t.close("affine", y, b[:, None] + a @ (p-o), 1e-14, fn)
            if npts == 2:
                th = rng.uniform(-1, 2)
                mid = th*p[:, :1] + (1-th)*p[:, 1:]
                t.close("affine", f.map_to_volume(mid), th*y[:, :1]+(1-th)*y[:, 1:],
                        1e-13, fn)
            t.close("affine", f.map_to_volume(np.asfortranarray(p)), y, 1e-14, fn)
        maps.append((a, b, o))
        # the image of the face's interior lies in exactly one facet
        y = f.map_to_volume(ref.random_points(fdesc, 20, rng))
        act = [i for i, (n, c) in enumerate(fac)
               if np.max(np.abs(n @ y - c)) < 1e-13]
        t.true("in boundary", len(act) == 1 and all(
            np.max(n @ y - c) <= 1e-13 for n, c in fac), f"{fn}: facets {act}")
        if len(act) != 1:
            return
        t.true("one facet per face", act[0] not in seen, fn)
        seen.add(act[0])
        n, _c = fac[act[0]]
        nrm = mp.face_normal(f)
        un = mp.face_normal(f, normalize=False)
        if not t.true("normal shape", nrm.shape == un.shape == (d,),
                      f"{nrm.shape} {un.shape} {fn}"):
            return
        t.close("unit normal", nrm, n, 1e-14, fn)
        t.close("unit normal", np.linalg.norm(nrm), 1.0, 1e-14, fn)
        t.close("normal orthogonal", nrm @ a, np.zeros(d-1), 1e-14, fn)
        t.true("normal outward", nrm @ (b - verts.mean(axis=1)) > 0, fn)
        je = np.sqrt(np.linalg.det(a.T @ a)) if d > 1 else 1.0
        t.close("unnormalised length", un, n*je*2**(d-1), 1e-13*4**d, fn)
        t.close("unnormalised length", mp.face_normal(f, False), un, 0, fn)
        t.close("unit normal", mp.face_normal(f, True), nrm, 0, fn)
    t.true("all facets", len(seen) == nf, name)
    # every boundary point is covered exactly once
    for i in range(len(fac)):
        x = facet_points("simplex" if d == 1 else kind, d, i, 40, rng)
        count = np.zeros(x.shape[1], dtype=int)
        for a, b, o in maps:
            y = np.linalg.pinv(a) @ (x-b[:, None]) + o if d > 1 else \
                np.zeros((0, x.shape[1]))
            on = np.max(np.abs(a @ (y-o) + b[:, None] - x), axis=0) < 1e-12
            inside = ref.tp_contains(fdesc, y, 1e-12)
            count += on & inside
        t.true("covered exactly once", np.all(count == 1),
               f"{name} facet {i}: {count}")
    flux = sum(mp.face_normal(f, normalize=False)
               * float(ref.shape_volume(fdesc))/2**(d-1) for f in faces)
    t.close("no net flux", flux, np.zeros(d), 1e-14*8, name)
    area = {("simplex", 1): 2, ("simplex", 2): 4+2*np.sqrt(2),
            ("simplex", 3): 6+2*np.sqrt(3),
            ("cube", 2): 8, ("cube", 3): 24, ("cube", 1): 2}[kind, d]
    t.close("surface area", sum(
        np.linalg.norm(mp.face_normal(f, normalize=False))
        * float(ref.shape_volume(fdesc))/2**(d-1) for f in faces), area, 1e-13,
        name)
    # another set of faces of an equal shape is the same
    g = mp.faces_for_shape(shape_of(kind, d))
    t.true("numbering", [f.volume_vertex_indices for f in g]
           == [f.volume_vertex_indices for f in faces], name)
    t.state(kind, d)
    t.show(shape=name, faces=[list(map(int, f.volume_vertex_indices))
                              for f in faces],
           normals=[np.round(mp.face_normal(f), 6).tolist() for f in faces])


def div(t, kind, d, deg, seed, own):
    """divergence theorem for a random polynomial vector field"""
    import random

    import modepy as mp
    desc = desc_of(kind, d)
    prng = random.Random(seed)
    comps = [ref.random_poly(desc, (deg,)*len(desc), prng) for _ in range(d)]
    shape = shape_of(kind, d)
    if own:
        q = mp.quadrature_for_space(mp.space_for_shape(shape, deg), shape)
        x, w = q.nodes.reshape(d, -1), q.weights
    else:
        x, w = C.tp_quad(desc, deg+1)
    vol = sum(float(np.sum(w*comps[i].grad(x)[i])) for i in range(d))
    tot = 0.0
    sc = 1.0
    for f in mp.faces_for_shape(shape):
        if own:
            fq = mp.quadrature_for_space(mp.space_for_shape(f, deg), f)
            fx, fw = fq.nodes.reshape(d-1, len(fq.weights)), fq.weights
        else:
            fx, fw = C.tp_quad(desc_of(kind, d-1), deg+1) if d > 1 else \
                (np.zeros((0, 1)), np.ones(1))
        y = f.map_to_volume(fx)
        n = mp.face_normal(f, normalize=False)/2.0**(d-1)
        v = [float(np.sum(fw*comps[i](y))) for i in range(d)]
        tot += float(np.dot(v, n))
        sc += float(np.abs(v) @ np.abs(n))
    t.close("divergence theorem", tot, vol, 1e-12*(1+deg)**2*sc,
            f"{kind} {d} degree {deg}")
    t.state("div", kind, d, deg)


GROUPS = {"geom": geom, "div": div}
SH = [("simplex", 1), ("simplex", 2), ("simplex", 3), ("cube", 1), ("cube", 2),
      ("cube", 3)]


def cases(tier, rng):
    thorough = tier == "thorough"
    for kind, d in SH:
        for _ in range(60 if thorough else 8):
            yield "geom", {"kind": kind, "d": d, "seed": rng.randrange(10**6)}
        for deg in range({1: 15, 2: 10, 3: 6}[d]+1):
            for own in (False, True):
                for _ in range(12 if thorough else 3):
                    yield "div", {"kind": kind, "d": d, "deg": deg, "own": own,
                                  "seed": rng.randrange(10**6)}
