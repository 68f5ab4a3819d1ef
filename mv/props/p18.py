"""P18: submeshes."""
from __future__ import annotations

import itertools

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("geometric oracle on the returned tessellation: exact integer volumes and "
             "orientation, facet matching, point-in-element counting, under random "
             "orderings of the lattice")
LEVEL_NOTE = (
    "All lattice orders up to a bound for lines, triangles, tetrahedra, hypercubes to "
    "4D and prisms in both factor orders with unequal orders; node orderings and "
    "probe points are sampled.")

RULE = ("one case per (shape, orders, ordering); non-trivial if every sub-element was "
        "checked and volumes added up.")
REQUIRED = ("valid indices", "vertex count", "vertex order and orientation",
            "total volume", "conforming", "each point in one element",
            "independent of node order")


def lattice(desc, orders):
    """our own lattice tuples, integer coordinates per axis"""
    fac = [ref.simplex_indices(d, o) for d, o in zip(desc, orders, strict=True)]
    return [sum(p, ()) for p in itertools.product(*fac)]


def ref_verts(desc):
    from mv.props.p17 import model_vertices
    return ((model_vertices(desc)+1)/2).astype(int)       # 0/1 coordinates


def ref_facets(desc):
    """vertex index sets of the facets of the reference shape"""
    v = ref_verts(desc)
    out = []
    ofs = 0
    for d in desc:
        for i in range(d):
            out.append(tuple(np.nonzero(v[ofs+i] == 0)[0]))
        # the last facet: sum of the factor's coordinates is one
        out.append(tuple(np.nonzero(v[ofs:ofs+d].sum(axis=0) == 1)[0]))
        ofs += d
    return out


def on_boundary(desc, orders, pts):
    """does this set of lattice points lie in one facet of the whole shape"""
    ofs = 0
    for d, o in zip(desc, orders, strict=True):
        for i in range(d):
            if all(p[ofs+i] == 0 for p in pts):
                return True
        if all(sum(p[ofs:ofs+d]) == o for p in pts):
            return True
        ofs += d
    return False


def mesh(t, desc, orders, source, form, seed):
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    desc, orders = tuple(desc), tuple(orders)
    dim = sum(desc)
    rng = C.nprng(seed)
    shape = C.mk_shape(desc)
    if source == "library":
        tuples = list(node_tuples_for_space(C.mk_space(desc, orders)))
    else:
        tuples = lattice(desc, orders)
        if source == "shuffled":
            tuples = [tuples[i] for i in rng.permutation(len(tuples))]
        elif source == "reversed":
            tuples = tuples[::-1]
    tuples = [tuple(int(i) for i in tt) for tt in tuples]
    name = f"{desc} {orders} {source}"
    arg = tuple(tuples) if form == "tuple" else list(tuples)
    els = mp.submesh_for_shape(shape, arg)
    t.true("argument untouched", list(arg) == tuples, name)
    els = [tuple(e) for e in els]
    nv = 1
    for d in desc:
        nv *= d+1
    npts = len(tuples)
    for e in els:
        if not t.true("vertex count", len(e) == nv == shape.nvertices
                      and len(set(e)) == nv, f"{e} {name}"):
            return
        if not t.true("valid indices", all(
                isinstance(i, (int, np.integer)) and 0 <= i < npts for i in e),
                f"{e} {name}"):
            return
    rv = ref_verts(desc)
    facets = ref_facets(desc)
    # indices of the vertices next to vertex 0 along each axis
    nb = [int(np.nonzero((rv[i] == 1) & (rv.sum(axis=0) == 1))[0][0])
          for i in range(dim)]
    vol = 0
    count = {}
    seen = set()
    inv = []
    for e in els:
        p = np.array([tuples[i] for i in e], dtype=np.int64).T     # (dim, nv)
        a = (p[:, nb] - p[:, :1])
        det = round(np.linalg.det(a)) if dim else 1
        # reference vertices map to the element's vertices in order, affinely and
        # keeping the orientation
        t.true("vertex order and orientation", det > 0
               and np.array_equal(p, p[:, :1] + a @ rv),
               f"{e} det {det} {p.tolist()} {name}")
        vol += det
        fs = frozenset(e)
        t.true("no element twice", fs not in seen, f"{e} {name}")
        seen.add(fs)
        for f in facets:
            k = frozenset(e[i] for i in f)
            count[k] = count.get(k, 0) + 1
        inv.append((np.linalg.inv(a) if det else a*0.0, p[:, :1]))
    # in units of the reference shape's volume: the product of o^d
    want = 1
    for d, o in zip(desc, orders, strict=True):
        want *= o**d
    t.true("total volume", vol == want, f"{vol}, expected {want}; {name}")
    ok = all(c == (1 if on_boundary(desc, orders, [tuples[i] for i in k]) else 2)
             for k, c in count.items())
    t.true("conforming", ok, name)
    if els and dim:
        x = (ref.random_points(desc, 60, rng)+1)/2
        ofs = 0
        scale = np.ones((dim, 1))
        for d, o in zip(desc, orders, strict=True):
            scale[ofs:ofs+d] = o
            ofs += d
        x = x*scale
        hits = np.zeros(x.shape[1], dtype=int)
        for ai, p0 in inv:
            y = 2*(ai @ (x-p0)) - 1
            hits += ref.tp_contains(desc, y, -1e-9)
        near = np.zeros(x.shape[1], dtype=int)
        for ai, p0 in inv:
            near += ref.tp_contains(desc, 2*(ai @ (x-p0))-1, 1e-9)
        sure = near == hits
        t.true("each point in one element", np.all(hits[sure] == 1)
               and np.all(near >= 1), f"{hits} {near} {name}")
    # the same tessellation whatever the order of the nodes
    q = rng.permutation(npts)
    els2 = mp.submesh_for_shape(shape, [tuples[i] for i in q])
    t.true("independent of node order",
           {tuple(tuples[q[i]] for i in e) for e in els2}
           == {tuple(tuples[i] for i in e) for e in els}
           and len(els2) == len(els), name)
    t.state(desc, orders, source)
    t.note(elements=len(els))
    t.show(shape=desc, orders=orders, elements=len(els),
           first=list(map(int, els[0])) if els else [])


def curved(t, desc, orders, seed):
    """sub-elements between the library's own nodes are positively oriented and fill
    the shape, for nodes on the lattice"""
    import modepy as mp
    from modepy.nodes import node_tuples_for_space
    desc, orders = tuple(desc), tuple(orders)
    space, shape = C.mk_space(desc, orders), C.mk_shape(desc)
    x = mp.equispaced_nodes_for_space(space, shape)
    els = mp.submesh_for_shape(shape, node_tuples_for_space(space))
    rv = ref_verts(desc)
    dim = sum(desc)
    nb = [int(np.nonzero((rv[i] == 1) & (rv.sum(axis=0) == 1))[0][0])
          for i in range(dim)]
    tot = 0.0
    for e in els:
        p = x[:, list(e)]
        det = np.linalg.det((p[:, nb]-p[:, :1])/2)
        t.true("vertex order and orientation", det > 0, f"{e} {desc} {orders}")
        tot += det*float(ref.shape_volume(desc))
    t.close("total volume", tot, float(ref.shape_volume(desc)), 1e-11,
            f"{desc} {orders}")


GROUPS = {"mesh": mesh, "curved": curved}


def cases(tier, rng):
    thorough = tier == "thorough"
    hi = {(1,): 20, (2,): 14, (3,): 8, (1, 1): 9, (1, 1, 1): 5, (1, 1, 1, 1): 3,
          (2, 1): 6, (1, 2): 6, (3, 1): 4, (1, 3): 4, (1, 2, 1): 4, (2, 1, 1): 4,
          (1, 1, 2): 4}
    # many nodes
    for desc, orders in (((1,), (300,)), ((1,), (1100,)), ((2,), (24,)), ((2,), (45,)),
                         ((3,), (11,)), ((3,), (14,)), ((1, 1), (17, 16)),
                         ((1, 1), (35, 30)), ((1, 1), (3, 300)), ((1, 1, 1), (7, 5, 6)),
                         ((1, 1, 1), (11, 9, 8)), ((2, 1), (8, 9)), ((2, 1), (13, 10)),
                         ((1, 2), (12, 12)), ((1, 1, 1, 1), (4, 3, 5, 4)),
                         ((3, 1), (6, 7)), ((1, 1, 1, 1, 1), (2, 1, 2, 3, 2)),
                         ((1, 1, 2, 1), (3, 2, 2, 3)), ((1,)*6, (1, 2, 1, 1, 2, 1))):
        for src in ("library", "shuffled"):
            yield "mesh", {"desc": list(desc), "orders": list(orders), "source": src,
                           "form": "list", "seed": rng.randrange(10**6)}
    for desc, top in hi.items():
        if thorough:
            top = int(top*1.4)+1 if desc != (1, 1, 1, 1) else 4
        for o in range(top+1):
            for src in ("library", "shuffled", "reversed", "plain"):
                yield "mesh", {"desc": list(desc), "orders": [o]*len(desc),
                               "source": src, "form": rng.choice(["list", "tuple"]),
                               "seed": rng.randrange(10**6)}
            if o:
                yield "curved", {"desc": list(desc), "orders": [o]*len(desc),
                                 "seed": 0}
        if len(desc) > 1:
            for _ in range(40 if thorough else 10):
                o = [rng.randint(0 if rng.random() < 0.1 else 1,
                                 top+1 if len(desc) < 4 else top) for _ in desc]
                yield "mesh", {"desc": list(desc), "orders": o,
                               "source": rng.choice(["library", "shuffled"]),
                               "form": "list", "seed": rng.randrange(10**6)}
                if min(o):
                    yield "curved", {"desc": list(desc), "orders": o, "seed": 0}
