"""P17: structure and identity of shapes and function spaces."""
from __future__ import annotations

import copy
import itertools
import math
import pickle

import numpy as np

from mv import common as C, ref

TECHNIQUE = ("model-based oracle: every way of building a shape or space (random "
             "nestings) against a flat list-of-factors model; round trips through "
             "pickle and copy")
LEVEL_NOTE = (
    "Random nesting trees over all admissible factor lists are compared with the flat "
    "model attribute by attribute, before and after serialisation; dimensions and "
    "orders bounded.")

RULE = ("one case per nesting tree and order assignment; non-trivial if all public "
        "attributes were compared with the flat model.")
REQUIRED = ("factors", "dimension", "vertex count", "face count", "vertices",
            "space factors", "space dimension", "order", "equal by value", "hash",
            "pickle", "copy", "space pickle")


def build_shape(tree):
    """tree: ["s", d] | ["h", d] | ["t", [trees]]"""
    import modepy as mp
    if tree[0] == "s":
        return mp.Simplex(tree[1])
    if tree[0] == "h":
        return mp.Hypercube(tree[1])
    return mp.TensorProductShape(tuple(build_shape(c) for c in tree[1]))


def flat(tree):
    if tree[0] == "s":
        return (tree[1],)
    if tree[0] == "h":
        return (1,)*tree[1]
    return sum((flat(c) for c in tree[1]), ())


def factors(shape):
    """factors as the library presents them"""
    return shape.bases if hasattr(shape, "bases") else (shape,)


def model_vertices(desc):
    """first factor fastest; simplex vertices in the documented order"""
    lists = []
    for d in desc:
        vs = [tuple([-1.0]*d)]
        for i in range(d):
            v = [-1.0]*d
            v[i] = 1.0
            vs.append(tuple(v))
        lists.append(vs)
    out = [sum(reversed(p), ()) for p in itertools.product(*reversed(lists))]
    return np.array(out, dtype=float).reshape(len(out), sum(desc)).T


def check_shape(t, s, desc, name, label=""):
    import modepy as mp
    f = factors(s)
    t.true("factors", len(f) == len(desc) and all(
        isinstance(a, mp.Simplex) and a.dim == d for a, d in zip(f, desc)),
        f"{f} {name} {label}")
    t.true("dimension", s.dim == sum(desc), f"{s.dim} {name} {label}")
    nv = math.prod(d+1 for d in desc)
    t.true("vertex count", s.nvertices == nv, f"{s.nvertices} {name} {label}")
    if all(d >= 1 for d in desc) or len(desc) > 1:
        t.true("face count", s.nfaces == sum(
            2 if d == 1 else d+1 if d else 0 for d in desc),
               f"{s.nfaces} {name} {label}")
    if nv > 5000:
        return
    v = mp.unit_vertices_for_shape(s)
    t.close("vertices", v, model_vertices(desc), 0, f"{name} {label}")


def shape(t, tree, other):
    import modepy as mp
    desc = flat(tree)
    s = build_shape(tree)
    name = f"{tree}"
    check_shape(t, s, desc, name)
    if len(desc) == 1:
        t.true("one factor is the factor itself",
               type(s) is mp.Simplex and s == mp.Simplex(desc[0]), name)
    # equality and hashing by value
    s2 = build_shape(tree)
    t.true("equal by value", s == s2 and not (s != s2), name)
    t.true("hash", hash(s) == hash(s2) and {s: 1}[s2] == 1 and s2 in {s}, name)
    o = build_shape(other)
    if flat(other) != desc:
        t.true("equal by value", s != o and not (s == o), f"{name} {other}")
        t.true("hash", o not in {s}, name)
    t.true("equal by value", s != "x" and s != sum(desc) and s is not None, name)
    for p in range(pickle.HIGHEST_PROTOCOL+1):
        if p < 2:
            continue
        r = pickle.loads(pickle.dumps(s, protocol=p))
        t.true("pickle", r == s and hash(r) == hash(s) and type(r) is type(s),
               f"{name} protocol {p}")
        check_shape(t, r, desc, name, f"pickled {p}")
    for nm, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy)):
        r = f(s)
        t.true("copy", r == s and hash(r) == hash(s) and type(r) is type(s),
               f"{name} {nm}")
        check_shape(t, r, desc, name, nm)
    # building further shapes from it leaves it as it was
    try:
        mp.TensorProductShape((s, mp.Simplex(1)))
        mp.TensorProductShape((mp.Simplex(1), s, mp.Hypercube(2)))
    except NotImplementedError:
        pass
    check_shape(t, s, desc, name, "after use as a factor")
    t.true("one factor is the factor itself", mp.TensorProductShape((s,)) is s
           or mp.TensorProductShape((s,)) == s, name)
    check_shape(t, mp.TensorProductShape((s,)), desc, name, "one-factor product")
    t.true("immutable", _frozen(s), name)
    t.state("shape", desc, type(s).__name__)
    t.show(tree=tree, vertices=int(s.nvertices), type=type(s).__name__)


def _frozen(s):
    import dataclasses
    try:
        s.dim = 17
    except dataclasses.FrozenInstanceError:
        return True
    return False


def check_space(t, s, desc, orders, name, label=""):
    import modepy as mp
    f = factors(s)
    t.true("space factors", len(f) == len(desc) and all(
        isinstance(a, mp.PN) and a.spatial_dim == d and a.order == o
        for a, d, o in zip(f, desc, orders)), f"{f} {name} {label}")
    t.true("dimension", s.spatial_dim == sum(desc), f"{name} {label}")
    t.true("space dimension", s.space_dim == ref.space_dim(desc, orders)
           and isinstance(s.space_dim, (int, np.integer)), f"{s.space_dim} {name} {label}")
    if desc:
        if len(set(orders)) == 1:
            t.true("order", s.order == orders[0], f"{name} {label}")
        else:
            t.raises("order", AttributeError, lambda: s.order, f"{name} {label}")
            t.true("order", not hasattr(s, "order"), f"{name} {label}")
    else:
        # QN(0, n) remembers its n; other empty products have no order
        t.true("order", not hasattr(s, "order") or isinstance(s, mp.QN),
               f"empty product {name} {label}")


def space(t, tree, orders, uniform):
    """the space created for a shape"""
    import modepy as mp
    desc = flat(tree)
    orders = tuple(orders)
    s = build_shape(tree)
    if not desc:
        check_space(t, mp.space_for_shape(s, orders[0]), (), (), f"{tree}")
        return
    if uniform:
        orders = orders[:1]*len(desc)
    arg = orders[0] if uniform or len(desc) == 1 else orders
    sp = mp.space_for_shape(s, arg)
    name = f"{tree} {orders}"
    check_space(t, sp, desc, orders, name)
    serial(t, sp, desc, orders, name)
    if uniform and len(desc) > 1:
        check_space(t, mp.space_for_shape(s, orders), desc, orders, name, "tuple")
    t.true("shape untouched", factors(s) == factors(build_shape(tree)), name)
    t.state("space", desc, orders)


def serial(t, sp, desc, orders, name):
    for p in range(2, pickle.HIGHEST_PROTOCOL+1):
        r = pickle.loads(pickle.dumps(sp, protocol=p))
        t.true("space pickle", type(r) is type(sp), f"{name} {type(r)}")
        check_space(t, r, desc, orders, name, f"pickled {p}")
    for f in (copy.copy, copy.deepcopy):
        r = f(sp)
        t.true("copy", type(r) is type(sp), f"{name} {type(r)}")
        check_space(t, r, desc, orders, name, f.__name__)
    check_space(t, sp, desc, orders, name, "after")


def build_space(tree):
    """["p", d, n] | ["q", d, n] | ["t", [trees]]"""
    import modepy as mp
    if tree[0] == "p":
        return mp.PN(tree[1], tree[2])
    if tree[0] == "q":
        return mp.QN(tree[1], tree[2])
    return mp.TensorProductSpace(tuple(build_space(c) for c in tree[1]))


def flat_space(tree):
    if tree[0] == "p":
        return ((tree[1], tree[2]),)
    if tree[0] == "q":
        return ((1, tree[2]),)*tree[1]
    return sum((flat_space(c) for c in tree[1]), ())


def spacetree(t, tree):
    import modepy as mp
    m = flat_space(tree)
    desc, orders = tuple(d for d, _n in m), tuple(n for _d, n in m)
    sp = build_space(tree)
    name = f"{tree}"
    check_space(t, sp, desc, orders, name)
    serial(t, sp, desc, orders, name)
    if tree[0] == "q" and tree[1] != 1:
        t.true("order", sp.order == tree[2], name)
    if len(desc) == 1:
        t.true("one factor is the factor itself", type(sp) is mp.PN, name)
    check_space(t, mp.TensorProductSpace((sp,)), desc, orders, name, "one-factor")
    mp.TensorProductSpace((sp, mp.PN(1, 3), sp))
    check_space(t, sp, desc, orders, name, "after use as a factor")
    check_space(t, mp.TensorProductSpace((mp.PN(2, 1), sp, mp.QN(2, 3))),
                (2, *desc, 1, 1), (1, *orders, 3, 3), name, "as a factor")
    t.state("spacetree", desc, orders)


GROUPS = {"shape": shape, "space": space, "spacetree": spacetree}


def degenerate(tree, fl):
    """an empty product among factors that leaves just one: not covered (such a
    product stays a product with one factor)"""
    return tree[0] == "t" and len(fl(tree)) == 1 and _has_empty(tree, fl)


def _has_empty(tree, fl):
    return not fl(tree) or (tree[0] == "t"
                            and any(_has_empty(c, fl) for c in tree[1]))


def subtrees(tree):
    yield tree
    if tree[0] == "t":
        for c in tree[1]:
            yield from subtrees(c)


def rand_tree(rng, depth=0, big=True):
    """random shape tree with at most one non-segment factor"""
    k = rng.random()
    if depth >= 3 or k < 0.25:
        if rng.random() < 0.5:
            return ["s", 1]
        return ["h", rng.choice([1, 2, 3, 0])]
    n = rng.choice([1, 1, 2, 2, 3])
    return ["t", [rand_tree(rng, depth+1) for _ in range(n)]]


def insert_poly(tree, rng, d):
    """replace one factor by a polygonal one"""
    if tree[0] != "t":
        return ["t", rng.choice([[tree, ["s", d]], [["s", d], tree]])]
    i = rng.randrange(len(tree[1])+1)
    kids = list(tree[1])
    if i < len(kids) and rng.random() < 0.6:
        kids[i] = insert_poly(kids[i], rng, d)
    else:
        kids.insert(i, ["s", d])
    return ["t", kids]


def cases(tier, rng):
    thorough = tier == "thorough"
    base = [["s", d] for d in range(7)] + [["h", d] for d in range(7)] + [
        ["t", []], ["t", [["s", 1]]], ["t", [["s", 3]]], ["t", [["h", 3]]],
        ["t", [["t", [["h", 2]]]]], ["t", [["s", 2], ["s", 1]]],
        ["t", [["s", 1], ["s", 2]]], ["t", [["h", 2], ["s", 3]]],
        ["t", [["s", 0], ["s", 1]]], ["t", [["t", [["s", 1], ["s", 2]]], ["s", 1]]]]
    trees = list(base)
    while len(trees) < (900 if thorough else 130):
        tr = rand_tree(rng)
        if rng.random() < 0.5:
            tr = insert_poly(tr, rng, rng.choice([2, 3, 4, 0]))
        if len(flat(tr)) <= 7 and not any(
                degenerate(st, flat) for st in subtrees(tr)):
            trees.append(tr)
    for d in (20, 31, 32, 62, 63, 64, 65, 100, 200):
        trees.append(["h", d])
        trees.append(["t", [["h", d], ["s", 3]]])
        trees.append(["t", [["s", 2], ["h", d-1]]])
    trees += [["s", 40], ["s", 200], ["t", [["s", 100], ["s", 1]]]]
    for tr in trees:
        yield "shape", {"tree": tr, "other": rng.choice(trees)}
        fl = flat(tr)
        if fl:
            for u in (True, False):
                yield "space", {"tree": tr, "uniform": u,
                                "orders": [rng.randint(0, 7) for _ in fl]}
        else:
            yield "space", {"tree": tr, "orders": [2], "uniform": True}

    def rs(depth=0):
        k = rng.random()
        if depth >= 3 or k < 0.4:
            return rng.choice([["p", rng.randint(0, 4), rng.randint(0, 6)],
                               ["q", rng.randint(0, 3), rng.randint(0, 5)]])
        return ["t", [rs(depth+1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
    for d in range(5):
        for n in range(8):
            yield "spacetree", {"tree": ["p", d, n]}
            yield "spacetree", {"tree": ["q", d, n]}
    for d in (15, 32, 40, 64, 100):
        yield "spacetree", {"tree": ["q", d, 1]}
        yield "spacetree", {"tree": ["q", d, 9]}
        yield "spacetree", {"tree": ["t", [["q", d, 3], ["p", 3, 20]]]}
        yield "spacetree", {"tree": ["p", d, 2*d]}
    for _ in range(1500 if thorough else 150):
        tr = rs()
        if len(flat_space(tr)) <= 8 and not any(
                degenerate(st, flat_space) for st in subtrees(tr)):
            yield "spacetree", {"tree": tr}
