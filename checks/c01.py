"""C01: parameter trees convert between all their forms without loss."""
import copy

import casadi as cas
import jax
import numpy as np
from hypothesis import strategies as st

from lib.gen import array_value, build_dict, bulk, maybe_deep, names, nodes, realize, seeds, tree_spec, walk
from lib.harness import Property, close, ensure
from lumos.models.tree_utils import ConfigTree, ParameterTree

P = Property("C01", rule=(
    "Random trees (depth 0-3, sometimes below a chain of up to 20 nodes, 0-3 entries and children per node, scalars, ints, 1-D, one-element, "
    "empty and rectangular 2-D arrays); leaves of six kinds of "
    "numbers given vectors of other numbers. Non-trivial: at least one child node and one array entry."))


def eq_value(a, b, what, kinds=True):
    ensure(np.shape(a) == np.shape(b), f"{what}: shape {np.shape(a)} != {np.shape(b)}")
    ensure(np.array_equal(np.asarray(a), np.asarray(b)), f"{what}: {a!r} != {b!r}")
    ensure(not kinds or np.asarray(a).dtype.kind == np.asarray(b).dtype.kind, f"{what}: {a!r} instead of {b!r}")


def eq_dict(got, want, what="tree", kinds=True):
    ensure(isinstance(got, dict) and set(got) == {"data", "children"}, f"{what}: malformed node {got!r}")
    ensure(list(got["data"]) == list(want["data"]), f"{what}: keys {list(got['data'])} != {list(want['data'])}")
    for k in want["data"]:
        eq_value(got["data"][k], want["data"][k], f"{what}/{k}", kinds)
    ensure(list(got["children"]) == list(want["children"]),
           f"{what}: children {list(got['children'])} != {list(want['children'])}")
    for k in want["children"]:
        eq_dict(got["children"][k], want["children"][k], f"{what}/{k}", kinds)


def classify(spec, rec):
    leaves = list(walk(spec))
    has_arr = any(v[0] == "a" for _, v in leaves)
    rec.nontrivial(bool(spec["children"]) and has_arr)
    rec.event(f"depth={max((len(p) for p, _ in nodes(spec)), default=0)}")
    for _, v in leaves:
        rec.event("scalar" if v[0] == "s" else f"shape-ndim{len(v[1])}" + ("-one" if len(v[2]) == 1 else "")
                  + ("-empty" if not v[2] else ""))


def scribble(d):
    """Mutate everything reachable from a nested dict."""
    for k in list(d["data"]):
        if isinstance(d["data"][k], np.ndarray):
            d["data"][k][...] = 777.0
        d["data"][k] = -999.0
    d["data"]["zz_new"] = 1.0
    for c in list(d["children"]):
        scribble(d["children"][c])
    d["children"].clear()


@P.check(maybe_deep(tree_spec()), quick=350, thorough=8000)
def dict_forms(spec, rec):
    classify(spec, rec)
    want = build_dict(spec)
    src = build_dict(spec)
    t = ParameterTree.from_dict(src)
    eq_dict(t.to_dict(), want, "from_dict/to_dict")
    scribble(src)
    eq_dict(t.to_dict(), want, "tree after editing the dict it was built from")
    d = t.to_dict()
    t2 = ParameterTree.from_dict(d)
    scribble(d)
    eq_dict(t.to_dict(), want, "tree after editing its dict form")
    eq_dict(t2.to_dict(), want, "second tree")
    # constructor with explicit children
    def build(dd):
        return ParameterTree(data=dd["data"], children={k: build(c) for k, c in dd["children"].items()})
    eq_dict(build(build_dict(spec)).to_dict(), want, "built node by node")
    # data/children accessors
    for path, sub in nodes(spec):
        node = t
        for n in path:
            node = node.get_child(n)
        ensure(list(node.data) == list(sub["data"]), "node data keys")


@P.check(maybe_deep(tree_spec()), quick=350, thorough=8000)
def flat_forms(spec, rec):
    classify(spec, rec)
    want = build_dict(spec)
    t = ParameterTree.from_dict(build_dict(spec))
    flat, tree_def = t.to_flat_dict()
    leaves = [(".".join(p), realize(v)) for p, v in walk(spec)]
    ensure(list(flat) == [k for k, _ in leaves], f"flat keys {list(flat)} != {[k for k, _ in leaves]}")
    for k, v in leaves:
        eq_value(flat[k], v, f"flat[{k}]")
    back = ParameterTree.from_flat_dict(tree_def, flat)
    eq_dict(back.to_dict(), want, "flat dict round trip")
    # independence in all directions
    for k in flat:
        if isinstance(flat[k], np.ndarray):
            flat[k][...] = 777.0
        flat[k] = 5.0
    eq_dict(t.to_dict(), want, "tree after editing its flat form")
    eq_dict(back.to_dict(), want, "rebuilt tree after editing the flat form")
    scribble(tree_def)
    eq_dict(t.to_dict(), want, "tree after editing its definition")
    eq_dict(back.to_dict(), want, "rebuilt tree after editing the definition")


@P.check(maybe_deep(tree_spec()), quick=350, thorough=8000)
def vector_forms(spec, rec):
    classify(spec, rec)
    want = build_dict(spec)
    t = ParameterTree.from_dict(build_dict(spec))
    vec, unravel = t.tree_ravel()
    expect = np.concatenate([np.zeros(0)] + [np.asarray(realize(v), float).ravel() for _, v in walk(spec)])
    close(vec, expect, "flat vector", rtol=0, atol=0)
    eq_dict(unravel(vec).to_dict(), want, "vector round trip", kinds=False)
    # a different vector lands in the same places
    other = np.arange(len(expect)) * 1.5 + 0.25
    o = unravel(other)
    again, _ = o.tree_ravel()
    close(again, other, "re-ravelled vector", rtol=0, atol=0)
    pos = 0
    for p, v in walk(spec):
        val = realize(v)
        n = int(np.size(val))
        eq_value(np.asarray(o.get_param(".".join(p)), float), other[pos:pos + n].reshape(np.shape(val)),
                 "unravelled entry " + ".".join(p))
        pos += n
    if len(other):
        other[...] = -1.0
        close(o.tree_ravel()[0], np.arange(len(expect)) * 1.5 + 0.25, "tree after editing the vector", rtol=0, atol=0)
        if isinstance(vec, np.ndarray):
            vec[...] = 3.25
    eq_dict(t.to_dict(), want, "tree after editing its vector")
    # every conversion makes a tree of its own, also of a vector that was converted before
    first, second = unravel(vec := t.tree_ravel()[0]), unravel(vec)
    for p, _ in walk(spec):
        first.set_param(".".join(p), 555.0)
    eq_dict(second.to_dict(), want, "tree after editing another one from the same vector", kinds=False)
    eq_dict(unravel(vec).to_dict(), want, "vector converted again after editing the tree from it", kinds=False)
    flat, tree_def = t.to_flat_dict()
    first, second = ParameterTree.from_flat_dict(tree_def, flat), ParameterTree.from_flat_dict(tree_def, flat)
    for p, _ in walk(spec):
        first.set_param(".".join(p), 555.0)
    eq_dict(second.to_dict(), want, "tree after editing another one from the same flat form")
    eq_dict(ParameterTree.from_flat_dict(*reversed(t.to_flat_dict())).to_dict(), want, "flat form made again")
    flat, tree_def = t.tree_flatten()[0], t.tree_flatten()[1]
    first, second = ParameterTree.tree_unflatten(tree_def, flat), ParameterTree.tree_unflatten(tree_def, flat)
    for p, _ in walk(spec):
        first.set_param(".".join(p), 555.0)
    eq_dict(second.to_dict(), want, "tree after editing another one from the same leaves")
    eq_dict(t.to_dict(), want, "tree after editing trees made from it")


KINDS = ("int64", "int32", "int8", "bool", "float32", "float64")


@P.check(st.tuples(st.lists(st.tuples(st.sampled_from(KINDS), st.sampled_from([(), (1,), (3,), (2, 2), (2, 3)]), st.booleans()), min_size=1,
                            max_size=5), seeds), quick=150, thorough=2000)
def other_numbers(case, rec):
    """A vector's numbers arrive in the tree whatever kind of numbers the tree was made with."""
    kinds, seed = case
    d = dict(data={}, children=dict(sub=dict(data={}, children={})))
    sizes, shapes = [], []
    for k, (kind, shape, deep) in sorted(enumerate(kinds), key=lambda e: e[1][2]):
        v = np.round(bulk(seed + k, *shape, lo=0, hi=5) if shape else bulk(seed + k, 1, lo=0, hi=5)[0]).astype(kind)
        (d["children"]["sub"] if deep else d)["data"][f"p{k}"] = v if shape else v.item()
        sizes.append(int(np.size(v)))
        shapes.append((("sub." if deep else "") + f"p{k}", shape))
    t = ParameterTree.from_dict(copy.deepcopy(d))
    vec, unravel = t.tree_ravel()
    close(np.asarray(vec, float), np.concatenate([np.ravel(np.asarray(t.get_param(p), float)) for p, _ in shapes]), "vector", rtol=0, atol=0)
    other = bulk(seed + 50, sum(sizes), lo=-3, hi=3)
    o = unravel(other)
    for (p, shape), part in zip(shapes, np.split(other, np.cumsum(sizes)[:-1])):
        eq_value(np.asarray(o.get_param(p), float), part.reshape(shape), p)
    close(o.tree_ravel()[0], other, "vector of the tree from it", rtol=0, atol=0)
    t.set_param(shapes[0][0], other[: sizes[0]].reshape(shapes[0][1]) if shapes[0][1] else float(other[0]))
    eq_value(np.asarray(t.get_param(shapes[0][0]), float), other[: sizes[0]].reshape(shapes[0][1]), "value set")
    leaves, treedef = jax.tree_util.tree_flatten(unravel(other))
    eq_dict(jax.tree_util.tree_unflatten(treedef, leaves).to_dict(), o.to_dict(), "pytree round trip")
    rec.nontrivial(len({k for k, _, _ in kinds}) > 1)


@P.check(maybe_deep(tree_spec()), quick=200, thorough=3000)
def pytree_forms(spec, rec):
    classify(spec, rec)
    want = build_dict(spec)
    t = ParameterTree.from_dict(build_dict(spec))
    leaves, treedef = jax.tree_util.tree_flatten(t)
    keys = list(walk(spec))
    ensure(len(leaves) == len(keys), f"pytree has {len(leaves)} leaves, expected {len(keys)}")
    for leaf, (p, v) in zip(leaves, keys):
        eq_value(leaf, realize(v), "leaf " + ".".join(p))
    t2 = jax.tree_util.tree_unflatten(treedef, leaves)
    eq_dict(t2.to_dict(), want, "pytree round trip")
    for leaf in leaves:
        if isinstance(leaf, np.ndarray):
            leaf[...] = 31.0
    eq_dict(t.to_dict(), want, "tree after editing pytree leaves")
    doubled = jax.tree_util.tree_map(lambda x: x * 2 + 1, t)
    for p, v in keys:
        eq_value(np.asarray(doubled.get_param(".".join(p))), np.asarray(realize(v)) * 2 + 1, "mapped leaf")
    # two equal trees have equal structure; changing only values keeps it
    same = jax.tree_util.tree_structure(ParameterTree.from_dict(build_dict(spec)))
    ensure(same == treedef, "equal trees have different pytree structure")
    ensure(jax.tree_util.tree_structure(doubled) == treedef, "changing values changed the pytree structure")


@P.check(tree_spec(depth=2, values=array_value(allow_empty=False)), quick=300, thorough=4000)
def casadi_unpacking(spec, rec):
    classify(spec, rec)
    leaves = list(walk(spec))
    t = ParameterTree.from_dict(build_dict(spec))
    vec, unravel = t.tree_ravel()
    if not leaves:
        return
    rect = any(v[0] == "a" and len(v[1]) == 2 and min(v[1]) > 1 for _, v in leaves)
    rec.event("rectangular" if rect else "no-matrix")
    for kind in (cas.MX, cas.SX):
        sym = kind.sym("p", len(vec))
        ct = unravel(sym)
        outs = []
        for p, v in leaves:
            e = ct.get_param(".".join(p))
            val = np.asarray(realize(v), float)
            want2d = val.reshape(1, 1) if val.ndim == 0 else (val.reshape(-1, 1) if val.ndim == 1 else val)
            ensure(isinstance(e, kind), f"{p}: {type(e).__name__} instead of {kind.__name__}")
            ensure(tuple(e.shape) == want2d.shape, f"{p}: symbolic shape {e.shape} != {want2d.shape}")
            got = cas.Function("f", [sym], [e])(vec).full()
            close(got, want2d, f"symbolic entry {'.'.join(p)} ({kind.__name__})", rtol=0, atol=0)
            outs.append(e)
        # packing the symbolic tree gives the same vector order
        packed, _ = ct.tree_ravel()
        close(cas.Function("g", [sym], [packed])(vec).full().ravel(), vec, "re-packed symbolic tree", rtol=0, atol=0)


@st.composite
def config_spec(draw, depth=3):
    return {"data": draw(names), "children": {
        n: draw(config_spec(depth - 1)) for n in (
            draw(st.lists(names, max_size=3, unique=True)) if depth else [])}}


@P.check(config_spec(), quick=400, thorough=6000)
def config_forms(spec, rec):
    rec.nontrivial(bool(spec["children"]))
    t = ConfigTree.from_dict(copy.deepcopy(spec))
    ensure(t.to_dict() == spec, "config dict round trip")

    def keys(s, prefix):
        yield ".".join(prefix), s["data"]
        for k, c in s["children"].items():
            yield from keys(c, prefix + (k,))

    def build(s):
        return ConfigTree(s["data"], children={k: build(c) for k, c in s["children"].items()})

    def grow(s):
        node = ConfigTree(s["data"])
        for k, c in s["children"].items():
            node.add_child(k, grow(c))
        return node

    ensure(build(spec).to_dict() == spec and grow(spec).to_dict() == spec, "config built node by node")
    flat, tree_def = t.to_flat_dict()
    ensure(list(flat.items()) == list(keys(spec, ())), f"config flat form {flat}")
    back = ConfigTree.from_flat_dict(tree_def, flat)
    ensure(back.to_dict() == spec, "config flat round trip")
    d = t.to_dict()
    d["data"] = "changed"
    d["children"].clear()
    flat.clear()
    ensure(t.to_dict() == spec and back.to_dict() == spec, "config tree shares data with a converted form")
