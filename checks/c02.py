"""C02: edits by path touch exactly the addressed entry of a tree."""
import copy

import jax
import numpy as np
from hypothesis import strategies as st

from lib.gen import array_value, build_dict, finite, maybe_deep, names, nodes, realize, tree_spec, walk
from lib.harness import Property, ensure, must_raise
from checks.c01 import config_spec, eq_dict, eq_value
from lumos.models.tree_utils import ConfigTree, ParameterTree

P = Property("C02", rule=(
    "Random tree and 1-15 get/set/replace operations by path with delimiters '.', '/', '|', '->', aimed at "
    "existing entries (with new or minutely changed values), new entries, missing nodes and paths with an empty part. Non-trivial: at least two effective edits, one of them "
    "below the root."))

DELIMS = [".", "/", "|", "->"]

op = st.fixed_dictionaries({
    "kind": st.sampled_from(["set", "set", "set", "nudge", "get", "replace", "replace", "set_missing", "get_missing",
                             "replace_missing", "replace_bad", "set_new", "convert", "convert", "empty_part"]),
    "pick": st.integers(0, 30), "delim": st.sampled_from([0, 0, 1, 2, 3]),
    "value": array_value(), "name": names, "sub": tree_spec(depth=1, max_keys=2, max_children=2),
})


def locate(spec, path):
    for n in path:
        spec = spec["children"][n]
    return spec


def nudged(v, pick):
    step = (lambda x: float(np.nextafter(x, 9.0))) if pick % 2 else (lambda x: x + 1e-9)
    if v[0] == "s":
        return (v[0], step(v[1]))
    flat = [float(x) for x in np.ravel(v[2])]
    if flat:
        flat[pick % len(flat)] = step(flat[pick % len(flat)])
    return (v[0], v[1], flat) + tuple(v[3:])


def call(method, *args, delim):
    return method(*args) if delim == "." else method(*args, delimiter=delim)


def missing_path(spec, o):
    """A node path that does not exist."""
    all_nodes = [p for p, _ in nodes(spec)]
    base = all_nodes[o["pick"] % len(all_nodes)]
    return base + (o["name"] + "_nope",)


@P.check(st.tuples(maybe_deep(tree_spec(depth=3)), st.lists(op, min_size=1, max_size=15)), quick=350, thorough=8000)
def parameter_history(case, rec):
    spec, ops = case
    model = copy.deepcopy(spec)
    t = ParameterTree.from_dict(build_dict(spec))
    effective, deep = 0, 0
    for o in ops:
        d = DELIMS[o["delim"]]
        leaves = list(walk(model))
        all_nodes = [p for p, _ in nodes(model)]
        k = o["kind"]
        if k in ("set", "get", "nudge"):
            if not leaves:
                continue
            path, cur = leaves[o["pick"] % len(leaves)]
            rec.event(f"{k}-depth{len(path)}-{'dot' if d == '.' else 'custom'}")
            if k == "get":
                eq_value(call(t.get_param, d.join(path), delim=d), realize(cur), "get " + d.join(path))
            elif k == "nudge":
                # the value in force, with one element moved by very little
                new = nudged(cur, o["pick"])
                call(t.set_param, d.join(path), realize(new), delim=d)
                locate(model, path[:-1])["data"][path[-1]] = new
            else:
                call(t.set_param, d.join(path), realize(o["value"]), delim=d)
                locate(model, path[:-1])["data"][path[-1]] = o["value"]
                effective += 1
                deep += len(path) > 1
        elif k == "set_new":
            node = all_nodes[o["pick"] % len(all_nodes)]
            path = node + (o["name"] + "_n",)
            call(t.set_param, d.join(path), realize(o["value"]), delim=d)
            locate(model, node)["data"][path[-1]] = o["value"]
            effective += 1
            deep += len(path) > 1
        elif k == "replace":
            kids = [p for p in all_nodes if p]
            if not kids:
                continue
            path = kids[o["pick"] % len(kids)]
            rec.event(f"replace-depth{len(path)}-{'dot' if d == '.' else 'custom'}")
            call(t.replace_subtree, d.join(path), ParameterTree.from_dict(build_dict(o["sub"])), delim=d)
            locate(model, path[:-1])["children"][path[-1]] = copy.deepcopy(o["sub"])
            effective += 1
            deep += len(path) > 1
        elif k == "convert":
            # reading the tree in another form neither changes it nor is it affected by earlier reads
            flat, tree_def = t.to_flat_dict()
            ensure(list(flat) == [".".join(p) for p, _ in leaves], f"flat keys {list(flat)}")
            for p_, v in leaves:
                eq_value(flat[".".join(p_)], realize(v), "flat " + ".".join(p_))
            eq_dict(ParameterTree.from_flat_dict(tree_def, flat).to_dict(), build_dict(model), "rebuilt from the flat form")
            if o["pick"] % 2:
                vec, unravel = t.tree_ravel()
                eq_dict(unravel(vec).to_dict(), build_dict(model), "rebuilt from the vector form", kinds=False)
                ensure(jax.tree_util.tree_structure(t) == jax.tree_util.tree_structure(ParameterTree.from_dict(build_dict(model))),
                       "structure differs from that of a tree built afresh")
            rec.event("convert-after-edit" if effective else "convert")
        elif k == "replace_bad":
            kids = [p for p in all_nodes if p]
            if not kids:
                continue
            must_raise(lambda: call(t.replace_subtree, d.join(kids[o["pick"] % len(kids)]), build_dict(o["sub"]), delim=d),
                       "replacing a subtree by a plain dict")
        elif k == "empty_part":
            # no node has an empty name
            if not leaves:
                continue
            path = list(leaves[o["pick"] % len(leaves)][0])
            path.insert(o["pick"] // 7 % len(path), "")
            bad = d.join(path)
            must_raise(lambda: call(t.set_param, bad, 1.0, delim=d), f"setting {bad!r}")
            must_raise(lambda: call(t.get_param, bad, delim=d), f"reading {bad!r}")
            kids = [p for p in all_nodes if p]
            if kids:
                path = list(kids[o["pick"] % len(kids)])
                path.insert(o["pick"] // 5 % len(path), "")
                must_raise(lambda: call(t.replace_subtree, d.join(path), ParameterTree.from_dict(build_dict(o["sub"])), delim=d),
                           f"replacing {d.join(path)!r}")
            rec.event(k)
        else:
            path = missing_path(model, o)
            rec.event(k)
            if k == "set_missing":
                must_raise(lambda: call(t.set_param, d.join(path + ("q",)), 1.0, delim=d), f"setting {path + ('q',)}")
            elif k == "get_missing":
                must_raise(lambda: call(t.get_param, d.join(path + ("q",)), delim=d), f"reading {path + ('q',)}")
                must_raise(lambda: call(t.get_param, d.join(path), delim=d), f"reading missing entry {path}")
            else:
                must_raise(lambda: call(t.replace_subtree, d.join(path), ParameterTree.from_dict(build_dict(o["sub"])), delim=d),
                           f"replacing missing {path}")
        eq_dict(t.to_dict(), build_dict(model), f"after {k}")
    rec.nontrivial(effective >= 2 and deep >= 1)


def dotted(spec):
    """The same tree with full stops in some names."""
    name = lambda i, k: k if i % 3 == 1 else (k + ".v" if i % 3 else "a." + k)
    return {"data": {name(i, k): v for i, (k, v) in enumerate(spec["data"].items())},
            "children": {name(i + 1, k): dotted(v) for i, (k, v) in enumerate(spec["children"].items())}}


@P.check(st.tuples(tree_spec(depth=2).map(dotted), st.lists(op, min_size=1, max_size=10)), quick=150, thorough=3000)
def dotted_names(case, rec):
    """A delimiter of the user's makes names with full stops addressable."""
    spec, ops = case
    model = copy.deepcopy(spec)
    t = ParameterTree.from_dict(build_dict(spec))
    edits = 0
    for o in ops:
        d = DELIMS[1 + o["delim"] % 3]
        leaves = list(walk(model))
        if o["kind"] in ("replace", "replace_bad"):
            kids = [p for p, _ in nodes(model) if p]
            if kids:
                path = kids[o["pick"] % len(kids)]
                t.replace_subtree(d.join(path), ParameterTree.from_dict(build_dict(dotted(o["sub"]))), delimiter=d)
                locate(model, path[:-1])["children"][path[-1]] = dotted(o["sub"])
                edits += 1
        elif o["kind"] == "set_new":
            t.set_param("q." + o["name"], realize(o["value"]), delimiter=d)
            model["data"]["q." + o["name"]] = o["value"]
        elif o["kind"].endswith("missing"):
            must_raise(lambda: t.get_param(d.join(missing_path(model, o) + ("q.r",)), delimiter=d), "reading a missing entry")
        elif leaves:
            path, cur = leaves[o["pick"] % len(leaves)]
            if "get" in o["kind"]:
                eq_value(t.get_param(d.join(path), delimiter=d), realize(cur), f"get {path}")
            else:
                t.set_param(d.join(path), realize(o["value"]), delimiter=d)
                locate(model, path[:-1])["data"][path[-1]] = o["value"]
                edits += any("." in n for n in path)
        eq_dict(t.to_dict(), build_dict(model), f"after {o['kind']}")
    rec.nontrivial(edits > 0)


cop = st.fixed_dictionaries({"kind": st.sampled_from(["replace", "replace", "replace_missing"]),
                             "pick": st.integers(0, 30), "delim": st.sampled_from([0, 0, 1, 2, 3]),
                             "name": names, "sub": config_spec(1)})


@P.check(st.tuples(config_spec(3), st.lists(cop, min_size=1, max_size=8)), quick=250, thorough=5000)
def config_history(case, rec):
    spec, ops = case
    model = copy.deepcopy(spec)
    t = ConfigTree.from_dict(copy.deepcopy(spec))
    n = 0
    for o in ops:
        d = DELIMS[o["delim"]]
        kids = [p for p, _ in nodes(model) if p]
        if o["kind"] == "replace" and kids:
            path = kids[o["pick"] % len(kids)]
            call(t.replace_subtree, d.join(path), ConfigTree.from_dict(copy.deepcopy(o["sub"])), delim=d)
            locate(model, path[:-1])["children"][path[-1]] = copy.deepcopy(o["sub"])
            n += 1
        elif o["kind"] == "replace_missing":
            path = missing_path(model, o)
            must_raise(lambda: call(t.replace_subtree, d.join(path), ConfigTree.from_dict(copy.deepcopy(o["sub"])), delim=d),
                       f"replacing missing {path}")
        ensure(t.to_dict() == model, f"config tree differs after {o['kind']}: {t.to_dict()} != {model}")
        ensure(t.data == model["data"], "root type")
    rec.nontrivial(n >= 2)
