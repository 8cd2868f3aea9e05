"""C04: composite models are built exactly as their configuration says."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

import lumos.models  # noqa: F401  (registers the built-in types)
from lib.gen import fl
from lib.harness import Property, close, ensure, must_raise
from lumos.models.base import Model, ModelReturn, model_io
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ConfigTree, ParameterTree

P = Property("C04", rule=(
    "Random family of 2-6 model types forming an acyclic slot graph (0-3 slots, 0-2 outputs, residuals, parameters "
    "each), then a configuration obtained by 0-4 subtree replacements. Non-trivial: the configuration differs from "
    "the default below the root or has at least two levels."))

_n = itertools.count()


@st.composite
def family(draw):
    n = draw(st.integers(2, 6))
    types = []
    for i in range(n):
        slots = {}
        if i < n - 1:
            for j in range(draw(st.integers(0 if i else 1, 3))):
                slots[f"s{draw(st.sampled_from('abcd'))}{j}"] = draw(st.integers(i + 1, n - 1))
        outs = draw(st.integers(0, 2))
        types.append(dict(slots=slots, outs=outs, params=draw(st.lists(fl(-2, 2, 3), max_size=2)),
                          res=draw(st.lists(st.integers(0, outs - 1), unique=True, max_size=outs)) if outs else [],
                          gain=draw(fl(-2, 2, 3))))
    edits = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)), max_size=4))
    return types, edits


def default_cfg(types, i):
    return {"t": i, "c": {s: default_cfg(types, j) for s, j in types[i]["slots"].items()}}


def cfg_paths(c, prefix=()):
    for s, k in c["c"].items():
        yield prefix + (s,)
        yield from cfg_paths(k, prefix + (s,))


def at(c, path):
    for p in path:
        c = c["c"][p]
    return c


def names_of(types, c, what):
    t = types[c["t"]]
    own = [f"o{i}" for i in range(t["outs"])] if what == "out" else [f"o{i}" for i in t["res"]]
    return own + [s + "." + n for s, k in c["c"].items() for n in names_of(types, k, what)]


def params_of(types, c):
    return {"data": {f"p{i}": v for i, v in enumerate(types[c["t"]]["params"])},
            "children": {s: params_of(types, k) for s, k in c["c"].items()}}


def value_of(types, c, a, params):
    t = types[c["t"]]
    out = {}
    tot = sum(params["data"].values())
    subs = {}
    for s, k in c["c"].items():
        o = value_of(types, k, a * 0.5 + t["gain"], params["children"][s])
        subs.update({s + "." + n: v for n, v in o.items()})
    for i in range(t["outs"]):
        out[f"o{i}"] = a * (i + 1) + tot * t["gain"] + sum(subs.values())
    out.update(subs)
    return out


def apart(d, count):
    return {"data": {k: 0.25 * next(count) for k in d["data"]}, "children": {k: apart(v, count) for k, v in d["children"].items()}}


def repeated(d, seen):
    """The configuration with the same tree wherever the same part of it occurs."""
    key = repr(d)
    if key not in seen:
        seen[key] = ConfigTree(data=d["data"])
        for n, k in d["children"].items():
            seen[key].add_child(name=n, subtree=repeated(k, seen))
    return seen[key]


class Family:
    def __init__(self, types):
        self.types = types
        self.cls = [None] * len(types)

    def __enter__(self):
        for i in reversed(range(len(self.types))):
            self.cls[i] = self.make(i)
            ModelMaker.add_to_registry(self.cls[i])
        return self

    def __exit__(self, *exc):
        for c in self.cls:
            if c is not None:
                try:
                    ModelMaker.remove_from_registry(c)
                except KeyError:
                    pass

    def name(self, i):
        return self.cls[i].__name__

    def make(self, i):
        t = self.types[i]
        fam = self

        def forward(self, inputs):
            a = inputs["a"]
            tot = sum(self._params.values())
            res = {}
            for s in t["slots"]:
                r = self.call_submodel(s, inputs={"a": a * 0.5 + t["gain"]})
                res.update({s + "." + n: v for n, v in r.residuals.items()})
            own = {}
            for k in range(t["outs"]):
                own[f"o{k}"] = 0.0
            out = self.make_outputs_dict(**own)
            total = sum(v for n, v in out.items() if "." in n)
            for k in range(t["outs"]):
                out[f"o{k}"] = a * (k + 1) + tot * t["gain"] + total
            res.update({f"o{k}": out[f"o{k}"] for k in t["res"]})
            return ModelReturn(outputs=out, residuals=res)

        cls = type(f"Fam{next(_n)}T{i}", (Model,), dict(
            forward=forward,
            get_default_params=classmethod(lambda c: {f"p{k}": v for k, v in enumerate(t["params"])}),
            get_default_submodel_config=classmethod(lambda c: {s: fam.name(j) for s, j in t["slots"].items()})))
        return model_io(inputs=("a",), outputs=tuple(f"o{k}" for k in range(t["outs"])),
                        residuals=tuple(f"o{k}" for k in t["res"]))(cls)

    def tree(self, c):
        return {"data": self.name(c["t"]), "children": {s: self.tree(k) for s, k in c["c"].items()}}


def compare(fam, types, model, cfg, what):
    ensure(type(model) is fam.cls[cfg["t"]], f"{what}: root type {type(model).__name__}")
    for p in cfg_paths(cfg):
        got = type(model.get_submodel(".".join(p)))
        ensure(got is fam.cls[at(cfg, p)["t"]], f"{what}: {'.'.join(p)} is {got.__name__}")
    for group, key in (("outputs", "out"), ("residuals", "res")):
        ensure(list(model.get_group_names(group)) == names_of(types, cfg, key),
               f"{what}: {group} {model.get_group_names(group)} != {names_of(types, cfg, key)}")
        ensure(model.get_num_vars(group) == len(names_of(types, cfg, key)), "count")
        for i, n in enumerate(names_of(types, cfg, key)):
            ensure(model.get_var_index(group, n) == i, f"index of {n}")
    ensure(tuple(model.get_group_names("inputs")) == ("a",), "inputs")
    ensure(model.get_recursive_params().to_dict() == params_of(types, cfg), f"{what}: parameters")
    must_raise(lambda: model.get_submodel("nope_slot"), "reading an unknown submodel")
    must_raise(lambda: model.get_var_index("outputs", "nope"), "index of an unknown output")


@P.check(st.tuples(family(), fl(-2, 2, 3), fl(-2, 2, 3)), quick=300, thorough=6000)
def build(case, rec):
    (types, edits), a1, a2 = case
    with Family(types) as fam:
        cfg = default_cfg(types, 0)
        tree = ModelMaker.make_config(fam.name(0))
        ensure(tree.to_dict() == fam.tree(cfg), "default configuration")
        changed = 0
        for pi, ti in edits:
            kids = list(cfg_paths(cfg))
            if not kids:
                break
            path = kids[pi % len(kids)]
            new = default_cfg(types, ti % len(types))
            at(cfg, path[:-1])["c"][path[-1]] = new
            tree.replace_subtree(".".join(path), ModelMaker.make_config(fam.name(ti % len(types))))
            changed += 1
            if len(list(cfg_paths(cfg))) > 60:
                break
        snap = tree.to_dict()
        ensure(snap == fam.tree(cfg), "configuration after replacements")
        model = ModelMaker.make_model_from_config(tree)
        compare(fam, types, model, cfg, "built model")
        rec.nontrivial(changed > 0 or any(len(p) > 1 for p in cfg_paths(cfg)))
        rec.event(f"edits={changed}")
        rec.event(f"depth={max((len(p) for p in cfg_paths(cfg)), default=0)}")
        for a in (a1, a2):
            out = model.forward(inputs={"a": a}).outputs
            want = value_of(types, cfg, a, params_of(types, cfg))
            ensure(set(out) == set(want), f"output names {set(out)} != {set(want)}")
            close([out[n] for n in want], list(want.values()), "collected outputs")
            ar = model.forward_with_arrays(np.array([a]))
            close(ar.outputs, [want[n] for n in names_of(types, cfg, "out")], "array outputs in name order")
            close(ar.residuals, [want[n] for n in names_of(types, cfg, "res")], "array residuals in name order")
        # the configuration is not consumed, and a second model is independent of the first
        ensure(tree.to_dict() == snap, "building changed the configuration")
        other = ModelMaker.make_model_from_config(tree)
        compare(fam, types, other, cfg, "second model")
        ensure(all(other.get_submodel(".".join(p)) is not model.get_submodel(".".join(p)) for p in cfg_paths(cfg)),
               "two models share a submodel")
        direct = fam.cls[0](model_config=ConfigTree.from_dict(snap))
        compare(fam, types, direct, cfg, "directly constructed model")
        plain = ModelMaker.make_model_from_name(fam.name(0))
        compare(fam, types, plain, default_cfg(types, 0), "model by name")
        # every submodel is its own: the parameters of each are set apart from the others, down to equal ones next to each other
        own = apart(pd := params_of(types, cfg), itertools.count(1))
        twins = ModelMaker.make_model_from_config(repeated(snap, {}))
        compare(fam, types, twins, cfg, "model of a configuration with one tree in several places")
        for m in (other, twins):
            m.set_recursive_params(ParameterTree.from_dict(own))
            ensure(m.get_recursive_params().to_dict() == own, "parameters set apart at every submodel")
            out, want = m.forward(inputs={"a": a1}).outputs, value_of(types, cfg, a1, own)
            close([out[n] for n in want], list(want.values()), "outputs with different parameters at every submodel")
            subs = [m.get_submodel(".".join(p)) for p in cfg_paths(cfg)]
            ensure(len({id(s) for s in subs}) == len(subs), "one submodel in two places")
        # parameter override at construction
        def bump(d):
            return {"data": {k: v + 1.5 for k, v in d["data"].items()}, "children": {k: bump(v) for k, v in d["children"].items()}}
        over = fam.cls[0](model_config=ConfigTree.from_dict(snap), params=ParameterTree.from_dict(bump(pd)))
        ensure(over.get_recursive_params().to_dict() == bump(pd), "constructor parameters")
        # wrong configurations
        if len(types) > 1:
            must_raise(lambda: fam.cls[1](model_config=tree), "configuration of another type")
        bad = copy.deepcopy(snap)
        node = bad
        for s in list(node["children"])[:1]:
            node = node["children"][s]
        node["data"] = "NoSuchModelType"
        must_raise(lambda: ModelMaker.make_model_from_config(ConfigTree.from_dict(bad)), "unknown type in configuration")
        must_raise(lambda: ModelMaker.make_config("NoSuchModelType"), "configuration of an unknown type")
        for s in types[0]["slots"]:
            fresh = ModelMaker.make_model_from_name(fam.name(0))
            must_raise(lambda: fresh.call_submodel(s, inputs={}), "submodel call without its inputs")
            must_raise(lambda: fresh.call_submodel("nope", inputs={"a": 1.0}), "call of an unknown submodel")
            fresh.call_submodel(s, inputs={"a": 1.0})
            must_raise(lambda: fresh.call_submodel(s, inputs={"a": 1.0}), "second call of a submodel in one evaluation")
            break
        if types[0]["slots"]:
            fresh = ModelMaker.make_model_from_name(fam.name(0))
            slots = list(types[0]["slots"])
            skip = slots[len(edits) % len(slots)]
            for s in slots:
                if s != skip:
                    fresh.call_submodel(s, inputs={"a": a1})
            must_raise(lambda: fresh.make_outputs_dict(**{f"o{k}": 0.0 for k in range(types[0]["outs"])}),
                       f"outputs collected although submodel {skip} was not called")


rop = st.tuples(st.sampled_from(["add", "add", "remove", "get", "build", "remove_class_twin"]), st.integers(0, 4))


@P.check(st.lists(rop, min_size=1, max_size=25), quick=250, thorough=4000)
def registry(ops, rec):
    k = next(_n)
    body = dict(forward=lambda self, inputs: ModelReturn(outputs={"o0": inputs["a"]}))
    cl = [model_io(inputs=("a",), outputs=("o0",))(type(f"Reg{k}" + ("", "_1", "_12", "_2")[i % 4], (Model,), dict(body))) for i in range(5)]
    # class 4 has the same name as class 0
    reg = {}
    try:
        hits = 0
        for what, i in ops:
            c = cl[i]
            n = c.__name__
            if what == "add":
                if n in reg:
                    must_raise(lambda: ModelMaker.add_to_registry(c), "registering a duplicate name")
                    hits += 1
                else:
                    ModelMaker.add_to_registry(c)
                    reg[n] = c
            elif what in ("remove", "remove_class_twin"):
                if n in reg:
                    ModelMaker.remove_from_registry(c)
                    del reg[n]
                else:
                    must_raise(lambda: ModelMaker.remove_from_registry(c), "removing an unknown type")
                    hits += 1
            elif what == "build":
                if n in reg:
                    ensure(type(ModelMaker.make_model_from_name(n)) is reg[n], f"built type for {n}")
                else:
                    must_raise(lambda: ModelMaker.make_model_from_name(n), "building an unregistered type")
            for name in {c.__name__ for c in cl}:
                if name in reg:
                    ensure(ModelMaker.get_model_class(name) is reg[name], f"registry entry {name} after {what}")
                else:
                    must_raise(lambda: ModelMaker.get_model_class(name), f"looking up {name} after {what}")
            # built-in entries stay
            ensure(ModelMaker.get_model_class("ConstAero").__name__ == "ConstAero", "built-in entry lost")
        rec.nontrivial(hits > 0 and len(ops) > 3)
    finally:
        for c in list(reg.values()):
            try:
                ModelMaker.remove_from_registry(c)
            except KeyError:
                pass
