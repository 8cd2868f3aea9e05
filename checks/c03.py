"""C03: model parameters are isolated from what callers hold."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.c01 import eq_dict
from lib.gen import fl, nodes, walk
from lib.harness import Property, close, ensure
from lib.models import Built, live, model_spec, param_dict, ref_forward
from lumos.models.tree_utils import ParameterTree

P = Property("C03", rule=(
    "Random composite model (0-2 levels of submodels, scalar/vector/matrix parameters), three instances and a pool "
    "of parameter trees; 6-25 operations: read, set, edit held tree by path, edit through a submodel, construct with "
    "a tree, evaluate, apply-and-evaluate. After every step all instances and all held trees equal their model. "
    "Non-trivial: a tree held by the caller was edited after it was read from or given to a model with parameters."))

op = st.fixed_dictionaries({
    "kind": st.sampled_from(["read", "read", "set", "set", "edit", "edit", "edit", "edit_child", "sub_read", "sub_set",
                             "eval", "eval", "apply", "new", "new_with", "edit_defaults"]),
    "i": st.integers(0, 5), "j": st.integers(0, 8), "leaf": st.integers(0, 40), "v": fl(-3, 3, 3),
    "x": st.lists(fl(-2, 2, 3), min_size=3, max_size=3), "u": st.lists(fl(-2, 2, 3), min_size=2, max_size=2),
    "m": fl(-1, 1, 3)})


def spec_tree(spec):
    """Plain value tree {'data': {k: array/float}, 'children': ...}."""
    return param_dict(spec)


def paths(spec, prefix=()):
    for k in spec["params"]:
        yield prefix + (k,)
    for s in spec["subs"]:
        yield from paths(s["spec"], prefix + (s["name"],))


def subpaths(spec, prefix=()):
    for s in spec["subs"]:
        yield prefix + (s["name"],)
        yield from subpaths(s["spec"], prefix + (s["name"],))


def sub(t, path):
    for n in path:
        t = t["children"][n]
    return t


def new_value(old, v):
    return v if np.ndim(old) == 0 else np.asarray(old) * 0.0 + v + np.arange(np.size(old)).reshape(np.shape(old))


def edited(old, v, k):
    """All values new, or one of them changed, perhaps only in its last digits."""
    if k % 3 == 0 or np.size(old) == 0:
        return new_value(old, v)
    new = np.array(old, float)
    at = np.unravel_index((7 * k + new.size // 2) % new.size, new.shape)
    new[at] = new[at] + v if k % 3 == 1 else new[at] * (1 + 2.0 ** -42) + 2.0 ** -60
    return new if np.ndim(old) else float(new)


@P.check(st.tuples(model_spec(depth=2, expr_depth=2), st.lists(op, min_size=6, max_size=25)), quick=160, thorough=4000)
def history(case, rec):
    spec, ops = case
    leaves, subs = list(paths(spec)), list(subpaths(spec))
    rec.event(f"params={min(len(leaves), 6)}")
    rec.event(f"subs={min(len(subs), 4)}")
    with Built(spec) as b:
        models = [(b.model(), spec_tree(spec)) for _ in range(2)]
        held = [(b.params(), spec_tree(spec))]
        touched = False

        def check(what):
            for n, (m, want) in enumerate(models):
                eq_dict(m.get_recursive_params().to_dict(), want, f"model {n} after {what}")
            for n, (t, want) in enumerate(held):
                eq_dict(t.to_dict(), want, f"held tree {n} after {what}")

        shared = set()
        for o in ops:
            k = o["kind"]
            mi = o["i"] % len(models)
            hi = o["j"] % len(held)
            m, mt = models[mi]
            if k == "read":
                held.append((m.get_recursive_params(), copy.deepcopy(mt)))
                shared.add(len(held) - 1)
            elif k == "set":
                m.set_recursive_params(held[hi][0])
                models[mi] = (m, copy.deepcopy(held[hi][1]))
                shared.add(hi)
            elif k in ("edit", "edit_child") and leaves:
                path = leaves[o["leaf"] % len(leaves)]
                t, tt = held[hi]
                node = sub(tt, path[:-1])
                nv = edited(node["data"][path[-1]], o["v"], o["leaf"] // max(1, len(leaves)) + o["i"])
                node["data"][path[-1]] = nv
                if k == "edit":
                    t.set_param(".".join(path), copy.deepcopy(nv))
                else:
                    c = t
                    for n in path[:-1]:
                        c = c.get_child(n)
                    c.set_param(path[-1], copy.deepcopy(nv))
                touched |= hi in shared
                rec.event("edit-depth%d%s" % (len(path), "-shared" if hi in shared else ""))
            elif k == "sub_read" and subs:
                sp = subs[o["leaf"] % len(subs)]
                eq_dict(m.get_submodel(".".join(sp)).get_recursive_params().to_dict(), sub(mt, sp), "submodel parameters")
            elif k == "sub_set" and subs:
                sp = subs[o["leaf"] % len(subs)]
                src = sub(held[hi][1], sp)
                m.get_submodel(".".join(sp)).set_recursive_params(ParameterTree.from_dict(src))
                par = sub(mt, sp[:-1])
                par["children"][sp[-1]] = copy.deepcopy(src)
                models[mi] = (m, mt)
                rec.event("sub_set")
            elif k in ("eval", "apply"):
                x, u = o["x"][:spec["nx"]], o["u"][:spec["nu"]]
                ds = {f"x{i}": v for i, v in enumerate(x)}
                du = {f"u{i}": v for i, v in enumerate(u)}
                if k == "eval":
                    ret = m.forward(ds, du, o["m"])
                else:
                    ret = m.apply_and_forward(ds, du, o["m"], held[hi][0])
                    mt = copy.deepcopy(held[hi][1])
                    models[mi] = (m, mt)
                    shared.add(hi)
                xd, out = ref_forward(spec, x, u, o["m"], mt)
                close([ret.states_dot[f"x{i}"] for i in range(spec["nx"])], xd, f"{k}: state derivatives")
                ensure(set(ret.outputs) == set(out), f"{k}: outputs {set(ret.outputs)} != {set(out)}")
                close([ret.outputs[n] for n in out], list(out.values()), f"{k}: outputs")
            elif k == "new":
                if len(models) < 4:
                    models.append((b.model(), spec_tree(spec)))
            elif k == "new_with":
                if len(models) < 5:
                    models.append((b.cls(model_config=b.cls.get_recursive_default_model_config(), params=held[hi][0]),
                                   copy.deepcopy(held[hi][1])))
                    shared.add(hi)
            elif k == "edit_defaults":
                held.append((m.get_recursive_default_params(), spec_tree(spec)))
                shared.add(len(held) - 1)
            check(k)
            if len(held) > 8:
                held.pop(0)
                shared = {s - 1 for s in shared}
        rec.nontrivial(touched)


big_op = op.filter(lambda o: o["kind"] in ("read", "set", "edit", "eval", "apply", "new_with"))
BIG = dict(kind="ss", nx=1, nu=1, params={"p0": ("a", (1500,), [0.0] * 1500), "p1": ("a", (40, 50), [1.0] * 2000)}, subs=[],
           outputs=[("u", 0)], residuals=[], con_outputs=[], time=False, xdot=[("add", ("pe", "p0", 700), ("mul", ("pm", "p1", 20, 30), ("x", 0)))])


@P.check(st.lists(big_op, min_size=6, max_size=16), quick=40, thorough=800)
def large_parameters(ops, rec):
    """The same with arrays of many hundred values of which one changes, perhaps a little."""
    history((BIG, ops), rec)
