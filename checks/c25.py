"""C25: changing parameters of a built problem equals rebuilding it."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.c01 import eq_dict
from checks.c03 import new_value, paths
from checks.c18 import verify
from lib.compiled import dense
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import param_dict
from lib.ocp import Ref, built, interval_points, make_ocp, ocp_spec, part_order, point
from lumos.models.tree_utils import ParameterTree

P = Property("C25", rule=(
    "Problems over models with scalar, vector and matrix parameters at up to two levels, lifted/condensed, fixed/free mesh, "
    "scaled, in the hand-written, CasADi and JAX backends; histories of 2-8 operations: change a parameter by path, change the "
    "mesh scale or the division of the mesh, evaluate values / Jacobian / Hessian, a rejected path. After each evaluation the result is compared with the "
    "reference transcription for the current parameters and with a newly built problem; three problems over one model. Non-trivial: a parameter was "
    "changed after something was evaluated."))


@st.composite
def case(draw, **kw):
    spec = draw(ocp_spec(**kw).filter(lambda s: list(paths(s["model"]))))
    leaves = list(paths(spec["model"]))
    op = st.one_of(
        st.tuples(st.just("set"), st.sampled_from(leaves), fl(-2, 2, 2)), st.tuples(st.just("set"), st.sampled_from(leaves), fl(-2, 2, 2)),
        st.tuples(st.just("nudge"), st.sampled_from(leaves), st.sampled_from([1e-4, 3e-6, 1e-6, 1e-7])),
        st.tuples(st.just("in place"), st.sampled_from([p for p in leaves if np.ndim(get_in(spec["model"], p))] or leaves), fl(-2, 2, 2)),
        st.tuples(st.just("mesh"), fl(0.2, 4, 2), st.just(0)),
        st.tuples(st.sampled_from(["mesh", "divide"]), st.just("nudge"), st.sampled_from([1e-4, 3e-6, 1e-6, 1e-7])), st.tuples(st.just("divide"), st.lists(fl(0.1, 2.0, 2), min_size=4, max_size=4), st.just(0)), st.tuples(st.just("eval"), st.sampled_from(["con", "jac", "hess", "all"]), seeds),
        st.tuples(st.just("eval"), st.sampled_from(["con", "jac", "hess", "all"]), seeds),
        st.tuples(st.just("wrong"), st.sampled_from(["nope.x", "a.b.c.d", "sub_none.p0"]), fl(-2, 2, 2)))
    return spec, draw(st.lists(op, min_size=2, max_size=8)), draw(seeds)


def get_in(model, path):
    tree = param_dict(model)
    for n in path[:-1]:
        tree = tree["children"][n]
    return tree["data"][path[-1]]


def set_in(tree, path, value):
    for n in path[:-1]:
        tree = tree["children"][n]
    tree["data"][path[-1]] = new_value(tree["data"][path[-1]], value)
    return tree["data"][path[-1]]


def nudge(tree, path, eps):
    """A small change, as for a finite difference."""
    for n in path[:-1]:
        tree = tree["children"][n]
    tree["data"][path[-1]] = tree["data"][path[-1]] * (1 + eps) + 0.01 * eps
    return tree["data"][path[-1]]


def evaluate(ocp, what, z, mult, of):
    n, m = ocp.num_dec, ocp.num_con
    out = {}
    if what in ("con", "all"):
        out["objective"], out["constraints"] = ocp.objective(z), np.array(ocp.constraints(z))
        out["gradient"] = np.array(ocp.gradient(z))
    if what in ("jac", "all"):
        out["Jacobian"] = dense(*ocp.jacobianstructure(), ocp.jacobian(z), (m, n))
    if what in ("hess", "all"):
        out["Hessian"] = dense(*ocp.hessianstructure(), ocp.hessian(z, mult, of), (n, n))
    return out


def history(c, rec, fresh_always=True):
    spec, ops, seed = c
    now = param_dict(spec["model"])
    T, division = spec["T"], spec["points"]
    changed = evaluated = nontrivial = False
    held = {}
    given = []
    with built(spec) as b:
        model = b.model()
        tree = model.get_recursive_params()
        before = copy.deepcopy(tree.to_dict())
        ocp = make_ocp(spec, model)
        ocp.constraints(bulk(seed, ocp.num_dec, lo=0.5, hi=1))
        todo = [("eval", "all", seed)] + ops + [("eval", "all", seed + 5)]
        for i, (o, a, v) in enumerate(todo):
            label = f"step {i} {o}"
            if o in ("set", "nudge"):
                val = (set_in if o == "set" else nudge)(now, a, v)
                val = copy.deepcopy(val)
                given.append((label, val, copy.deepcopy(val)))
                ocp.modify_model_param(".".join(a), val)
                changed, nontrivial = True, nontrivial or evaluated
            elif o == "in place":
                # the array given before, edited and given again
                val = copy.deepcopy(set_in(now, a, v))
                if np.ndim(val) and a in held:
                    held[a][...] = val
                    rec.event("edited in place")
                else:
                    held[a] = val
                ocp.modify_model_param(".".join(a), held[a])
                changed, nontrivial = True, nontrivial or evaluated
            elif o == "mesh":
                if not spec["free"]:
                    T = T * (1 + v) if a == "nudge" else a
                    ocp.set_mesh_scale(T)
                    changed, nontrivial = True, nontrivial or evaluated
            elif o == "divide":
                even = division or [1.0] * spec["ni"]
                division = [even[0] * (1 + v)] + list(even[1:]) if a == "nudge" else a[: spec["ni"]]
                ocp.set_normalized_mesh(interval_points(dict(points=division)))
                changed, nontrivial = True, nontrivial or evaluated
            elif o == "wrong":
                must_raise(lambda: ocp.modify_model_param(a, v), f"{label}: parameter {a}")
            else:
                now_spec = dict(spec, T=T, points=division)
                ref = Ref(now_spec, params=now)
                s = ref.var_scales(spec["scales"])
                x = point(ref, v)
                z = x / s
                order = part_order(ocp)
                mult, of = bulk(v + 1, ocp.num_con), 0.8
                got = evaluate(ocp, a, z, mult, of)
                close(ocp.constraints(z), ref.constraints(x, order, spec["scales"]), f"{label}: constraints and the definition",
                      rtol=1e-8, atol=1e-8)
                if fresh_always or i == len(todo) - 1:
                    model = b.model()
                    model.set_recursive_params(ParameterTree.from_dict(copy.deepcopy(now)))
                    want = evaluate(make_ocp(now_spec, model), a, z, mult, of)
                    for k, w in want.items():
                        tol = 1e-12 * (1 + np.max(np.abs(w)))
                        close(got[k], w, f"{label}: {k} and a newly built problem", rtol=1e-11, atol=tol, shape=False)
                evaluated = True
                if i == len(todo) - 1:
                    verify(now_spec, ocp, ref, spec["scales"], z, v, rec, f"{label}: ")
            eq_dict(ocp.model.get_recursive_params().to_dict(), now, f"{label}: parameters of the model")
        for label, val, same in given:
            ensure(np.array_equal(val, same), f"the value given in {label} has become {val}")
        eq_dict(tree.to_dict(), before, "parameter tree taken before the problem was built")
        if not spec["free"]:
            close(ocp.get_mesh(), Ref(dict(spec, T=T, points=division)).mesh01 * T, "mesh")
    for e in (spec["backend"], "condensed" if spec["condensed"] else "lifted", "free" if spec["free"] else "fixed"):
        rec.event(e)
    rec.nontrivial(nontrivial)


@P.check(case(max_ni=2, max_stages=3, depth=2), quick=60, thorough=800, shards=4)
def handwritten(c, rec):
    history(c, rec)


@P.check(case(backends=("casadi",), max_ni=2, max_stages=3, depth=2), quick=12, thorough=200, shards=4)
def compiled_casadi(c, rec):
    history(c, rec)


@P.check(case(backends=("jax",), max_ni=2, max_stages=3, depth=2), quick=5, thorough=60, shards=4)
def compiled_jax(c, rec):
    history(c, rec, fresh_always=False)


@P.check(st.tuples(ocp_spec(max_ni=2, max_stages=3, depth=2).filter(lambda s: list(paths(s["model"]))),
                   st.lists(st.tuples(st.integers(0, 2), st.integers(0, 10**6), fl(-2, 2, 2)), min_size=1, max_size=6), seeds),
         quick=40, thorough=500, shards=2)
def shared_model(c, rec):
    """Several problems over one model: each keeps the parameters it was built with, apart from its own changes."""
    spec, ops, seed = c
    leaves = list(paths(spec["model"]))
    with built(spec) as b:
        model = b.model()
        now, ocps = [], []
        for k in range(3):
            d = param_dict(spec["model"])
            for i, path in enumerate(leaves):
                if k and (seed >> i) % 3 < k:
                    set_in(d, path, float(bulk(seed + 7 * k + i, 1)[0]))
            model.set_recursive_params(ParameterTree.from_dict(copy.deepcopy(d)))
            now.append(d)
            ocps.append(make_ocp(spec, model))
        for k, i, v in [(0, 0, None)] + ops + [(1, 0, None), (2, 0, None)]:
            if v is not None:
                path = leaves[i % len(leaves)]
                ocps[k].modify_model_param(".".join(path), copy.deepcopy(set_in(now[k], path, v)))
            for ocp, d in zip(ocps, now):
                ref = Ref(spec, params=d)
                x = point(ref, seed + i)
                close(ocp.constraints(x / ref.var_scales(spec["scales"])), ref.constraints(x, part_order(ocp), spec["scales"]),
                      f"constraints of one of three problems, after a change of problem {k}", rtol=1e-8, atol=1e-8)
    rec.nontrivial(len({k for k, _, _ in ops}) > 1)
