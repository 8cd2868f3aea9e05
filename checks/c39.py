"""C39: values of a model are addressed by their names."""
import casadi as cas
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import NAMES, Built, all_outputs, all_residuals, input_names, model_spec, param_dict, ref_forward, ref_implicit, state_names
from lumos.models.base import Model, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.composition import ModelMaker

P = Property("C39", rule=(
    "Generated models with and without states, with sub-models and four naming styles, histories of constraint outputs; values named "
    "in random order, missing and additional ones, vectors in NumPy, JAX and CasADi. Non-trivial: a group of at least two names "
    "given in another order than its own."))


def groups_of(spec, con):
    g = dict(inputs=input_names(spec), outputs=all_outputs(spec), residuals=all_residuals(spec))
    if spec["kind"] == "ss":
        g.update(states=state_names(spec), states_dot=state_names(spec), con_outputs=con)
    return {k: list(v) for k, v in g.items()}


def shuffle(names, seed):
    return [names[i] for i in np.argsort(bulk(seed, len(names)))] if names else []


def check_groups(m, spec, con, seed, rec):
    rng = iter(range(seed, seed + 10**6))
    moved = False
    for g, names in groups_of(spec, con).items():
        n = len(names)
        ensure(list(m.get_group_names(g)) == names and m.get_num_vars(g) == n, f"names of {g}: {m.get_group_names(g)}, not {names}")
        v = bulk(next(rng), n)
        value = dict(zip(names, map(float, v)))
        order = shuffle(names, next(rng))
        moved |= order != names
        given = {k: value[k] for k in order}
        close(m.make_vector(g, **given), v, f"vector of {g} given in the order {order}", rtol=0, atol=0)
        extra = {k: value[k] for k in order[: n // 2]}
        extra.update(zz_unknown=7.0)
        extra.update({k: value[k] for k in order[n // 2:]})
        close(m.make_vector(g, **extra), v, f"vector of {g} with an additional value", rtol=0, atol=0)
        d = m.make_dict(g, **given)
        ensure(dict(d) == given, f"dictionary of {g}: {d}")
        if n:
            gone = order[seed % n]
            less = {k: x for k, x in given.items() if k != gone}
            for f in (m.make_vector, m.make_dict):
                must_raise(lambda: f(g, **less), f"{f.__name__} of {g} without {gone}")
                # as many values as there should be, one of them under a wrong name
                must_raise(lambda: f(g, **dict(less, zz_unknown=1.0)), f"{f.__name__} of {g} with another value in place of {gone}")
        for i, k in enumerate(names):
            ensure(m.get_var_index(g, k) == i, f"position of {k} in {g}")
        must_raise(lambda: m.get_var_index(g, "zz_unknown"), f"position of an unknown name in {g}")
        other = [k for h, l in groups_of(spec, con).items() for k in l if k not in names]
        if other:
            must_raise(lambda: m.get_var_index(g, other[seed % len(other)]), f"position in {g} of a name of another group")
        close(m.make_const_vector(g, 2.5), np.full(n, 2.5), f"constant vector of {g}", rtol=0, atol=0)
        ensure(m.make_const_dict(g, 2.5) == {k: 2.5 for k in names}, f"constant dictionary of {g}")
        ensure(np.shape(m.make_random_vector(g)) == (n,), f"random vector of {g}")
        # the same vector in the other array languages
        with lnp.use_backend("jax"):
            close(m.make_vector(g, **{k: jnp.asarray(x) for k, x in given.items()}) if n else np.zeros(0), v, f"JAX vector of {g}", rtol=1e-6)
        if n:
            s = cas.MX.sym("s", n)
            with lnp.use_backend("casadi"):
                vec = m.make_vector(g, **{k: s[names.index(k)] for k in order})
            close(np.array(cas.Function("f", [s], [vec])(v)).ravel(), v, f"CasADi vector of {g}", rtol=0, atol=0)
        rec.event(f"{g}={min(n, 4)}")
    for g, get in (("inputs", m.get_input), ("outputs", m.get_output)) + ((("states", m.get_state),) if spec["kind"] == "ss" else ()):
        names = groups_of(spec, con)[g]
        v = bulk(next(rng), len(names))
        for i, k in enumerate(names):
            ensure(get(v, k) == v[i], f"{get.__name__} of {k}")
        must_raise(lambda: get(v, "zz_unknown"), f"{get.__name__} of an unknown name")
    ensure(m.num_inputs == len(input_names(spec)) and m.num_outputs == len(all_outputs(spec))
           and m.num_residuals == len(all_residuals(spec)), "numbers of inputs, outputs or residuals")
    rec.nontrivial(moved)


@st.composite
def specs(draw):
    kind = draw(st.sampled_from(["ss", "ss", "static"]))
    spec = draw(model_spec(kind, depth=2, smooth=False, max_x=3, max_u=3, expr_depth=2, residuals=kind == "ss"))
    return dict(spec, names=draw(st.sampled_from(sorted(NAMES))))


@P.check(st.tuples(specs(), st.lists(st.integers(0, 10**6), min_size=1, max_size=4), seeds), quick=220, thorough=4000, shards=2)
def names(c, rec):
    spec, picks, seed = c
    with Built(spec) as b:
        m, other = b.model(), b.model()
        con = []
        for i, p in enumerate(picks):
            if spec["kind"] == "ss":
                outs = all_outputs(spec)
                con = shuffle(outs, p)[: p % (len(outs) + 1)]
                m.set_con_outputs(tuple(con))
                ensure((m.num_states, m.num_con_outputs) == (spec["nx"], len(con)), "numbers of states or constraint outputs")
                ensure(tuple(m.implicit_inputs) == ("states", "inputs", "states_dot", "con_outputs"), f"flat groups {m.implicit_inputs}")
                k = 0
                for g in m.implicit_inputs:
                    l = groups_of(spec, con)[g]
                    close(m.get_group_indices_in_flat(g), np.arange(k, k + len(l)), f"flat positions of {g}", rtol=0, atol=0)
                    for name in l:
                        ensure(m.get_var_index_in_flat(g, name) == k, f"flat position of {name}")
                        k += 1
            check_groups(m, spec, con, seed % 10**6 + i, rec)
            if spec["kind"] == "ss":
                for o, what in ((other, "another"), (b.model(), "a later")):
                    ensure(list(o.get_group_names("con_outputs")) == [], f"constraint outputs of {what} model of that type")
            x, u, mesh = bulk(p, spec["nx"]), bulk(p + 1, spec["nu"]), float(bulk(p + 2, 1)[0])
            params = param_dict(spec)
            xd, out = ref_forward(spec, x, u, mesh, params)
            want = {g: [out[k] for k in l] for g, l in groups_of(spec, con).items() if g in ("outputs", "residuals", "con_outputs")}
            ud = {k: float(u[input_names(spec).index(k)]) for k in shuffle(list(input_names(spec)), p + 3)}
            if spec["kind"] == "ss":
                want["states_dot"] = xd
                sd = {k: float(x[state_names(spec).index(k)]) for k in shuffle(list(state_names(spec)), p + 4)}
                named, flat = m.forward(sd, ud, mesh), m.forward_with_arrays(x, u, mesh)
                dots, cons = bulk(p + 5, spec["nx"]), bulk(p + 6, len(con))
                close(m.implicit(x, u, dots, cons, mesh), ref_implicit(spec, np.concatenate([x, u, dots, cons]), mesh, params, tuple(con)),
                      "stage equations", rtol=1e-10)
            else:
                named, flat = m.forward(ud), m.forward_with_arrays(u)
            for g, v in want.items():
                close(getattr(flat, g), np.array(v, float), f"{g} of the evaluation with vectors", rtol=1e-10)
            for k, v in out.items():
                close(named.outputs[k], v, f"output {k} of the evaluation by name", rtol=1e-10, shape=False)
            for k, v in zip(state_names(spec), xd):
                close(named.states_dot[k], v, f"derivative of {k} of the evaluation by name", rtol=1e-10, shape=False)


@P.check(st.tuples(st.integers(1, 4), st.integers(0, 4), seeds, st.sampled_from(["ok", "ok", "con", "res"])), quick=400, thorough=3000)
def declared(c, rec):
    """Names declared by the class: constraint outputs and residuals have to be outputs."""
    nx, no, seed, kind = c
    states, outputs = tuple(f"q{i}" for i in range(nx)), tuple(f"y{i}" for i in range(no))
    con = tuple(shuffle(list(outputs), seed)[: seed % (no + 1)])
    res = tuple(shuffle(list(outputs), seed + 1)[: seed // 7 % (no + 1)])
    a = bulk(seed + 2, no + nx)

    def forward(self, states, inputs, mesh):
        o = {k: a[i] * inputs["u"] + mesh for i, k in enumerate(outputs)}
        d = {k: a[no + i] * states[k] for i, k in enumerate(self.get_group_names("states"))}
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **{k: d[k] for k in shuffle(list(d), seed + 4)}),
                                     outputs=self.make_outputs_dict(**{k: o[k] for k in shuffle(list(outputs), seed + 3)}))

    cls = type("Declared", (StateSpaceModel,), dict(forward=forward))
    wrong = ["y9", "q0", "y", "", "Y0", "y0.y0", "y0 "][seed % 7]
    cls = state_space_io(states=states, inputs=("u",), outputs=outputs, con_outputs=con + ((wrong,) if kind == "con" else ()),
                         residuals=res + ((wrong,) if kind == "res" else ()))(cls)
    if kind != "ok":
        must_raise(cls, f"a model whose {kind} name {wrong} is not an output")
        rec.event("refused")
        return
    m = cls()
    x, u, s = bulk(seed + 5, nx), bulk(seed + 6, 1), 0.25
    r = m.forward_with_arrays(x, u, s)
    y = {k: a[i] * u[0] + s for i, k in enumerate(outputs)}
    close(r.states_dot, a[no:] * x, "rates")
    close(r.outputs, np.array([y[k] for k in outputs]), "outputs")
    close(r.con_outputs, np.array([y[k] for k in con]), "declared constraint outputs")
    close(r.residuals, np.array([y[k] for k in res]), "declared residuals")
    ensure(list(m.get_group_names("con_outputs")) == list(con) and list(m.get_group_names("residuals")) == list(res), "declared names")
    must_raise(lambda: state_space_io(states=("a",))(type("Static", (Model,), {})), "states declared for a model without")
    # the residuals of a sub-model have to be outputs too
    for r, fine in (("z", True), (wrong, wrong == "z")):
        sub = model_io(inputs=("a",), outputs=("z",), residuals=(r,))(type("DeclaredSub", (Model,), {}))
        top = type("DeclaredTop", (StateSpaceModel,), dict(get_default_submodel_config=classmethod(lambda c: {"s": "DeclaredSub"})))
        top = state_space_io(states=states, inputs=("u",), outputs=outputs, con_outputs=("s.z",))(top)
        sub.forward = top.forward = lambda self, *a, **k: None
        sub.__abstractmethods__ = top.__abstractmethods__ = frozenset()
        ModelMaker.add_to_registry(sub)
        try:
            if fine:
                ensure(list(top().get_group_names("residuals")) == [f"s.{r}"] and list(top().get_group_names("con_outputs")) == ["s.z"],
                       "names of a sub-model")
            else:
                must_raise(top, f"a sub-model whose residual {r} is not an output")
        finally:
            ModelMaker.remove_from_registry(sub)
    # another choice for one model is no choice for the others of its type
    m.set_con_outputs(tuple(outputs[:1]))
    for o, what in ((m, "the model"), (cls(), "a later model")):
        ensure(list(o.get_group_names("con_outputs")) == (list(outputs[:1]) if o is m else list(con)), f"constraint outputs of {what}")
    close(cls().forward_with_arrays(x, u, s).con_outputs, np.array([y[k] for k in con]), "constraint outputs of a later model")
    rec.nontrivial(len(con) > 1 or len(res) > 1)
