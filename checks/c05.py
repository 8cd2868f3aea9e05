"""C05: one model, the same numbers in every backend and call style."""
import copy
import functools

import casadi as cas
import jax
import numpy as np
from hypothesis import strategies as st

import lumos.models  # noqa: F401
import lumos.numpy as lnp
from lib import compiled
from lib.compiled import GROUPS, cas_forward, flat_params, from_arrays, from_dicts
from lib import domain
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lib.models import Built, all_outputs, all_residuals, input_names, model_spec, param_dict, ref_forward, some_constant
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ParameterTree

P = Property("C05", rule=(
    "Generated composite state-space models (0-2 levels, scalar/vector/matrix parameters, smooth and non-smooth "
    "operations), evaluated with NumPy, JAX and CasADi through the dictionary, array and batched calls and compared "
    "with an independent interpreter; built-in models at random states and perturbed parameters; static models given other "
    "parameters in the call; points where a model is undefined. Non-trivial: the model "
    "has an array parameter or a submodel, or a built-in model's parameters were perturbed."))


def reference(spec, con, x, u, m, pd):
    xd, out = ref_forward(spec, list(x), list(u), m, pd)
    return {"states_dot": np.array(xd, float), "outputs": np.array([out[n] for n in all_outputs(spec)], float),
            "con_outputs": np.array([out[n] for n in con], float),
            "residuals": np.array([out[n] for n in all_residuals(spec)], float)}


def agree(got, want, what, tol=1e-9):
    for g in GROUPS:
        close(got[g], want[g], f"{what}: {g}", rtol=tol, atol=tol)


def perturb(pd, seed):
    n = [0]

    def one(v):
        n[0] += 1
        r = bulk(seed + n[0], *np.shape(v), lo=-2, hi=2)
        return float(r) if np.ndim(v) == 0 else r
    return {"data": {k: one(v) for k, v in pd["data"].items()},
            "children": {k: perturb(v, seed + 7919 * (i + 1)) for i, (k, v) in enumerate(pd["children"].items())}}


def leaves(pd, prefix=()):
    for k, v in pd["data"].items():
        yield prefix + (k,), v
    for k, c in pd["children"].items():
        yield from leaves(c, prefix + (k,))


@P.check(st.tuples(some_constant(model_spec(depth=2, smooth=False)), seeds, st.integers(0, 1)), quick=220, thorough=6000)
def styles(case, rec):
    spec, seed, sx = case
    with Built(spec) as b:
        m = b.model()
        con = tuple(spec["con_outputs"])
        m.set_con_outputs(con)
        f = cas_forward(m, cas.SX if sx else cas.MX)
        nx, nu = spec["nx"], spec["nu"]
        names = [f"x{i}" for i in range(nx)], [f"u{i}" for i in range(nu)]
        for k in range(3):
            pd = param_dict(spec) if k == 0 else perturb(param_dict(spec), seed + k)
            params = ParameterTree.from_dict(copy.deepcopy(pd))
            z = bulk(seed + 100 + k, nx + nu + 1, lo=-2, hi=2)
            x, u, mesh = z[:nx], z[nx:nx + nu], float(z[-1])
            want = reference(spec, con, x, u, mesh, pd)
            dx, du = dict(zip(names[0], map(float, x))), dict(zip(names[1], map(float, u)))
            agree(from_dicts(m, m.apply_and_forward(dx, du, mesh, params)), want, "NumPy dictionaries")
            m.set_recursive_params(params)
            # a dictionary is read by name, whatever its order, and superfluous entries are ignored
            agree(from_dicts(m, m.forward(dict(reversed(dx.items())), dict(reversed(du.items())), mesh)), want,
                  "NumPy dictionaries (reordered)")
            agree(from_arrays(m.forward_with_arrays(x, u, mesh)), want, "NumPy arrays")
            agree(from_arrays(m.apply_and_forward_with_arrays(x, u, mesh, params)), want, "NumPy arrays with parameters")
            if k == 1:  # inputs next to those of the call before
                near = x + 1e-9, u - 1e-9, mesh + 1e-9
                agree(from_arrays(m.forward_with_arrays(*near)), reference(spec, con, *near, pd), "NumPy arrays nearby", tol=1e-11)
            if k < 2:
                with lnp.use_backend("jax"):
                    j = m.apply_and_forward_with_arrays(jax.numpy.array(x), jax.numpy.array(u), mesh, params)
                agree(from_arrays(j), want, "JAX arrays")
            out = f(x, u, mesh, flat_params(params))
            agree({g: np.array(o).reshape(-1) for g, o in zip(GROUPS, out)}, want, "CasADi")
            if k == 0:
                mx = {n: cas.MX(v) for n, v in dx.items()}, {n: cas.MX(v) for n, v in du.items()}
                m.set_recursive_params(params)
                with lnp.use_backend("casadi"):
                    r = m.forward(*mx, cas.MX(mesh))
                vals = {"states_dot": [r.states_dot[n] for n in names[0]],
                        "outputs": [r.outputs[n] for n in all_outputs(spec)],
                        "con_outputs": [r.outputs[n] for n in con],
                        "residuals": [r.outputs[n] for n in all_residuals(spec)]}
                agree({g: np.array([float(cas.evalf(cas.MX(v))) for v in vs]) for g, vs in vals.items()}, want,
                      "CasADi dictionaries")
        arrays = any(v[0] == "a" for v in spec["params"].values())
        rec.event("arrays" if arrays else "scalars")
        rec.event(f"subs={len(spec['subs'])}")
        rec.event("SX" if sx else "MX")
        rec.nontrivial(arrays or spec["subs"])


@P.check(st.tuples(model_spec("static", depth=2, smooth=False, max_x=3, max_u=3, residuals=False), st.lists(seeds, min_size=2, max_size=4)),
         quick=80, thorough=2000)
def stateless(case, rec):
    """Models without states, every way of calling them with parameters of its own."""
    spec, calls = case
    names = list(input_names(spec))
    with Built(spec) as b:
        m = b.model()
        for k, seed in enumerate(calls):
            pd = param_dict(spec) if seed % 4 == 0 else perturb(param_dict(spec), seed)
            params = ParameterTree.from_dict(copy.deepcopy(pd))
            u = bulk(seed + k, spec["nu"], lo=-2, hi=2)
            _, out = ref_forward(spec, np.zeros(0), u, 0.0, pd)
            want = np.array([out[n] for n in all_outputs(spec)], float)
            named = dict(zip(names, map(float, u)))
            kind = ("names", "arrays", "jax")[(seed // 4) % 3]
            if kind == "names":
                o = m.apply_and_forward(named, params).outputs
                ensure(set(o) == set(all_outputs(spec)), f"outputs {sorted(o)}")
                got = [o[n] for n in all_outputs(spec)]
            elif kind == "arrays":
                got = m.apply_and_forward_with_arrays(u, params).outputs
            else:
                with lnp.use_backend("jax"):
                    got = m.apply_and_forward_with_arrays(jax.numpy.array(u), params).outputs
            close(np.asarray(got, float).reshape(-1), want, f"call {k} by {kind} with parameters of its own", rtol=1e-9)
            close(m.forward_with_arrays(u).outputs, want, f"evaluation after call {k}", rtol=1e-9)
            o = m.forward(named).outputs
            close([float(o[n]) for n in all_outputs(spec)], want, f"evaluation by name after call {k}", rtol=1e-9)
            rec.event(kind)
        rec.nontrivial(any(spec["params"].values()))


@functools.lru_cache(maxsize=None)
def prepared_domain(con):
    models = {}
    for backend in ("casadi", "jax"):
        m = domain.Domain()
        m.set_con_outputs(con)
        m.make_model_algebra_cons(backend)
        models[backend] = m
    return models, cas_forward(models["casadi"]), jax.jit(lambda x, u, s, q: models["jax"].apply_and_forward_with_arrays(x, u, s, q))


@P.check(st.tuples(seeds, st.integers(1, 12), st.sampled_from([(), ("c",), ("d", "c")])), quick=40, thorough=1500)
def undefined_values(case, rec):
    """Points at which a model is undefined: every backend and call style says so for the same values."""
    seed, n, con = case
    models, f, j = prepared_domain(con)
    X, U = domain.points(seed, n)
    xd, out = domain.values(X[:, 0], X[:, 1], U[:, 0])
    want = {"states_dot": xd, "outputs": out, "con_outputs": np.array([out[:, "cd".index(k)] for k in con]).T.reshape(n, -1), "residuals": np.zeros((n, 0))}
    with np.errstate(all="ignore"):
        for k in range(min(n, 3)):
            one = {g: v[k] for g, v in want.items()}
            m = models["casadi"]
            params = m.get_recursive_params()
            agree(from_arrays(m.forward_with_arrays(X[k], U[k], 0.0)), one, "NumPy arrays")
            agree(from_dicts(m, m.forward({"a": X[k, 0], "b": X[k, 1]}, {"u": U[k, 0]}, 0.0)), one, "NumPy dictionaries")
            with lnp.use_backend("jax"):
                agree(from_arrays(j(X[k], U[k], 0.0, params)), one, "JAX arrays")
            agree({g: np.array(o).reshape(-1) for g, o in zip(GROUPS, f(X[k], U[k], 0.0, flat_params(params)))}, one, "CasADi")
        for backend, m in models.items():
            if backend == "casadi" or n in (2, 5, 9):  # a size is a compilation
                r = m.batched_forward(X, U, np.zeros(n), m.get_recursive_params())
                for g in GROUPS:
                    close(np.asarray(getattr(r, g), float).reshape(n, -1), want[g], f"{backend} batch of {n}: {g}")
    rec.nontrivial(not np.all(np.isfinite(xd)) and n > 1)


@P.check(st.tuples(some_constant(model_spec(depth=1, smooth=False, max_x=2)), seeds,
                   st.lists(st.one_of(*[st.integers(1, 7)] * 4, st.sampled_from([40, 130, 300])), min_size=2, max_size=3),
                   st.sampled_from(["casadi", "jax", "casadi"])), quick=50, thorough=900, shards=2)
def batched(case, rec):
    spec, seed, sizes, backend = case
    with Built(spec) as b:
        m = b.model()
        con = tuple(spec["con_outputs"])
        m.set_con_outputs(con)
        m.make_model_algebra_cons(backend)
        nx, nu = spec["nx"], spec["nu"]
        for k, n in enumerate(sizes):
            pd = perturb(param_dict(spec), seed + k) if k else param_dict(spec)
            params = ParameterTree.from_dict(copy.deepcopy(pd))
            X, U, M = (bulk(seed + 10 + k, n, nx, lo=-2, hi=2), bulk(seed + 20 + k, n, nu, lo=-2, hi=2),
                       bulk(seed + 30 + k, n, lo=-2, hi=2))
            r = m.batched_forward(X, U, M, params)
            if k == len(sizes) - 1:
                # once more, the tree and the arrays edited where they are
                pd = perturb(pd, seed + 50)
                for path, v in leaves(pd):
                    old = params.get_param(".".join(path))
                    if np.ndim(old) and seed % 2:
                        old[...] = v
                    else:
                        params.set_param(".".join(path), v)
                X += 0.25
                U *= -1.5
                M[:] = M[::-1].copy()
                r = m.batched_forward(X, U, M, params)
            for g in GROUPS:
                want = np.array([reference(spec, con, X[i], U[i], M[i], pd)[g] for i in range(n)])
                got = np.asarray(getattr(r, g), float).reshape(n, -1)
                close(got, want, f"{backend} batch of {n}: {g}", rtol=1e-9, atol=1e-9)
        rec.event(backend)
        rec.nontrivial(len(set(sizes)) > 1)


# ---------------------------------------------------------------- built-in models
BUILTIN = ["SimpleVehicle", "SimpleVehicleOnTrack", "DroneModel", "MF52", "PerantoniTire", "TrackPosition2D",
           "ConstAero", "GPAero", "MLPAero", "SimpleVehicleMF52"]
SMALL = {"GPAero": ("num_points", 24), "MLPAero": ("layer_dim", 6)}


def make(name):
    from lumos.models.drone_model import DroneModel
    if name == "DroneModel":
        return DroneModel()
    if name in SMALL:
        base = ModelMaker.get_model_class(name)
        old = getattr(base, SMALL[name][0])
        setattr(base, *SMALL[name])
        try:
            return base()
        finally:
            setattr(base, SMALL[name][0], old)
    if name == "SimpleVehicleMF52":
        cfg = ModelMaker.make_config("SimpleVehicle")
        for w in ("fl", "fr", "rl", "rr"):
            cfg.replace_subtree("tire_" + w, ModelMaker.make_config("MF52"))
        return ModelMaker.make_model_from_config(cfg)
    return ModelMaker.make_model_from_name(name)


RANGES = {"vx": (15, 70), "vy": (-3, 3), "yaw_rate": (-0.6, 0.6), "ax": (-12, 12), "ay": (-12, 12),
          "throttle": (0.05, 1), "brake": (0, 1), "steer": (-0.15, 0.15), "Fz": (800, 7000), "kappa": (-0.2, 0.2),
          "alpha": (-0.2, 0.2), "gamma": (-0.05, 0.05), "Fx": (-2000, 2000), "Fy": (-2000, 2000),
          "track_curvature": (-0.02, 0.02), "n": (-4, 4), "eta": (-0.4, 0.4), "time": (0, 50), "vx_w": (15, 70)}


def span(n):
    if n.startswith("wheel_speed"):
        return (60, 250)
    if n.startswith("slip_ratio"):
        return (-0.15, 0.15)
    if n.startswith("slip_angle"):
        return (-0.15, 0.15)
    return RANGES.get(n, (-1.5, 1.5))


def draw_inputs(model, group, seed):
    ns = model.get_group_names(group)
    r = bulk(seed, len(ns))
    return [float((lo + hi) / 2 + r[i] * (hi - lo) / 2) for i, (lo, hi) in enumerate(map(span, ns))]


@functools.lru_cache(maxsize=None)
def prepared(name):
    m = make(name)
    params = m.get_recursive_params()
    ss = hasattr(m, "num_states")
    flat, unravel = params.tree_ravel()
    p, u = cas.MX.sym("p", len(flat)), cas.MX.sym("u", m.num_inputs)
    if ss:
        m.set_con_outputs(tuple(m.get_group_names("outputs")[:3]))
        f = cas_forward(m)
    else:
        try:
            with lnp.use_backend("casadi"):
                m.set_recursive_params(unravel(p))
                r = m.forward_with_arrays(u)
        finally:
            m.set_recursive_params(params)
        f = cas.Function("f", [u, p], [cas.densify(cas.MX(r.outputs)), cas.densify(cas.MX(r.residuals))])

    if ss:
        j = jax.jit(lambda x, u, s, q: m.apply_and_forward_with_arrays(x, u, s, q))
    else:
        def j0(u, q):
            m.set_recursive_params(q)
            return m.forward_with_arrays(u)
        j = jax.jit(j0)
    return m, params, f, j, ss


def _scaled(tree, seed):
    d = tree.to_dict()
    n = [0]

    def go(t):
        for k, v in t["data"].items():
            n[0] += 1
            s = bulk(seed * 31 + n[0], *np.shape(v), lo=0.9, hi=1.1)
            t["data"][k] = np.asarray(v) * s if np.ndim(v) else float(v) * float(s)
        for c in t["children"].values():
            go(c)
    go(d)
    return ParameterTree.from_dict(d)


@P.check(st.tuples(st.sampled_from(BUILTIN), seeds, st.integers(0, 3)), quick=180, thorough=8000, shards=2)
def builtin(case, rec):
    name, seed, pk = case
    m, base, f, j, ss = prepared(name)
    params = _scaled(base, seed % 1000) if pk else base
    p = flat_params(params)
    u = np.array(draw_inputs(m, "inputs", seed))
    inames = m.get_group_names("inputs")
    try:
        if ss:
            x, s = np.array(draw_inputs(m, "states", seed + 1)), float(bulk(seed + 2, 1, lo=0, hi=100)[0])
            a = from_arrays(m.apply_and_forward_with_arrays(x, u, s, params))
            m.set_recursive_params(base)
            d = from_dicts(m, m.apply_and_forward(dict(zip(m.get_group_names("states"), x)), dict(zip(inames, u)), s, params))
            with lnp.use_backend("jax"):
                jx = from_arrays(j(x, u, s, params))
            c = {g: np.array(o).reshape(-1) for g, o in zip(GROUPS, f(x, u, s, p))}
            groups = GROUPS
        else:
            r = m.apply_and_forward_with_arrays(u, params)
            a = {"outputs": np.asarray(r.outputs, float), "residuals": np.asarray(r.residuals, float)}
            m.set_recursive_params(base)
            o = m.apply_and_forward(dict(zip(inames, map(float, u))), params).outputs
            d = {"outputs": np.array([float(o[n]) for n in m.get_group_names("outputs")]), "residuals": a["residuals"]}
            with lnp.use_backend("jax"):
                r = j(u, params)
            jx = {"outputs": np.asarray(r.outputs, float), "residuals": np.asarray(r.residuals, float)}
            c = dict(zip(("outputs", "residuals"), (np.array(o).reshape(-1) for o in f(u, p))))
            groups = ("outputs", "residuals")
    finally:
        m.set_recursive_params(base)
    for g in groups:
        scale = max(1.0, float(np.max(np.abs(a[g]))) if a[g].size else 1.0)
        ensure(np.all(np.isfinite(a[g])), f"{name}: {g} not finite in the working range")
        for w, o in (("dictionaries", d), ("JAX", jx), ("CasADi", c)):
            close(o[g], a[g], f"{name}: {w} {g}", rtol=1e-7, atol=1e-9 * scale)
    rec.event(name)
    rec.nontrivial(pk > 0)
