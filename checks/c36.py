"""C36: aerodynamic and learned models implement their formulas."""
import copy

import jax
import numpy as np
from hypothesis import strategies as st

import lumos.models.ml as ml
import lumos.numpy as lnp
from lib.compiled import GROUPS, cas_forward, column, flat_params
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lumos.models.aero.aero import ConstAero, GPAero, MLPAero
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.composition import ModelMaker
from lumos.models.drone_model import DroneModel
from lumos.models.tree_utils import ParameterTree

P = Property("C36", rule=(
    "Random parameters (numbers of points, layers and widths; every value redrawn between evaluations) and inputs for the three aero "
    "models and the drone, evaluated directly, inside a vehicle-like host and inside the real vehicle, in NumPy, JAX (compiled, "
    "parameters as argument) and CasADi, and compared with the formulas written out here; the drone is integrated and compared with "
    "rigid-body solutions. Returned values are overwritten and evaluations repeated. Non-trivial: a history with changed "
    "parameters of more than one point or layer and inputs of moderate distance to the points."))

IN, OUT = ("front_ride_height", "rear_ride_height", "yaw"), ("Cx", "Cy", "Cz")


@state_space_io(states=("a", "b"), inputs=IN, outputs=OUT, con_outputs=("Cy",), residuals=())
class AeroHost(StateSpaceModel):
    """A model that calls an aero model."""

    def forward(self, states, inputs, mesh=0.0):
        c = self.call_submodel("aero", inputs=dict(inputs)).outputs
        sd = dict(a=c["Cx"] * states["b"], b=self._params["gain"] * c["Cz"] + states["a"])
        return StateSpaceModelReturn(states_dot=sd, outputs=self.make_outputs_dict(**{n: 2.0 * c[n] for n in OUT}))

    @classmethod
    def get_default_params(cls):
        return {"gain": 0.5}

    @classmethod
    def get_default_submodel_config(cls):
        return {"aero": "ConstAero"}


def variant(kind, n, width):
    """Class of the aero model of this size, registered."""
    base = dict(const=ConstAero, gp=GPAero, mlp=MLPAero)[kind]
    if kind == "const":
        return base
    name = f"{base.__name__}_{n}_{width}"
    if name not in _classes:
        _classes[name] = type(name, (base,), dict(num_points=n) if kind == "gp" else dict(num_layers=n, layer_dim=width))
        ModelMaker.add_to_registry(_classes[name])
    return _classes[name]


_classes = {}
try:
    ModelMaker.add_to_registry(AeroHost)
except ValueError:
    pass


def gp_ref(x, points, alpha):
    d = np.array([sum((p - v) ** 2 for p, v in zip(row, x)) for row in points])
    return np.array([sum(a * np.exp(-q) for a, q in zip(row, d)) for row in alpha])


def mlp_ref(x, weights):
    for w in weights:
        x = np.tanh(np.array([np.sum(row * x) for row in w]))
    return x


def new_params(kind, n, width, seed):
    if kind == "const":
        return dict(zip(OUT, bulk(seed, 3) * 3))
    if kind == "gp":
        return dict(gp_points=1.2 * bulk(seed, 3 * n).reshape(n, 3), alpha=2 * bulk(seed + 1, 3 * n).reshape(3, n))
    dims = [3] + [width] * n + [3]
    w = [bulk(seed + i, a * b).reshape(b, a) * 2.5 / np.sqrt(a) for i, (a, b) in enumerate(zip(dims, dims[1:]))]
    return dict(air_density=float(bulk(seed, 1)[0]), **{f"weights_layer_{i}": v for i, v in enumerate(w)})


def reference(kind, n, params, x):
    if kind == "const":
        return np.array([params[c] for c in OUT])
    if kind == "gp":
        return gp_ref(x, params["gp_points"], params["alpha"])
    return mlp_ref(x, [params[f"weights_layer_{i}"] for i in range(n + 1)])


@st.composite
def sizes(draw):
    kind = draw(st.sampled_from(["const", "gp", "mlp", "gp", "mlp"]))
    if kind == "gp":
        return kind, draw(st.sampled_from([1, 2, 3, 7, 40])), 0
    if kind == "mlp":
        return kind, draw(st.sampled_from([1, 2, 3, 4, 11, 12])), draw(st.sampled_from([1, 2, 5]))
    return kind, 0, 0


def inputs_of(seed):
    return dict(zip(IN, np.round(1.2 * bulk(seed, 3), 6)))


def check_return(ret, want, what):
    o = dict(ret.outputs)
    ensure(set(o) == set(OUT), f"{what}: outputs {sorted(o)}")
    close(np.array([float(o[c]) for c in OUT]), want, what, rtol=1e-9, atol=1e-12)


ops = st.lists(st.tuples(st.sampled_from(["forward", "forward", "arrays", "params", "one", "jax", "spoil"]), seeds), min_size=3, max_size=9)


def set_all(m, params):
    t = m.get_recursive_params()
    for k, v in params.items():
        t.set_param(k, v)
    m.set_recursive_params(t)


@P.check(st.tuples(sizes(), seeds, ops), quick=300, thorough=6000, shards=3)
def alone(c, rec):
    """The aero model by itself, through a history."""
    (kind, n, width), seed, history = c
    cls = variant(kind, n, width)
    params = new_params(kind, n, width, seed)
    m = cls(params=ParameterTree(copy.deepcopy(params))) if seed % 2 else cls()
    if seed % 2 == 0:
        set_all(m, copy.deepcopy(params))
    changed = 0
    for op, s in history:
        x = inputs_of(s)
        v = np.array(list(x.values()))
        want = reference(kind, n, params, v)
        if op == "params":
            params = new_params(kind, n, width, s)
            set_all(m, copy.deepcopy(params))
            changed += 1
        elif op == "one":
            k = sorted(params)[s % len(params)]
            params[k] = new_params(kind, n, width, s)[k] if s % 2 else 1.0001 * params[k]
            set_all(m, {k: copy.deepcopy(params[k])})
            changed += 1
        elif op == "forward":
            given = dict(x)
            check_return(m.forward(given), want, f"forward, history {history}")
            ensure(given == x, "forward changed its inputs")
        elif op == "arrays":
            close(np.asarray(m.forward_with_arrays(v).outputs), want, "arrays", rtol=1e-9, atol=1e-12)
        elif op == "jax":
            with lnp.use_backend("jax"):
                close(np.asarray(m.forward_with_arrays(jax.numpy.asarray(v)).outputs), want, "jax", rtol=1e-9, atol=1e-12)
        else:
            o = m.forward(dict(x)).outputs
            for k in list(o):
                o[k] = 1e3
            o["other"] = 1.0
            t = m.get_recursive_params()
            for k, p in t.to_flat_dict()[0].items():
                close(p, params[k], f"parameter {k} after changing returned outputs")
        x = inputs_of(seed + 5)
        check_return(m.forward(dict(x)), reference(kind, n, params, np.array(list(x.values()))), f"after {op} of {history}")
    rec.event(kind)
    rec.nontrivial(changed and (kind == "const" or n > 1))


def host_reference(kind, n, gain, params, x, states):
    c = reference(kind, n, params, x)
    return dict(states_dot=np.array([c[0] * states[1], gain * c[2] + states[0]]), outputs=np.r_[2 * c, c], con_outputs=2 * c[1:2],
                residuals=np.zeros(0))


@P.check(st.tuples(sizes(), st.lists(seeds, min_size=2, max_size=4), st.sampled_from(["MX", "SX"])), quick=25, thorough=500, shards=3)
def hosted(c, rec):
    """In a host, compiled once with parameters as arguments, against the formula for each parameter set."""
    import casadi
    (kind, n, width), draws, sym = c
    cls = variant(kind, n, width)
    cfg = ModelMaker.make_config("AeroHost")
    cfg.replace_subtree("aero", ModelMaker.make_config(cls.__name__))
    m = ModelMaker.make_model_from_config(cfg)
    names = m.get_group_names("outputs")
    ensure(set(names) == set(OUT) | {"aero." + n for n in OUT}, f"output names {names}")
    order = [names.index(v) for v in list(OUT) + ["aero." + v for v in OUT]]
    base = copy.deepcopy(m.get_recursive_params())
    f = cas_forward(m, getattr(casadi, sym))
    with lnp.use_backend("jax"):
        g = jax.jit(m.apply_and_forward_with_arrays)
        for k, s in enumerate(draws):
            p, params, gain = copy.deepcopy(base), new_params(kind, n, width, s), float(bulk(s + 9, 1)[0])
            for q, v in params.items():
                p.set_param("aero." + q, v)
            p.set_param("gain", gain)
            x, state = bulk(s + 3, 3) * 1.2, bulk(s + 4, 2)
            want = host_reference(kind, n, gain, params, x, state)
            got = dict(zip(GROUPS, (column(v) for v in f(state, x, 0.0, flat_params(p)))))
            ret = g(state, x, 0.0, p)
            for q in GROUPS:
                for what, v in (("casadi", got[q]), ("jax", np.asarray(getattr(ret, q)))):
                    v = v[order] if q == "outputs" else v
                    close(v, want[q], f"{what} {q}, parameter set {k}", rtol=1e-9, atol=1e-12, shape=False)
    rec.event(kind)
    rec.nontrivial(kind == "const" or n > 1)


@P.check(st.tuples(st.integers(1, 4), st.integers(0, 13), st.integers(1, 4), seeds), quick=60, thorough=1500, shards=2)
def other_depths(c, rec):
    """The network is the one of the parameters, whatever number of layers its class starts with."""
    own, n, width, seed = c
    m = variant("mlp", own, 2)()
    for k in range(2):
        params = new_params("mlp", n, width, seed + k)
        m.set_recursive_params(ParameterTree(copy.deepcopy(params)))
        for j in range(2):
            x = 1.2 * bulk(seed + 3 + j, 3)
            want = reference("mlp", n, params, x)
            check_return(m.forward(dict(zip(IN, x))), want, f"{n} hidden layers, class with {own}")
            close(np.asarray(m.forward_with_arrays(x).outputs), want, f"{n} hidden layers, class with {own}, arrays")
        n = (n + 1) % 13
    rec.event(f"{min(n, 11)} layers")
    rec.nontrivial(n != own)


_big = {}


def big_host(kind, n, width):
    """Host, compiled functions and bare model for a network or process of realistic size, built once."""
    if (kind, n, width) not in _big:
        import casadi
        cls = variant(kind, n, width)
        cfg = ModelMaker.make_config("AeroHost")
        cfg.replace_subtree("aero", ModelMaker.make_config(cls.__name__))
        m = ModelMaker.make_model_from_config(cfg)
        base = copy.deepcopy(m.get_recursive_params())
        f = cas_forward(m, casadi.MX)
        with lnp.use_backend("jax"):
            g = jax.jit(m.apply_and_forward_with_arrays)
        _big[kind, n, width] = m.get_group_names("outputs"), base, f, g, cls()
    return _big[kind, n, width]


@P.check(st.tuples(st.sampled_from([("gp", 1024, 0), ("mlp", 3, 128), ("gp", 700, 0), ("mlp", 6, 40)]), seeds), quick=12, thorough=200, shards=2)
def realistic_sizes(c, rec):
    """Hundreds of points or weights, of which one is changed a little between evaluations."""
    (kind, n, width), seed = c
    names, base, f, g, m = big_host(kind, n, width)
    order = [names.index("aero." + v) for v in OUT]
    params, x = new_params(kind, n, width, seed), 1.2 * bulk(seed + 3, 3)
    for k in range(4):
        if k in (1, 2):     # one entry that matters
            q = "alpha" if kind == "gp" else f"weights_layer_{(seed + k) % (n + 1)}"
            w = params[q] = params[q].copy()
            before = reference(kind, n, params, x)
            best, at = -1.0, None
            for j in range(12):
                i = tuple(int(v) for v in np.floor(bulk(seed + 10 * k + j, 2, lo=0, hi=1) * w.shape))
                w[i] += 1e-3
                effect = np.max(np.abs(reference(kind, n, params, x) - before)) if kind == "mlp" else np.exp(-np.sum((params["gp_points"][i[1]] - x) ** 2))
                w[i] -= 1e-3
                if effect > best:
                    best, at = effect, i
            w[at] += 1e-3
        elif k == 3:
            x = 1.2 * bulk(seed + 4, 3)
        want = reference(kind, n, params, x)
        p = copy.deepcopy(base)
        for q, v in params.items():
            p.set_param("aero." + q, v)
        p.set_param("gain", 0.7)
        set_all(m, copy.deepcopy(params))
        tol = dict(rtol=1e-8, atol=1e-9)
        check_return(m.forward(dict(zip(IN, x))), want, f"{kind} of size {n}, {width}, change {k}")
        got = column(f(np.zeros(2), x, 0.0, flat_params(p))[1])
        close(got[order], want, f"casadi {kind} of size {n}, {width}, change {k}", **tol)
        with lnp.use_backend("jax"):
            close(np.asarray(g(np.zeros(2), x, 0.0, p).outputs)[order], want, f"jax {kind} of size {n}, {width}, change {k}", **tol)
            close(np.asarray(m.forward_with_arrays(jax.numpy.asarray(x)).outputs), want, f"jax {kind} by itself, change {k}", **tol)
    rec.event(f"{kind} {n} {width}")
    rec.nontrivial(True)


vehicles = {}


@P.check(st.tuples(st.sampled_from([("const", 0, 0), ("gp", 5, 0), ("mlp", 2, 3), ("mlp", 11, 2)]), seeds, seeds), quick=60, thorough=1500, shards=2)
def in_vehicle(c, rec):
    """Drag and downforce of the vehicle are those of its aero model."""
    (kind, n, width), seed, s = c
    if c[0] not in vehicles:
        cfg = ModelMaker.make_config("SimpleVehicle")
        cfg.replace_subtree("aero", ModelMaker.make_config(variant(kind, n, width).__name__))
        vehicles[c[0]] = ModelMaker.make_model_from_config(cfg), ModelMaker.make_model_from_name("SimpleVehicle")
    m, plain = vehicles[c[0]]
    params = new_params(kind, n, width, s)
    for k, v in params.items():
        set_all(m, {"aero." + k: v})
    r = bulk(seed, 12)
    vx, vy, yaw = 1.5 + r[0], 0.3 * r[1], 0.4 * r[2]
    x = dict(vx=vx, vy=vy, yaw_rate=yaw, **{f"wheel_speed_{w}": vx / 0.33 * (1 + 0.03 * r[3 + i]) for i, w in enumerate(("fl", "fr", "rl", "rr"))})
    u = dict(throttle=abs(r[7]), brake=abs(r[8]), steer=r[9], ax=r[10], ay=r[11])
    coeff = reference(kind, n, params, np.array([vx, vy, yaw]))
    for k, v in zip(OUT, coeff):
        set_all(plain, {"aero." + k: float(v)})
    a, b = m.forward(dict(x), dict(u), 0.0), plain.forward(dict(x), dict(u), 0.0)
    for k, v in zip(OUT, coeff):
        close(float(a.outputs["aero." + k]), v, f"vehicle output aero.{k}", shape=False, rtol=1e-9, atol=1e-12)
    for k in b.states_dot:
        close(float(a.states_dot[k]), float(b.states_dot[k]), f"vehicle with the same coefficients: {k}", shape=False, rtol=1e-8, atol=1e-7)
    for k in b.outputs:
        close(float(a.outputs[k]), float(b.outputs[k]), f"vehicle with the same coefficients: {k}", shape=False, rtol=1e-8, atol=1e-6)
    rec.event(kind)
    rec.nontrivial(kind != "const")


@P.check(st.tuples(st.integers(1, 12), st.integers(1, 5), st.integers(1, 4), seeds, st.sampled_from(["numpy", "jax", "casadi"]), st.sampled_from([0.0, 0.0, 300.0, -3e5])), quick=250, thorough=4000, shards=2)
def kernels(c, rec):
    """Kernels, process and network of lumos.models.ml."""
    import casadi
    n, d, outs, seed, backend, away = c
    x, pts, alpha = bulk(seed, d), bulk(seed + 1, n * d).reshape(n, d), bulk(seed + 2, n * outs).reshape(outs, n)
    weights = [bulk(seed + 3, 4 * d).reshape(4, d), 2 * bulk(seed + 4, 8).reshape(2, 4), bulk(seed + 5, 2 * outs).reshape(outs, 2)]
    dist = np.array([sum((p - v) ** 2 for p, v in zip(row, x)) for row in pts])
    wrap = {"numpy": np.asarray, "jax": jax.numpy.asarray, "casadi": casadi.DM}[backend]
    # away from the origin; distances are of differences and lose only the last digits
    far, far_pts = x + away, pts + away
    tol = dict(rtol=1e-9, atol=1e-12) if away == 0 else dict(rtol=1e-6, atol=1e-6)
    with lnp.use_backend(backend):
        rows = lnp.vector_tile(wrap(far), n)
        res = dict(sqeuclidean_distance=ml.sqeuclidean_distance(wrap(far_pts), rows), rbf_kernel=ml.rbf_kernel(wrap(far_pts), rows),
                   tanh_kernel=ml.tanh_kernel(wrap(far_pts), rows), poly_kernel=ml.poly_kernel(wrap(far_pts), rows),
                   gp=ml.gp(wrap(far), wrap(far_pts), wrap(alpha)), mlp=ml.mlp(wrap(x), [wrap(w) for w in weights]))
    want = dict(sqeuclidean_distance=dist, rbf_kernel=np.exp(-dist), tanh_kernel=np.tanh(-dist), poly_kernel=dist,
                gp=gp_ref(x, pts, alpha), mlp=mlp_ref(x, weights))
    for k in want:
        close(column(np.array(res[k])), want[k], f"{backend} {k}", **tol)
    rec.event(backend)
    rec.nontrivial(n > 1 and d > 1)


drone = {}


@P.check(st.tuples(seeds, fl(-3, 20, 3), st.sampled_from(["plain", "arrays", "casadi", "jax"])), quick=400, thorough=8000, shards=2)
def drone_rates(c, rec):
    """Rigid-body rates for any state, thrust, turn rate and gravity."""
    seed, gravity, path = c
    r = bulk(seed, 8)
    x = dict(x=10 * r[0], x_dot=5 * r[1], z=10 * r[2], z_dot=5 * r[3], theta=4 * r[4])
    u = dict(f=20 * r[5], omega=10 * r[6])
    if "m" not in drone:
        drone["m"] = DroneModel()
        drone["f"] = cas_forward(drone["m"])
        with lnp.use_backend("jax"):
            drone["g"] = jax.jit(drone["m"].apply_and_forward_with_arrays)
        drone["m"] = DroneModel()
    m = drone["m"]
    set_all(m, dict(gravity=gravity))
    want = dict(x=x["x_dot"], x_dot=u["f"] * np.sin(x["theta"]), z=x["z_dot"], z_dot=u["f"] * np.cos(x["theta"]) - gravity, theta=u["omega"])
    wo = dict(sin_theta=np.sin(x["theta"]), f_omega=u["f"] * u["omega"])
    if path == "plain":
        ret = m.forward(dict(x), dict(u), 7 * r[7])
        sd, out = {k: float(v) for k, v in ret.states_dot.items()}, {k: float(v) for k, v in ret.outputs.items()}
    else:
        xs, us = (np.array([d[n] for n in m.get_group_names(g)]) for d, g in ((x, "states"), (u, "inputs")))
        p = m.get_recursive_params()
        if path == "arrays":
            v = m.forward_with_arrays(xs, us, 7 * r[7])
            a, b = v.states_dot, v.outputs
        elif path == "casadi":
            a, b = (column(v) for v in drone["f"](xs, us, 7 * r[7], flat_params(p))[:2])
        else:
            with lnp.use_backend("jax"):
                v = drone["g"](xs, us, 7 * r[7], p)
            a, b = v.states_dot, v.outputs
        sd = dict(zip(m.get_group_names("states_dot"), np.asarray(a, float).tolist()))
        out = dict(zip(m.get_group_names("outputs"), np.asarray(b, float).tolist()))
    ensure(set(sd) == set(want) and set(out) == set(wo), f"names {sorted(sd)} {sorted(out)}")
    for k in want:
        close(sd[k], want[k], f"{path}: derivative of {k}", shape=False, rtol=1e-10, atol=1e-10)
    for k in wo:
        close(out[k], wo[k], f"{path}: output {k}", shape=False, rtol=1e-10, atol=1e-10)
    rec.event(path)
    rec.nontrivial(True)
