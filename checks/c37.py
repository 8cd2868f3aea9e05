"""C37: minimum-time simulations pose the stated problem and reach the known optimum."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

import lumos.numpy as lnp
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import divisions, scheme
from lib.solution import OPTIONS, success
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.drone_model import DroneModel
from lumos.models.tree_utils import ConfigTree, ParameterTree
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from lumos.simulations.drone_simulation import DroneSimulation

P = Property("C37", rule=(
    "Drone simulations of random schemes, meshes, gravity, bounds and boundary conditions through histories of changes, compared with the "
    "stated defaults, the objective of manoeuvre time and rigid-body dynamics at every stage; and minimum-time problems with "
    "known answers (vertical flight between rests, with the mesh hitting the switch; falling along the brachistochrone) "
    "solved lifted and condensed, scaled and not, with exact and approximate Hessians. Non-trivial: a "
    "history with a change, or a solve of more than three iterations."))

DEFAULT_BOUNDS = {("states", "x"): (-50, 50), ("states", "x_dot"): (-50, 50), ("states", "z"): (-50, 50), ("states", "z_dot"): (-50, 50),
                  ("states", "theta"): (-10 * np.pi, 10 * np.pi), ("inputs", "f"): (1, 20), ("inputs", "omega"): (-10, 10)}
START = dict(x=0.0, x_dot=0.0, z=0.0, z_dot=0.0, theta=0.0)
END = dict(x=0.0, x_dot=0.0, z=5.0, z_dot=0.0, theta=2 * np.pi)
DEFAULT_CONDITIONS = [(0, ("states", n), v) for n, v in START.items()] + [(-1, ("states", n), v) for n, v in END.items()]


@st.composite
def settings(draw):
    name = draw(st.sampled_from(["LGR", "LGRIntegral", "Trapezoidal", "ForwardEuler"]))
    ni = draw(st.integers(2, 6))
    return dict(trans=name, ns=draw(st.integers(2, 4)) if name.startswith("LGR") else 2, ni=ni, seed=draw(seeds), condensed=draw(st.booleans()),
                points=draw(st.one_of(st.none(), divisions(ni, 0.2))),
                gravity=draw(st.sampled_from([None, 3.7, 1.62, 15.0])), own=draw(st.booleans()))


def normal(points, ni):
    p = np.linspace(0, 1, ni + 1) if points is None else np.r_[0.0, np.cumsum(points)] / np.sum(points)
    p[-1] = 1.0
    return p


def trans(s):
    return (s["trans"], {"num_stages": s["ns"]}) if s["trans"].startswith("LGR") else s["trans"]


def new_drone(s, **kwargs):
    if s["gravity"] is not None:
        params = DroneModel().get_recursive_params()
        params.set_param("gravity", s["gravity"])
        kwargs["model_params"] = params
    extra = kwargs.pop("config", {})
    cfg = DroneSimulation.get_sim_config(num_intervals=s["ni"], interval_points=None if s["points"] is None else normal(s["points"], s["ni"]),
                                         transcription=trans(s), is_condensed=s["condensed"], is_cyclic=False, backend="casadi",
                                         hessian_approximation="exact", **extra)
    return DroneSimulation(sim_config=cfg, **kwargs)


def rates(x, u, g):
    """Rates of (x, x_dot, z, z_dot, theta)."""
    return np.array([x[1], u[0] * np.sin(x[4]), x[3], u[0] * np.cos(x[4]) - g, u[1]])


def split(ocp, v):
    op = ocp.dec_var_operator
    get = lambda g, ns: np.array([np.atleast_1d(op.get_var(v, group=g, name=n)) for n in ns]).T  # noqa: E731
    return (get("states", list(START)), get("inputs", ["f", "omega"]), get("states_dot", list(START)), get("con_outputs", ["sin_theta"]),
            float(op.get_var(v, group="global", name="mesh_scale")))


def check_drone(ocp, s, bounds, conditions, gravity, seed, what):
    op = ocp.dec_var_operator
    N = 1 + s["ni"] * (s["ns"] - 1)
    lo, hi = {}, {}
    for v in [(g, n) for g in ("states", "inputs", "states_dot", "con_outputs") for n in ocp.model.get_group_names(g)]:
        b = (0, 0) if s["condensed"] and v[0] == "states_dot" else bounds.get(v, (-np.inf, np.inf))
        lo[v], hi[v] = np.full(N, float(b[0])), np.full(N, float(b[1]))
    for k, v, value in conditions:
        lo[v][k] = hi[v][k] = value
    for v in lo:
        for q, (b, w) in dict(lower=(ocp.lb, lo), upper=(ocp.ub, hi)).items():
            close(np.array(op.get_var(np.array(b), group=v[0], name=v[1])), w[v], f"{what}: {q} bound of {v}")
    b = bounds["global", "mesh_scale"]
    for q, w, v in (("lower", ocp.lb, b[0]), ("upper", ocp.ub, b[1])):
        close(float(op.get_var(np.array(w), group="global", name="mesh_scale")), v, f"{what}: {q} bound of the time", shape=False)
    # objective
    x = np.array(ocp.get_init_guess()) + 0.3 * bulk(seed, ocp.num_dec)
    X, U, XD, C, T = split(ocp, x)
    ensure(X.shape == (N, 5), f"{what}: {X.shape} stages")
    close(ocp.get_total_time(x), T, f"{what}: total time", shape=False)
    close(ocp.objective(x), T, f"{what}: objective", shape=False)
    g = np.zeros(len(x))
    g[op.get_var_index_in_dec(group="global", name="mesh_scale")] = 1
    close(np.asarray(ocp.gradient(x), float), g, f"{what}: gradient")
    # dynamics: derivatives of the states are those of the drone, and the states follow them
    d = np.array([rates(a, b, gravity) for a, b in zip(X, U)])
    tau, A, B = scheme(s["trans"], s["ns"])
    L = np.diff(normal(s["points"], s["ni"])) * T
    F = d if s["condensed"] else XD
    steps = [A @ X[i * (s["ns"] - 1):(i + 1) * (s["ns"] - 1) + 1] - L[i] * B @ F[i * (s["ns"] - 1):(i + 1) * (s["ns"] - 1) + 1] for i in range(s["ni"])]
    want = np.r_[np.ravel(steps), np.ravel(np.sin(X[:, 4]) - C[:, 0])]
    if not s["condensed"]:
        want = np.r_[want, np.ravel(d - XD)]
    # rows in any order: sorted magnitudes must agree
    close(np.sort(np.abs(np.asarray(ocp.constraints(x)))), np.sort(np.abs(want)), f"{what}: residuals", rtol=1e-8, atol=1e-9)
    guess = split(ocp, np.array(ocp.get_init_guess()))
    close(guess[2], np.array([rates(a, b, gravity) for a, b in zip(guess[0], guess[1])]), f"{what}: derivatives of the guess", atol=1e-10)
    close(guess[3][:, 0], np.sin(guess[0][:, 4]), f"{what}: output of the guess", atol=1e-12)
    ensure(guess[4] > 0, f"{what}: time {guess[4]} of the guess")


changes = st.lists(st.one_of(
    st.tuples(st.just("bounds"), st.tuples(st.sampled_from(sorted(DEFAULT_BOUNDS)), fl(0.5, 5, 2))),
    st.tuples(st.just("time"), fl(1, 8, 2)),
    st.tuples(st.just("condition"), st.tuples(st.sampled_from([0, -1, 1]), st.sampled_from(["x", "z", "theta"]), fl(-0.5, 0.5, 2))),
    st.tuples(st.just("gravity"), fl(0, 20, 2))), max_size=4)


@P.check(st.tuples(settings(), changes), quick=60, thorough=1500, shards=3)
def problem(c, rec):
    """The problem posed, through a history of changes."""
    s, history = c
    bounds, conditions = dict(DEFAULT_BOUNDS), list(DEFAULT_CONDITIONS)
    bounds["global", "mesh_scale"] = (0.1, 50)
    extra = {}
    if s["own"]:
        conditions = [(0, ("states", "x"), 0.25), (-1, ("states", "z"), 1.5)]
        extra["boundary_conditions"] = tuple(BoundaryConditionConfig(k, *v, value) for k, v, value in conditions)
    ocp = new_drone(s, config=extra)
    gravity = 9.81 if s["gravity"] is None else s["gravity"]
    check_drone(ocp, s, bounds, conditions, gravity, s["seed"], "new problem")
    for i, (op, a) in enumerate(history):
        if op == "bounds":
            bounds[a[0]] = (-a[1], a[1])
            given = [BoundConfig(*a[0], (-a[1], a[1]))]
            # conditions outside the new bounds would be refused
            if any(v == a[0] and abs(value) > a[1] for _, v, value in conditions):
                bounds[a[0]] = (-40.0, 41.0)
                given = [BoundConfig(*a[0], (-40.0, 41.0))]
            ocp.update_bounds(tuple(given))
        elif op == "time":
            bounds["global", "mesh_scale"] = (a / 2, a)
            ocp.update_bounds((BoundConfig("global", "mesh_scale", (a / 2, a)),))
        elif op == "condition":
            conditions.append((a[0], ("states", a[1]), a[2]))
            ocp.update_boundary_conditions((BoundaryConditionConfig(a[0], "states", a[1], a[2]),))
        else:
            gravity = a
            ocp.modify_model_param("gravity", a)
        check_drone(ocp, s, bounds, conditions, gravity, s["seed"] + i, f"after {history[:i + 1]}")
    # another problem starts from the defaults
    if not s["own"]:
        bounds = dict(DEFAULT_BOUNDS)
        bounds["global", "mesh_scale"] = (0.1, 50)
        check_drone(new_drone(s), s, bounds, DEFAULT_CONDITIONS, 9.81 if s["gravity"] is None else s["gravity"], s["seed"], "second problem")
    if s["seed"] % 8 == 0:
        ensure(isinstance(new_drone(s, model_config=ConfigTree(data="DroneModel")).model, DroneModel), "model of a given configuration")
        must_raise(lambda: new_drone(s, model_config=ConfigTree(data="TrackPosition2D")), "a configuration of another model")
    rec.event(s["trans"])
    rec.nontrivial(bool(history))


# ------------------------------------------------------------------ vertical flight
SCALES = [(), (("states", "z", 10.0), ("states", "z_dot", 5.0)), (("inputs", "f", 10.0), ("global", "mesh_scale", 0.5), ("states", "theta", 3.0))]


@st.composite
def flights(draw):
    return dict(height=draw(fl(-20, 20, 2).filter(lambda h: abs(h) > 0.5)), gravity=draw(fl(3, 12, 2)), low=draw(fl(0.0, 2.0, 2)),
                high=draw(fl(14, 30, 2)), before=draw(st.integers(1, 3)), after=draw(st.integers(1, 3)), ns=draw(st.integers(3, 5)),
                trans="LGR", condensed=draw(st.booleans()), scales=draw(st.sampled_from(SCALES)),
                seed=draw(seeds), hessian=draw(st.sampled_from(["exact", "exact", "limited-memory"])))


@P.check(flights(), quick=12, thorough=400, shards=4)
def vertical(c, rec):
    """Full thrust, then least thrust: time of the bang-bang solution, met exactly as the mesh has a point at the switch."""
    up, down, h = c["high"] - c["gravity"], c["gravity"] - c["low"], c["height"]
    first, last = (up, down) if h > 0 else (down, up)
    v = np.sqrt(2 * abs(h) / (1 / first + 1 / last))
    T, share = v / first + v / last, last / (first + last)
    r = np.abs(bulk(c["seed"], c["before"] + c["after"])) + 0.3
    a, b = r[:c["before"]], r[c["before"]:]
    points = np.r_[0, np.cumsum(a) / a.sum() * share, share + np.cumsum(b) / b.sum() * (1 - share)]
    points[-1] = 1.0
    s = dict(trans=c["trans"], ns=c["ns"], ni=len(r), points=list(np.diff(points)), condensed=c["condensed"], gravity=c["gravity"])
    bounds = dict(DEFAULT_BOUNDS)
    bounds.update({("inputs", "f"): (c["low"], c["high"]), ("inputs", "omega"): (0.0, 0.0), ("global", "mesh_scale"): (0.1, 50)})
    cond = [BoundaryConditionConfig(0, "states", n, 0.0) for n in START] + [BoundaryConditionConfig(-1, "states", "z", h),
                                                                            BoundaryConditionConfig(-1, "states", "z_dot", 0.0)]
    scales = tuple(ScaleConfig(*q) for q in c["scales"])
    ocp = new_drone(s, config=dict(bounds=tuple(BoundConfig(*k, q) for k, q in bounds.items()), boundary_conditions=tuple(cond), scales=scales))
    ocp.hessian_approximation = c["hessian"]
    x, info = ocp.solve(init_guess=np.array(ocp.get_init_guess()), **dict(OPTIONS, max_iter=1000))
    rec.event(f"status {info['status']} {c['hessian']}")
    if not success(info):
        ensure(c["hessian"] != "exact", f"vertical flight not solved: {info['status']} {info['status_msg']}")
        return
    close(ocp.get_total_time(x), T, "time of vertical flight", rtol=2e-5, shape=False)
    X, U, _, _, _ = split(ocp, x)
    tau = scheme(c["trans"], c["ns"])[0]
    t = np.r_[0.0, np.concatenate([p + tau[1:] * (q - p) for p, q in zip(points, points[1:])])] * T
    ts, sg = share * T, np.sign(h)
    z = sg * np.where(t < ts, 0.5 * first * t ** 2, abs(h) - 0.5 * last * (T - t) ** 2)
    close(X[:, 2], z, "height at every stage", atol=2e-4 * (1 + abs(h)), rtol=0)
    close(X[:, 3], sg * np.where(t < ts, first * t, last * (T - t)), "climb rate at every stage", atol=1e-3 * (1 + v), rtol=0)
    close(X[:, [0, 1, 4]], np.zeros((len(t), 3)), "motion other than vertical", atol=1e-6)
    rec.nontrivial(info["num_iter"] > 3)


# ------------------------------------------------------------------ brachistochrone
@state_space_io(states=("v", "x", "y"), inputs=("theta",), outputs=("speed",), con_outputs=(), residuals=())
class Bead(StateSpaceModel):
    """A bead on a wire; y points down."""

    def forward(self, states, inputs, mesh=0.0):
        v, a = states["v"], inputs["theta"]
        return StateSpaceModelReturn(states_dot=dict(v=self._params["gravity"] * lnp.sin(a), x=v * lnp.cos(a), y=v * lnp.sin(a)),
                                     outputs=dict(speed=v))

    @classmethod
    def get_default_params(cls):
        return {"gravity": 9.81}


def cycloid(X, Y):
    """(angle, radius) of the cycloid from the origin to (X, Y)."""
    angle = brentq(lambda q: Y * (q - np.sin(q)) - X * (1 - np.cos(q)), 1e-3, 2 * np.pi - 1e-6)
    return angle, Y / (1 - np.cos(angle))


@st.composite
def falls(draw):
    name = draw(st.sampled_from(["LGR", "LGRIntegral", "LGR", "LGRIntegral", "Trapezoidal"]))
    return dict(X=draw(fl(0.8, 10, 2)), slope=draw(fl(0.6, 3.0, 2)), gravity=draw(fl(2, 15, 2)), trans=name, ns=draw(st.integers(4, 6)) if name != "Trapezoidal" else 2,
                ni=draw(st.integers(4, 6)) if name != "Trapezoidal" else draw(st.integers(30, 50)), condensed=draw(st.booleans()), seed=draw(seeds),
                backend=draw(st.sampled_from(["casadi", "casadi", "casadi", "jax"])),
                scales=draw(st.sampled_from([(), (("states", "x", 5.0), ("states", "v", 8.0)), (("global", "mesh_scale", 0.4), ("states_dot", "y", 7.0))])))


@P.check(falls(), quick=8, thorough=250, shards=4)
def brachistochrone(c, rec):
    X, Y, g, n = c["X"], c["X"] * c["slope"], c["gravity"], c["ni"]
    angle, R = cycloid(X, Y)
    T = angle * np.sqrt(R / g)
    params = ParameterTree({"gravity": g})
    pts = normal(1 + 0.3 * bulk(c["seed"], n), n)
    scales = tuple(ScaleConfig(*q) for q in c["scales"] if not (c["condensed"] and q[0] == "states_dot"))
    cond = [BoundaryConditionConfig(0, "states", q, 0.0) for q in ("v", "x", "y")] + [
        BoundaryConditionConfig(-1, "states", "x", X), BoundaryConditionConfig(-1, "states", "y", Y)]
    cfg = ScaledMeshOCP.get_sim_config(
        num_intervals=n, interval_points=pts, transcription=trans(c), is_condensed=c["condensed"], backend=c["backend"], is_cyclic=False,
        hessian_approximation="exact", boundary_conditions=tuple(cond), scales=scales, con_output_names=(),
        bounds=(BoundConfig("states", "v", (0, 200)), BoundConfig("states", "x", (0, 100)), BoundConfig("states", "y", (0, 100)),
                BoundConfig("inputs", "theta", (-np.pi / 2, np.pi / 2)), BoundConfig("global", "mesh_scale", (0.01, 50))))
    line = np.arctan2(Y, X)
    a = g * np.sin(line)
    guess_T = np.sqrt(2 * np.hypot(X, Y) / a)
    tau = scheme(c["trans"], c["ns"])[0]
    f = np.r_[0.0, np.concatenate([p + tau[1:] * (q - p) for p, q in zip(pts, pts[1:])])]

    class Falling(ScaledMeshOCP):
        def get_init_guess(self):
            t = f * guess_T
            v = a * t
            d = 0.5 * a * t ** 2
            cols = dict(states=dict(v=v, x=d * np.cos(line), y=d * np.sin(line)), inputs=dict(theta=0 * t + line),
                        states_dot=dict(v=0 * t + a, x=v * np.cos(line), y=v * np.sin(line)))
            arr = {q: np.stack([cols[q][k] for k in self.model.get_group_names(q)], axis=1) for q in cols}
            return np.array(self.dec_var_operator.flatten_var(con_outputs=np.zeros((len(t), 0)), mesh_scale=guess_T, **arr))

    ocp = Falling(model=Bead(params=params), sim_config=cfg)
    # a solve that is given no guess starts from the problem's own
    given = {} if cfg.num_intervals % 2 else dict(init_guess=ocp.get_init_guess())
    x, info = ocp.solve(**given, **OPTIONS)
    rec.event(f"status {info['status']}")
    ensure(success(info), f"not solved: {info['status']} {info['status_msg']}")
    op = ocp.dec_var_operator
    # discretisation errors of these meshes, with room
    near = dict(LGR=(2e-5, 1e-3), LGRIntegral=(3e-3, 6e-3), Trapezoidal=(2e-3, 4e-3))[c["trans"]]
    close(float(op.get_var(x, group="global", name="mesh_scale")), T, "time of descent", rtol=near[0], shape=False)
    # along the cycloid
    q = f * angle
    tol = dict(rtol=0, atol=near[1] * (X + Y))
    close(np.array(op.get_var(x, group="states", name="x")), R * (q - np.sin(q)), "path, x", **tol)
    close(np.array(op.get_var(x, group="states", name="y")), R * (1 - np.cos(q)), "path, y", **tol)
    rec.event(c["trans"])
    rec.event(c["backend"])
    rec.nontrivial(info["num_iter"] > 3)
