"""C35: a lap-time problem always reflects its current track and settings."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from checks.c21 import recorded_solver
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import cs_jac
from lib.ocp import divisions, scheme
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.composition import ModelMaker
from lumos.models.tracks import RaceTrack
from lumos.models.vehicles.simple_vehicle import SimpleVehicle
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig
from lumos.simulations import laptime_simulation
from lumos.simulations.laptime_simulation import LaptimeSimulation

P = Property("C35", rule=(
    "Histories of track changes (generated track files of different length, shape and width, shipped tracks, files that do not "
    "exist), mesh, parameter, bound and boundary-condition changes, on lap-time problems of every scheme, cyclic or not, lifted "
    "or condensed, with a small vehicle of the same interface and with the real one. After every track change the problem is compared "
    "with the track itself and with a problem newly built for it. Non-trivial: at least two different tracks were set."))

W = ("fl", "fr", "rl", "rr")
IO = {g: SimpleVehicle.get_direct_group_names(g) for g in ("states", "inputs", "outputs", "residuals")}


@state_space_io(**IO)
class LightVehicle(StateSpaceModel):
    """A small vehicle with the inputs and outputs of the real one."""

    def forward(self, states, inputs, mesh=0.0):
        k, mass = self._params["stiffness"], self._params["vehicle_mass"]
        ws = {w: states["wheel_speed_" + w] for w in W}
        kappa = {w: 0.33 * ws[w] / states["vx"] - 1 for w in W}
        alpha = {w: (states["vy"] + (1.8 if w[0] == "f" else -1.8) * states["yaw_rate"]) / states["vx"]
                 - (0.17 * inputs["steer"] if w[0] == "f" else 0.0) for w in W}
        fx = {w: k * kappa[w] for w in W}
        fy = {w: -k * lnp.sin(alpha[w]) for w in W}
        ax, ay = (fx["fl"] + fx["fr"] + fx["rl"] + fx["rr"]) / mass, (fy["fl"] + fy["fr"] + fy["rl"] + fy["rr"]) / mass
        torque = 4000.0 * inputs["throttle"] - 3000.0 * inputs["brake"]
        out = dict(ax=ax, ay=ay, drive_torque_rl=torque, drive_torque_rr=torque, res_ax=ax - inputs["ax"], res_ay=ay - inputs["ay"])
        for w in W:
            out.update({"Fx_tire_" + w: fx[w], "Fy_tire_" + w: fy[w], "Fz_tire_" + w: 0.25 * 9.81 * mass, "slip_ratio_" + w: kappa[w],
                        "slip_angle_" + w: alpha[w]})
        sd = dict(vx=ax + states["yaw_rate"] * states["vy"], vy=ay - states["yaw_rate"] * states["vx"],
                  yaw_rate=1.8 * (fy["fl"] + fy["fr"] - fy["rl"] - fy["rr"]) / 1200,
                  **{"wheel_speed_" + w: (torque / 4 - 0.33 * fx[w]) / 5.0 for w in W})
        return StateSpaceModelReturn(states_dot=sd, outputs=out)

    @classmethod
    def get_default_params(cls):
        return {"vehicle_mass": 1500.0, "stiffness": 20000.0}


try:
    ModelMaker.add_to_registry(LightVehicle)
except ValueError:
    pass


def track_points(kind, size):
    """(x, y, right, left) of a track."""
    t = np.linspace(0, 1, 60)
    side = {">": np.array([-12.0, 14.0]), "<": np.array([13.0, -11.0])}.get(kind[-1], np.zeros(2))
    kind, wide = kind.rstrip("~<>"), kind.endswith("~")
    if kind == "straight":
        x, y = 400 * size * t, 30 * size * t
    elif kind == "circle":
        x, y = 60 * size * np.sin(2 * np.pi * t), 60 * size * (1 - np.cos(2 * np.pi * t))
    else:
        x, y = 300 * size * t, 25 * size * np.sin(7 * t)
    return x, y, 4 + size + np.sin(9 * t) + wide + side[0], 5 + np.cos(5 * t) * size + 2 * wide + side[1]


REWRITTEN = f"track_rewritten_{os.getpid()}.csv"
SHIPPED = ["Catalunya", "Norisring", "Spa"]


def track_file(spec):
    if spec[0] == "rewritten":  # a path whose content changes from one use to the next
        shutil.copyfile(track_file(spec[1]), REWRITTEN + ".new")
        os.replace(REWRITTEN + ".new", REWRITTEN)
        return REWRITTEN
    kind, size = spec
    if kind == "shipped":
        return f"data/tracks/{SHIPPED[size]}.csv"
    name = "track_{}_{}.csv".format(kind.replace("<", "-left").replace(">", "-right"), size)
    if not os.path.exists(name):
        tmp = f"{name}.{os.getpid()}"
        with open(tmp, "w") as f:
            f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
            f.writelines("%.6f,%.6f,%.3f,%.3f\n" % v for v in zip(*track_points(kind, size)))
        os.replace(tmp, name)
    return name


# with "~" the same road, only wider; with ">" or "<" the reference line lies beside the road; two of the sizes are almost equal
own = st.tuples(st.sampled_from(["straight", "circle", "wave", "wave~", "wave>", "wave<"]), st.sampled_from([1.0, 1.00001, 0.5, 1.7]))
tracks = st.one_of(own, own, st.tuples(st.just("shipped"), st.integers(0, len(SHIPPED) - 1)), st.tuples(st.just("rewritten"), own))


@st.composite
def settings(draw, real=False):
    name = draw(st.sampled_from(["LGR", "LGRIntegral", "Trapezoidal", "ForwardEuler"]))
    ni = draw(st.integers(2, 6))
    return dict(vehicle="SimpleVehicle" if real else "LightVehicle", trans=name, ns=draw(st.integers(2, 4)) if name.startswith("LGR") else 2,
                ni=ni, points=draw(st.one_of(st.none(), divisions(ni, 0.2))), cyclic=draw(st.booleans()),
                condensed=draw(st.booleans()), track=draw(tracks), seed=draw(seeds))


def normal(points, ni):
    if points is None:
        return None
    p = np.r_[0.0, np.cumsum(points)] / np.sum(points)
    p[-1] = 1.0
    return p


def build(s, track=None, points=None, backend="casadi", extra=()):
    cfg = LaptimeSimulation.get_sim_config(
        track=track_file(track or s["track"]), num_intervals=s["ni"], interval_points=normal(points or s["points"], s["ni"]),
        transcription=(s["trans"], {"num_stages": s["ns"]}) if s["trans"].startswith("LGR") else s["trans"], is_cyclic=s["cyclic"],
        is_condensed=s["condensed"], backend=backend, hessian_approximation="exact",
        boundary_conditions=(BoundaryConditionConfig(0, "states", "time", 0.0),) + tuple(extra))
    model_config = ModelMaker.make_config("SimpleVehicleOnTrack")
    if s["vehicle"] != "SimpleVehicle":
        model_config.replace_subtree("vehicle", ModelMaker.make_config(s["vehicle"]))
    return LaptimeSimulation(model_config=model_config, sim_config=cfg)


def stages(s, points):
    tau = scheme(s["trans"], s["ns"])[0]
    p = normal(points, s["ni"])
    p = np.linspace(0, 1, s["ni"] + 1) if p is None else p
    return np.r_[0.0, np.concatenate([a + tau[1:] * (b - a) for a, b in zip(p, p[1:])])]


def variables(ocp, x):
    """{(group, name): values per stage}, from the operator."""
    op = ocp.dec_var_operator
    names = {g: ocp.model.get_group_names(g) for g in ("states", "inputs", "states_dot", "con_outputs")}
    return {(g, n): np.array(op.get_var(x, group=g, name=n)) for g in names for n in names[g]}


def check_problem(ocp, s, track, points, bounds, conditions, seed, what):
    """The problem against the track and what was set."""
    t = RaceTrack.from_tum_csv(track_file(track))
    d = stages(s, points) * t.total_distance
    close(ocp.distance_mesh, d, f"{what}: distance of the stages", rtol=1e-9)
    close(ocp.get_mesh(), d, f"{what}: mesh", rtol=1e-9)
    k, h, r, l = t.curvature_at(d), t.heading_at(d), t.right_distance_at(d), t.left_distance_at(d)
    N = len(d)
    want = {v: (np.full(N, -np.inf), np.full(N, np.inf)) for v in variables(ocp, ocp.lb)}
    for v, (lo, hi) in bounds.items():
        want[v] = np.full(N, float(lo)), np.full(N, float(hi))
    want["inputs", "track_curvature"] = k.copy(), k.copy()
    want["inputs", "track_heading"] = h.copy(), h.copy()
    want["states", "n"] = -r, l.copy()
    if s["condensed"]:
        for v in want:
            if v[0] == "states_dot":
                want[v] = np.zeros(N), np.zeros(N)
    for stage, v, value in conditions:
        want[v][0][stage] = want[v][1][stage] = value
    lb, ub = variables(ocp, ocp.lb), variables(ocp, ocp.ub)
    for v in want:
        close(lb[v], want[v][0], f"{what}: lower bound of {v}", rtol=1e-9)
        close(ub[v], want[v][1], f"{what}: upper bound of {v}", rtol=1e-9)
    # initial guess: constant speed on the centreline
    x = np.array(ocp.get_init_guess())
    g = variables(ocp, x)
    close(g["states", "time"] - g["states", "time"][0], d / g["states", "vx"], f"{what}: time of the initial guess", rtol=1e-7)
    ensure(np.ptp(g["states", "vx"]) == 0 and np.all(g["states", "n"] == 0), f"{what}: initial guess leaves the centreline")
    close(g["inputs", "track_curvature"], k, f"{what}: curvature of the initial guess", rtol=1e-9)
    close(g["inputs", "track_heading"], h, f"{what}: heading of the initial guess", rtol=1e-9)
    ret = [ocp.model.forward({n: g["states", n][i] for n in ocp.model.get_group_names("states")},
                             {n: g["inputs", n][i] for n in ocp.model.get_group_names("inputs")}, d[i]) for i in (0, N // 2, N - 1)]
    for i, m in zip((0, N // 2, N - 1), ret):
        for n in ocp.model.get_group_names("states_dot"):
            close(g["states_dot", n][i], float(m.states_dot[n]), f"{what}: guess of derivative {n}", rtol=1e-7, atol=1e-6, shape=False)
        for n in ocp.model.get_group_names("con_outputs"):
            close(g["con_outputs", n][i], float(m.outputs[n]), f"{what}: guess of output {n}", rtol=1e-7, atol=1e-6, shape=False)
    return x


def scale_vector(ocp):
    """Size of the units of the solver's variables."""
    s, op = np.ones(ocp.num_dec), ocp.dec_var_operator
    units = {("states", "time"): 10, ("states", "vx"): 10, **{(g, "wheel_speed_" + w): 50 for w in W for g in ("states", "states_dot")}}
    for (g, n), v in units.items():
        s[[op.get_var_index_in_dec(group=g, name=n, stage=q) for q in range(ocp.num_stages)]] = v
    return s


def check_objective(ocp, x, what):
    """Lap time and mean squared steering, with exact derivatives (x in units of the model)."""
    op, s = ocp.dec_var_operator, scale_vector(ocp)
    i0, i1 = (op.get_var_index_in_dec(group="states", name="time", stage=q) for q in (0, -1))
    steer = np.array([op.get_var_index_in_dec(group="inputs", name="steer", stage=q) for q in range(ocp.num_stages)])
    f = x[i1] - x[i0] + np.sum(x[steer] ** 2) / ocp.num_stages
    close(ocp.objective(x / s), f, f"{what}: objective", shape=False)
    g = np.zeros(len(x))
    g[i1] += 1
    g[i0] -= 1
    g[steer] += 2 * x[steer] / ocp.num_stages
    close(ocp.gradient(x / s), g * s, f"{what}: gradient of the objective")


def hessian_of(ocp, x, lagrange):
    rows, cols = ocp.hessianstructure()
    H = np.zeros((len(x), len(x)))
    np.add.at(H, (rows, cols), np.asarray(ocp.hessian(x, np.zeros(ocp.num_con), lagrange)))
    return H + np.tril(H, -1).T + np.triu(H, 1).T


steps = st.lists(st.one_of(
    st.tuples(st.just("track"), tracks), st.tuples(st.just("track"), tracks), st.tuples(st.just("missing"), st.just(0)),
    st.tuples(st.just("param"), st.one_of(fl(900, 2500, 0), st.just(1500.01))), st.tuples(st.just("bounds"), st.tuples(
        st.sampled_from([("states", "vx"), ("states", "yaw_rate"), ("inputs", "steer"), ("states", "n"), ("inputs", "ax")]), fl(0.5, 3, 2))),
    st.tuples(st.just("condition"), st.tuples(st.integers(-1, 1), st.sampled_from([("states", "n"), ("states", "vx"), ("states", "eta")]),
                                              fl(-2, 2, 2))),
    st.tuples(st.just("mesh"), seeds)), min_size=2, max_size=5)


def default_bounds():
    b = {("states", "time"): (0, np.inf), ("states", "eta"): (-np.pi / 4, np.pi / 4), ("states", "vx"): (5, 100), ("states", "vy"): (-10, 10),
         ("states", "yaw_rate"): (-2 * np.pi, 2 * np.pi), ("inputs", "throttle"): (0, 1), ("inputs", "brake"): (0, 1),
         ("inputs", "steer"): (-1, 1)}
    for w in W:
        b["states", "wheel_speed_" + w] = (0.1, 300)
        b["con_outputs", "vehicle.slip_ratio_" + w] = (-0.05, 0.05)
        b["con_outputs", "vehicle.slip_angle_" + w] = (-np.deg2rad(5), np.deg2rad(5))
    return b


def run(s, history, rec, backend):
    track, points, bounds, conditions, mass = s["track"], s["points"], default_bounds(), [(0, ("states", "time"), 0.0)], None
    ocp = build(s, backend=backend)
    check_problem(ocp, s, track, points, bounds, conditions, s["seed"], "new problem")
    used = {track}
    mesh_changed = False
    for i, (op, a) in enumerate(history):
        what = f"after {history[:i + 1]}"
        if op == "track":
            track, mesh_changed = a, False
            ocp.set_track(track_file(track))
            used.add(track)
        elif op == "missing":
            must_raise(lambda: ocp.set_track("no_such_track.csv"), "track file that does not exist")
        elif op == "param":
            mass = a
            ocp.modify_model_param("vehicle.vehicle_mass", a)
        elif op == "bounds":
            bounds[a[0]] = (-a[1], a[1])
            ocp.update_bounds((BoundConfig(*a[0], (-a[1], a[1])),))
        elif op == "condition":
            conditions.append((a[0], a[1], a[2]))
            ocp.update_boundary_conditions((BoundaryConditionConfig(a[0], *a[1], a[2]),))
        else:
            points = list(bulk(a, s["ni"], lo=0.2, hi=2.0))
            ocp.set_normalized_mesh(normal(points, s["ni"]))
            mesh_changed = True
        if op == "track" or (op in ("missing", "param") and not mesh_changed and not any(h[0] == "bounds" and h[1][0] == ("states", "n") for h in history[:i])):
            check_problem(ocp, s, track, points, bounds, conditions, s["seed"], what)
    if mesh_changed or ("bounds" in [h[0] for h in history]):
        ocp.set_track(track_file(track))
        check_problem(ocp, s, track, points, bounds, conditions, s["seed"], f"in the end, after {history}")
    rec.event(s["trans"])
    rec.event("condensed" if s["condensed"] else "lifted")
    return ocp, track, points, mass, used


@P.check(st.tuples(settings(), steps), quick=90, thorough=2500, shards=3)
def histories(c, rec):
    s, history = c
    ocp, track, points, mass, used = run(s, history, rec, "jax" if s["seed"] % 12 == 7 else "casadi")
    x = np.array(ocp.get_init_guess()) + 0.1 * bulk(s["seed"] + 1, ocp.num_dec)
    check_objective(ocp, x, f"after {history}")
    check_objective(ocp, x + 30 * bulk(s["seed"] + 2, ocp.num_dec), f"far from the guess, after {history}")
    rec.nontrivial(len(used) > 1)


def compare(s, history, rec, vehicle):
    ocp, track, points, mass, used = run(s, history, rec, "casadi")
    new = build(s, track, points)
    if mass is not None:
        new.modify_model_param("vehicle.vehicle_mass", mass)
    x = np.array(ocp.get_init_guess())
    close(x, np.array(new.get_init_guess()), "initial guess of a new problem", rtol=1e-9)
    x = x + 0.05 * bulk(s["seed"] + 1, len(x)) * np.minimum(1, np.abs(x) + 0.1)
    check_objective(ocp, x, f"random point after {history}")
    x = x / scale_vector(ocp)
    tol = dict(rtol=1e-8, atol=1e-7)
    a, b = np.asarray(ocp.constraints(x)), np.asarray(new.constraints(x))
    ensure(np.all(np.isfinite(a)), f"constraints {a}")
    close(a, b, "constraints of a new problem", **tol)
    for q in "cl", "cu":
        close(getattr(ocp, q), getattr(new, q), q)
    close(np.asarray(ocp.jacobian(x)), np.asarray(new.jacobian(x)), "jacobian of a new problem", **tol)
    ensure(all(np.array_equal(p, q) for p, q in zip(ocp.jacobianstructure(), new.jacobianstructure())), "jacobian structures differ")
    lag = bulk(s["seed"] + 2, ocp.num_con)
    close(np.asarray(ocp.hessian(x, lag, 1.3)), np.asarray(new.hessian(x, lag, 1.3)), "hessian of a new problem", **tol)
    H = hessian_of(ocp, x, 1.0)
    # the objective is quadratic: its gradient changes by the Hessian
    dx = bulk(s["seed"] + 3, len(x))
    close(H @ dx, np.asarray(ocp.gradient(x + dx)) - np.asarray(ocp.gradient(x)), "hessian of the objective", rtol=1e-6, atol=1e-8)
    rec.nontrivial(len(used) > 1)


@P.check(st.tuples(settings(), steps), quick=30, thorough=600, shards=3)
def like_new(c, rec):
    compare(*c, rec, "LightVehicle")


@P.check(st.tuples(settings(real=True), steps), quick=5, thorough=40, shards=2)
def like_new_real(c, rec):
    compare(*c, rec, "SimpleVehicle")


@P.check(st.tuples(settings(), st.integers(20, 250), tracks), quick=10, thorough=120)
def many_stages(c, rec):
    """As many stages as a lap needs."""
    s, ni, track = c
    s = dict(s, ni=ni, points=None)
    ocp = build(s)
    ocp.set_track(track_file(track))
    x = check_problem(ocp, s, track, None, default_bounds(), [(0, ("states", "time"), 0.0)], s["seed"], "with many stages")
    x = x + 0.05 * bulk(s["seed"] + 1, len(x)) * np.minimum(1, np.abs(x) + 0.1)
    check_objective(ocp, x, "random point")
    x = x / scale_vector(ocp)
    # the objective is quadratic: its gradient changes by the Hessian
    rows, cols = map(np.asarray, ocp.hessianstructure())
    h, dx = np.asarray(ocp.hessian(x, np.zeros(ocp.num_con), 1.0)), bulk(s["seed"] + 3, len(x))
    Hd = np.zeros(len(x))
    np.add.at(Hd, rows, h * dx[cols])
    off = rows != cols
    np.add.at(Hd, cols[off], h[off] * dx[rows[off]])
    close(Hd, np.asarray(ocp.gradient(x + dx)) - np.asarray(ocp.gradient(x)), "hessian of the objective", rtol=1e-6, atol=1e-8)
    rec.nontrivial(ocp.num_stages >= 40)


@P.check(st.tuples(settings(), fl(5, 80, 2)), quick=10, thorough=100)
def starting_conditions(c, rec):
    """The conditions the module offers: a flying lap starts its clock, an open one also starts on the line, straight ahead."""
    s, vx = c
    flying, straight = (laptime_simulation.get_default_boundary_conditions(k) for k in (True, False))
    want = {("states", n): 0.0 for n in ("time", "n", "eta", "vy", "yaw_rate")}
    for conditions, names in ((flying, {("states", "time")}), (straight, {*want, ("states", "vx")})):
        ensure({(b.group, b.name) for b in conditions} == names and len(conditions) == len(names), f"conditions {conditions}")
        for b in conditions:
            ensure(b.stage == 0 and (b.value == 0.0 if b.name != "vx" else b.value > 0), f"condition {b}")
    s = dict(s, cyclic=False)
    ocp = build(s, extra=[b for b in straight if b.name not in ("time", "vx")] + [BoundaryConditionConfig(0, "states", "vx", vx)])
    held = [(0, v, vx if v[1] == "vx" else 0.0) for v in (*want, ("states", "vx"))]
    check_problem(ocp, s, s["track"], s["points"], default_bounds(), held, s["seed"], "open lap")
    # solving without a guess starts from the guess of the problem
    with recorded_solver() as made:
        solution, _ = ocp.solve(print_level=0)
    close(made[-1].x0, np.asarray(ocp.get_init_guess()) / scale_vector(ocp), "start of the solver", rtol=1e-9)
    close(solution, made[-1].answer * scale_vector(ocp), "solution", rtol=1e-9)
    must_raise(lambda: LaptimeSimulation.get_sim_config(num_intervals=s["ni"]), "a lap-time problem without a track", (ValueError,))
    rec.nontrivial()
