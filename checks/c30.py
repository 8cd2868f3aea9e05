"""C30: track-relative kinematics agree with motion in the plane."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from lib.compiled import cas_forward, flat_params
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lumos.models.composition import ModelMaker
from lumos.models.kinematics import TrackPosition2D
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
from lumos.models.vehicles.simple_vehicle import SimpleVehicle

P = Property("C30", rule=(
    "Random poses, body velocities, yaw rates, headings and curvatures (1 - n*curvature down to 0.004), along and against the track: the rates "
    "are turned into planar velocity of the track frame and compared with the rotated body velocity; the distance-domain "
    "equations are integrated along smooth random tracks and compared with the path integrated in the plane; the on-track "
    "vehicle, with random parameters and tires, is compared with the vehicle alone. Non-trivial: curvature, offset, heading "
    "error, lateral velocity and yaw rate all differ from zero."))

INPUTS = ("vx", "vy", "yaw_rate", "track_curvature", "track_heading")


@st.composite
def pose(draw):
    r = bulk(draw(seeds), 8)
    on = draw(st.sampled_from([(1, 1, 1, 1, 1)] * 4 + [tuple(int(i != k) for i in range(5)) for k in range(5)]
                              + [tuple(int(i == k) for i in range(5)) for k in range(5)] + [(0,) * 5]))
    curvature, n, eta = (np.round(v, 4) for v in (on[0] * 0.15 * r[0] ** 3, on[1] * 8 * r[1], on[2] * 1.2 * r[2]))
    lateral, vx = on[3] * 0.3 * r[3], 45 + 44 * r[4]
    if 1 - n * curvature <= 0.2:
        n = -n
    if curvature and draw(st.integers(0, 5)) == 0:  # close to the centre of curvature
        n = (1 - draw(st.sampled_from([0.15, 0.06, 0.02, 0.004]))) / curvature
    if np.cos(eta) - lateral * np.sin(eta) <= 0.1:
        lateral = -lateral
    if draw(st.integers(0, 5)) == 0:  # against the direction of the track
        eta = np.round(eta + np.copysign(np.pi, r[7]), 4)
    return dict(time=100 * r[5], n=float(n), eta=float(eta)), dict(
        vx=vx, vy=vx * lateral, yaw_rate=on[4] * 3 * r[6], track_curvature=float(curvature), track_heading=20 * r[7])


def rates(ret):
    d = {k: float(v) for k, v in ret.states_dot.items()}
    s = 1 / d["time"]
    return s, d["n"] * s, d["eta"] * s


_cas = {}


@P.check(st.tuples(pose(), fl(0, 1000, 2)), quick=2500, thorough=40000, shards=4)
def in_the_plane(c, rec):
    """Velocity of C(s) + n N(s) is the body velocity in the plane; heading turns with the yaw rate."""
    (x, u), mesh = c
    if "m" not in _cas:
        _cas["m"] = TrackPosition2D()
        _cas["f"] = cas_forward(_cas["m"])
    m = _cas["m"]
    ret = m.forward(dict(x), dict(u), mesh)
    s, n, eta = rates(ret)
    th = u["track_heading"]
    T, N = np.array([np.cos(th), np.sin(th)]), np.array([-np.sin(th), np.cos(th)])
    yaw = th + x["eta"]
    body = u["vx"] * np.array([np.cos(yaw), np.sin(yaw)]) + u["vy"] * np.array([-np.sin(yaw), np.cos(yaw)])
    close(s * (1 - x["n"] * u["track_curvature"]) * T + n * N, body, "planar velocity", rtol=1e-9, atol=1e-8)
    close(eta + u["track_curvature"] * s, u["yaw_rate"], "yaw rate", rtol=1e-9, atol=1e-8, shape=False)
    ensure((s > 0) == (abs(x["eta"]) < 1.7), f"progress {s}")
    rec.event("along" if s > 0 else "against")
    close(ret.outputs["yaw_angle"], yaw, "yaw angle", shape=False)
    close(ret.outputs["curvature"], u["track_curvature"], "curvature", shape=False)
    # mirrored and elsewhere in time, distance and heading
    mx = dict(time=-x["time"], n=-x["n"], eta=-x["eta"])
    mu = dict(vx=u["vx"], vy=-u["vy"], yaw_rate=-u["yaw_rate"], track_curvature=-u["track_curvature"], track_heading=1.0 - th)
    close(rates(m.forward(mx, mu, -mesh)), (s, -n, -eta), "rates of the mirrored motion", rtol=1e-9, atol=1e-9)
    # twice as fast: same path in half the time
    fu = dict(u, vx=2 * u["vx"], vy=2 * u["vy"], yaw_rate=2 * u["yaw_rate"])
    close(rates(m.forward(dict(x), fu, mesh)), (2 * s, 2 * n, 2 * eta), "rates at twice the speed", rtol=1e-9, atol=1e-9)
    # as a compiled function
    out = _cas["f"](np.array([x[k] for k in m.get_group_names("states")]), np.array([u[k] for k in m.get_group_names("inputs")]),
                    mesh, flat_params(m.get_recursive_params()))
    close(np.array(out[0]).ravel(), [float(ret.states_dot[k]) for k in m.get_group_names("states_dot")], "compiled rates")
    rec.nontrivial(all(v != 0 for v in (x["n"], x["eta"], u["vy"], u["yaw_rate"], u["track_curvature"])))


@P.check(st.tuples(seeds, fl(10, 120, 1), fl(-3, 3, 2), fl(-3, 3, 2), fl(-0.3, 0.3, 2), st.sampled_from([0.0, 1.0])),
         quick=60, thorough=1200, shards=2)
def paths(c, rec):
    """Integrating in distance along a track and in time in the plane ends in the same place."""
    seed, length, h0, n0, eta0, curved = c
    a, w = bulk(seed, 2, lo=-0.02, hi=0.02) * curved, bulk(seed + 1, 2, lo=0.01, hi=0.1)
    b = bulk(seed + 2, 6, lo=-1, hi=1)
    curvature = lambda s: a[0] + a[1] * np.cos(w[0] * s)  # noqa: E731
    heading = lambda s: h0 + a[0] * s + a[1] * np.sin(w[0] * s) / w[0]  # noqa: E731
    # body velocities over time; the yaw rate keeps the heading error small
    vel = lambda t: (20 + 5 * np.sin(2 * t + b[0]), 1.5 * np.sin(3 * t + b[1]), 0.25 * np.cos(2 * t + b[2]))  # noqa: E731
    m = TrackPosition2D()

    def f(s, z):
        vx, vy, r = vel(z[0])
        ret = m.forward(dict(time=z[0], n=z[1], eta=z[2]), dict(
            vx=vx, vy=vy, yaw_rate=r, track_curvature=curvature(s), track_heading=heading(s)), s)
        d = ret.states_dot
        return [d["time"], d["n"], d["eta"], np.cos(heading(s)), np.sin(heading(s))]

    def leaves(s, z):
        return min(np.pi / 3 - abs(z[2]), 0.9 - abs(z[1] * curvature(s)))
    leaves.terminal = True
    track = solve_ivp(f, (0, length), [0, n0, eta0, 0, 0], rtol=1e-9, atol=1e-9, events=leaves)
    s, (t, n, eta, cx, cy) = track.t[-1], track.y[:, -1]
    th = heading(s)
    end = cx - n * np.sin(th), cy + n * np.cos(th), th + eta

    def g(t, z):
        vx, vy, r = vel(t)
        return [vx * np.cos(z[2]) - vy * np.sin(z[2]), vx * np.sin(z[2]) + vy * np.cos(z[2]), r]
    plane = solve_ivp(g, (0, t), [-n0 * np.sin(h0), n0 * np.cos(h0), h0 + eta0], rtol=1e-9, atol=1e-9).y[:, -1]
    close(end, plane, f"position and yaw after {s} m, {t} s", rtol=0, atol=2e-5)
    rec.event("left the track" if len(track.t_events[0]) else "whole length")
    rec.nontrivial(curved > 0 and s > 5)


def vehicle_config(tire, on_track):
    cfg = ModelMaker.make_config("SimpleVehicle")
    for w in ("fl", "fr", "rl", "rr"):
        cfg.replace_subtree("tire_" + w, ModelMaker.make_config(tire))
    if not on_track:
        return cfg
    top = ModelMaker.make_config("SimpleVehicleOnTrack")
    top.replace_subtree("vehicle", cfg)
    return top


_built = {}


def built(tire):
    if tire not in _built:
        top = ModelMaker.make_model_from_config(vehicle_config(tire, True))
        ensure(isinstance(top, SimpleVehicleOnTrack), f"made a {type(top)}")
        alone = ModelMaker.make_model_from_config(vehicle_config(tire, False))
        ensure(isinstance(alone, SimpleVehicle), f"made a {type(alone)}")
        _built[tire] = top, alone, top.get_recursive_params(), alone.get_recursive_params()
    return _built[tire]


@P.check(st.tuples(st.sampled_from(["MF52", "PerantoniTire"]), pose(), seeds, fl(0, 500, 1), st.booleans()),
         quick=500, thorough=10000, shards=2)
def on_track(c, rec):
    """The vehicle on track: derivatives per time times time per distance, outputs of both parts."""
    tire, (x, u), seed, mesh, changed = c
    top, alone, p_top, p_alone = built(tire)
    try:
        if changed:
            k = 1 + bulk(seed, 4, lo=-0.2, hi=0.2)
            q_top, q_alone = copy.deepcopy(p_top), copy.deepcopy(p_alone)
            for name, f in zip(("vehicle_mass", "max_power", "brake_balance", "cog_to_fa"), k):
                v = float(q_alone.get_param(name)) * f
                q_alone.set_param(name, v)
                q_top.set_param("vehicle." + name, v)
            top.set_recursive_params(q_top)
            alone.set_recursive_params(q_alone)
        vx = max(8.0, u["vx"])
        r = bulk(seed + 1, 12, lo=-1, hi=1)
        wheels = {f"wheel_speed_{w}": vx / 0.33 * (1 + 0.05 * r[i]) for i, w in enumerate(("fl", "fr", "rl", "rr"))}
        # time per distance depends on these only
        vy = vx * u["vy"] / u["vx"]
        vs = dict(vx=vx, vy=vy, yaw_rate=u["yaw_rate"] / 3, **wheels)
        vu = dict(throttle=abs(r[4]), brake=abs(r[5]), steer=r[6], ax=10 * r[7], ay=10 * r[8])
        states = dict(**x, **vs)
        inputs = dict(**vu, track_curvature=u["track_curvature"], track_heading=u["track_heading"])
        ret = top.forward(dict(states), dict(inputs), mesh)
        want = alone.forward(vs, vu, 0.0)
        kin = TrackPosition2D().forward(dict(x), dict(vx=vx, vy=vy, yaw_rate=vs["yaw_rate"], track_curvature=u["track_curvature"],
                                                     track_heading=u["track_heading"]), mesh)
        close(sorted(ret.states_dot) == sorted(top.get_group_names("states_dot")), True, "names of derivatives", shape=False)
        per = float(kin.states_dot["time"])
        for k, v in kin.states_dot.items():
            close(ret.states_dot[k], v, f"derivative of {k}", shape=False)
        for k, v in want.states_dot.items():
            close(ret.states_dot[k], float(v) * per, f"derivative of {k}", rtol=1e-9, atol=1e-9, shape=False)
        for k, v in want.outputs.items():
            close(ret.outputs["vehicle." + k], v, f"output vehicle.{k}", shape=False)
        for k, v in kin.outputs.items():
            close(ret.outputs["kinematics." + k], v, f"output kinematics.{k}", shape=False)
        flat = top.forward_with_arrays(np.array([states[k] for k in top.get_group_names("states")]),
                                       np.array([inputs[k] for k in top.get_group_names("inputs")]), mesh)
        close(np.asarray(flat.residuals), [float(want.outputs[k]) for k in ("res_ax", "res_ay")], "residuals")
        rec.nontrivial(changed and u["track_curvature"] != 0 and x["n"] != 0)
    finally:
        top.set_recursive_params(p_top)
        alone.set_recursive_params(p_alone)
