"""C31: the vehicle model obeys mechanics and symmetry."""
import copy

import numpy as np
from hypothesis import strategies as st

from lib.compiled import cas_forward, flat_params
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lumos.models.base import ModelReturn, model_io
from lumos.models.composition import ModelMaker
from lumos.models.tires.base import BaseTire

P = Property("C31", rule=(
    "Random states, inputs and parameter sets (every vehicle, aero and tire parameter changed, each wheel its own tire "
    "parameters) for vehicles with MF5.2, Perantoni, mixed or the user's own tires. Balance of forces, moments, loads, torques and powers is "
    "written out here from the reported wheel forces; wheel forces come from the tire model on its own; the mirrored vehicle "
    "in the mirrored state gives the mirrored result; repeated and compiled evaluations agree. Non-trivial: steering, yaw rate, "
    "lateral velocity and both accelerations differ from zero and parameters were changed."))

W = ("fl", "fr", "rl", "rr")
SWAP = dict(fl="fr", fr="fl", rl="rr", rr="rl")


@model_io(inputs=("Fz", "kappa", "alpha", "vx", "gamma"), outputs=("Fx", "Fy", "Mx", "My", "Mz"))
class SpeedTire(BaseTire):
    """A tire whose forces depend on every input."""

    def forward(self, inputs):
        mu = self._params["mu"] / (1 + 0.01 * inputs["vx"] ** 2) + 0.1 * inputs["gamma"]
        fz = inputs["Fz"]
        fx, fy = mu * fz * inputs["kappa"] * 10, -mu * fz * (inputs["alpha"] * 8 + inputs["alpha"] ** 3)
        return ModelReturn(outputs=dict(Fx=fx, Fy=fy, Mx=0.1 * fy, My=-0.02 * fx, Mz=-0.03 * fy))

    @classmethod
    def get_default_params(cls):
        return {"mu": 2.5}


try:
    ModelMaker.add_to_registry(SpeedTire)
except ValueError:
    pass

TIRES = [("SpeedTire",) * 4, ("MF52",) * 4, ("PerantoniTire",) * 4, ("PerantoniTire", "PerantoniTire", "MF52", "MF52")]
_built, _tires = {}, {}


def built(k):
    if k not in _built:
        cfg = ModelMaker.make_config("SimpleVehicle")
        for w, t in zip(W, TIRES[k]):
            cfg.replace_subtree("tire_" + w, ModelMaker.make_config(t))
        m = ModelMaker.make_model_from_config(cfg)
        _built[k] = m, copy.deepcopy(m.get_recursive_params())
        for t in TIRES[k]:
            _tires.setdefault(t, ModelMaker.make_model_from_name(t))
    return _built[k]


@st.composite
def cases(draw):
    seed = draw(seeds)
    on = draw(st.sampled_from([(1,) * 8] * 5 + [tuple(int(i != k) for i in range(8)) for k in range(8)] + [(0,) * 8]))
    r = bulk(seed, 12)
    vx = 45 + 38 * r[0]
    states = dict(vx=vx, vy=on[0] * 0.12 * vx * r[1], yaw_rate=on[1] * 1.5 * r[2],
                  **{f"wheel_speed_{w}": vx / 0.33 * (1 + on[2] * 0.12 * r[3 + i]) for i, w in enumerate(W)})
    inputs = dict(throttle=on[3] * abs(r[7]), brake=on[4] * abs(r[8]), steer=on[5] * r[9], ax=on[6] * 25 * r[10], ay=on[7] * 25 * r[11])
    return dict(k=draw(st.integers(0, len(TIRES) - 1)), states=states, inputs=inputs, seed=seed,
                spread=draw(st.sampled_from([0.0, 0.1, 0.3])), all=all(on))


def changed(tree, seed, spread):
    """Parameters scaled by random factors around one."""
    tree = copy.deepcopy(tree)
    if spread:
        flat = tree.to_flat_dict()[0]
        r = bulk(seed, len(flat))
        for i, (path, v) in enumerate(flat.items()):
            # tire formulas have exponents and peaks: smaller changes
            v = v * (1 + (0.15 if path.startswith("tire") else 1) * spread * r[i])
            tree.set_param(path, v if np.shape(v) else float(v))
    return tree


def floats(d):
    return {k: float(v) for k, v in d.items()}


def rot(v, a):
    return np.array([np.cos(a) * v[0] - np.sin(a) * v[1], np.sin(a) * v[0] + np.cos(a) * v[1]])


@P.check(cases(), quick=600, thorough=15000, shards=4)
def mechanics(c, rec):
    m, base = built(c["k"])
    p = changed(base, c["seed"] + 50, c["spread"])
    x, u = c["states"], c["inputs"]
    m.set_recursive_params(p)
    try:
        ret = m.forward(dict(x), dict(u), 0.0)
    finally:
        m.set_recursive_params(copy.deepcopy(base))
    xd, o = floats(ret.states_dot), floats(ret.outputs)
    g = {k: float(v) for k, v in p.to_flat_dict()[0].items() if np.ndim(v) == 0}
    tol = dict(rtol=1e-8, shape=False)
    mass, lf, lr, h = g["vehicle_mass"], g["cog_to_fa"], g["cog_to_ra"], g["cog_height"]
    q = 0.5 * g["air_density"] * (x["vx"] ** 2 + x["vy"] ** 2)
    steer = u["steer"] * g["max_steer_angle"]
    angle = dict(fl=steer, fr=steer, rl=0.0, rr=0.0)
    pos = dict(fl=(lf, g["track_front"] / 2), fr=(lf, -g["track_front"] / 2), rl=(-lr, g["track_rear"] / 2), rr=(-lr, -g["track_rear"] / 2))
    F = {w: np.array([o["Fx_tire_" + w], o["Fy_tire_" + w]]) for w in W}
    Fz = {w: o["Fz_tire_" + w] for w in W}
    size = mass * g["gravity"]
    # loads: total, about the lateral axis, about the longitudinal axis
    down = mass * g["gravity"] + g["aero.Cz"] * q
    close(sum(Fz.values()), down, "total wheel load", atol=1e-9 * size, **tol)
    close(Fz["fl"] + Fz["fr"], down * lr / (lf + lr) - mass * h * u["ax"] / (lf + lr), "front axle load", atol=1e-9 * size, **tol)
    roll = mass * h * u["ay"]
    close(Fz["fr"] - Fz["fl"], 2 * roll * g["mech_balance"] / g["track_front"], "front load transfer", atol=1e-9 * size, **tol)
    close(Fz["rr"] - Fz["rl"], 2 * roll * (1 - g["mech_balance"]) / g["track_rear"], "rear load transfer", atol=1e-9 * size, **tol)
    # Newton and Euler in the rotating frame
    total = sum(F.values()) - np.array([g["aero.Cx"] * q, 0.0])
    close(mass * o["ax"], total[0], "mass times longitudinal acceleration", atol=1e-8 * size, **tol)
    close(mass * o["ay"], total[1], "mass times lateral acceleration", atol=1e-8 * size, **tol)
    close(xd["vx"], o["ax"] + x["yaw_rate"] * x["vy"], "derivative of vx", atol=1e-8, **tol)
    close(xd["vy"], o["ay"] - x["yaw_rate"] * x["vx"], "derivative of vy", atol=1e-8, **tol)
    moment = sum(pos[w][0] * F[w][1] - pos[w][1] * F[w][0] for w in W)
    close(g["Iz"] * xd["yaw_rate"], moment, "inertia times yaw acceleration", atol=1e-8 * size, **tol)
    close(o["res_ax"], o["ax"] - u["ax"], "residual ax", atol=1e-8, **tol)
    close(o["res_ay"], o["ay"] - u["ay"], "residual ay", atol=1e-8, **tol)
    # drive: power and differential
    ws = {w: x["wheel_speed_" + w] for w in W}
    tl, tr = o["drive_torque_rl"], o["drive_torque_rr"]
    close(tl * ws["rl"] + tr * ws["rr"], u["throttle"] * g["max_power"], "drive power", atol=1e-3, **tol)
    close(tl - tr, -g["kd"] * (ws["rl"] - ws["rr"]), "differential torque", atol=1e-7, **tol)
    # wheels
    torque = dict(fl=0.0, fr=0.0, rl=tl, rr=tr)
    brake = u["brake"] * g["max_total_brake_torque"]
    share = dict(fl=g["brake_balance"] / 2, fr=g["brake_balance"] / 2, rl=(1 - g["brake_balance"]) / 2, rr=(1 - g["brake_balance"]) / 2)
    for w in W:
        f = rot(F[w], -angle[w])
        close(g["wheel_inertia"] * xd["wheel_speed_" + w], torque[w] - share[w] * brake - f[0] * g["rolling_radius"],
              f"wheel {w}", atol=1e-8 * size, **tol)
        # slips: velocity of the contact patch in the wheel frame
        v = rot((x["vx"] - x["yaw_rate"] * pos[w][1], x["vy"] + x["yaw_rate"] * pos[w][0]), -angle[w])
        alpha, kappa = np.arctan2(v[1], v[0]), g["rolling_radius"] * ws[w] / x["vx"] - 1
        close(o["slip_angle_" + w], alpha, f"slip angle {w}", atol=1e-10, **tol)
        close(o["slip_ratio_" + w], kappa, f"slip ratio {w}", atol=1e-10, **tol)
        # the tire on its own; right-hand tires are mirrored left-hand ones
        side = 1 if w[1] == "l" else -1
        t = _tires[TIRES[c["k"]][W.index(w)]]
        t.set_recursive_params(p.get_child("tire_" + w))
        ft = t.forward(dict(Fz=Fz[w], kappa=kappa, alpha=side * alpha, vx=v[0], gamma=0.0)).outputs
        close(f, [float(ft["Fx"]), side * float(ft["Fy"])], f"force of tire {w}", rtol=1e-8, atol=1e-8 * size)
        for name, v in ft.items():
            close(o[f"tire_{w}.{name}"], float(v), f"output {name} of tire {w}", atol=1e-8 * size, **tol)
    rec.nontrivial(c["all"] and c["spread"] > 0)
    rec.event(f"tires {c['k']}")


@P.check(cases(), quick=400, thorough=12000, shards=2)
def mirrored(c, rec):
    m, base = built(c["k"])
    p = changed(base, c["seed"] + 50, c["spread"])
    pm = copy.deepcopy(p)
    for path, v in p.to_flat_dict()[0].items():
        if path.startswith("tire_"):
            w, rest = path[5:7], path[7:]
            pm.set_param(f"tire_{SWAP[w]}{rest}", v)
    x, u = c["states"], c["inputs"]
    xm = dict(vx=x["vx"], vy=-x["vy"], yaw_rate=-x["yaw_rate"], **{f"wheel_speed_{SWAP[w]}": x[f"wheel_speed_{w}"] for w in W})
    um = dict(u, steer=-u["steer"], ay=-u["ay"])

    def at(p, x, u):
        m.set_recursive_params(copy.deepcopy(p))
        try:
            ret = m.forward(dict(x), dict(u), 0.0)
            return floats(ret.states_dot), floats(ret.outputs)
        finally:
            m.set_recursive_params(copy.deepcopy(base))
    (d, o), (dm, om) = at(p, x, u), at(pm, xm, um)
    odd = ("vy", "yaw_rate", "ay", "res_ay")

    def mirror(v):
        out = {}
        for k, a in v.items():
            if k.startswith("tire_"):  # outputs of the tire model itself, in its own mirrored frame
                out[f"tire_{SWAP[k[5:7]]}{k[7:]}"] = a
                continue
            name, w = (k[:-2], k[-2:]) if k[-2:] in W else (k, "")
            sign = -1 if k in odd or name in ("Fy_tire_", "slip_angle_") else 1
            out[name + SWAP.get(w, "")] = sign * a
        return out
    for got, want, what in ((dm, mirror(d), "derivatives"), (om, mirror(o), "outputs")):
        ensure(set(got) == set(want), f"{what} have names {sorted(got)}")
        for k in got:
            close(got[k], want[k], f"mirrored {what}: {k}", rtol=1e-8, atol=1e-6, shape=False)
    d2, o2 = at(p, x, u)
    ensure(d2 == d and o2 == o, "a second evaluation gives different values")
    rec.nontrivial(c["all"] and c["spread"] > 0)


@P.check(cases(), quick=150, thorough=6000)
def compiled(c, rec):
    """The compiled function with changed parameters agrees with the model."""
    m, base = built(c["k"])
    if ("f", c["k"]) not in _tires:
        _tires["f", c["k"]] = cas_forward(m)
        m.set_recursive_params(copy.deepcopy(base))
    f = _tires["f", c["k"]]
    p = changed(base, c["seed"] + 50, c["spread"])
    x = np.array([c["states"][n] for n in m.get_group_names("states")])
    u = np.array([c["inputs"][n] for n in m.get_group_names("inputs")])
    m.set_recursive_params(copy.deepcopy(p))
    try:
        ret = m.forward_with_arrays(x, u, 0.0)
    finally:
        m.set_recursive_params(copy.deepcopy(base))
    out = f(x, u, 0.0, flat_params(p))
    for k, g in ((0, "states_dot"), (1, "outputs"), (3, "residuals")):
        close(np.array(out[k]).ravel(), np.asarray(getattr(ret, g), float), f"compiled {g}", rtol=1e-8, atol=1e-6)
    rec.nontrivial(c["all"] and c["spread"] > 0)
