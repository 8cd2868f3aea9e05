"""C33: the Perantoni tire stays inside its friction ellipse and is odd in slip."""
import copy

import casadi as cas
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.compiled import flat_params
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lumos.models.tires.perantoni import PerantoniTire

P = Property("C33", rule=(
    "Random loads, slips over four decades, cambers, speeds and parameter sets: the published formula written out here, signs "
    "and symmetries, the friction ellipse, attained peaks, scaling of slips, and compiled evaluation. Non-trivial: parameters "
    "were changed and both slips differ from zero."))
SMALL = 1e-6  # added below the root to keep it smooth at zero slip


def published(p, Fz, kappa, alpha, small=SMALL):
    at = lambda a, b: a + (b - a) * (Fz - p["Fz1"]) / (p["Fz2"] - p["Fz1"])  # noqa: E731
    k, a = kappa / at(p["kappa1"], p["kappa2"]), alpha / at(p["alpha1"], p["alpha2"])
    rho = np.sqrt(k ** 2 + a ** 2 + small)
    mu = [at(p["mux1"], p["mux2"]), at(p["muy1"], p["muy2"])]
    shape = [np.sin(p[Q] * np.arctan(np.pi / (2 * np.arctan(p[Q])) * rho)) for Q in ("Qx", "Qy")]
    return mu[0] * shape[0] * Fz * k / rho, -mu[1] * shape[1] * Fz * a / rho, mu, (k, a)


_m = {}


def model():
    if not _m:
        m = _m["m"] = PerantoniTire()
        _m["base"] = copy.deepcopy(m.get_recursive_params())
        flat, unravel = _m["base"].tree_ravel()
        u, p = cas.MX.sym("u", 5), cas.MX.sym("p", len(flat))
        with lnp.use_backend("casadi"):
            m.set_recursive_params(unravel(p))
            out = m.forward_with_arrays(u).outputs
        _m["f"] = cas.Function("f", [u, p], [cas.densify(cas.MX(out))])
    return _m["m"], _m["base"], _m["f"]


@st.composite
def cases(draw):
    seed = draw(seeds)
    r = bulk(seed, 20)
    on = draw(st.sampled_from([(1, 1)] * 4 + [(1, 0), (0, 1), (0, 0)]))
    size = draw(st.sampled_from([1e-5, 1e-3, 0.03, 0.3, 1.0]))
    u = dict(Fz=4050 + 4000 * r[0], kappa=on[0] * size * r[1], alpha=on[1] * size * r[2], vx=40 + 39 * r[3], gamma=0.2 * r[4])
    p = dict(Fz1=2000 + 500 * r[5], Fz2=6000 + 1500 * r[6], mux1=1.75 + 0.3 * r[7], mux2=1.4 + 0.2 * r[8], kappa1=0.11 + 0.02 * r[9],
             kappa2=0.1 + 0.02 * r[10], muy1=1.8 + 0.3 * r[11], muy2=1.45 + 0.2 * r[12], alpha1=0.157 + 0.03 * r[13],
             alpha2=0.14 + 0.03 * r[14], Qx=1.55 + 0.4 * r[15], Qy=1.55 + 0.4 * r[16])
    default = draw(st.integers(0, 4)) == 0
    return u, None if default else p, all(on) and not default


@P.check(cases(), quick=1500, thorough=40000, shards=2)
def tire(c, rec):
    u, p, nontrivial = c
    m, base, f = model()
    t = copy.deepcopy(base)
    for k, v in (p or {}).items():
        t.set_param(k, v)
    p = {k: float(v) for k, v in t.to_flat_dict()[0].items()}
    m.set_recursive_params(t)

    def force(**change):
        o = {k: float(v) for k, v in m.forward(dict(u, **change)).outputs.items()}
        ensure(o["Mx"] == o["My"] == o["Mz"] == 0 and set(o) == {"Fx", "Fy", "Mx", "My", "Mz"}, f"moments {o}")
        return np.array([o["Fx"], o["Fy"]])
    F = force()
    fx, fy, mu, (k, a) = published(p, u["Fz"], u["kappa"], u["alpha"])
    tol = dict(rtol=1e-9, atol=1e-7)
    close(F, [fx, fy], "published formula", **tol)
    # signs and symmetries
    ensure(F[0] * u["kappa"] >= 0 and F[1] * u["alpha"] <= 0, f"force {F} for slips {u}")
    close(force(kappa=-u["kappa"], alpha=-u["alpha"]), -F, "both slips reversed", **tol)
    close(force(kappa=-u["kappa"]), F * [-1, 1], "slip ratio reversed", **tol)
    close(force(alpha=-u["alpha"]), F * [1, -1], "slip angle reversed", **tol)
    close(force(vx=1.0, gamma=-0.1), F, "other speed and camber", **tol)
    # ellipse
    ensure(np.hypot(F[0] / mu[0], F[1] / mu[1]) <= u["Fz"] * (1 + 1e-9), f"force {F} outside of the friction ellipse {mu} at {u['Fz']}")
    ensure(np.all(np.abs(force(alpha=0.0)) >= np.abs([F[0], 0]) - 1e-6 * u["Fz"]) or np.hypot(k, a) > 0.5,
           "side slip increases the longitudinal force below the peak")
    # the peak of pure slip: where the argument of the sine is a right angle
    for i, (slip, Q) in enumerate((("kappa", "Qx"), ("alpha", "Qy"))):
        n = (k, a)[i]
        scale = u[slip] / n if n else None
        if scale is None or p[Q] <= 1.05:
            continue
        peak = np.tan(np.pi / (2 * p[Q])) / (np.pi / (2 * np.arctan(p[Q])))
        other = {"kappa": 0.0, "alpha": 0.0}
        sweep = [abs(force(**{**other, slip: scale * peak * w})[i]) for w in (0.9, 1.0, 1.1)]
        close(sweep[1], mu[i] * u["Fz"], f"peak force in {slip}", rtol=1e-4, atol=0, shape=False)
        ensure(sweep[1] >= max(sweep) * (1 - 1e-5), f"peak force in {slip} is not the largest of {sweep}")
    out = np.array(f(np.array([u[n] for n in m.get_group_names("inputs")]), flat_params(t))).ravel()
    close(out[[m.get_group_names("outputs").index(n) for n in ("Fx", "Fy")]], F, "compiled", **tol)
    close(force(), F, "second evaluation", rtol=0, atol=0)
    rec.nontrivial(nontrivial)
