"""C32: the MF5.2 tire implements the published formulas in every mode."""
import copy

import casadi as cas
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lib.compiled import flat_params
from lumos.models.tires.pacejka import MF52

P = Property("C32", rule=(
    "Random loads (both signs), slips to +-1, speeds, cambers and parameter sets (the default one, or all 150 parameters and "
    "scale factors changed by up to 40 %, some zero) against an independent transcription of the published MF5.2 equations; "
    "the mirrored parameter set in the mirrored state; both modes; friction scalings; continuity; repeated and compiled "
    "evaluations. Non-trivial: parameters were changed and both slips and the camber differ from zero."))

# parameters that make the tire asymmetric: a mirrored tire has the opposite ones
ODD = ("PHY1", "PHY2", "PVY1", "PVY2", "PEY3", "RHX1", "RBY3", "RVY1", "RVY2", "QHZ1", "QHZ2", "QDZ3", "QDZ6", "QDZ7", "QBZ4",
       "QEZ4", "SSZ1", "QSX1")
OUT = ("Fx", "Fy", "Mx", "My", "Mz", "Kxk", "Gxa", "Kya", "Gyk", "GSum")


def magic(B, C, E, x):
    return C * np.arctan(B * x - E * (B * x - np.arctan(B * x)))


def published(p, Fz, kappa, alpha, vx, gamma):
    """MF-Tire 5.2 steady state (Pacejka, Tire and Vehicle Dynamics, 4.3.2), without turn slip."""
    Fn = p["LFZO"] * p["FNOMIN"]
    df = (Fz - Fn) / Fn
    # longitudinal, pure slip
    C = p["PCX1"] * p["LCX"]
    mux = (p["PDX1"] + p["PDX2"] * df) * (1 - p["PDX3"] * gamma ** 2) * p["LMUX"]
    D = mux * Fz
    Kxk = Fz * (p["PKX1"] + p["PKX2"] * df) * np.exp(p["PKX3"] * df) * p["LKX"]
    k = kappa + (p["PHX1"] + p["PHX2"] * df) * p["LHX"]
    E = min(1.0, (p["PEX1"] + p["PEX2"] * df + p["PEX3"] * df ** 2) * (1 - p["PEX4"] * np.sign(k)) * p["LEX"])
    SVx = Fz * (p["PVX1"] + p["PVX2"] * df) * p["LVX"] * p["LMUX"]
    Fx0 = D * np.sin(magic(Kxk / (C * D + p["epsilonx"] * np.sign(D)), C, E, k)) + SVx
    # combined
    B = p["RBX1"] * np.cos(np.arctan(p["RBX2"] * kappa)) * p["LXAL"]
    E = min(1.0, p["REX1"] + p["REX2"] * df)
    Gxa = np.cos(magic(B, p["RCX1"], E, alpha + p["RHX1"])) / np.cos(magic(B, p["RCX1"], E, p["RHX1"]))
    Fx = Gxa * Fx0
    # lateral, pure slip
    Cy = p["PCY1"] * p["LCY"]
    muy = (p["PDY1"] + p["PDY2"] * df) * (1 - p["PDY3"] * gamma ** 2) * p["LMUY"]
    D = muy * Fz
    Kya = p["PKY1"] * Fn * np.sin(2 * np.arctan(Fz / (p["PKY2"] * Fn))) * (1 - p["PKY3"] * abs(gamma)) * p["LKY"]
    SHy = (p["PHY1"] + p["PHY2"] * df) * p["LHY"] + p["PHY3"] * gamma
    SVy = Fz * ((p["PVY1"] + p["PVY2"] * df) * p["LVY"] + (p["PVY3"] + p["PVY4"] * df) * gamma) * p["LMUY"]
    a = alpha + SHy
    E = min(1.0, (p["PEY1"] + p["PEY2"] * df) * (1 - (p["PEY3"] + p["PEY4"] * gamma) * np.sign(a)) * p["LEY"])
    By = Kya / (Cy * D + p["epsilony"] * np.sign(D))
    Fy0 = D * np.sin(magic(By, Cy, E, a)) + SVy
    # combined
    B = p["RBY1"] * np.cos(np.arctan(p["RBY2"] * (alpha - p["RBY3"]))) * p["LYKA"]
    E = min(1.0, p["REY1"] + p["REY2"] * df)
    SH = p["RHY1"] + p["RHY2"] * df
    Gyk = np.cos(magic(B, p["RCY1"], E, kappa + SH)) / np.cos(magic(B, p["RCY1"], E, SH))
    DV = muy * Fz * (p["RVY1"] + p["RVY2"] * df + p["RVY3"] * gamma) * np.cos(np.arctan(p["RVY4"] * alpha))
    SVyk = DV * np.sin(p["RVY5"] * np.arctan(p["RVY6"] * kappa)) * p["LVYKA"]
    Fy = Gyk * Fy0 + SVyk
    # moments
    R = p["UNLOADED_RADIUS"]
    Mx = R * Fz * p["LMX"] * (p["QSX1"] * p["LVMX"] - p["QSX2"] * gamma + p["QSX3"] * Fy / p["FNOMIN"])
    v = vx / p["LONGVL"]
    My = -R * Fz * p["LMY"] * (p["QSY1"] + p["QSY2"] * Fx / p["FNOMIN"] + p["QSY3"] * v + p["QSY4"] * v ** 4)
    K = Kya + p["epsilonk"] * np.sign(Kya)
    at = alpha + p["QHZ1"] + p["QHZ2"] * df + (p["QHZ3"] + p["QHZ4"] * df) * gamma
    ar = alpha + SHy + SVy / K
    Bt = (p["QBZ1"] + p["QBZ2"] * df + p["QBZ3"] * df ** 2) * (1 + p["QBZ4"] * gamma + p["QBZ5"] * abs(gamma)) * p["LKY"] / p["LMUY"]
    Ct = p["QCZ1"]
    Dt = (p["QDZ1"] + p["QDZ2"] * df) * (1 + p["QDZ3"] * gamma + p["QDZ4"] * gamma ** 2) * Fz * R / Fn * p["LTR"]
    Et = (p["QEZ1"] + p["QEZ2"] * df + p["QEZ3"] * df ** 2) * (1 + (p["QEZ4"] + p["QEZ5"] * gamma) * 2 / np.pi * np.arctan(Bt * Ct * at))
    Dr = Fz * R * ((p["QDZ6"] + p["QDZ7"] * df) * p["LRES"] + (p["QDZ8"] + p["QDZ9"] * df) * gamma) * p["LMUY"] * np.cos(alpha)
    Br = p["QBZ9"] * p["LKY"] / p["LMUY"] + p["QBZ10"] * By * Cy
    eq = [np.sign(w) * np.arctan(np.sqrt(np.tan(w) ** 2 + (Kxk / K * kappa) ** 2)) for w in (ar, at)]
    cosine = vx / (vx * np.sqrt(1 + np.tan(alpha) ** 2) + p["epsilonv"])
    trail = Dt * np.cos(magic(Bt, Ct, Et, eq[1])) * cosine * p["LFZO"]
    s = R * (p["SSZ1"] + p["SSZ2"] * Fy / p["FNOMIN"] + (p["SSZ3"] + p["SSZ4"] * df) * gamma) * p["LS"]
    Mz = -trail * (Fy - SVyk) + Dr * np.cos(np.arctan(Br * eq[0])) + s * Fx
    # distances from the kinks of the formula, where a sign or limit may fall either way
    near = min(abs(k), abs(a), abs(ar), abs(at))
    peaks = abs(mux * Fz) + abs(SVx), abs(muy * Fz) + abs(SVy)
    return dict(Fx=Fx, Fy=Fy, Mx=Mx, My=My, Mz=Mz, Kxk=Kxk, Gxa=Gxa, Kya=Kya, Gyk=Gyk, GSum=np.hypot(Gyk, Gxa)), near, peaks, (k, a)


_m = {}


def models():
    if not _m:
        _m["full"], _m["opt"] = MF52(opt_mode=False), MF52()
        _m["base"] = copy.deepcopy(_m["opt"].get_recursive_params())
        for name in ("full", "opt"):
            f = cas.MX.sym("u", 5)
            flat, unravel = _m["base"].tree_ravel()
            p = cas.MX.sym("p", len(flat))
            with lnp.use_backend("casadi"):
                _m[name].set_recursive_params(unravel(p))
                out = _m[name].forward_with_arrays(f).outputs
            _m[name + "_f"] = cas.Function("f", [f, p], [cas.densify(cas.MX(out))])
            _m[name].set_recursive_params(copy.deepcopy(_m["base"]))
    return _m


@st.composite
def cases(draw):
    seed = draw(seeds)
    r = bulk(seed, 6)
    on = draw(st.sampled_from([(1, 1, 1)] * 5 + [(0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 1, 0), (1, 0, 0), (0, 0, 0)]))
    Fz = draw(st.sampled_from([1.0, 1.0, 1.0, -0.2])) * (6000 + 5900 * r[0])
    big = draw(st.sampled_from([0.08, 0.3, 1.0]))
    u = dict(Fz=Fz, kappa=on[0] * big * r[1], alpha=on[1] * big * r[2], vx=40 + 39 * r[3], gamma=on[2] * 0.25 * r[4])
    return u, seed, draw(st.sampled_from([0.0, 0.1, 0.4])), draw(st.sampled_from([0.0, 0.0, 0.15])), all(on)


def params(base, seed, spread, zeros):
    """Every coefficient and scale factor changed; sizes that divide stay away from zero."""
    p = {k: float(v) for k, v in base.to_flat_dict()[0].items()}
    if spread:
        r, z = bulk(seed + 7, len(p)), bulk(seed + 8, len(p), lo=0, hi=1)
        for i, k in enumerate(p):
            keep = k in ("epsilonv", "epsilonx", "epsilonk", "epsilony")
            p[k] = p[k] * (1 + (0 if keep else spread) * r[i])
            if p[k] == 0:
                p[k] = 0.02 * r[i]
            if k.startswith("PDX2") or k.startswith("PDY2") or k in ("PKX2", "PDX3", "PDY3"):
                p[k] *= 0.5
            if z[i] < zeros and k[0] in "PQRS" and k not in ("PCX1", "PDX1", "PKX1", "PCY1", "PDY1", "PKY1", "PKY2", "QCZ1"):
                p[k] = 0.0
    return p


def tree(base, p):
    t = copy.deepcopy(base)
    for k, v in p.items():
        t.set_param(k, v)
    return t


def evaluate(m, t, u):
    m.set_recursive_params(t)
    return {k: float(v) for k, v in m.forward(dict(u)).outputs.items()}


def agree(got, want, what, Fz, names=OUT):
    for k in names:
        close(got[k], want[k], f"{what}: {k}", rtol=1e-8, atol=1e-9 * abs(Fz) if k[0] in "FMK" else 1e-10, shape=False)


@P.check(cases(), quick=900, thorough=25000, shards=4)
def formulas(c, rec):
    u, seed, spread, zeros, everything = c
    m = models()
    p = params(m["base"], seed, spread, zeros)
    want, near, peaks, _ = published(p, **u)
    if near < 1e-9 or not all(np.isfinite(v) and abs(v) < 1e9 for v in want.values()):
        rec.event("near a kink or a pole")
        return
    t = tree(m["base"], p)
    full = evaluate(m["full"], t, u)
    ensure(set(full) == set(OUT), f"outputs {sorted(full)}")
    agree(full, want, "published formula", u["Fz"])
    opt = evaluate(m["opt"], t, u)
    agree(opt, full, "optimised mode", u["Fz"], [k for k in OUT if k[0] != "M"])
    ensure(opt["Mx"] == opt["My"] == opt["Mz"] == 0, f"moments of the optimised mode {opt}")
    agree(evaluate(m["full"], t, u), full, "second evaluation", u["Fz"])
    # forces are limited by load and friction
    ensure(abs(full["Fx"]) <= abs(full["Gxa"]) * peaks[0] * (1 + 1e-9), f"longitudinal force {full['Fx']} beyond friction {peaks[0]}")
    # the mirrored tire in the mirrored state
    pm = dict(p, **{k: -p[k] for k in ODD})
    mirrored = evaluate(m["full"], tree(m["base"], pm), dict(u, alpha=-u["alpha"], gamma=-u["gamma"]))
    agree(mirrored, {k: v * (-1 if k in ("Fy", "Mx", "Mz") else 1) for k, v in full.items()}, "mirrored tire", u["Fz"])
    # compiled with parameters as arguments
    for name, ref in (("full", full), ("opt", opt)):
        out = np.array(m[name + "_f"](np.array([u[k] for k in ("Fz", "kappa", "alpha", "vx", "gamma")]), flat_params(t))).ravel()
        agree(dict(zip(m[name].get_group_names("outputs"), out)), ref, f"compiled, {name}", u["Fz"])
    rec.nontrivial(everything and spread > 0)


@P.check(cases(), quick=300, thorough=10000, shards=2)
def behaviour(c, rec):
    """Relations that hold without knowing the coefficients."""
    u, seed, spread, zeros, everything = c
    m = models()
    p = params(m["base"], seed, spread, zeros)
    u = dict(u, Fz=abs(u["Fz"]))
    want, near, _, (k0, a0) = published(p, **u)
    if near < 1e-6 or not all(np.isfinite(v) and abs(v) < 1e7 for v in want.values()):
        rec.event("near a kink or a pole")
        return
    t = tree(m["base"], p)
    full = evaluate(m["full"], t, u)
    # no lateral slip (or no weighting): pure longitudinal force, and the other way round
    pure_x = evaluate(m["full"], t, dict(u, alpha=0.0))
    close(pure_x["Gxa"], 1.0, "weighting of the longitudinal force without slip angle", shape=False)
    close(evaluate(m["full"], t, dict(u, kappa=0.0))["Gyk"], 1.0, "weighting of the lateral force without slip ratio", shape=False)
    close(full["Fx"], full["Gxa"] * pure_x["Fx"], "combined longitudinal force", rtol=1e-8, atol=1e-6, shape=False)
    close(full["GSum"], np.hypot(full["Gxa"], full["Gyk"]), "sum of weights", shape=False)
    # stiffness is the slope of the pure force at its origin
    n = dict(p, LXAL=0.0, LYKA=0.0, LVYKA=0.0, epsilonx=0.0, epsilony=0.0)
    tn = tree(m["base"], n)
    h = 1e-6
    for slip, origin, F, K in (("kappa", u["kappa"] - k0, "Fx", "Kxk"), ("alpha", u["alpha"] - a0, "Fy", "Kya")):
        up, low = (evaluate(m["full"], tn, dict(u, **{slip: origin + s})) for s in (h, -h))
        close((up[F] - low[F]) / (2 * h), up[K], f"slope of {F}", rtol=1e-4, atol=1e-3 * u["Fz"], shape=False)
        close(up["Gxa" if F == "Fx" else "Gyk"], 1.0, "weighting switched off", shape=False)
    # friction scalings scale the saturated force and stiffness scalings do not
    z = dict(p, LXAL=0.0, LYKA=0.0, LVYKA=0.0, epsilonx=0.0, epsilony=0.0)
    f = 0.5 + bulk(seed + 9, 1, lo=0, hi=1)[0]
    for slip, F, mu, K, shift in (("kappa", "Fx", "LMUX", "LKX", k0 - u["kappa"]), ("alpha", "Fy", "LMUY", "LKY", a0 - u["alpha"])):
        # same argument of the arctangent: stiffness over friction is kept
        a = evaluate(m["full"], tree(m["base"], z), u)[F]
        b = evaluate(m["full"], tree(m["base"], dict(z, **{mu: z[mu] * f, K: z[K] * f})), u)[F]
        close(b, f * a, f"{F} with friction and stiffness scaled by {f}", rtol=1e-8, atol=1e-6, shape=False)
    # forces do not depend on speed, nor moments on the sampling of slips: continuity in load and slips
    fast = evaluate(m["full"], t, dict(u, vx=2 * u["vx"]))
    agree(fast, full, "forces at twice the speed", u["Fz"], ("Fx", "Fy", "Mx", "Kxk", "Gxa", "Kya", "Gyk", "GSum"))
    step = {k: v + 1e-7 * (1000 if k == "Fz" else 1) for k, v in u.items()}
    near_by = evaluate(m["full"], t, step)
    for k in ("Fx", "Fy", "Mx", "My"):
        ensure(abs(near_by[k] - full[k]) < 1e-3 * u["Fz"] + 1, f"{k} jumps from {full[k]} to {near_by[k]}")
    rec.nontrivial(everything and spread > 0)
