"""C24: configurations validate and round-trip."""
import copy

import numpy as np
from hypothesis import strategies as st

from lib.compiled import dense
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import Ref, built, config, make_ocp, ocp_spec, point, same
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, LoggingConfig, ScaleConfig, SimConfig
from lumos.optimal_control.transcription import make_transcription

P = Property("C24", rule=(
    "Generated configurations of the general, lap-time and drone classes (every field, scalar and per-stage bounds, options as "
    "string, 1-tuple and pair, logging present or not) go to a dictionary and back, once and twice; problems built from the original "
    "and the copy are compared in bounds, scales, mesh and values. Bounds are generated valid and with one defect each "
    "(inverted, unequal length, wrong dimension, mixed kind), likewise transcriptions and backends. Non-trivial: nested "
    "configurations of at least two kinds are present."))

names = st.sampled_from(["a", "x0", "long.name_with.dots", "u1", "mesh_scale"])
groups = st.sampled_from(["states", "inputs", "states_dot", "con_outputs", "global"])
num = st.one_of(fl(-100, 100), st.sampled_from([0.0, -np.inf, np.inf, 1e-12]), st.integers(-5, 5))


def ordered(a, b):
    return (a, b) if a <= b else (b, a)


scalar_pair = st.tuples(num, num).map(lambda t: ordered(*t))
array_pair = st.lists(scalar_pair, min_size=1, max_size=4).map(
    lambda v: (np.array([a for a, _ in v], dtype=float), np.array([b for _, b in v], dtype=float)))


def logging(kw):
    cfg = LoggingConfig(**kw)
    want = dict(dict(sim_name="simulation", results_dir="results", log_every_nth_iter=0), **kw)
    ensure(cfg.__dict__ == want, f"logging configuration {cfg} instead of {want}")
    return cfg


@st.composite
def fields(draw):
    kw = {}
    opt = lambda k, s: kw.__setitem__(k, draw(s)) if draw(st.booleans()) else None
    opt("num_intervals", st.integers(1, 50))
    opt("interval_points", st.lists(fl(0, 1), min_size=2, max_size=5).map(np.array))
    opt("transcription", st.one_of(st.sampled_from(["LGR", "Trapezoidal", "ForwardEuler", "LGRIntegral"]),
                                   st.sampled_from(["LGR", "Trapezoidal"]).map(lambda n: (n,)),
                                   st.tuples(st.sampled_from(["LGR", "LGRIntegral"]), st.integers(2, 6).map(lambda k: {"num_stages": k}))))
    for b in ("is_cyclic", "is_condensed"):
        opt(b, st.booleans())
    opt("non_cyclic_vars", st.lists(names, max_size=3))
    opt("backend", st.sampled_from(["jax", "casadi", "custom"]))
    opt("hessian_approximation", st.sampled_from(["exact", "limited-memory"]))
    opt("boundary_conditions", st.lists(st.tuples(st.integers(-3, 3), groups, names, fl(-9, 9)), max_size=3).map(tuple))
    opt("bounds", st.lists(st.tuples(groups, names, st.one_of(scalar_pair, array_pair)), max_size=3).map(tuple))
    opt("scales", st.lists(st.tuples(groups, names, fl(0.01, 99)), max_size=3).map(tuple))
    opt("con_output_names", st.lists(names, max_size=3).map(tuple))
    opt("logging_config", st.one_of(st.none(), st.fixed_dictionaries({}, optional=dict(
        sim_name=names, results_dir=names, log_every_nth_iter=st.integers(0, 9)))))
    return kw


def realise(kw):
    """The fields of a configuration from plain data."""
    kw = copy.deepcopy(kw)
    for k, cls in (("boundary_conditions", BoundaryConditionConfig), ("bounds", BoundConfig), ("scales", ScaleConfig)):
        if k in kw:
            kw[k] = tuple(cls(*t) for t in kw[k])
    if kw.get("logging_config") is not None:
        kw["logging_config"] = logging(kw["logging_config"])
    return kw


# of the documentation of SimConfig
DEFAULTS = dict(num_intervals=99, interval_points=None, transcription=("Trapezoidal",), is_cyclic=False, non_cyclic_vars=[],
                is_condensed=False, backend="jax", hessian_approximation="exact", boundary_conditions=(), bounds=(), scales=(),
                con_output_names=(), logging_config=None)


def config_class(kind):
    if kind == "general":
        return SimConfig, {}
    if kind == "lap":
        from lumos.simulations.laptime_simulation import LTCConfig
        return LTCConfig, {"track": "some/track.csv"}
    from lumos.simulations.drone_simulation import DroneSimulationConfig
    return DroneSimulationConfig, {}


@P.check(st.tuples(st.sampled_from(["general", "general", "lap", "drone"]), fields()), quick=300, thorough=5000, shards=2)
def round_trip(case, rec):
    kind, kw = case
    kw = realise(kw)
    cls, extra = config_class(kind)
    given = copy.deepcopy(kw)
    cfg = cls(**kw, **extra)
    ensure(same(kw, given), f"arguments changed from {given} to {kw}")
    for k, v in given.items():
        have = getattr(cfg, k)
        if k == "transcription":
            v = (v,) if isinstance(v, str) else v
        if k == "non_cyclic_vars":
            ensure(list(have)[:len(v)] == v, f"{k}: {have} instead of {v}")
            continue
        ensure(same(have, v), f"{k}: {have!r} instead of {v!r}")
    overridden = () if kind == "general" else ("boundary_conditions", "bounds", "scales", "con_output_names", "non_cyclic_vars")
    for k, v in DEFAULTS.items():
        if k not in given and k not in overridden:
            ensure(same(getattr(cfg, k), v), f"{k}, which was not given: {getattr(cfg, k)!r} instead of {v!r}")
    d = cfg.to_dict()
    keep = copy.deepcopy(d)
    ensure(isinstance(d, dict) and not any(hasattr(x, "__dataclass_fields__") for v in d.values() if isinstance(v, (tuple, list))
                                           for x in v), f"not a dictionary: {d}")
    back = cls(**d)
    ensure(same(cfg.__dict__, back.__dict__), f"round trip: {back.__dict__} instead of {cfg.__dict__}")
    ensure(same(keep, back.to_dict()), "dictionaries before and after")
    again = cls(**back.to_dict())
    ensure(same(cfg.__dict__, again.__dict__), "second round trip")
    rec.event(kind)
    rec.nontrivial(sum(bool(given.get(k)) for k in ("bounds", "scales", "boundary_conditions", "logging_config")) > 1)


# -------------------------------------------------------------- the copy builds the same problem
@st.composite
def build_case(draw):
    spec = draw(ocp_spec(max_ni=3, depth=0))
    ref = Ref(spec)
    var = st.sampled_from([(g, n) for g in ("states", "inputs", "con_outputs") for n in ref.names[g]])
    stg = st.lists(scalar_pair, min_size=ref.N, max_size=ref.N).map(
        lambda v: (np.array([a for a, _ in v], dtype=float), np.array([b for _, b in v], dtype=float)))
    bounds = draw(st.lists(st.tuples(var, st.one_of(scalar_pair, stg)), max_size=3))
    bcs = draw(st.lists(st.tuples(st.integers(-ref.N, ref.N - 1), var, fl(-9, 9)), max_size=3))
    return spec, bounds, bcs, draw(seeds)


@P.check(build_case(), quick=60, thorough=600, shards=2)
def same_problem(case, rec):
    spec, bounds, bcs, seed = case
    ref = Ref(spec)
    cfg = config(spec, bounds=tuple(BoundConfig(g, n, v) for (g, n), v in bounds),
                 boundary_conditions=tuple(BoundaryConditionConfig(k, g, n, x) for k, (g, n), x in bcs))
    d = cfg.to_dict()
    back = SimConfig(**d)
    kept = copy.deepcopy(d)
    with built(spec) as b:
        p, q = make_ocp(spec, b.model(), cfg), make_ocp(spec, b.model(), back)
        z = point(ref, seed) / ref.var_scales(spec["scales"])
        close(q.lb, p.lb, "lower bounds"), close(q.ub, p.ub, "upper bounds")
        close(q.objective(z), p.objective(z), "objective", shape=False)
        close(q.constraints(z), p.constraints(z), "constraints")
        close(q.gradient(z), p.gradient(z), "gradient")
        shape = (p.num_con, p.num_dec)
        close(dense(*q.jacobianstructure(), q.jacobian(z), shape), dense(*p.jacobianstructure(), p.jacobian(z), shape), "Jacobian")
        close(q.get_mesh_from_dec_var(z), p.get_mesh_from_dec_var(z), "mesh")
        # building leaves the configurations as they were, so that a later problem is the same one again
        ensure(same(cfg.to_dict(), kept) and same(back.to_dict(), kept) and same(d, kept), "a configuration changed by building a problem")
        for c_ in (cfg, back):
            r = make_ocp(spec, b.model(), c_)
            ensure(r.num_dec == p.num_dec and r.num_con == p.num_con, "size of a problem built again")
            close(r.constraints(z), p.constraints(z), "constraints of a problem built again")
            close(r.lb, p.lb, "lower bounds of a problem built again"), close(r.ub, p.ub, "upper bounds of a problem built again")
        # both agree with the specification (not only with each other)
        want = ref.constraints(z * ref.var_scales(spec["scales"]), list(q.split_constraints(np.zeros(q.num_con))), spec["scales"])
        close(q.constraints(z), want, "constraints of the copy", rtol=1e-8, atol=1e-8)
    rec.nontrivial(bool(bounds) and bool(bcs or spec["scales"]))


# -------------------------------------------------------------- validation
@st.composite
def bound_case(draw):
    kind = draw(st.sampled_from(["scalar", "array", "inverted", "inverted_stage", "inverted_little", "inverted_stage_little", "length", "dim", "mixed", "nested"]))
    a, b = draw(scalar_pair)
    va, vb = draw(array_pair)
    if kind == "scalar":
        v = (a, b)
    elif kind == "array":
        v = (va, vb)
    elif kind == "inverted":
        a, b = (a, b) if np.isfinite(a) and a < b else (0.0, 1.0)
        v = (b, a)
    elif kind in ("inverted_little", "inverted_stage_little"):
        a = a if np.isfinite(a) else 1.0
        step = draw(st.sampled_from([1e-3, 1e-6, 1e-9, 1e-12, 0.0]))
        up = float(a - step * max(1.0, abs(a))) if step else float(np.nextafter(a, -np.inf))
        v = (float(a), up)
        if kind != "inverted_little":
            k = draw(st.integers(0, len(va) - 1))
            va, vb = va.copy(), vb.copy()
            va[k], vb[k] = v
            v = (va, vb)
    elif kind == "inverted_stage":
        k = draw(st.integers(0, len(va) - 1))
        va, vb = va.copy(), vb.copy()
        va[k], vb[k] = 2.0, draw(fl(-5, 1.99))
        v = (va, vb)
    elif kind == "length":
        v = (va, np.concatenate([vb, np.full(draw(st.integers(1, 3)), np.inf)]))
        v = v if draw(st.booleans()) else (np.concatenate([va, [-np.inf]]), vb)
    elif kind == "dim":
        v = draw(st.sampled_from([(va[:, None], vb), (va, vb[None]), (va[:, None], vb[:, None]), (np.array(1.0), np.array(2.0))]))
    elif kind == "mixed":
        v = draw(st.sampled_from([(-np.inf, vb), (va, np.inf)]))
    else:
        v = draw(st.sampled_from([(list(va), list(vb)), (va, list(vb)), (None, 1.0), (0.0, None)]))
    return kind, v


@P.check(bound_case(), quick=300, thorough=4000)
def bounds_validation(case, rec):
    kind, v = case
    make = lambda: BoundConfig("states", "x", v)
    if kind in ("scalar", "array"):
        c = make()
        ensure(c.values is v or same(c.values, v), f"values {c.values}")
        rec.event("accepted")
    else:
        must_raise(make, f"{kind} bounds {v!r}")
        rec.event("rejected " + kind)
    rec.nontrivial(kind not in ("scalar",))


@P.check(st.tuples(ocp_spec(max_ni=2, depth=0, max_stages=3),
                   st.sampled_from(["lgr", "LGR ", "Euler", "", "RK4", "trapezoidal", "Gauss", "LGRintegral"]),
                   st.sampled_from(["numpy", "", "JAX", "Casadi", "torch", "customized", "cas"])), quick=40, thorough=300)
def names_validation(case, rec):
    spec, trans, backend = case
    must_raise(lambda: make_transcription(trans), f"transcription {trans!r}")
    with built(spec) as b:
        must_raise(lambda: make_ocp(spec, b.model(), config(spec, transcription=(trans,))), f"problem with transcription {trans!r}")
        must_raise(lambda: make_ocp(spec, b.model(), config(spec, backend=backend)), f"problem with backend {backend!r}")
        # the model still serves a valid problem afterwards
        m = b.model()
        must_raise(lambda: make_ocp(spec, m, config(spec, backend=backend)), f"problem with backend {backend!r}")
        ref = Ref(spec)
        ocp = make_ocp(spec, m)
        z = point(ref, spec["seed"])
        order = list(ocp.split_constraints(np.zeros(ocp.num_con)))
        close(ocp.constraints(z / ref.var_scales(spec["scales"])), ref.constraints(z, order, spec["scales"]), "constraints after a rejected backend",
              rtol=1e-8, atol=1e-8)
    rec.nontrivial()
