"""C23: cyclic problems tie exactly the requested variables."""
import copy

import numpy as np
from hypothesis import strategies as st

from lib.compiled import dense
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import Ref, built, config, interval_points, make_ocp, ocp_spec, same
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig

P = Property("C23", rule=(
    "Random models and configurations with every subset of states and inputs declared non-cyclic (none and all included); the "
    "cyclic conditions are probed by moving each variable at each stage, and by solving for points that satisfy them. Each "
    "configuration object is reused for 2-3 problems and compared field by field with a deep copy taken before. Unknown names "
    "are injected. Lap-time configurations get caller-owned lists. Non-trivial: some variables are cyclic and some not."))


def snapshot(cfg):
    return copy.deepcopy(cfg.__dict__)


@st.composite
def case(draw):
    spec = draw(ocp_spec(cyclic=True, max_ni=3, depth=0, objective="custom"))
    names = Ref(spec).names
    full = [g + "." + n for g in ("states", "inputs") for n in names[g]]
    spec["non_cyclic"] = draw(st.one_of(st.lists(st.sampled_from(full), unique=True), st.just(list(full)), st.just([]),
                                        st.just(full[1:])))
    wrong = draw(st.sampled_from(["states.nope", "inputs.x0", "con_outputs.o0", "states_dot.x0", "x0", "global.mesh_scale", ""]))
    if wrong in full:
        wrong = "states.nope"
    bounds = draw(st.lists(st.tuples(st.sampled_from(full), fl(-5, 0), fl(0, 5)), max_size=2))
    bcs = draw(st.lists(st.tuples(st.sampled_from(full), st.sampled_from([0, -1]), fl(-3, 3)), max_size=2))
    return spec, wrong, bounds, bcs, draw(seeds)


@P.check(case(), quick=100, thorough=1500, shards=6)
def ties(c, rec):
    spec, wrong, bounds, bcs, seed = c
    ref = Ref(spec)
    n = ref.num_dec
    s = ref.var_scales(spec["scales"])
    tied = ref.cyclic_names()
    pts = interval_points(spec)
    if pts is not None and seed % 2:
        pts[0], pts[-1] = pts[0] + 1e-9 * (seed % 7), pts[-1] - 1e-9 * (seed % 5)  # ends off by round-off are accepted
    cfg = config(spec, interval_points=pts, bounds=tuple(BoundConfig(*v.split("."), (a, b)) for v, a, b in bounds),
                 boundary_conditions=tuple(BoundaryConditionConfig(k, *v.split("."), x) for v, k, x in bcs))
    before = snapshot(cfg)
    with built(spec) as b:
        for use in range(2):
            ocp = make_ocp(spec, b.model(), cfg)
            ensure(same(before, cfg.__dict__), f"configuration changed by building problem {use}: {cfg.__dict__} was {before}")
            z = bulk(seed + use, n, lo=0.5, hi=1.5)
            cons = lambda w: ocp.split_constraints(ocp.constraints(w)).get("cyclic", np.zeros(0))
            base = np.array(cons(z))
            ensure(base.size == len(tied), f"{base.size} cyclic conditions for {len(tied)} cyclic variables")
            # each condition reacts to the first and last value of its own variable and to nothing else
            hit = []
            for j in range(n):
                w = z.copy()
                w[j] += 0.25
                d = np.array(cons(w)) - base
                rows = np.nonzero(np.abs(d) > 1e-12)[0]
                if rows.size:
                    hit.append(j)
                    ensure(rows.size == 1, f"variable {j} is in {rows.size} cyclic conditions")
            want = sorted(ref.index(g, v, k) for g, v in tied for k in (0, -1))
            ensure(hit == want, f"cyclic conditions depend on decision variables {hit} instead of {want} ({tied})")
            # satisfied exactly when first and last values agree
            w = z.copy()
            for g, v in tied:
                w[ref.index(g, v, -1)] = w[ref.index(g, v, 0)]
            close(cons(w), np.zeros(len(tied)), "cyclic conditions of equal ends")
            for g, v in tied:
                w2 = w.copy()
                w2[ref.index(g, v, -1)] += 0.5
                ensure(np.count_nonzero(np.abs(cons(w2)) > 1e-9) == 1, f"cyclic conditions ignore a difference of {g}.{v}")
            ocp.jacobian(z), ocp.gradient(z), ocp.hessian(z, bulk(seed, ocp.num_con), 1.0)
            J = dense(*ocp.jacobianstructure(), ocp.jacobian(z), (ocp.num_con, n))
            rows = ocp.split_constraints(np.arange(float(ocp.num_con))).get("cyclic", np.zeros(0)).astype(int)
            ensure(np.count_nonzero(J[rows]) == 2 * len(tied), "entries of the cyclic Jacobian")
            ocp.update_bounds(cfg.bounds)
            ocp.set_scales(cfg.scales)
            ocp.update_boundary_conditions(cfg.boundary_conditions)
            ensure(same(before, cfg.__dict__), "configuration changed by using a problem")
            ensure(list(ocp.cl) == list(ocp.cu) == [0.0] * ocp.num_con, "constraint bounds")
        bad = config(spec, non_cyclic_vars=list(spec["non_cyclic"]) + [wrong])
        must_raise(lambda: make_ocp(spec, b.model(), bad), f"non-cyclic variable {wrong!r}")
    open_spec = dict(spec, cyclic=False)
    with built(open_spec) as b:
        ocp = make_ocp(open_spec, b.model())
        ensure("cyclic" not in ocp.split_constraints(np.zeros(ocp.num_con)), "cyclic conditions in a problem that is not cyclic")
    rec.event(f"{'all' if not spec['non_cyclic'] else 'none' if not tied else 'some'} cyclic")
    rec.nontrivial(bool(tied) and bool(spec["non_cyclic"]))


LTC = ["states.time", "states.n", "states.eta", "states.vx", "inputs.track_heading", "inputs.steer", "inputs.track_curvature"]


@P.check(st.tuples(st.lists(st.sampled_from(LTC), unique=True, max_size=6), st.booleans()), quick=60, thorough=400)
def laptime_configuration(c, rec):
    from lumos.simulations.laptime_simulation import LTCConfig
    names, cyclic = c
    mine = list(names)
    cfg = LTCConfig(track="x.csv", non_cyclic_vars=mine, is_cyclic=cyclic)
    ensure(mine == names, f"the caller's list became {mine}")
    want = set(names) | {"states.time", "inputs.track_heading"}
    ensure(set(cfg.non_cyclic_vars) == want and len(cfg.non_cyclic_vars) == len(want), f"non-cyclic variables {cfg.non_cyclic_vars}")
    again = LTCConfig(track="x.csv")
    ensure(set(again.non_cyclic_vars) == {"states.time", "inputs.track_heading"}, f"defaults became {again.non_cyclic_vars}")
    rec.nontrivial(bool(set(names) - {"states.time", "inputs.track_heading"}))
