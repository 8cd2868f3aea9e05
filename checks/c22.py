"""C22: bounds and boundary conditions follow a last-write model."""
import numpy as np
from hypothesis import strategies as st

from lib.gen import fl
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import Ref, built, config, make_ocp, ocp_spec
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig

P = Property("C22", rule=(
    "Histories of up to 10 bound updates (scalar or per stage, several variables at once, per-stage setters), bounds moved by very little, boundary "
    "conditions at stages counted from both ends, and rejected updates (unknown names, stages out of range, wrong lengths, "
    "inverted bounds, alone or after valid entries) on fixed/free, lifted/condensed problems, starting from generated configuration "
    "bounds; after each step all bounds are compared with a last-write table. Non-trivial: a boundary condition is followed by "
    "a bound update of the same variable."))

value = fl(-50, 50, 1)


def pair(a, b):
    return (min(a, b), max(a, b))


@st.composite
def case(draw):
    spec = draw(ocp_spec(depth=0, max_ni=3, objective="custom"))
    m = spec["model"]
    n_stage = spec["ni"] * (spec["ns"] - 1) + 1
    names = Ref(spec).names
    variables = [(g, n) for g in ("states", "inputs", "con_outputs") for n in names[g]]
    if not spec["condensed"]:
        variables += [("states_dot", n) for n in names["states_dot"]]
    var = st.sampled_from(variables)
    scalar = st.tuples(value, value).map(lambda t: pair(*t))
    staged = st.lists(scalar, min_size=n_stage, max_size=n_stage).map(lambda v: (tuple(a for a, _ in v), tuple(b for _, b in v)))
    held = st.lists(value, min_size=n_stage, max_size=n_stage).map(lambda v: (tuple(v), tuple(v)))
    bound = st.tuples(var, st.one_of(scalar, staged, held))
    if spec["free"]:
        bound = st.one_of(bound, bound, st.tuples(st.just(("global", "mesh_scale")), scalar))
    stage = st.integers(-n_stage, n_stage - 1)
    bc = st.tuples(var, stage, value)
    if spec["free"]:
        bc = st.one_of(bc, bc, st.tuples(st.just(("global", "mesh_scale")), stage, value))
    bad = st.one_of(
        st.tuples(st.just("bound"), st.tuples(st.sampled_from([("states", "nope"), ("nogroup", "x0"), ("con_outputs", "x0_no")]), scalar)),
        st.tuples(st.just("bound"), st.tuples(var, st.integers(1, 3).map(lambda k: ((-1.0,) * (n_stage + k), (1.0,) * (n_stage + k))))),
        st.tuples(st.just("setter"), st.tuples(var, stage, st.just((1.0, 0.5)))),
        st.tuples(st.just("setter"), st.tuples(var, st.just(None), st.just(((0.0,) * n_stage, (0.0,) * (n_stage - 1) + (-1.0,))))),
        st.tuples(st.just("bc"), st.tuples(var, st.one_of(st.integers(n_stage, n_stage + 3), st.integers(-n_stage - 3, -n_stage - 1)), value)),
        st.tuples(st.just("bc"), st.tuples(st.sampled_from([("states", "nope"), ("nogroup", "x0")]), stage, value)))
    op = st.one_of(
        st.tuples(st.just("bounds"), st.lists(bound, min_size=1, max_size=3)),
        st.tuples(st.just("bounds"), st.lists(bound, min_size=1, max_size=3)),
        st.tuples(st.just("bc"), st.lists(bc, min_size=1, max_size=2)),
        st.tuples(st.just("bc"), st.lists(bc, min_size=1, max_size=2)),
        st.tuples(st.just("setter"), st.tuples(var, st.one_of(stage, st.none()), scalar)),
        st.tuples(st.just("nudge"), st.tuples(var, st.one_of(stage, st.none()), st.sampled_from([1e-4, -1e-7, 1e-11]), st.booleans())),
        st.tuples(st.just("bad"), bad, st.lists(bound, max_size=2), st.lists(bc, max_size=1)))
    return (spec, draw(st.lists(bound, max_size=3)), draw(st.lists(bc, max_size=2)), draw(st.lists(op, min_size=1, max_size=10)))


class Table:
    def __init__(self, ref):
        self.ref = ref
        self.lb, self.ub = np.full(ref.num_dec, -np.inf), np.full(ref.num_dec, np.inf)
        self.bcs = []

    def idx(self, var, stage=None):
        if var[0] == "global":
            return np.array([self.ref.num_dec - 1])
        return np.array([self.ref.index(*var, k) for k in (range(self.ref.N) if stage is None else [stage])])

    def write(self, var, values, stage=None):
        i = self.idx(var, stage)
        self.lb[i], self.ub[i] = values

    def boundary(self):
        for var, stage, v in self.bcs:
            self.write(var, (v, v), stage)

    def check(self, ocp, label):
        close(ocp.lb, self.lb, f"{label}: lower bounds", rtol=1e-14, atol=0)
        close(ocp.ub, self.ub, f"{label}: upper bounds", rtol=1e-14, atol=0)
        for g in ("states", "inputs", "con_outputs"):
            for n in self.ref.names[g]:
                i = self.idx((g, n))
                close(ocp.get_lb(g, n), self.lb[i], f"{label}: get_lb({g}, {n})", shape=False, rtol=1e-14, atol=0)
                close(ocp.get_ub(g, n), self.ub[i], f"{label}: get_ub({g}, {n})", shape=False, rtol=1e-14, atol=0)


def arrays(v):
    return v if np.isscalar(v[0]) else tuple(np.array(a) for a in v)


def bounds_config(bounds):
    return tuple(BoundConfig(g, n, arrays(v)) for (g, n), v in bounds)


def bc_config(bcs):
    return tuple(BoundaryConditionConfig(stage, g, n, v) for (g, n), stage, v in bcs)


SETTER = {"states": "set_state_bounds", "inputs": "set_input_bounds", "con_outputs": "set_con_output_bounds"}


@P.check(case(), quick=200, thorough=3000, shards=6)
def histories(c, rec):
    spec, b0, bc0, ops = c
    spec = dict(spec, scales=[])
    ref = Ref(spec)
    t = Table(ref)
    for var, v in b0:
        t.write(var, v)
    if spec["condensed"]:
        for n in ref.names["states_dot"]:
            t.write(("states_dot", n), (0.0, 0.0))
    t.bcs += bc0
    t.boundary()
    with built(spec) as b:
        ocp = make_ocp(spec, b.model(), config(spec, bounds=bounds_config(b0), boundary_conditions=bc_config(bc0)))
        t.check(ocp, "construction")
        for i, o in enumerate(ops):
            label = f"step {i} {o[0]}"
            if o[0] == "bounds":
                ocp.update_bounds(bounds_config(o[1]))
                for var, v in o[1]:
                    rec.nontrivial(any(var == bc[0] for bc in t.bcs))
                    t.write(var, v)
                t.boundary()
            elif o[0] == "bc":
                ocp.update_boundary_conditions(bc_config(o[1]))
                t.bcs += o[1]
                t.boundary()
            elif o[0] == "nudge":
                # the bounds in force, moved by very little: one stage or all of them, by an update or by the setter
                var, stage, d, by_update = o[1]
                i = t.idx(var)
                if any(var == bc[0] for bc in t.bcs) or (var[0] not in SETTER and not by_update):
                    continue
                lb, ub = t.lb[i], t.ub[i]
                k = slice(None) if stage is None else stage
                with np.errstate(invalid="ignore"):
                    for v in (lb, ub):
                        v[k] = np.where(np.isfinite(v[k]), v[k] + d * np.maximum(1, np.abs(v[k])), v[k])
                if by_update:
                    ocp.update_bounds((BoundConfig(*var, (lb, ub)),))
                elif stage is None:
                    getattr(ocp, SETTER[var[0]])(var[1], None, (lb, ub))
                else:
                    getattr(ocp, SETTER[var[0]])(var[1], stage, (lb[stage], ub[stage]))
                t.write(var, (lb, ub))
            elif o[0] == "setter":
                var, stage, v = o[1]
                # a direct write to a stage that a boundary condition holds is left out: it may or may not win
                held = {int(j) for bv, bs, _ in t.bcs for j in t.idx(bv, bs)}
                if var[0] not in SETTER or held & {int(j) for j in t.idx(var, stage)}:
                    continue
                getattr(ocp, SETTER[var[0]])(var[1], stage, v)
                t.write(var, v, stage)
            else:
                kind, what = o[1]
                label += " " + kind
                touched = np.array([], dtype=int)
                if kind == "bound":
                    var, v = what
                    must_raise(lambda: ocp.update_bounds(bounds_config(o[2] + [what])), f"{label}: invalid bounds {what}")
                    touched = np.concatenate([t.idx(vv) for vv, _ in o[2]] + [touched])
                elif kind == "bc":
                    must_raise(lambda: ocp.update_boundary_conditions(bc_config(o[3] + [what])), f"{label}: invalid condition {what}")
                    touched = np.concatenate([t.idx(vv, s) for vv, s, _ in o[3]] + [touched])
                    if o[3]:
                        # valid conditions before the invalid one may or may not have been registered: register them now
                        ocp.update_boundary_conditions(bc_config(o[3]))
                        t.bcs += o[3]
                        t.boundary()
                else:
                    var, stage, v = what
                    if var[0] not in SETTER:
                        continue
                    must_raise(lambda: getattr(ocp, SETTER[var[0]])(var[1], stage, arrays(v)), f"{label}: inverted bounds {v}")
                touched = touched.astype(int)
                # valid entries before the invalid one may or may not have been applied ...
                before = t.lb.copy(), t.ub.copy()
                for vv, v in (o[2] if kind == "bound" else []):
                    t.write(vv, v)
                t.boundary()
                for have, want, old in ((ocp.lb, t.lb, before[0]), (ocp.ub, t.ub, before[1])):
                    for j in np.unique(touched):
                        ensure(have[j] in (want[j], old[j]) or kind == "bound", f"{label}: variable {j} is bounded by {have[j]}")
                    keep = np.array([have[j] for j in touched])
                    want[:] = old
                    want[touched] = keep
                # ... but every boundary condition still holds and no other variable changed
                t.boundary()
            t.check(ocp, label)
            rec.event(o[0])
