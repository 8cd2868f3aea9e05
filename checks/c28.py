"""C28: the model solver finds states where the model's residuals vanish."""
import numpy as np
from hypothesis import strategies as st

from lib.compiled import dense
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import CustomObjective
from lib.models import Built, all_outputs, all_residuals, cs_hess, cs_jac, model_spec, param_dict, ref_forward, ref_implicit, state_names
from lib.solution import OPTIONS, kkt, success
from lumos.models.drone_model import DroneModel
from lumos.optimal_control.model_solver import ModelSolver

P = Property("C28", rule=(
    "Generated state-space models (sub-models, array parameters, residuals, constraint outputs) and the drone model. Histories of "
    "scale changes, bounds, added and removed objectives and queries are compared with a reference (values, Jacobian, gradient, "
    "Hessian, bounds) in scaled units. Solves fix a random subset of variables at values of a consistent point, bound the rest, "
    "use none, one or several objectives, scales and both Hessian options; contradictory fixed values must be reported. "
    "Non-trivial: a successful solve with free states or inputs, or derivatives compared after a scale change."))

GROUPS = ("states", "inputs", "states_dot", "con_outputs")


class Reference:
    def __init__(self, spec):
        self.spec, self.params = spec, param_dict(spec)
        n = state_names(spec)
        self.vars = [("states", k) for k in n] + [("inputs", f"u{i}") for i in range(spec["nu"])]
        self.vars += [("states_dot", k) for k in n] + [("con_outputs", k) for k in spec["con_outputs"]]
        self.n, self.nx, self.nu = len(self.vars), spec["nx"], spec["nu"]
        self.m = self.nx + len(spec["con_outputs"]) + len(all_residuals(spec))
        self.scale = {v: 1.0 for v in self.vars}
        self.objectives, self.custom = {}, {}
        self.lb, self.ub = np.full(self.n, -np.inf), np.full(self.n, np.inf)

    def c(self, x):
        return ref_implicit(self.spec, x, 0.0, self.params)

    def J(self, x):
        return cs_jac(self.c, x)

    @property
    def D(self):
        return np.array([self.scale[v] for v in self.vars])

    @property
    def S(self):
        s = [self.scale[("states", n)] for n in state_names(self.spec)] + [self.scale[("con_outputs", n)] for n in self.spec["con_outputs"]]
        return np.array(s + [1.0] * len(all_residuals(self.spec)))

    @property
    def g(self):
        out = np.zeros(self.n)
        for v, w in self.objectives.values():
            out[self.vars.index(v)] += w
        return out

    def compare(self, ms, seed, label):
        D, S = self.D, self.S
        x = bulk(seed, self.n, lo=-1.5, hi=1.5)
        z, lag, of = x / D, bulk(seed + 1, self.m), 0.7
        close(ms.constraints(z), self.c(x) / S, f"{label}: constraints", rtol=1e-7, atol=1e-9)
        J = dense(*ms.jacobianstructure(), ms.jacobian(z), (self.m, self.n))
        close(J, self.J(x) * D / S[:, None], f"{label}: jacobian", rtol=1e-7, atol=1e-9)
        rows, cols = ms.hessianstructure()
        ensure(len(rows) == 0 or np.issubdtype(np.asarray(rows).dtype, np.integer), f"{label}: hessian rows of type {np.asarray(rows).dtype}")
        upper = dense(rows, cols, ms.hessian(z, lag, of), (self.n, self.n))
        H = cs_hess(lambda v: np.sum(lag / S * self.c(v)), x) * np.outer(D, D)
        for o in self.custom.values():
            upper_part = np.triu(dense(*o.structure(), o.hess(x), (self.n, self.n)))
            H = H + of * (upper_part + np.triu(upper_part, 1).T) * np.outer(D, D)
        close(np.triu(upper) + np.triu(upper, 1).T, H, f"{label}: hessian", rtol=1e-5, atol=1e-6)
        ensure(np.all(np.tril(upper, -1) == 0), f"{label}: entries below the diagonal")
        if self.objectives or self.custom:
            extra = list(self.custom.values())
            close(ms.objective(z), self.g @ x + sum(o.f(x) for o in extra), f"{label}: objective", rtol=1e-9, shape=False)
            close(ms.gradient(z), (self.g + sum(o.grad(x) for o in extra)) * D, f"{label}: gradient", rtol=1e-9)
        close(ms.lb, self.lb, f"{label}: lower bounds", rtol=1e-13, atol=0)
        close(ms.ub, self.ub, f"{label}: upper bounds", rtol=1e-13, atol=0)


@st.composite
def history(draw):
    spec = draw(model_spec("ss", depth=1, max_x=3, max_u=2, max_subs=1))
    spec = dict(spec, con_outputs=[n for n in spec["con_outputs"] if n not in all_residuals(spec)])
    ref = Reference(spec)
    var = st.sampled_from(ref.vars)
    scalable = st.sampled_from([v for v in ref.vars if v[0] != "states_dot"])
    bad = st.sampled_from([("scale", ("states", "nope"), 2.0), ("scale", ("nogroup", "x0"), 2.0), ("scale", ref.vars[0], -1.0),
                           ("bounds", ref.vars[0], (1.0, 0.0)), ("bounds", ("states", "nope"), (0.0, 1.0))])
    op = st.one_of(st.tuples(st.just("scale"), scalable, st.sampled_from([0.01, 0.5, 3.0, 100.0])),
                   st.tuples(st.just("bounds"), var, st.tuples(st.sampled_from(["one", "pair", "equal", "pair", "lower", "upper", "free"]), seeds)),
                   st.tuples(st.just("add"), var, st.sampled_from([1.0, -2.5, 0.5, 1.0000002, 0.99999])),
                   st.tuples(st.just("custom"), seeds),
                   st.tuples(st.just("remove"), st.integers(0, 5)),
                   st.tuples(st.just("bad"), bad),
                   st.tuples(st.just("query"), seeds))
    return spec, draw(st.lists(op, min_size=2, max_size=12)), draw(seeds)


@P.check(history(), quick=24, thorough=300, shards=4)
def histories(c, rec):
    spec, ops, seed = c
    ref = Reference(spec)
    with Built(spec) as b:
        ms = ModelSolver(b.model(), "casadi", con_outputs=list(spec["con_outputs"])) if spec["con_outputs"] or seed % 2 else ModelSolver(b.model(), "casadi")
        ensure(list(ms.input_names) == [g + "." + n for g, n in ref.vars], f"variables {ms.input_names}")
        for k, v in enumerate(ref.vars):
            ensure(ms.get_var_idx(*v) == k and ms.get_var(np.arange(ref.n), *v) == k, f"index of {v}")
        scaled = queried = False
        for i, o in enumerate(ops):
            label = f"step {i} {o[0]}"
            if o[0] == "scale":
                ms.set_var_scale(*o[1], o[2])
                ref.scale[o[1]] = o[2]
                scaled = True
            elif o[0] == "bounds":
                lo, up = np.sort(bulk(o[2][1], 2, lo=-5, hi=5))  # all their digits matter
                given, v = dict(one=(float(lo), (lo, lo)), pair=((lo, up), (lo, up)), equal=((lo, lo), (lo, lo)),
                                lower=((lo, np.inf),) * 2, upper=((-np.inf, up),) * 2, free=((-np.inf, np.inf),) * 2)[o[2][0]]
                ms.set_bounds(*o[1], given)
                k = ref.vars.index(o[1])
                ref.lb[k], ref.ub[k] = v
                close(ms.get_bounds(*o[1]), v, f"{label}: get_bounds", rtol=1e-13, atol=0, shape=False)
            elif o[0] == "add":
                if (o[1], o[2]) in ref.objectives.values():
                    continue
                ref.objectives[ms.add_obj_from_var(*o[1], weight=o[2])] = (o[1], o[2])
            elif o[0] == "custom":
                name = f"custom{i}"
                ref.custom[name] = CustomObjective(ref.n, o[1])
                ms.add_objective(name, ref.custom[name].objective())
            elif o[0] == "remove":
                if not ref.objectives:
                    continue
                name = list(ref.objectives)[o[1] % len(ref.objectives)]
                ms.delete_objective(name)
                del ref.objectives[name]
            elif o[0] == "bad":
                kind, v, val = o[1]
                must_raise(lambda: ms.set_var_scale(*v, val) if kind == "scale" else ms.set_bounds(*v, val), f"{label}: {o[1]}")
            ref.compare(ms, o[1] if o[0] == "query" else seed + i, label)
            rec.nontrivial(scaled and bool(ref.objectives))
            rec.event(o[0])


@st.composite
def solve_case(draw):
    spec = draw(model_spec("ss", depth=1, max_x=3, max_u=2, max_subs=1))
    spec = dict(spec, con_outputs=[n for n in spec["con_outputs"] if n not in all_residuals(spec)], residuals=list(spec["residuals"])[:1])
    ref = Reference(spec)
    runs = []
    for _ in range(draw(st.integers(1, 4))):
        runs.append(dict(seed=draw(seeds), fixed=draw(st.lists(st.sampled_from(ref.vars), unique=True, max_size=ref.n)),
                         free=draw(st.booleans()),
                         objectives=draw(st.lists(st.tuples(st.sampled_from(ref.vars), st.sampled_from([1.0, -1.0, 3.0, 3.0000002])), unique=True, max_size=2)),
                         scales=draw(st.lists(st.tuples(st.sampled_from([v for v in ref.vars if v[0] != "states_dot"]),
                                                        st.sampled_from([0.1, 3.0, 20.0])), max_size=3)),
                         exact=draw(st.booleans()), far=draw(st.booleans()), contradict=draw(st.integers(0, 4)) == 0))
    return spec, runs


@P.check(solve_case(), quick=30, thorough=400, shards=4)
def solves(c, rec):
    spec, runs = c
    ref = Reference(spec)
    nx, nu = ref.nx, ref.nu
    res = all_residuals(spec)
    with Built(spec) as b:
        ms = ModelSolver(b.model(), "casadi", con_outputs=list(spec["con_outputs"]))
        for k, r in enumerate(runs):
            label = f"solve {k}"
            # a consistent point (of the model without its residuals)
            truth = np.r_[bulk(r["seed"], nx + nu, lo=-1.2, hi=1.2), np.zeros(ref.n - nx - nu)]
            truth[nx + nu:] += ref.c(truth)[: ref.n - nx - nu]
            for v in ref.vars:
                i = ref.vars.index(v)
                box = 30.0 if r["free"] else 2.0
                ms.set_bounds(*v, (truth[i] - box, truth[i] + box))
            for v in r["fixed"]:
                ms.set_bounds(*v, float(truth[ref.vars.index(v)]))
            contradiction = r["contradict"]
            if contradiction:
                # all states and inputs given, one derivative asked to be different from what they imply
                for v in ref.vars[: nx + nu]:
                    ms.set_bounds(*v, float(truth[ref.vars.index(v)]))
                ms.set_bounds(*ref.vars[nx + nu], float(truth[nx + nu] + 0.7))
            lb, ub = np.array(ms.lb), np.array(ms.ub)
            for v in ref.vars:
                if v[0] != "states_dot":
                    ms.set_var_scale(*v, dict(r["scales"]).get(v, 1.0))
                    ref.scale[v] = dict(r["scales"]).get(v, 1.0)
            names = [ms.add_obj_from_var(*v, weight=w) for v, w in r["objectives"]]
            ref.objectives = dict(zip(names, r["objectives"]))
            ms.hessian_approximation = "exact" if r["exact"] else "limited-memory"
            guess = truth + (1.0 if r["far"] else 0.1) * bulk(r["seed"] + 5, ref.n)
            kept = guess.copy()
            x, info = ms.solve(guess, **OPTIONS)
            close(guess, kept, f"{label}: the guess given", rtol=0, atol=0)
            # the problem is as it was
            ref.lb, ref.ub = lb, ub
            ref.compare(ms, r["seed"], f"{label}: afterwards")
            for n in names:
                ms.delete_objective(n)
            rec.event(f"status {info['status']}")
            ensure(not (contradiction and info["status"] in (0, 1)), f"{label}: contradictory fixed values solved, status {info['status']}")
            if not success(info):
                continue
            con, J, g = ref.c(x), ref.J(x), ref.g
            if len(J) >= np.sum(lb < ub):
                g = np.zeros(ref.n)
            kkt(g, J, x, lb, ub, con, np.zeros(ref.m), np.zeros(ref.m), label, ref.D, ref.S, info=info)
            for v in r["fixed"]:
                close(ms.get_var(x, *v), truth[ref.vars.index(v)], f"{label}: fixed {v}", rtol=1e-7, atol=1e-6, shape=False)
            xd, out = ref_forward(spec, list(x[:nx]), list(x[nx:nx + nu]), 0.0, ref.params)
            for n, v in zip(state_names(spec), xd):
                close(ms.get_var(x, "states_dot", n), v, f"{label}: states_dot {n}", rtol=1e-5, atol=2e-4, shape=False)
            for n in spec["con_outputs"]:
                close(ms.get_var(x, "con_outputs", n), out[n], f"{label}: con_outputs {n}", rtol=1e-5, atol=2e-4, shape=False)
            for n in res:
                ensure(abs(out[n]) < 2e-4, f"{label}: residual {n} is {out[n]}")
            rec.nontrivial(any(v not in r["fixed"] for v in ref.vars[: nx + nu]) and (bool(names) or bool(res)))
            rec.event("objective" if names else "feasibility")


@P.check(st.tuples(st.lists(st.tuples(st.sampled_from(["z_dot", "x_dot"]), fl(-2, 2)), max_size=2), fl(-0.6, 0.6), fl(4, 15), seeds),
         quick=6, thorough=60, shards=1)
def drone(c, rec):
    """Hover-like conditions of the drone: thrust and angle that give requested accelerations."""
    _, theta, f, seed = c
    ms = ModelSolver(DroneModel(), "casadi", con_outputs=["f_omega"])
    want = dict(x_dot=f * np.sin(theta), z_dot=f * np.cos(theta) - 9.81)
    for n in ("x", "z", "x_dot", "z_dot"):
        ms.set_bounds("states", n, 0.0)
    ms.set_bounds("states", "theta", (-1.5, 1.5))
    ms.set_bounds("inputs", "f", (0.0, 20.0))
    for n, v in want.items():
        ms.set_bounds("states_dot", n, float(v))
    ms.set_bounds("states_dot", "theta", 0.4)
    ms.hessian_approximation = "exact"
    x, info = ms.solve(np.r_[np.zeros(4), 0.1, 9.0, np.zeros(7)] + 0.05 * bulk(seed, 13), **OPTIONS)
    rec.event(f"status {info['status']}")
    if not success(info):
        return
    for g, n, v in (("inputs", "f", f), ("states", "theta", theta), ("inputs", "omega", 0.4), ("con_outputs", "f_omega", f * 0.4)):
        close(ms.get_var(x, g, n), v, f"{g}.{n}", rtol=1e-4, atol=1e-4, shape=False)
    rec.nontrivial(True)
