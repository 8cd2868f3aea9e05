"""C27: a reported solution is a solution, whatever the formulation."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import cs_jac
from lib.ocp import Ref, divisions, built, config, interval_points, make_ocp, ocp_spec, point
from lib.solution import OPTIONS, kkt, reported, success
from lib.solver import replaced
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

P = Property("C27", rule=(
    "Generated problems are solved with the real Ipopt: convex programs of 1-6 variables composed of several parts; linear-quadratic "
    "optimal control problems (all schemes, bounds, boundary conditions, path limits, 2-4 stages, up to 3 intervals) each solved "
    "in lifted and condensed form, scaled and unscaled, from different initial guesses and with several backends, and solved again after their "
    "mesh, scales, bounds and boundary conditions were changed; and random "
    "nonlinear problems. Every reported success is checked against bounds, constraints and KKT conditions of the unscaled "
    "reference problem (multipliers found by bounded least squares, derivatives by complex step), and convex variants against "
    "each other. Histories of solves with different options, guesses, multipliers and outcomes, received by a recording stand-in for the "
    "solver, are compared with what was asked of each solve and with first solves of fresh problems. Non-trivial: a solve of several iterations succeeded with a scale, bound or condition in effect."))

def scaling(ref, spec, order):
    c = ref.con_scales(spec["scales"])
    return ref.var_scales(spec["scales"]), np.concatenate([c[k] for k in order])


# ------------------------------------------------------------------ convex programs
@st.composite
def program(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(1, 3))
    return dict(n=n, m=m, seed=draw(seeds), parts=draw(st.integers(1, 3)), eq=draw(st.lists(st.booleans(), min_size=m, max_size=m)),
                bounds=draw(st.lists(st.sampled_from(["free", "box", "lower", "upper", "fixed"]), min_size=n, max_size=n)),
                exact=draw(st.booleans()), no_objective=draw(st.integers(0, 5)) == 0,
                scales=draw(st.lists(st.sampled_from([1.0, 0.1, 3.0, 20.0]), min_size=n + m, max_size=n + m)))


@P.check(program(), quick=60, thorough=1500, shards=2)
def convex_programs(c, rec):
    n, m = c["n"], c["m"]
    x_in = bulk(c["seed"], n)  # a point that satisfies everything
    Qs, ps = [], []
    for k in range(c["parts"]):
        L = bulk(c["seed"] + 10 + k, n, n)
        Qs.append(L @ L.T + 0.2 * np.eye(n))
        ps.append(bulk(c["seed"] + 20 + k, n, lo=-3, hi=3))
    A = bulk(c["seed"] + 1, m, n)
    width = np.where(c["eq"], 0.0, 0.3)
    if sum(c["eq"]) >= n:
        width[:] = 0.3
    cl, cu = A @ x_in - width, A @ x_in + width
    lb, ub = np.full(n, -np.inf), np.full(n, np.inf)
    n_free = n
    for i, b in enumerate(c["bounds"]):
        if b in ("box", "lower"):
            lb[i] = x_in[i] - 0.2
        if b in ("box", "upper"):
            ub[i] = x_in[i] + 0.2
        if b == "fixed" and n_free - 1 > np.sum(width == 0):
            lb[i] = ub[i] = x_in[i]
            n_free -= 1
    Q, p = (np.zeros((n, n)), np.zeros(n)) if c["no_objective"] else (sum(Qs), sum(ps))
    solutions = []
    for variant in range(2):
        prob = CompositeProblem(n)
        for k in range(0 if c["no_objective"] else c["parts"]):
            rows, cols = np.triu_indices(n) if k % 2 else np.nonzero(np.ones((n, n)))
            prob.add_objective(f"o{k}", BaseObjective(
                num_in=n, objective=lambda x, k=k: 0.5 * x @ Qs[k] @ x + ps[k] @ x, gradient=lambda x, k=k: Qs[k] @ x + ps[k],
                hessian=lambda x, k=k, r=rows, q=cols: Qs[k][r, q], hessian_structure=(rows, cols)))
        for k in range(m):
            prob.add_constraints(f"c{k}", BaseConstraints(
                num_in=n, num_con=1, constraints=lambda x, k=k: A[k:k + 1] @ x, jacobian=lambda x, k=k: A[k],
                jacobian_structure=(np.zeros(n, dtype=int), np.arange(n)),
                hessian=lambda x, lag: np.zeros(0), hessian_structure=(np.zeros(0, dtype=int), np.zeros(0, dtype=int))))
        prob.cl, prob.cu = cl.copy(), cu.copy()
        prob.lb, prob.ub = lb.copy(), ub.copy()
        prob.hessian_approximation = "exact" if c["exact"] else "limited-memory"
        guess = bulk(c["seed"] + 30 + variant, n, lo=-2, hi=2)
        kept = guess.copy()
        x, info = prob.solve(init_guess=guess, **OPTIONS)
        ensure(np.array_equal(guess, kept), "the initial guess was modified")
        if not success(info):
            rec.event(f"status {info['status']}")
            ensure(not c["exact"] or c["no_objective"], f"convex program with a solution not solved: status {info['status']} {info['status_msg']}")
            return
        kkt(Q @ x + p, A, x, lb, ub, A @ x, cl, cu, f"program, guess {variant}", info=info)
        reported(info, 0.5 * x @ Q @ x + p @ x, Q @ x + p, np.ones(n), f"program, guess {variant}")
        close(info["x"], x, "solution reported", rtol=1e-9)
        solutions.append(x)
        rec.nontrivial(info["num_iter"] > 1 and np.any(np.isfinite(np.r_[lb, ub])))
    # the same problem with other limits, around another point
    shift = bulk(c["seed"] + 40, n, lo=-2, hi=2)
    lb, ub, cl, cu = lb + shift, ub + shift, cl + A @ shift, cu + A @ shift
    prob.cl, prob.cu, prob.lb, prob.ub = cl.copy(), cu.copy(), lb.copy(), ub.copy()
    x, info = prob.solve(init_guess=guess, **OPTIONS)
    if success(info):
        kkt(Q @ x + p, A, x, lb, ub, A @ x, cl, cu, "program with changed limits", info=info)
        reported(info, 0.5 * x @ Q @ x + p @ x, Q @ x + p, np.ones(n), "program with changed limits")
    else:
        ensure(not c["exact"] or c["no_objective"], f"convex program with changed limits not solved: status {info['status']} {info['status_msg']}")
    if not c["no_objective"]:
        close(solutions[1], solutions[0], "optimum from another initial guess", rtol=1e-4, atol=1e-4)


# ------------------------------------------------------------------ linear-quadratic problems
def affine(k, draws, nx, nu):
    e = ("c", round(float(draws[k, -1]), 3))
    for i in range(nx):
        e = ("add", e, ("mul", ("c", round(float(draws[k, i]), 3)), ("x", i)))
    for i in range(nu):
        e = ("add", e, ("mul", ("c", round(float(draws[k, nx + i]), 3)), ("u", i)))
    return e


@st.composite
def lq_case(draw):
    nx, nu = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    n_out = draw(st.integers(0, 2))
    seed = draw(seeds)
    d = bulk(seed, nx + n_out, nx + nu + 1)
    con = [f"o{i}" for i in range(n_out) if draw(st.booleans())]
    model = dict(kind="ss", nx=nx, nu=nu, params={}, subs=[], outputs=[affine(nx + i, d, nx, nu) for i in range(n_out)],
                 xdot=[affine(i, d, nx, nu) for i in range(nx)], residuals=[], con_outputs=con, time=False)
    name = draw(st.sampled_from(["Trapezoidal", "ForwardEuler", "LGR", "LGRIntegral"]))
    ns = draw(st.integers(2, 4)) if name.startswith("LGR") else 2
    ni = draw(st.integers(1, 3))
    points = draw(st.one_of(st.none(), divisions(ni, 0.3)))
    base = dict(model=model, free=False, trans=name, ns=ns, ni=ni, points=points, cyclic=draw(st.integers(0, 3)) == 0,
                non_cyclic=[f"inputs.u{i}" for i in range(nu)], backend="custom", T=draw(fl(0.3, 1.5, 2)), objective="default", seed=seed,
                scales=[], condensed=False)
    names = Ref(dict(base, objective="custom")).names
    sc = st.lists(st.tuples(st.sampled_from([(g, n) for g in ("states", "inputs", "states_dot", "con_outputs") for n in names[g]]),
                            st.sampled_from([0.05, 0.5, 3.0, 40.0])), max_size=5)
    variants = [dict(condensed=draw(st.booleans()), scales=draw(sc), backend="custom", hess=draw(st.sampled_from(["exact"] * 3 + ["limited-memory"])),
                     guess=draw(seeds)) for _ in range(draw(st.integers(2, 3)))]
    return dict(base=base, variants=variants, fixed=draw(st.booleans()), u_max=draw(st.sampled_from([np.inf, 2.0, 0.4])),
                path=draw(st.sampled_from([np.inf, np.inf, 4.0])), seed=seed, later=dict(
                    T=draw(fl(0.3, 1.5, 2)), u_max=draw(st.sampled_from([np.inf, 2.0, 0.4])), move=draw(st.sampled_from([0.0, 0.3])),
                    points=draw(st.one_of(st.none(), divisions(ni, 0.3))),
                    factor=draw(st.sampled_from([1.0, 0.2, 5.0]))))


class Quadratic:
    """Weighted distance of states and inputs from a reference."""

    def __init__(self, ref, seed):
        n = ref.num_dec
        self.w, self.r = np.zeros(n), bulk(seed + 5, n, lo=-1, hi=1)
        for g in ("states", "inputs"):
            for name in ref.names[g]:
                for k in range(ref.N):
                    self.w[ref.index(g, name, k)] = 1.0 + 0.5 * np.sin(seed + k)
        self.i = np.nonzero(self.w)[0]

    def f(self, x):
        return 0.5 * np.sum(self.w * (x - self.r) ** 2)

    def grad(self, x):
        return self.w * (x - self.r)

    def lumos(self):
        return BaseObjective(num_in=len(self.w), objective=self.f, gradient=self.grad, hessian=lambda x: self.w[self.i],
                             hessian_structure=(self.i, self.i))


def limits(ref, spec, c):
    """Bounds and boundary conditions, as configuration and as vectors."""
    lb, ub = np.full(ref.num_dec, -np.inf), np.full(ref.num_dec, np.inf)
    bounds, bcs = [], []

    def put(g, n, lo, hi):
        bounds.append(BoundConfig(g, n, (lo, hi)))
        for k in range(ref.N):
            i = ref.index(g, n, k)
            lb[i], ub[i] = lo, hi
    if np.isfinite(c["u_max"]) or "move" in c:
        for n in ref.names["inputs"]:
            put("inputs", n, -c["u_max"], c["u_max"])
    if np.isfinite(c["path"]):
        for n in ref.names["con_outputs"]:
            put("con_outputs", n, -c["path"], c["path"])
    if spec["condensed"]:
        for n in ref.names["states_dot"]:
            for k in range(ref.N):
                i = ref.index("states_dot", n, k)
                lb[i] = ub[i] = 0.0
    if c["fixed"] and not spec["cyclic"]:
        for j, n in enumerate(ref.names["states"]):
            v = round(float(bulk(c["seed"] + 9, 3)[j]), 3) + c.get("move", 0.0)
            bcs.append(BoundaryConditionConfig(0, "states", n, v))
            i = ref.index("states", n, 0)
            lb[i] = ub[i] = v
    return tuple(bounds), tuple(bcs), lb, ub


def lq_problem(spec, c, variant, model):
    ref = Ref(dict(spec, objective="custom"))
    q = Quadratic(ref, c["seed"])
    bounds, bcs, lb, ub = limits(ref, spec, c)
    cfg = config(spec, bounds=bounds, boundary_conditions=bcs, hessian_approximation=variant["hess"])

    class LQ(FixedMeshOCP):
        def _build_objective(self):
            self.add_objective("tracking", q.lumos())
    return LQ(model=model, sim_config=cfg, mesh_scale=spec["T"]), ref, q, lb, ub


def rearrange(ocp, spec, c):
    """Change what can be changed of a problem that was solved; what it is then."""
    new = c["later"]
    spec = dict(spec, T=new["T"], points=new["points"] or spec["points"], scales=[(k, v * new["factor"]) for k, v in spec["scales"]])
    c = dict(c, u_max=new["u_max"], move=new["move"])
    ref = Ref(dict(spec, objective="custom"))
    bounds, bcs, lb, ub = limits(ref, spec, c)
    ocp.set_mesh_scale(spec["T"])
    if spec["points"]:
        ocp.set_normalized_mesh(interval_points(spec))
    ocp.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in spec["scales"]))
    ocp.update_bounds(bounds)
    ocp.update_boundary_conditions(bcs)
    return spec, ref, lb, ub, c


def run_lq(c, rec, need_success=True):
    found = {"first": [], "later": []}
    for variant in c["variants"]:
        spec = dict(c["base"], **{k: variant[k] for k in ("condensed", "scales", "backend")})
        if spec["condensed"]:
            spec["scales"] = [s for s in spec["scales"] if s[0][0] != "states_dot"]
        with built(spec) as b:
            ocp, ref, q, lb, ub = lq_problem(spec, c, variant, b.model())
            order = list(ocp.split_constraints(np.arange(float(ocp.num_con))).keys())
            now = c
            for phase in found:
                if phase == "later":
                    spec, ref, lb, ub, now = rearrange(ocp, spec, c)
                label = f"{phase} {'condensed' if spec['condensed'] else 'lifted'} {spec['backend']} scales {spec['scales']}"
                guess = point(ref, variant["guess"])
                x, info = ocp.solve(init_guess=guess, **OPTIONS)
                close(guess, point(ref, variant["guess"]), f"{label}: the initial guess that was given", rtol=0, atol=0)
                close(ocp.lb, lb, f"{label}: lower bounds afterwards", rtol=0, atol=0)
                close(ocp.ub, ub, f"{label}: upper bounds afterwards", rtol=0, atol=0)
                if not success(info):
                    rec.event(f"status {info['status']}")
                    # with path limits there may be no solution
                    ensure(np.isfinite(c["path"]) or spec["cyclic"] or variant["hess"] != "exact",
                           f"{label}: solvable problem not solved: status {info['status']} {info['status_msg']}")
                    continue
                con = lambda v: ref.constraints(v, order)
                J = cs_jac(con, x)
                kkt(q.grad(x), J, x, lb, ub, con(x), np.zeros(len(J)), np.zeros(len(J)), label, *scaling(ref, spec, order), info=info)
                reported(info, q.f(x), q.grad(x), ref.var_scales(spec["scales"]), label)
                X, U, _, _, _ = ref.split(x)
                found[phase].append((label, X, U, q.f(x)))
                rec.nontrivial(info["num_iter"] >= 1 and bool(spec["scales"]) and (np.isfinite(now["u_max"]) or now["fixed"]))
                rec.event(phase + (" condensed" if spec["condensed"] else " lifted"))
                rec.event(spec["backend"])
    for sols in found.values():
        ensure(len(sols) in (0, len(c["variants"])) or any(v["hess"] != "exact" for v in c["variants"]) or np.isfinite(c["path"]),
               f"only {[l for l, *_ in sols]} of {len(c['variants'])} formulations solved")
        for label, X, U, f in sols[1:]:
            close(f, sols[0][3], f"{label}: optimal value, compared with {sols[0][0]}", rtol=1e-5, atol=1e-5)
            close(X, sols[0][1], f"{label}: optimal states, compared with {sols[0][0]}", rtol=1e-3, atol=1e-3)
            close(U, sols[0][2], f"{label}: optimal inputs, compared with {sols[0][0]}", rtol=1e-3, atol=1e-3)


@P.check(lq_case(), quick=24, thorough=900, shards=6)
def linear_quadratic(c, rec):
    run_lq(c, rec)


@P.check(lq_case(), quick=2, thorough=24, shards=2)
def linear_quadratic_backends(c, rec):
    backends = ["custom", "jax", "casadi"]
    v = c["variants"]
    run_lq(dict(c, variants=[dict(v[i % len(v)], backend=b, hess="exact") for i, b in enumerate(backends)]), rec)


# ------------------------------------------------------------------ nonlinear problems
@P.check(st.tuples(ocp_spec(max_ni=2, max_stages=3, objective="custom", max_x=2, cyclic=None, depth=1), seeds, st.sampled_from([1.0, 3.0])),
         quick=50, thorough=1200, shards=6)
def nonlinear(c, rec):
    spec, seed, box = c
    spec = dict(spec, scales=[s for s in spec["scales"] if not spec["condensed"] or s[0][0] != "states_dot"])
    ref = Ref(spec)
    bounds = [BoundConfig(g, n, (-box, box)) for g in ("states", "inputs") for n in ref.names[g]]
    bounds += [BoundConfig(g, n, (-20.0, 20.0)) for g in ("con_outputs",) for n in ref.names[g]]
    if not spec["condensed"]:
        bounds += [BoundConfig("states_dot", n, (-20.0, 20.0)) for n in ref.names["states_dot"]]
    if spec["free"]:
        bounds.append(BoundConfig("global", "mesh_scale", (0.2, 2.0)))
    lb, ub = np.full(ref.num_dec, -np.inf), np.full(ref.num_dec, np.inf)
    for bc in bounds:
        for k in range(1 if bc.group == "global" else ref.N):
            i = ref.index(bc.group, bc.name, k)
            lb[i], ub[i] = bc.values
    if spec["condensed"]:
        for n in ref.names["states_dot"]:
            for k in range(ref.N):
                lb[ref.index("states_dot", n, k)] = ub[ref.index("states_dot", n, k)] = 0.0
    with built(spec) as b:
        ocp = make_ocp(spec, b.model(), config(spec, bounds=tuple(bounds)))
        guess = point(ref, seed)
        x, info = ocp.solve(init_guess=guess, **OPTIONS)
        close(guess, point(ref, seed), "the initial guess that was given", rtol=0, atol=0)
        close(ocp.lb, lb, "lower bounds afterwards", rtol=0, atol=0)
        close(ocp.ub, ub, "upper bounds afterwards", rtol=0, atol=0)
        order = list(ocp.split_constraints(np.arange(float(ocp.num_con))).keys())
    rec.event(f"status {info['status']}")
    if not success(info):
        return
    con = lambda v: ref.constraints(v, order)
    J = cs_jac(con, x)
    g = ref.obj.grad(x)
    if len(J) >= np.sum(lb < ub):
        g = np.zeros(len(x))  # Ipopt only looks for a feasible point of square problems
        rec.event("square")
    kkt(g, J, x, lb, ub, con(x), np.zeros(len(J)), np.zeros(len(J)), "nonlinear problem", *scaling(ref, spec, order), info=info)
    reported(info, ref.obj.f(x), ref.obj.grad(x), ref.var_scales(spec["scales"]), "nonlinear problem")
    rec.nontrivial(info["num_iter"] > 2)
    rec.event("condensed" if spec["condensed"] else "lifted")


# ------------------------------------------------------------------ what the solver is asked
class Recorder:
    """Stand-in for cyipopt.Problem: keeps what it was given, behaves as told."""
    made, outcome = [], {}

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.given = dict(n=n, m=m, lb=np.array(lb), ub=np.array(ub), cl=np.array(cl), cu=np.array(cu))
        self.obj, self.options = problem_obj, {}
        Recorder.made.append(self)

    def add_option(self, name, value):
        name = name.decode() if isinstance(name, bytes) else name
        if name == "not_an_option":
            raise TypeError("invalid option")
        self.options[name] = value

    addOption = add_option

    def solve(self, x, lagrange=[], zl=[], zu=[]):
        self.x, self.start = np.array(x), [np.array(v, dtype=float) for v in (lagrange, zl, zu)]
        for k in range(self.outcome["iterations"] + 1):
            self.obj.intermediate(0, k, 1.0, 0.1, 0.1, 0.01, 0.1, 0.0, 1.0, 1.0, 1)
        if self.options.get("output_file"):
            with open(self.options["output_file"], "w") as f:
                f.write("Number of Iterations....: 3\n\nTotal CPU secs in IPOPT (w/o function evaluations)   =      0.004\n"
                        "Total seconds in IPOPT (w/o function evaluations)    =      %.3f\n"
                        "Total seconds in NLP function evaluations            =      %.3f\n" % self.outcome["times"])
        self.answer = bulk(self.outcome["seed"], len(self.x))
        m = self.given["m"]
        return self.answer.copy(), {"status": self.outcome["status"], "status_msg": b"outcome", "x": self.answer.copy(),
                                    "g": np.zeros(m), "obj_val": 1.5, "mult_g": np.zeros(m), "mult_x_L": self.answer * 0,
                                    "mult_x_U": self.answer * 0}


@contextlib.contextmanager
def recorder():
    Recorder.made = []
    with replaced(Recorder):
        yield Recorder.made


option_values = dict(
    print_level=st.integers(0, 5), tol=st.sampled_from([1e-8, 1e-3, 0.1]), max_iter=st.integers(0, 500),
    mu_strategy=st.sampled_from(["monotone", "adaptive"]), acceptable_iter=st.integers(0, 9),
    hessian_approximation=st.sampled_from(["exact", "limited-memory"]), output_file=st.sampled_from(["", "solve_a.out", "solve_b.out"]),
    print_timing_statistics=st.sampled_from(["yes", "no"]), fixed_variable_treatment=st.sampled_from(["make_parameter", "relax_bounds"]),
    warm_start_init_point=st.sampled_from(["yes", "no"]), nlp_scaling_method=st.sampled_from(["none", "gradient-based"]))
call = st.fixed_dictionaries(dict(
    options=st.lists(st.sampled_from(sorted(option_values)), max_size=4, unique=True).flatmap(
        lambda names: st.fixed_dictionaries({k: option_values[k] for k in names})),
    status=st.sampled_from([0, 0, 0, 1, 2, 6, -1, -2, -11, -13]), iterations=st.integers(0, 4), warm=st.integers(0, 7), bad=st.integers(0, 7),
    change=st.sampled_from(["none", "none", "scales", "bounds", "hessian"]), seed=seeds))


@P.check(st.tuples(ocp_spec(max_ni=2, max_stages=3, objective="custom", max_x=2, depth=1), st.lists(call, min_size=2, max_size=5)),
         quick=60, thorough=1000, shards=4)
def solver_calls(case, rec):
    spec, calls = case
    ref = Ref(spec)
    name = ref.names["states"][0]
    with built(spec) as b, recorder() as made:
        scales, bounds, hess = spec["scales"], [], "exact"
        conf = lambda: config(spec, scales=tuple(ScaleConfig(g, n, v) for (g, n), v in scales), hessian_approximation=hess,
                              bounds=tuple(BoundConfig("states", name, v) for v in bounds))
        ocp = make_ocp(spec, b.model(), conf())
        m = ocp.num_con
        for i, c in enumerate(calls):
            label = f"solve {i} with {c['options']}"
            if c["change"] == "scales":
                scales = [(k, v * (1.5 + i)) for k, v in spec["scales"]]
                ocp.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in scales))
            elif c["change"] == "bounds":
                bounds = [(-1.0 - i, 2.0 + i)]
                ocp.update_bounds([BoundConfig("states", name, bounds[0])])
            elif c["change"] == "hessian":
                hess = "limited-memory" if hess == "exact" else "exact"
                ocp.hessian_approximation = hess
            x0 = point(ref, c["seed"])
            start = {k: bulk(c["seed"] + j, d) for j, (k, d) in enumerate((("lagrange", m), ("zl", ref.num_dec), ("zu", ref.num_dec)))
                     if c["warm"] >> j & 1}
            Recorder.outcome = dict(iterations=c["iterations"], status=c["status"], seed=c["seed"] + 7, times=(1.25 + i, 2.5 + i))
            if c["bad"] == 0:
                n = len(made)
                must_raise(lambda: ocp.solve(init_guess=x0.copy(), not_an_option=3), f"{label}: an option the solver refuses")
                ensure(not any(hasattr(r, "x") for r in made[n:]), f"{label}: solved although an option was refused")
            go = lambda p: p.solve(init_guess=x0.copy(), **{k: v.copy() for k, v in start.items()}, **c["options"])
            if c["status"] == -13:
                must_raise(lambda: go(ocp), f"{label}: an error inside the solver")
            else:
                sol, info = go(ocp)
            r, s = made[-1], ref.var_scales(scales)
            close(r.x, x0 / s, f"{label}: starting point given to the solver")
            for k, got in zip(("lagrange", "zl", "zu"), r.start):
                ensure(np.array_equal(got, start.get(k, np.zeros(0))), f"{label}: multipliers {k} given to the solver")
            for k, v in c["options"].items():
                ensure(r.options.get(k) == v, f"{label}: option {k} is {r.options.get(k)!r}")
            if "hessian_approximation" not in c["options"]:
                ensure(r.options.get("hessian_approximation") == hess, f"{label}: Hessian {r.options.get('hessian_approximation')}, not {hess}")
            if c["status"] != -13:
                close(sol, r.answer * s, f"{label}: returned point", rtol=1e-12)
                ensure(info["status"] == c["status"], f"{label}: status {info['status']} instead of {c['status']}")
                ensure(info["num_iter"] == c["iterations"], f"{label}: {info['num_iter']} iterations instead of {c['iterations']}")
                o = r.options
                if o.get("output_file") and o.get("print_timing_statistics") == "yes" and o.get("print_level", 0) >= 4:
                    close([info["ipopt_time"], info["nlp_time"]], Recorder.outcome["times"], f"{label}: reported times")
                    rec.event("times reported")
            rec.event(f"status {c['status']}")
            # the first solve of a problem that is the same now
            twin = make_ocp(spec, b.model(), conf())
            Recorder.outcome = dict(Recorder.outcome, status=0)
            go(twin)
            t = made[-1]
            ensure(t is not r and r.options == t.options, f"{label}: options {r.options}; those of a fresh problem {t.options}")
            for k in r.given:
                close(r.given[k], t.given[k], f"{label}: {k} given to the solver, compared with a fresh problem", rtol=1e-12)
    rec.nontrivial(len({tuple(sorted(c["options"])) for c in calls}) > 1)
