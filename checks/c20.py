"""C20: the condensed problem is the lifted problem with the state derivatives eliminated."""
import numpy as np
from hypothesis import strategies as st

from lumos.optimal_control.config import BoundConfig, ScaleConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

from checks.c18 import verify
from lib.compiled import dense
from lib.domain import TimedDomain
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lib.ocp import Ref, built, make_ocp, ocp_spec, part_order, point, uses_custom_objective

P = Property("C20", rule=(
    "Each generated configuration (every scheme, 2-5 stages, unequal intervals, fixed and free mesh scale, scales on every "
    "group, cyclic or not, constraint outputs and residuals) is built twice, lifted and condensed. At random points whose state "
    "derivatives the lifted problem's own algebra makes consistent, values agree; Jacobian and Hessian agree with "
    "elimination of the state derivatives from the lifted ones; the condensed problem ignores its state-derivative "
    "variables. Problems with further global variables, listed in any order, have the equations and derivatives of the problem without "
    "them. Non-trivial: unequal scales or free mesh, and at least two intervals."))


def eliminate(spec, seed, rec, full):
    lifted_spec, cond_spec = dict(spec, condensed=False), dict(spec, condensed=True)
    ref = Ref(lifted_spec)
    scales = spec["scales"]
    s = ref.var_scales(scales)
    with built(spec) as b:
        lifted, cond = make_ocp(lifted_spec, b.model()), make_ocp(cond_spec, b.model())
        n = lifted.num_dec
        ensure(cond.num_dec == n, f"{cond.num_dec} variables instead of {n}")
        xd = np.array([ref.index("states_dot", nm, k) for k in range(ref.N) for nm in ref.names["states_dot"]])
        free = np.setdiff1d(np.arange(n), xd)
        close(np.r_[cond.lb[xd], cond.ub[xd]], np.zeros(2 * xd.size), "bounds of condensed-out variables")
        close(np.r_[cond.lb[free], cond.ub[free]], np.r_[lifted.lb[free], lifted.ub[free]], "bounds of the other variables")
        order_l, order_c = part_order(lifted), part_order(cond)
        for k in range(2):
            z = point(ref, seed + k) / s
            # make the state derivatives consistent through the lifted problem's own equations: f(x,u) - xdot = 0
            p = lifted.split_constraints(lifted.constraints(z))
            con_l = ref.con_scales(scales)["model_algebra"].reshape(ref.N, -1)
            gap = (np.reshape(p["model_algebra"], (ref.N, -1)) * con_l)[:, : ref.nx]
            zl = z.copy()
            zl[xd] += gap.ravel() / s[xd]
            p = lifted.split_constraints(lifted.constraints(zl))
            alg = np.reshape(p["model_algebra"], (ref.N, -1))
            close(alg[:, : ref.nx], np.zeros((ref.N, ref.nx)), "consistent state derivatives", atol=1e-7 * (1 + np.max(np.abs(zl[xd]))))
            want = np.r_[p["continuity"], alg[:, ref.nx:].ravel()]
            c = cond.constraints(z)
            q = cond.split_constraints(c)
            mag = 1e-9 * (1 + np.max(np.abs(zl)))
            close(q["model_algebra"], want, "condensed continuity and algebra", rtol=1e-8, atol=mag)
            if spec["cyclic"]:
                close(q["cyclic"], p["cyclic"], "cyclic conditions")
            close(cond.objective(z), lifted.objective(z), "objective", shape=False)
            # the eliminated variables are ignored
            z2 = z.copy()
            z2[xd] = bulk(seed + 5, xd.size, lo=-3, hi=3)
            close(cond.constraints(z2), c, "constraints after changing eliminated variables", rtol=1e-12, atol=1e-12)
            J = dense(*cond.jacobianstructure(), cond.jacobian(z), (cond.num_con, n))
            J2 = dense(*cond.jacobianstructure(), cond.jacobian(z2), (cond.num_con, n))
            close(J2, J, "Jacobian after changing eliminated variables", rtol=1e-9, atol=1e-9)
            close(J[:, xd], np.zeros((cond.num_con, xd.size)), "Jacobian columns of eliminated variables", atol=1e-9 * (1 + np.max(np.abs(J))))
            mult = bulk(seed + 7, cond.num_con)
            for of in (0.0, 0.6):
                H = dense(*cond.hessianstructure(), cond.hessian(z, mult, of), (n, n))
                H2 = dense(*cond.hessianstructure(), cond.hessian(z2, mult, of), (n, n))
                h0 = 1 + np.max(np.abs(H))
                if not uses_custom_objective(spec):
                    close(H2, H, "Hessian after changing eliminated variables", rtol=1e-9, atol=1e-9 * h0)
                    H = H + H.T
                    close(H[:, xd], np.zeros((n, xd.size)), "Hessian of eliminated variables", atol=1e-9 * h0)
            # Jacobian by elimination from the lifted one
            JL = dense(*lifted.jacobianstructure(), lifted.jacobian(zl), (lifted.num_con, n))
            off, k0 = {}, 0
            for name in order_l:
                off[name] = k0
                k0 += p[name].size
            rows = off["model_algebra"] + np.arange(ref.N)[:, None] * alg.shape[1]
            f_rows = (rows + np.arange(ref.nx)).ravel()
            rest = (rows + np.arange(ref.nx, alg.shape[1])).ravel()
            dxd = -np.linalg.solve(JL[np.ix_(f_rows, xd)], JL[np.ix_(f_rows, free)])
            keep = {"model_algebra": np.r_[off.get("continuity", 0) + np.arange(p["continuity"].size), rest]}
            if spec["cyclic"]:
                keep["cyclic"] = off["cyclic"] + np.arange(p["cyclic"].size)
            sel = np.concatenate([keep[name] for name in order_c])
            wantJ = JL[np.ix_(sel, free)] + JL[np.ix_(sel, xd)] @ dxd
            close(J[:, free], wantJ, "condensed Jacobian", rtol=1e-7, atol=1e-8 * (1 + np.max(np.abs(wantJ))))
        if full:
            verify(cond_spec, cond, Ref(cond_spec), scales, point(ref, seed) / s, seed, rec, "condensed ")
    for e in (spec["trans"], "free" if spec["free"] else "fixed", spec["backend"]):
        rec.event(e)
    rec.nontrivial(spec["ni"] > 1 and bool(scales or spec["free"]))


@P.check(st.tuples(ocp_spec(max_ni=4, max_stages=5), seeds), quick=70, thorough=800, shards=4)
def handwritten(case, rec):
    eliminate(*case, rec, full=False)


@P.check(st.tuples(ocp_spec(free=True, mesh=True, max_ni=3, max_stages=4), seeds), quick=30, thorough=400, shards=3)
def mesh_dependent_free(case, rec):
    """Models that see the mesh, with the mesh scale a variable: the two forms still agree, in all values and derivatives."""
    eliminate(*case, rec, full=False)


@P.check(st.tuples(ocp_spec(condensed=True, max_stages=4), seeds), quick=40, thorough=500, shards=3)
def handwritten_hessian(case, rec):
    eliminate(*case, rec, full=True)


@P.check(st.tuples(ocp_spec(backends=("casadi",)), seeds), quick=8, thorough=120, shards=3)
def compiled_casadi(case, rec):
    eliminate(*case, rec, full=True)


@P.check(st.tuples(ocp_spec(backends=("jax",)), seeds), quick=5, thorough=80, shards=3)
def compiled_jax(case, rec):
    eliminate(*case, rec, full=True)


@st.composite
def global_spec(draw):
    free, more = draw(st.booleans()), draw(st.integers(1, 3))
    names = ("mesh_scale",) * free + ("p", "q", "r")[:more]
    return dict(names=draw(st.permutations(names)), free=free, ni=draw(st.integers(1, 4)),
                trans=draw(st.sampled_from([("Trapezoidal",), ("LGR", dict(num_stages=2)), ("LGR", dict(num_stages=4)), ("LGRIntegral", dict(num_stages=3)),
                                            ("ForwardEuler",)])),
                con=draw(st.sampled_from([(), ("c",), ("d",), ("c", "d")])), condensed=draw(st.booleans()), scaled=draw(st.booleans()), cyclic=draw(st.booleans()), seed=draw(seeds))


def global_ocp(spec, names, scales):
    base = ScaledMeshOCP if spec["free"] else FixedMeshOCP
    cls = type("Problem", (base,), dict(global_var_names=tuple(names)))
    kwargs = {} if spec["free"] else dict(mesh_scale=1.7)
    return cls(model=TimedDomain(), sim_config=cls.get_sim_config(
        num_intervals=spec["ni"], backend="casadi", transcription=spec["trans"], is_condensed=spec["condensed"], hessian_approximation="exact",
        is_cyclic=spec["cyclic"], non_cyclic_vars=[], con_output_names=spec["con"], scales=scales, logging_config=None), **kwargs)


@P.check(global_spec(), quick=40, thorough=250, shards=2)
def further_globals(spec, rec):
    """Further global variables, wherever they are listed, leave the equations and derivatives as they are."""
    seed, free = spec["seed"], spec["free"]
    plain = ("mesh_scale",) if free else ()
    names = tuple(spec["names"])
    extra = [nm for nm in names if nm != "mesh_scale"]
    sv = bulk(seed + 3, 8, lo=0.3, hi=3.0)
    scales = ([ScaleConfig("states", "a", sv[0]), ScaleConfig("states_dot", "b", sv[1]), ScaleConfig("inputs", "u", sv[2])]
              + ([ScaleConfig("global", "mesh_scale", sv[3])] if free else [])) if spec["scaled"] else []
    more = [ScaleConfig("global", nm, v) for nm, v in zip(extra, sv[4:])] if spec["scaled"] else []
    want, got = global_ocp(spec, plain, tuple(scales)), global_ocp(spec, names, tuple(scales + more))
    n, k = want.num_dec, len(extra)
    ensure(got.num_dec == n + k, f"{got.num_dec} variables instead of {n + k}")
    stage = n - len(plain)
    cols = np.r_[np.arange(stage), [stage + names.index(nm) for nm in plain]].astype(int)
    rest = np.array([stage + names.index(nm) for nm in extra])
    ensure(got.num_con == want.num_con, f"{got.num_con} constraints instead of {want.num_con}")
    z = bulk(seed, n + k, lo=0.4, hi=1.5)
    x = z[cols]
    for nm, i in zip(extra, rest):
        ensure(got.dec_var_operator.get_var(z, "global", nm) == z[i], f"value of {nm}")
    bounds = {nm: (-1.0 - v, 0.5 + v) for nm, v in zip(names, bulk(seed + 9, len(names), lo=0, hi=2))}
    got.update_bounds(tuple(BoundConfig("global", nm, v) for nm, v in bounds.items()))
    for nm, i in zip(names, range(stage, n + k)):
        close([got.lb[i], got.ub[i]], np.array(bounds[nm]), f"bounds of {nm}")
    ensure(np.all(np.isneginf(got.lb[:stage]) | (got.lb[:stage] == 0)), "bounds of stage variables")
    close(got.get_mesh_from_dec_var(z), want.get_mesh_from_dec_var(x), "mesh")
    close(got.constraints(z), want.constraints(x), "constraints", rtol=1e-12, atol=1e-12)
    J, J0 = dense(*got.jacobianstructure(), got.jacobian(z), (got.num_con, n + k)), dense(*want.jacobianstructure(), want.jacobian(x), (want.num_con, n))
    close(J[:, cols], J0, "Jacobian", rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(J0))))
    close(J[:, rest], 0 * J[:, rest], "Jacobian of variables that appear nowhere")
    close(got.objective(z), want.objective(x), "objective", shape=False)
    g, g0 = got.gradient(z), want.gradient(x)
    close(g[cols], g0, "gradient")
    close(g[rest], 0 * g[rest], "gradient of variables that appear nowhere")
    lag = bulk(seed + 1, got.num_con)
    H = dense(*got.hessianstructure(), got.hessian(z, lag, 0.7), (n + k, n + k))
    H0 = dense(*want.hessianstructure(), want.hessian(x, lag, 0.7), (n, n))
    H, H0 = H + H.T, H0 + H0.T
    atol = 1e-9 * (1 + np.max(np.abs(H0)))
    close(H[np.ix_(cols, cols)], H0, "Hessian", rtol=1e-9, atol=atol)
    close(H[rest], 0 * H[rest], "Hessian of variables that appear nowhere")
    # and the plain problem has the derivatives of its constraints
    e = 1e-6
    FD = np.array([(want.constraints(x + e * v) - want.constraints(x - e * v)) / (2 * e) for v in np.eye(n)]).T
    close(J0, FD, "Jacobian, by differences", rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(FD))))
    rec.event("free" if free else "fixed")
    rec.event("condensed" if spec["condensed"] else "lifted")
    rec.nontrivial(spec["ni"] > 1)
