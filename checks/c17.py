"""C17: a problem's constraints equal an independent transcription of it."""
import numpy as np
from hypothesis import strategies as st

from lib.domain import Domain
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lib.ocp import Ref, built, make_ocp, neighbour, ocp_spec, part_order, point
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

P = Property("C17", rule=(
    "Random models (sub-models, residuals, constraint outputs, mesh-dependent), schemes with 2-5 stages, 1-4 intervals of "
    "unequal length, fixed and free mesh, lifted and condensed, cyclic or not, hand-written derivatives (no compilation), and "
    "a smaller number with JAX and CasADi; two random points each; points where a model is undefined "
    "at some stages. Non-trivial: at least two intervals and a state "
    "equation of two or more variables."))


@P.check(st.tuples(st.sampled_from(["casadi", "casadi", "jax"]), st.integers(2, 4), st.sampled_from(["Trapezoidal", ("LGR", dict(num_stages=2))]),
                   st.booleans(), st.sampled_from([False, False, True]), seeds), quick=10, thorough=120, shards=3)
def undefined_stages(case, rec):
    """Points at which the model cannot be evaluated at some stages: those constraints are not finite, and nothing else changes."""
    backend, ni, trans, con, condensed, seed = case
    ocp = ScaledMeshOCP(model=Domain(), sim_config=ScaledMeshOCP.get_sim_config(
        num_intervals=ni, hessian_approximation="exact", transcription=trans, backend=backend, con_output_names=("c",) if con else (),
        is_condensed=condensed, logging_config=None))
    op, n = ocp.dec_var_operator, ocp.num_dec
    good = bulk(seed, n, lo=0.3, hi=2.0)
    lag = bulk(seed + 1, ocp.num_con, lo=0.5, hi=1.5)
    bad, N = {}, op.num_stages
    for j in range(1 + seed % 3):
        k = (seed // 5 + 3 * j) % N
        bad[k] = ("a", "b", "u")[(seed // 7 + j) % 3] if con else ("b", "u")[(seed // 7 + j) % 2]
    x = good.copy()
    for k, v in bad.items():
        x[op.get_var_index_in_dec("inputs" if v == "u" else "states", v, k)] = 0.0 if v == "u" else -1.0 - k
    rec.event(backend + ("-condensed" if condensed else ""))
    rec.nontrivial(len(bad) < N)
    if condensed:
        return undefined_condensed(ocp, good, x, bad, con, trans)
    with np.errstate(all="ignore"):
        got, was = ocp.split_constraints(ocp.constraints(x)), ocp.split_constraints(ocp.constraints(good))
        want = {k: np.array(v) for k, v in was.items()}
        alg = want["model_algebra"].reshape(N, -1)
        for k in bad:
            w = {g + v: op.get_var(x, g, v, k) for g, v in (("states", "a"), ("states", "b"), ("inputs", "u"), ("states_dot", "a"), ("states_dot", "b"))}
            alg[k, 0] = np.sqrt(w["statesb"]) - w["states_dota"]
            alg[k, 1] = 1.0 / w["inputsu"] + w["statesa"] - w["states_dotb"]
            if con:
                alg[k, 2] = np.log(w["statesa"]) - op.get_var(x, "con_outputs", "c", k)
        close(got["model_algebra"], alg.ravel(), "stage equations", rtol=1e-8, atol=1e-8)
        xc = x.copy()
        ensure(np.all(np.isfinite(got["continuity"])), "continuity constraints, which do not depend on the model")
        nc = alg.shape[1]
        first = sum(len(got[k]) for k in list(got)[:list(got).index("model_algebra")])

        def jac(z):
            r, c = ocp.jacobianstructure()
            return np.ravel(r), np.asarray(ocp.jacobian(z), float)
        rows, J = jac(x)
        J0 = jac(good)[1]
        of_bad = np.isin(rows, [first + k * nc + i for k in bad for i in range(nc)])
        algebra = (rows >= first) & (rows < first + nc * N)
        close(J[algebra & ~of_bad], J0[algebra & ~of_bad], "derivatives of the stages that are defined", rtol=1e-8, atol=1e-8)
        for k, v in bad.items():
            if v != "a":  # the logarithm of a negative number has a derivative nonetheless
                mine = np.isin(rows, first + k * nc + np.arange(nc))
                ensure(not np.all(np.isfinite(J[mine])), f"finite derivatives at stage {k}, where the equations are undefined in {v}")
        H, H0 = (np.asarray(ocp.hessian(z, lag, 1.0), float) for z in (x, good))
        r, c = ocp.hessianstructure()
        per = op.num_var_stage
        both = (r < per * N) & (c < per * N) & (r // per == c // per)
        ok = both & ~np.isin(r // per, list(bad))
        close(H[ok], H0[ok], "second derivatives of the stages that are defined", rtol=1e-8, atol=1e-8)
        for k, v in bad.items():
            if v != "a":
                ensure(not np.all(np.isfinite(H[both & (r // per == k)])), f"finite second derivatives at stage {k}, where the equations are undefined in {v}")
        close(x, xc, "the evaluated point", rtol=0, atol=0)


def undefined_condensed(ocp, good, x, bad, con, trans):
    op, N, w = ocp.dec_var_operator, ocp.num_stages, ocp.dec_var_operator.num_stages_per_interval - 1
    with np.errstate(all="ignore"):
        now, was = (ocp.split_constraints(ocp.constraints(z))["model_algebra"] for z in (x, good))
        k = op.num_intervals * w * 2
        a, b = (v[:k].reshape(op.num_intervals, -1) for v in (now, was))
        for i in range(op.num_intervals):
            if not any(i * w <= s <= (i + 1) * w for s in bad):
                close(a[i], b[i], f"continuity over interval {i}, which is defined", rtol=1e-8, atol=1e-8)
        for s, v in bad.items():
            touching = [i for i in range(op.num_intervals) if i * w <= s <= (i + 1) * w]
            if v != "a" and (trans == "Trapezoidal" or s not in (0, N - 1)):
                ensure(not np.all(np.isfinite(a[touching])), f"finite continuity constraints around stage {s}, where the model is undefined in {v}")
        if con:
            want = was[k:].copy()
            for s in bad:
                want[s] = np.log(op.get_var(x, "states", "a", s)) - op.get_var(x, "con_outputs", "c", s)
            close(now[k:], want, "constraint outputs", rtol=1e-8, atol=1e-8)


def compare(spec, seed, rec):
    ref = Ref(spec)
    with built(spec) as b:
        ocp = make_ocp(spec, b.model())
        ensure(ocp.num_dec == ref.num_dec, f"{ocp.num_dec} variables instead of {ref.num_dec}")
        order = part_order(ocp)
        want_parts = {"model_algebra"} | ({"continuity"} if not spec["condensed"] else set()) | (
            {"cyclic"} if spec["cyclic"] else set())
        ensure(set(order) == want_parts, f"constraint parts {order}")
        for k in range(2):
            x = point(ref, seed + k)
            xs = x / ref.var_scales(spec["scales"])
            want = ref.constraints(x, order, spec["scales"])
            ensure(ocp.num_con == want.size, f"{ocp.num_con} constraints instead of {want.size}")
            keep = xs.copy()
            got = ocp.constraints(xs)
            close(xs, keep, "the evaluated point itself", rtol=0, atol=0)
            close(got, want, f"constraints ({order})", rtol=1e-8, atol=1e-8)
            parts = ocp.split_constraints(got)
            for n, v in ref.parts(x).items():
                close(parts[n], np.ravel(v) / ref.con_scales(spec["scales"])[n], f"part {n}", rtol=1e-8, atol=1e-8)
            close(ocp.objective(xs), ref.objective(x), "objective", rtol=1e-9, atol=1e-9, shape=False)
        # next to the previous point: against a problem that has evaluated nothing else
        for k in range(2):
            x = neighbour(ref, x, seed + k)
            xs = x / ref.var_scales(spec["scales"])
            got, want = ocp.constraints(xs), make_ocp(spec, b.model()).constraints(xs)
            big = np.max(np.abs(want), initial=0.0)
            close(got, want, "constraints next to the previous point, and of a new problem", rtol=1e-12, atol=1e-13 * (1 + big))
        close(ocp.cl, np.zeros(ocp.num_con), "lower constraint bounds")
        close(ocp.cu, np.zeros(ocp.num_con), "upper constraint bounds")
    for e in (spec["trans"], spec["backend"], "free" if spec["free"] else "fixed", "cyclic" if spec["cyclic"] else "open",
              "condensed" if spec["condensed"] else "lifted"):
        rec.event(e)
    rec.nontrivial(spec["ni"] > 1 and ref.nx + ref.nu > 1)


@P.check(st.tuples(ocp_spec(smooth=False, max_ni=4, max_stages=5, mesh=True), seeds), quick=200, thorough=3000, shards=4)
def handwritten(case, rec):
    compare(*case, rec)


@P.check(st.tuples(ocp_spec(backends=("casadi",), mesh=True, max_ni=4), seeds), quick=25, thorough=250, shards=3)
def compiled_casadi(case, rec):
    compare(*case, rec)


@P.check(st.tuples(ocp_spec(backends=("jax",), mesh=True, max_ni=4), seeds), quick=12, thorough=150, shards=3)
def compiled_jax(case, rec):
    compare(*case, rec)
