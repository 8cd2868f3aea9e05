"""C18: reported derivatives of an optimal control problem are exact."""
import numpy as np
from scipy import sparse
from hypothesis import strategies as st

from lib.compiled import dense
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lib.models import cs_jac
from lib.ocp import BigRef, Ref, built, enlarged, make_ocp, multipliers, neighbour, ocp_spec, part_order, point

P = Property("C18", rule=(
    "Random smooth models (equations independent of the mesh when the mesh scale is free), all schemes, fixed and free mesh, "
    "lifted and condensed, cyclic or not, with random scales, default and nonlinear objectives; two points each. Gradient "
    "and Jacobian against complex-step derivatives of the reference transcription, Hessian times two random vectors against "
    "differences of its complex-step gradient. Large problems: values, and derivatives along random directions. Non-trivial: at least two intervals, and scales or a free mesh; more than 1000 variables when large."))


def lagrangian_gradient(ref, order, scales, z, mult, of, s):
    def L(w):
        x = w * s
        return np.array([of * ref.objective(x) + np.dot(mult, ref.constraints(x, order, scales))])
    return cs_jac(L, z)[0]


def cs_objective(ref, z, s):
    return cs_jac(lambda w: np.array([ref.objective(w * s)]), z)[0]


def verify(spec, ocp, ref, scales, z, seed, rec, label=""):
    """Everything the problem reports at the scaled point z."""
    s = ref.var_scales(scales)
    order = part_order(ocp)
    n, m = ocp.num_dec, ocp.num_con
    # the reference is what the problem computes, so its derivatives are those of the problem
    close(ocp.objective(z), ref.objective(z * s), f"{label}objective", rtol=1e-8, atol=1e-8, shape=False)
    c = ref.constraints(z * s, order, scales)
    close(ocp.constraints(z), c, f"{label}constraints {order}", rtol=1e-8, atol=1e-8 * (1 + np.max(np.abs(c), initial=0.0)), shape=False)
    close(ocp.gradient(z), cs_objective(ref, z, s), f"{label}gradient", rtol=1e-8, atol=1e-8)
    J = dense(*ocp.jacobianstructure(), ocp.jacobian(z), (m, n))
    want = cs_jac(lambda w: ref.constraints(w * s, order, scales), z)
    close(J, want, f"{label}Jacobian of {order}", rtol=1e-7, atol=1e-7 * (1 + np.max(np.abs(want)) * 1e-3))
    of = float(bulk(seed + 11, 1, lo=0.2, hi=2)[0]) * (0 if seed % 5 == 0 else 1)
    mult = multipliers(ref, order, seed + 12) * ref_weight(ref, order, scales)
    rows, cols = ocp.hessianstructure()
    rows, cols = np.ravel(rows), np.ravel(cols)
    ensure(np.all(rows <= cols), f"{label}Hessian positions below the diagonal")
    U = dense(rows, cols, ocp.hessian(z, mult, of), (n, n))
    H = U + U.T - np.diag(np.diag(U))
    h = 1e-3
    for k in range(2):
        v = bulk(seed + 13 + k, n) / s      # same relative step in every variable
        g = [lagrangian_gradient(ref, order, scales, z + d * h * v, mult, of, s) for d in (1, -1, 2, -2)]
        hv = (8 * (g[0] - g[1]) - (g[2] - g[3])) / (12 * h)
        scale = 1 + np.abs(H) @ np.abs(v) + np.abs(hv)
        err = np.abs(H @ v - hv) / scale
        i = int(np.argmax(err))
        ensure(err[i] < 2e-5, f"{label}Hessian row {i}: H v = {(H @ v)[i]!r}, true {hv[i]!r} ({n} variables, parts {order})")
    return rows, cols


def ref_weight(ref, order, scales):
    """Multipliers of comparable effect whatever the scales."""
    c = ref.con_scales(scales)
    return np.concatenate([np.ravel(c[k]) for k in order])


def close_points(spec, b, ocp, ref, seed):
    """Evaluations one after another at almost equal points, against a problem that has evaluated nothing else."""
    s = ref.var_scales(spec["scales"])
    x = point(ref, seed + 7)
    order = part_order(ocp)
    n, m = ocp.num_dec, ocp.num_con
    for k in range(3):
        of, mult = (0.5, 0.5, 1.0 + 1e-7)[k], multipliers(ref, order, seed + 8 + k // 2) * (1 + 1e-7 * (k == 1))
        if k < 2:
            x = neighbour(ref, x, seed + k) if k else x
        new = make_ocp(spec, b.model())
        for p in (ocp, new):
            p.jacobian(x / s)
        got, want = [[p.objective(x / s), p.gradient(x / s), dense(*p.jacobianstructure(), p.jacobian(x / s), (m, n)),
                      dense(*p.hessianstructure(), p.hessian(x / s, mult, of), (n, n))] for p in (ocp, new)]
        for g, w, what in zip(got, want, ("objective", "gradient", "Jacobian", "Hessian")):
            big = np.max(np.abs(w), initial=0.0)
            close(g, w, f"{what} at a point next to the previous one, and of a new problem", rtol=1e-11, atol=1e-12 * (1 + big), shape=False)


def compare(spec, seed, rec):
    ref = Ref(spec)
    with built(spec) as b:
        ocp = make_ocp(spec, b.model())
        js = [np.ravel(a).copy() for a in ocp.jacobianstructure()]
        hs = None
        for k in range(2):
            z = point(ref, seed + k) / ref.var_scales(spec["scales"])
            h = verify(spec, ocp, ref, spec["scales"], z, seed + 50 * k, rec)
            ensure(all(np.array_equal(np.ravel(a), c) for a, c in zip(ocp.jacobianstructure(), js)), "Jacobian structure moved")
            ensure(hs is None or all(np.array_equal(a, c) for a, c in zip(h, hs)), "Hessian structure moved")
            hs = h
        if seed % 3 == 0:
            close_points(spec, b, ocp, ref, seed)
    for e in (spec["trans"], spec["backend"], "free" if spec["free"] else "fixed", "cyclic" if spec["cyclic"] else "open",
              "condensed" if spec["condensed"] else "lifted", "scaled" if spec["scales"] else "unscaled"):
        rec.event(e)
    rec.nontrivial(spec["ni"] > 1 and bool(spec["scales"] or spec["free"]))


@P.check(st.tuples(ocp_spec(), seeds), quick=50, thorough=900, shards=8)
def handwritten(case, rec):
    compare(*case, rec)


@P.check(st.tuples(ocp_spec(backends=("casadi",)), seeds), quick=15, thorough=250, shards=3)
def compiled_casadi(case, rec):
    compare(*case, rec)


@P.check(st.tuples(ocp_spec(backends=("jax",)), seeds), quick=8, thorough=150, shards=3)
def compiled_jax(case, rec):
    compare(*case, rec)


# models with entries that vanish on part of the space: the structure must not depend on a lucky point
SATURATED = dict(kind="ss", nx=2, nu=1, params={}, subs=[], outputs=[("add", ("max", ("x", 0), ("c", 0.3)), ("u", 0))],
                 residuals=[], con_outputs=["o0"], time=False,
                 xdot=[("add", ("max", ("x", 1), ("c", 0.0)), ("mul", ("x", 0), ("clip", ("u", 0)))),
                       ("add", ("min", ("mul", ("x", 0), ("x", 1)), ("u", 0)), ("x", 1))])


@P.check(st.tuples(ocp_spec(objective="custom"), st.booleans(), seeds), quick=15, thorough=200, shards=2)
def saturating_models(case, rec):
    spec, cas, seed = case
    spec = dict(spec, model=dict(SATURATED), backend="casadi" if cas else "custom", scales=[], non_cyclic=[])
    ref = Ref(spec)
    with built(spec) as b:
        ocp = make_ocp(spec, b.model())
        order = part_order(ocp)
        rows, cols = ocp.jacobianstructure()
        for k in range(3):
            z = point(ref, seed + k)
            # keep away from the kinks, where derivatives are not defined
            st_ = ref.split(z)
            far = all(min(abs(X[1]), abs(X[0] - 0.3), abs(abs(U[0]) - 0.75), abs(X[0] * X[1] - U[0])) > 1e-3
                      for X, U in zip(st_[0], st_[1]))
            if not far:
                continue
            J = dense(rows, cols, ocp.jacobian(z), (ocp.num_con, ocp.num_dec))
            h = 1e-6
            want = np.array([(ref.constraints(z + h * e, order) - ref.constraints(z - h * e, order)) / (2 * h)
                             for e in np.eye(ref.num_dec)]).T
            if not cas:
                # hand-written derivatives of this model are taken by complex step, which max and min do not support
                continue
            close(J, want, "Jacobian of a saturating model", rtol=1e-5, atol=1e-6)
            rec.nontrivial()
    rec.event("condensed" if spec["condensed"] else "lifted")


@P.check(st.tuples(ocp_spec(backends=("casadi", "casadi", "jax"), mesh=False, expr_depth=1), seeds), quick=5, thorough=60, shards=4)
def large_problems(case, rec):
    """Values and derivatives of a problem with up to some ten thousand variables, along random directions."""
    spec, seed = case
    spec = enlarged(spec, seed)
    ref = BigRef(spec)
    s = ref.var_scales(spec["scales"])
    with built(spec) as b:
        ocp = make_ocp(spec, b.model())
        order = part_order(ocp)
        n, m = ocp.num_dec, ocp.num_con
        ensure(n == ref.num_dec, f"{n} variables instead of {ref.num_dec}")
        z = point(ref, seed) / s
        con = lambda w: ref.constraints(w * s, order, spec["scales"])
        want = con(z)
        ensure(m == want.size, f"{m} constraints instead of {want.size}")
        close(ocp.constraints(z), want, f"constraints ({order})", rtol=1e-8, atol=1e-8)
        rows, cols = (np.ravel(a) for a in ocp.jacobianstructure())
        ensure(rows.size == 0 or (min(rows.min(), cols.min()) >= 0 and rows.max() < m and cols.max() < n), "Jacobian positions out of range")
        J = sparse.csr_matrix((np.ravel(ocp.jacobian(z)), (rows, cols)), (m, n))
        h = 1e-30
        for k in range(2):
            v = bulk(seed + k, n) / s
            d = np.imag(con(z + 1j * h * v)) / h
            close(J @ v, d, "Jacobian times a vector", rtol=1e-7, atol=1e-7 * (1 + abs(J) @ np.abs(v)))
        of = 0.7
        mult = multipliers(ref, order, seed + 12) * ref_weight(ref, order, spec["scales"])
        rows, cols = (np.ravel(a) for a in ocp.hessianstructure())
        ensure(rows.size == 0 or (rows.min() >= 0 and cols.max() < n), "Hessian positions out of range")
        ensure(np.all(rows <= cols), "Hessian positions below the diagonal")
        U = sparse.csr_matrix((np.ravel(ocp.hessian(z, mult, of)), (rows, cols)), (n, n))
        H = U + U.T - sparse.diags(U.diagonal())
        t = 1e-3
        for k in range(3):
            v = bulk(seed + 20 + k, n) / s
            if k:       # only a stretch of the variables, so that little cancels
                keep = np.arange(n) // 50 % 7 == (seed + k) % 7
                keep[-1] = True
                v[~keep] = 0.0

            def along(w):     # gradient of the Lagrangian times v, per term
                w = w + 1j * h * v
                return of * np.imag(ref.objective(w * s)) / h + mult @ (np.imag(con(w)) / h)
            w = bulk(seed + 30 + k, n) / s
            g = [along(z + d * t * w) for d in (1, -1, 2, -2)]
            hv = (8 * (g[0] - g[1]) - (g[2] - g[3])) / (12 * t)
            size = np.sqrt((abs(H).multiply(abs(H))).T.dot(v * v).dot(w * w)) + 1
            ensure(abs(v @ (H @ w) - hv) < 1e-4 * size, f"v H w = {v @ (H @ w)!r}, true {hv!r} ({n} variables, parts {order})")
    rec.event("beyond 32767" if n > 32767 else "beyond 1000" if n > 1000 else "small"), rec.event(spec["trans"])
    rec.event("condensed" if spec["condensed"] else "lifted"), rec.event("free" if spec["free"] else "fixed")
    rec.nontrivial(n > 1000)
