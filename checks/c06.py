"""C06: stage equations and their derivatives equal the explicit model."""
import copy

import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from checks.c05 import perturb
from lib.compiled import dense, flat_params
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lib.models import Built, all_residuals, cs_hess, cs_jac, model_spec, param_dict, ref_implicit, some_constant
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.tree_utils import ParameterTree

P = Property("C06", rule=(
    "Generated smooth composite models compiled for CasADi (C code), JAX or the custom backend; batches of random flat "
    "stage vectors, mesh values, parameters and multipliers; values against an interpreter, Jacobian by complex step, "
    "Hessian of the weighted sum by differences of complex-step gradients. Also models of one type with different types of submodels. Non-trivial: at least two stages and a "
    "constraint output or residual besides the state equations."))


def split_layout(spec, con):
    nx, nu = spec["nx"], spec["nu"]
    return nx, nu, 2 * nx + nu + len(con), nx + len(con) + len(all_residuals(spec))


def run(case, rec, backend):
    spec, seed, sizes = case
    with Built(spec, custom=backend == "custom") as b:
        m = b.model()
        m.set_con_outputs(tuple(spec["con_outputs"]))
        m.make_model_algebra_cons(backend)
        verify(m, spec, seed, sizes, rec, backend)


def verify(m, spec, seed, sizes, rec, backend):
    con = tuple(spec["con_outputs"])
    nx, nu, nv, nr = split_layout(spec, con)
    # indices of the flat layout
    names = [("states", f"x{i}") for i in range(nx)] + [("inputs", f"u{i}") for i in range(nu)] + [
        ("states_dot", f"x{i}") for i in range(nx)] + [("con_outputs", n) for n in con]
    ensure(m.num_implicit_var == nv and m.num_implicit_res == nr, "numbers of stage variables or equations")
    for k, (g, n) in enumerate(names):
        ensure(m.get_var_index_in_flat(g, n) == k, f"flat position of {g}.{n}")
    for g in ("states", "inputs", "states_dot", "con_outputs"):
        close(m.get_group_indices_in_flat(g), [k for k, (h, _) in enumerate(names) if h == g], f"positions of {g}")
    c = m.model_algebra
    ensure(c.num_in == nv and c.num_con == nr, "size of the compiled equations")
    js, hs = c.jacobianstructure(), c.hessianstructure()
    for k, n in enumerate(sizes):
        pd = perturb(param_dict(spec), seed + k) if k else param_dict(spec)
        params = ParameterTree.from_dict(copy.deepcopy(pd))
        pp = flat_params(params) if backend == "casadi" else params
        Z, M, L = (bulk(seed + 10 + k, n, nv, lo=-2, hi=2), bulk(seed + 30 + k, n, lo=-2, hi=2),
                   bulk(seed + 40 + k, n, nr, lo=-2, hi=2))
        want = np.array([ref_implicit(spec, Z[i], M[i], pd, con) for i in range(n)])
        close(np.asarray(c.mapped_constraints(Z, M, pp)).reshape(n, nr), want, f"{backend}: stage equations")
        jv = np.asarray(c.mapped_jacobian(Z, M, pp)).reshape(n, -1)
        hv = np.asarray(c.mapped_hessian(Z, L, M, pp)).reshape(n, -1)
        for i in range(n):
            J = cs_jac(lambda z: ref_implicit(spec, z, M[i], pd, con), Z[i])
            close(dense(*js, jv[i], (nr, nv)), J, f"{backend}: Jacobian of stage {i}", rtol=1e-7, atol=1e-7)
            H = cs_hess(lambda z: L[i] @ ref_implicit(spec, z, M[i], pd, con), Z[i])
            scale = 1 + np.max(np.abs(H))
            close(dense(*hs, hv[i], (nv, nv)) / scale, H / scale, f"{backend}: Hessian of stage {i}", rtol=1e-5,
                  atol=2e-6)
        if k == 0:
            # single-stage, scaled evaluation of the same object
            one = np.asarray(c.constraints(Z[0], M[0], pp)).reshape(-1) if backend != "jax" else None
            if one is not None:
                close(one, want[0], f"{backend}: single stage")
    rec.event(f"con={len(con)},res={nr - nx - len(con)}")
    rec.event("mesh" if any("'m'" in repr(spec[k]) for k in ("xdot", "outputs")) else "no-mesh")
    rec.nontrivial(max(sizes) > 1 and nr > nx)


sizes = st.lists(st.integers(1, 5), min_size=1, max_size=3)


@P.check(st.tuples(some_constant(model_spec(depth=1, smooth=True)), seeds, sizes), quick=45, thorough=900, shards=2)
def casadi(case, rec):
    run(case, rec, "casadi")


@P.check(st.tuples(some_constant(model_spec(depth=1, smooth=True, expr_depth=2)), seeds, sizes), quick=6, thorough=120, shards=3)
def jax(case, rec):
    run(case, rec, "jax")


@P.check(st.tuples(some_constant(model_spec(depth=1, smooth=True, expr_depth=2)), seeds, sizes), quick=60, thorough=900)
def custom(case, rec):
    run(case, rec, "custom")


def twin_spec(n, seed, pos, const):
    """A larger model; variants differ in one constant only (written with the same number of digits)."""
    r = np.random.RandomState(seed)
    xdot = []
    for i in range(n):
        a, b, c = (int(v) for v in r.randint(0, n, 3))
        e = ("add", ("sin", ("mul", ("x", a), ("x", b))), ("mul", ("cos", ("x", c)), ("u", 0)))
        e = ("add", e, ("mul", ("c", const if i == pos else 7.5), ("x", i)))
        xdot.append(e)
    return dict(kind="ss", nx=n, nu=1, params={}, subs=[], outputs=[("mul", ("c", const if pos == n else 7.5), ("x", 0))],
                xdot=xdot, residuals=[], con_outputs=[])


@P.check(st.tuples(st.sampled_from([2, 6, 9, 12, 16]), st.integers(0, 10**6), st.integers(0, 100),
                   st.lists(st.sampled_from([3.5, 4.5, 5.5, 6.5, 8.5]), min_size=2, max_size=3)), quick=8, thorough=150,
         shards=2)
def similar_models(case, rec):
    """Models compiled one after the other in one directory are told apart however similar they are."""
    n, seed, pos, consts = case
    pos %= n + 1
    built, specs = [], []
    ctx = []
    try:
        for c in consts:
            spec = twin_spec(n, seed, pos, c)
            b = Built(spec).__enter__()
            ctx.append(b)
            m = b.model()
            m.make_model_algebra_cons("casadi")
            built.append(m)
            specs.append(spec)
        for k, (m, spec) in enumerate(zip(built, specs)):
            Z, L = bulk(seed + k, 2, m.num_implicit_var, lo=-1, hi=1), bulk(seed + 9 + k, 2, m.num_implicit_res)
            M, p = np.zeros(2), np.zeros(0)
            pd = param_dict(spec)
            want = np.array([ref_implicit(spec, Z[i], 0.0, pd, ()) for i in range(2)])
            close(np.asarray(m.model_algebra.mapped_constraints(Z, M, p)).reshape(2, -1), want, f"model {k} with {consts[k]}")
            jv = np.asarray(m.model_algebra.mapped_jacobian(Z, M, p)).reshape(2, -1)
            J = cs_jac(lambda z: ref_implicit(spec, z, 0.0, pd, ()), Z[0])
            close(dense(*m.model_algebra.jacobianstructure(), jv[0], J.shape), J, f"Jacobian of model {k}", rtol=1e-7, atol=1e-7)
            out = m.batched_forward(Z[:, :n], Z[:, n:n + 1], M, m.get_recursive_params())
            close(out.states_dot, want[:, :n] + Z[:, n + 1:2 * n + 1], f"batched forward of model {k}")
    finally:
        for b in ctx:
            b.__exit__()
    rec.event(f"states={n}")
    rec.nontrivial(len(set(consts)) > 1)


@st.composite
def family(draw):
    """A model with a submodel, and other types for its slot with other numbers of outputs, residuals and parameters."""
    spec = draw(model_spec(depth=1, smooth=True, expr_depth=2).filter(lambda s: s["subs"]))
    sub = draw(st.sampled_from(spec["subs"]))
    k = spec["subs"].index(sub)
    specs = [spec]
    for _ in range(draw(st.integers(1, 2))):
        other = copy.deepcopy(sub["spec"])
        no = len(other["outputs"])
        var = ("x", 0) if other["nx"] else ("u", 0)
        for i in range(draw(st.integers(0, 2))):
            other["outputs"].append(("mul", ("sin", var), ("c", 1.5 + i)))
        other["residuals"] = draw(st.lists(st.sampled_from([f"o{i}" for i in range(len(other["outputs"]))]), unique=True, max_size=3)
                                  ) if other["outputs"] and (no or other["nx"] or other["nu"]) else []
        if draw(st.booleans()):
            other["params"] = dict(other["params"], extra=("s", 0.7))
        v = copy.deepcopy(spec)
        v["subs"][k]["spec"] = other
        specs.append(v)
    return sub["name"], k, specs, draw(st.permutations(range(len(specs)))), draw(seeds)


def variants(case, rec, backend):
    """Models of one type whose submodels are of different types, used side by side."""
    sub, k, specs, order, seed = case
    with Built(specs[0]) as b:
        models = [b.model()] + [b.variant(sub, s["subs"][k]["spec"]) for s in specs[1:]]
        for i in order:
            models[i].set_con_outputs(tuple(specs[i]["con_outputs"]))
            models[i].make_model_algebra_cons(backend)
        for i in order:
            verify(models[i], specs[i], seed + i, [2], rec, backend)
    rec.nontrivial(len({len(all_residuals(s)) for s in specs}) > 1)


@P.check(family(), quick=15, thorough=300, shards=2)
def casadi_variants(case, rec):
    variants(case, rec, "casadi")


@P.check(family(), quick=3, thorough=60, shards=3)
def jax_variants(case, rec):
    variants(case, rec, "jax")


def wide_model(nx, nu, nc, nr, seed):
    """A model of many equations, with its values and derivatives in closed form."""
    names = [tuple(f"{c}{i}" for i in range(n)) for c, n in (("x", nx), ("u", nu), ("o", nc), ("r", nr))]
    a, shift = bulk(seed, nx, lo=-1, hi=1), 7

    @state_space_io(states=names[0], inputs=names[1], outputs=names[2] + names[3], con_outputs=(), residuals=names[3])
    class Wide(StateSpaceModel):
        @classmethod
        def get_default_params(cls):
            return {"p": 1.7}

        def forward(self, states, inputs, mesh):
            x, u = [states[n] for n in names[0]], [inputs[n] for n in names[1]]
            p = self._params["p"]
            xdot = {n: lnp.sin(x[i] * u[i % nu]) + p * float(a[i]) * x[(i + shift) % nx] ** 2 for i, n in enumerate(names[0])}
            out = {n: x[k] * x[(k + 1) % nx] + u[0] * mesh for k, n in enumerate(names[2])}
            out.update({n: lnp.cos(x[-1 - k]) - u[-1] for k, n in enumerate(names[3])})
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **xdot), outputs=self.make_outputs_dict(**out))

    def reference(z, mesh, p, lam):
        nv, m = 2 * nx + nu + nc, nx + nc + nr
        x, u = z[:nx], z[nx:nx + nu]
        F, J, H = np.zeros(m), np.zeros((m, nv)), np.zeros((nv, nv))
        for i in range(nx):
            j, k = nx + i % nu, (i + shift) % nx
            v, w, s, c = x[i], z[j], np.sin(x[i] * z[j]), np.cos(x[i] * z[j])
            F[i] = s + p * a[i] * x[k] ** 2 - z[nx + nu + i]
            J[i, i] += w * c
            J[i, j] += v * c
            J[i, k] += 2 * p * a[i] * x[k]
            J[i, nx + nu + i] = -1
            H[i, i] -= lam[i] * w * w * s
            H[j, j] -= lam[i] * v * v * s
            H[i, j] += lam[i] * (c - v * w * s)
            H[j, i] += lam[i] * (c - v * w * s)
            H[k, k] += lam[i] * 2 * p * a[i]
        for k in range(nc):
            i, j, e = k, (k + 1) % nx, nx + k
            F[e] = x[i] * x[j] + u[0] * mesh - z[2 * nx + nu + k]
            J[e, i] += x[j]
            J[e, j] += x[i]
            J[e, nx] += mesh
            J[e, 2 * nx + nu + k] = -1
            H[i, j] += lam[e]
            H[j, i] += lam[e]
        for k in range(nr):
            i, e = nx - 1 - k, nx + nc + k
            F[e] = np.cos(x[i]) - u[-1]
            J[e, i] -= np.sin(x[i])
            J[e, nx + nu - 1] -= 1
            H[i, i] -= lam[e] * np.cos(x[i])
        return F, J, H
    return Wide(), names[2], reference


@P.check(st.tuples(st.sampled_from(["casadi", "jax", "casadi"]), st.integers(90, 150), st.integers(1, 4), st.integers(2, 50), st.integers(0, 40),
                   seeds), quick=3, thorough=40)
def wide(case, rec):
    """Models of more equations and variables than a few."""
    backend, nx, nu, nc, nr, seed = case
    m, con, reference = wide_model(nx, nu, nc, nr, seed)
    m.set_con_outputs(con)
    m.make_model_algebra_cons(backend)
    c = m.model_algebra
    nv, ne, n = 2 * nx + nu + nc, nx + nc + nr, 3
    ensure(c.num_in == nv and c.num_con == ne, "size of the compiled equations")
    Z, M, L = bulk(seed + 1, n, nv, lo=-2, hi=2), bulk(seed + 2, n, lo=-2, hi=2), bulk(seed + 3, n, ne, lo=-2, hi=2)
    params = m.get_recursive_params()
    params.set_param("p", 0.6)
    pp = flat_params(params) if backend == "casadi" else params
    F, J, H = (np.asarray(v).reshape(n, -1) for v in (c.mapped_constraints(Z, M, pp), c.mapped_jacobian(Z, M, pp),
                                                      c.mapped_hessian(Z, L, M, pp)))
    for i in range(n):
        f, jac, hess = reference(Z[i], M[i], 0.6, L[i])
        close(F[i], f, f"{backend}: {ne} stage equations", rtol=1e-8, atol=1e-8)
        close(dense(*c.jacobianstructure(), J[i], (ne, nv)), jac, f"{backend}: Jacobian of {ne} equations", rtol=1e-8, atol=1e-8)
        close(dense(*c.hessianstructure(), H[i], (nv, nv)), hess, f"{backend}: Hessian of {ne} equations", rtol=1e-8, atol=1e-8)
    rec.event(backend)
    rec.nontrivial(ne > 127)


@P.check(st.tuples(model_spec(depth=1, smooth=True, expr_depth=2), seeds, st.integers(1, 4)), quick=12, thorough=200, shards=2)
def own_equations(case, rec):
    """Models that give their stage equations themselves, nonlinear in derivatives and constraint outputs."""
    spec, seed, n = case
    con = tuple(spec["con_outputs"])
    nx, nu, nv, nr = split_layout(spec, con)
    with Built(spec) as b:
        def implicit(self, states, inputs, states_dot, con_outputs, mesh):
            r = b.cls.implicit(self, states, inputs, states_dot, con_outputs, mesh)
            last = con_outputs[len(con) - 1] if con else states_dot[nx - 1]
            # entry by entry: CasADi 3.6 differentiates some sums of vectors and scalars wrongly
            return lnp.array([r[i] * (1.5 + lnp.sin(states_dot[0] * last)) + 0.3 * last ** 2 * states[0] + self._own * mesh for i in range(nr)])

        def reference(z, mesh, pd):
            dot, last = z[nx + nu], z[-1]
            return np.array(ref_implicit(spec, z, mesh, pd, con)) * (1.5 + np.sin(dot * last)) + 0.3 * last ** 2 * z[0] + 0.7 * mesh

        m = type(b.cls.__name__ + "Own", (b.cls,), dict(implicit=implicit, _own=0.7))()
        m.set_con_outputs(con)
        m.make_model_algebra_cons("casadi")
        c = m.model_algebra
        pd = perturb(param_dict(spec), seed)
        p = flat_params(ParameterTree.from_dict(copy.deepcopy(pd)))
        Z, M, L = bulk(seed + 1, n, nv, lo=-2, hi=2), bulk(seed + 2, n, lo=-2, hi=2), bulk(seed + 3, n, nr, lo=-2, hi=2)
        F, J, H = (np.asarray(v).reshape(n, -1) for v in (c.mapped_constraints(Z, M, p), c.mapped_jacobian(Z, M, p), c.mapped_hessian(Z, L, M, p)))
        for i in range(n):
            close(F[i], reference(Z[i], M[i], pd), "equations given by the model")
            close(dense(*c.jacobianstructure(), J[i], (nr, nv)), cs_jac(lambda z: reference(z, M[i], pd), Z[i]), "their Jacobian", rtol=1e-7, atol=1e-7)
            want = cs_hess(lambda z: L[i] @ reference(z, M[i], pd), Z[i])
            scale = 1 + np.max(np.abs(want))
            close(dense(*c.hessianstructure(), H[i], (nv, nv)) / scale, want / scale, "their Hessian", rtol=1e-5, atol=2e-6)
    rec.event(f"con={len(con)}")
    rec.nontrivial(n > 1 and nr > nx)
