"""C07: compiling a model leaves it and the session unchanged."""
import copy
import os

import casadi as cas
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from checks.c01 import eq_dict
from checks.c05 import agree, perturb, reference
from lib.compiled import GROUPS, flat_params, from_arrays
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import Built, model_spec, param_dict, ref_implicit
from lumos.models.tree_utils import ParameterTree

P = Property("C07", rule=(
    "Generated composite models and histories of compiling (CasADi, JAX, custom), exporting C code, changing parameters, "
    "selecting a session backend, evaluating directly and evaluating every compiled object made so far with freshly drawn "
    "parameters (in new trees and in one tree edited in place). After each step parameters are plain numbers with the expected values and the session backend is "
    "unchanged. Non-trivial: a compile or export is followed by a parameter change and an evaluation."))

step = st.tuples(st.sampled_from(["compile", "compile", "export", "set", "set", "session", "direct", "compiled", "batch", "batch"]),
                 st.integers(0, 50), seeds)


def plain(d, what):
    for k, v in d["data"].items():
        ensure(not isinstance(v, (cas.SX, cas.MX, cas.DM)) and np.asarray(v).dtype.kind in "fiu",
               f"{what}: parameter {k} is {type(v).__name__}")
    for c in d["children"].values():
        plain(c, what)


def assign(tree, d, path=""):
    for k, v in d["data"].items():
        tree.set_param(path + k, copy.deepcopy(v))
    for n, c in d["children"].items():
        assign(tree, c, path + n + ".")


@P.check(st.tuples(model_spec(depth=1, expr_depth=2), st.lists(step, min_size=4, max_size=12),
                   st.sampled_from([("casadi", "custom"), ("casadi", "jax"), ("casadi", "custom"), ("jax",)])),
         quick=90, thorough=900, shards=3)
def history(case, rec):
    spec, steps, backends = case
    old = lnp.get_backend()
    try:
        with Built(spec, custom=True) as b:
            m = b.model()
            con = tuple(spec["con_outputs"])
            m.set_con_outputs(con)
            nx, nu = spec["nx"], spec["nu"]
            pd, made, batch = param_dict(spec), [], None
            session = old
            phase = 0

            def direct(seed):
                z = bulk(seed, nx + nu + 1, lo=-2, hi=2)
                with lnp.use_backend("numpy"):
                    r = m.forward_with_arrays(z[:nx], z[nx:nx + nu], float(z[-1]))
                agree(from_arrays(r), reference(spec, con, z[:nx], z[nx:nx + nu], float(z[-1]), pd), "direct evaluation")

            tree = ParameterTree.from_dict(copy.deepcopy(param_dict(spec)))

            def passed(d, seed):
                """A new tree, or the one that was passed before, edited in place."""
                if seed % 3 == 0:
                    return ParameterTree.from_dict(copy.deepcopy(d))
                assign(tree, d)
                return tree

            njit = 0
            for what, i, seed in steps:
                if what == "compile":
                    kind = backends[i % len(backends)]
                    if kind == "jax":
                        njit += 1
                        if njit > 1:
                            continue
                    m.make_model_algebra_cons(kind)
                    made.append((kind, m.model_algebra))
                    batch = (kind, m.batched_forward)
                    phase = max(phase, 1)
                    rec.event("compile-" + kind)
                elif what == "export":
                    n = f"exp{os.getpid()}.c"
                    m.export_c_code(n, CasType=cas.SX if i % 2 else cas.MX)
                    ensure(os.path.getsize(n) > 100, "exported file is empty")
                    os.remove(n)
                    phase = max(phase, 1)
                    rec.event("export")
                elif what == "set":
                    pd = perturb(param_dict(spec), seed)
                    m.set_recursive_params(ParameterTree.from_dict(copy.deepcopy(pd)))
                    phase = max(phase, 2) if phase else 0
                elif what == "session":
                    session = ["numpy", "jax", "casadi"][i % 3]
                    lnp.set_backend(session)
                elif what == "direct":
                    direct(seed)
                elif what == "compiled":
                    for kind, c in made:
                        qd = perturb(param_dict(spec), seed)
                        q = passed(qd, seed)
                        n = 1 + i % 3
                        Z, M = bulk(seed + 1, n, c.num_in, lo=-2, hi=2), bulk(seed + 2, n)
                        if kind == "custom" and session != "numpy":
                            continue  # the custom backend computes in the session's own backend
                        got = c.mapped_constraints(Z, M, flat_params(q) if kind == "casadi" else q)
                        want = [ref_implicit(spec, Z[k], M[k], qd, con) for k in range(n)]
                        close(np.asarray(got).reshape(n, -1), want, f"compiled {kind} with other parameters")
                        phase = 3 if phase == 2 else phase
                elif what == "batch" and batch is not None:
                    kind, fn = batch
                    if kind == "custom" and session != "numpy":
                        continue
                    n = 1 + i % 3
                    X, U, M = bulk(seed + 1, n, nx), bulk(seed + 2, n, nu), bulk(seed + 3, n)
                    for k in range(3):  # the same points with other parameters
                        qd = perturb(param_dict(spec), seed + k)
                        r = fn(X, U, M, passed(qd, seed + i))
                        for g in GROUPS:
                            want = [reference(spec, con, X[k], U[k], M[k], qd)[g] for k in range(n)]
                            close(np.asarray(getattr(r, g)).reshape(n, -1), want, f"batched {kind} {g} with other parameters")
                ensure(lnp.get_backend() == session, f"session backend {session} became {lnp.get_backend()} after {what}")
                now = m.get_recursive_params().to_dict()
                plain(now, f"after {what}")
                eq_dict(now, pd, f"parameters after {what}")
            direct(1)
            ensure(lnp.get_backend() == session, "session backend changed")
            rec.nontrivial(phase >= 2)
    finally:
        lnp.set_backend(old)


class Broken(Exception):
    pass


@P.check(st.tuples(model_spec(depth=1, expr_depth=2), st.lists(st.tuples(
    st.sampled_from(["casadi", "custom", "jax", "export", "unknown"]), st.booleans(), seeds), min_size=1, max_size=4)),
    quick=60, thorough=600, shards=2)
def failures(case, rec):
    """A model that cannot be built, exported or evaluated keeps its parameters, and works once it can."""
    spec, steps = case
    con = tuple(spec["con_outputs"])
    nx, nu = spec["nx"], spec["nu"]
    old = lnp.get_backend()
    with Built(spec, custom=True) as b:
        m = b.model()
        m.set_con_outputs(con)
        works = m.forward
        for i, (what, early, seed) in enumerate(steps):
            pd = perturb(param_dict(spec), seed)
            m.set_recursive_params(ParameterTree.from_dict(copy.deepcopy(pd)))

            def fails(*args, **kwargs):
                if not early:
                    works(*args, **kwargs)
                raise Broken()

            def attempt():
                q = ParameterTree.from_dict(perturb(param_dict(spec), seed + 1))
                if what == "export":
                    m.export_c_code(f"fail{os.getpid()}.c")
                m.make_model_algebra_cons(what)
                X, U, M = bulk(seed + 1, 2, nx), bulk(seed + 2, 2, nu), bulk(seed + 3, 2)
                if seed % 2:
                    m.batched_forward(X, U, M, q)
                m.model_algebra.mapped_constraints(bulk(seed, 2, m.num_implicit_var), M, q)

            m.forward = fails
            must_raise(attempt, f"{what} with a model that fails")
            del m.forward
            label = f"after a failed {what}"
            ensure(lnp.get_backend() == old, f"{label}: session backend {lnp.get_backend()}")
            now = m.get_recursive_params().to_dict()
            plain(now, label)
            eq_dict(now, pd, f"{label}: parameters")
            z = bulk(seed + 4, nx + nu + 1)
            r = m.forward_with_arrays(z[:nx], z[nx:nx + nu], float(z[-1]))
            agree(from_arrays(r), reference(spec, con, z[:nx], z[nx:nx + nu], float(z[-1]), pd), f"{label}: direct evaluation")
            rec.event(what)
            rec.nontrivial(bool(pd["data"] or pd["children"]))
