"""C16: the mesh is valid and matches the requested intervals."""
import numpy as np
from hypothesis import strategies as st

from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.models import Built
from lib.ocp import Ref, config, divisions, interval_points, make_ocp
from lumos.models.composition import ModelMaker

P = Property("C16", rule=(
    "Every scheme, 2-7 stages, 1-8 intervals, default or random interval points, a history of 0-4 mesh-scale changes (fixed) or "
    "decision vectors (free) and of 0-3 re-divisions, malformed point lists, and "
    "edits of returned meshes. Non-trivial: at least two intervals of "
    "unequal length."))

MODEL = dict(kind="ss", nx=1, nu=1, params={}, subs=[], outputs=[], residuals=[], con_outputs=[], time=True,
             xdot=[("add", ("u", 0), ("mul", ("c", 0.5), ("m",)))])
CASE = st.tuples(st.sampled_from(["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"]), st.integers(2, 7), st.integers(1, 8),
                 st.booleans(), st.lists(st.one_of(divisions(8, 0.05, 2.0, 3), divisions(8, 0.05, 2.0, 3), st.lists(st.sampled_from([1.0, 0.3, 1e-2, 1e-3, 2e-4]), min_size=8, max_size=8)), max_size=3), st.booleans(),
                 st.lists(st.one_of(st.just(1.0), fl(0.01, 500), fl(0.01, 500)), min_size=1, max_size=4), seeds, st.integers(0, 40))

_b = None


def model():
    global _b
    if _b is None:
        _b = Built(MODEL, custom=True)
        _b.__enter__()
    return _b.model()


def check_mesh(ref, mesh, T, label):
    mesh = np.asarray(mesh, float)
    ensure(mesh.shape == (ref.N,), f"{label}: {mesh.shape} points for {ref.N} stages")
    ensure(abs(mesh[0]) < 1e-12 * T and abs(mesh[-1] - T) <= 1e-13 * T, f"{label}: ends {mesh[0]}, {mesh[-1]} for scale {T}")
    ensure(np.all(np.diff(mesh) > 0), f"{label}: not increasing: {mesh}")
    close(mesh[:: ref.ns - 1], ref.points * T, f"{label}: interval boundaries", rtol=1e-13, atol=1e-14 * T)
    close(mesh, ref.mesh01 * T, f"{label}: stage points", rtol=1e-12, atol=1e-12 * T)


@P.check(CASE, quick=120, thorough=2500, shards=3)
def meshes(case, rec):
    trans, ns, ni, default, divisions, free, scales, seed, bad = case
    ns = ns if trans.startswith("LGR") else 2
    spec = dict(model=MODEL, free=free, trans=trans, ns=ns, ni=ni, cyclic=False, non_cyclic=[], condensed=False,
                backend="custom", T=scales[0], objective="default", seed=seed, scales=[],
                points=None if default or not divisions else divisions[0][:ni])
    ocp = make_ocp(spec, model())
    history = [spec["points"]] + [d[:ni] for d in divisions[1:]]
    for k, pts in enumerate(history):
        ref = Ref(dict(spec, points=pts))
        if k:
            given = interval_points(dict(spec, points=pts))
            ocp.set_normalized_mesh(given)
            if isinstance(given, np.ndarray):
                given *= 0.5  # the division stays the one given
        for j, T in enumerate(scales):
            label = f"{trans} with {ns} stages, {ni} intervals, division {k}, scale {T}"
            if free:
                x = bulk(seed + j, ref.num_dec)
                x[-1] = T
                check_mesh(ref, ocp.get_mesh_from_dec_var(x), T, label)
            else:
                if k or j:
                    ocp.set_mesh_scale(T)
                check_mesh(ref, ocp.get_mesh(), T, label)
                check_mesh(ref, ocp.get_mesh_from_dec_var(bulk(seed, ref.num_dec)), T, label)
            mesh = ocp.get_mesh_from_scale(T)
            check_mesh(ref, mesh, T, label)
            # each answer is the caller's own: later ones and edits of it leave the others as they are
            kept = np.array(mesh)
            other = ocp.get_mesh_from_scale(2.5 * T)
            check_mesh(ref, other, 2.5 * T, label)
            close(mesh, kept, f"{label}: mesh returned before", rtol=0, atol=0)
            if isinstance(other, np.ndarray) and other.flags.writeable:
                other[...] = -1.0
            one = ocp.get_mesh_from_scale(1.0)
            check_mesh(ref, one, 1.0, label)
            if isinstance(one, np.ndarray) and one.flags.writeable:
                one *= 0.5
            check_mesh(ref, ocp.get_mesh_from_scale(1.0), 1.0, label + ", after editing a returned mesh")
            # the mesh is what the equations see: state x with xdot = u + mesh/2, all other variables zero
            z = np.zeros(ref.num_dec)
            if free:
                z[-1] = T
            parts = ocp.split_constraints(ocp.constraints(z))
            close(parts["model_algebra"], 0.5 * ref.mesh01 * T, f"{label}: mesh in the equations", rtol=1e-12, atol=1e-12 * T)
    # malformed divisions are rejected, both when changing and when building
    p = np.linspace(0, 1, ni + 1)
    q = interval_points(dict(spec, points=history[-1]))
    q = p if q is None else np.asarray(q, float)

    def with_(a, i, v):
        a = a.copy()
        a[i] = v
        return a
    kinds = [np.r_[p, 1.5], p[:-1], p[1:], q + 0.01, q * 1.01, q * 0.98, np.r_[0.0, q[1:][::-1]] if ni > 1 else None,
             with_(q, 0, -0.3), with_(q, 0, max(1e-3 * q[1], 1e-5)), with_(q, -1, 1.2), with_(q, -1, q[-2] / 2 + 0.5), with_(q, 0, q[1]),
             with_(q, -1, q[-2]), -q, q[::-1].copy(), with_(q, 0, np.nan), with_(q, -1, np.nan), with_(q, -1, np.inf), q - 1.0]
    if ni > 1:
        k = 1 + seed % (ni - 1)
        kinds += [with_(q, k, q[k - 1]), with_(q, k, q[k + 1]), with_(q, k, q[k - 1] - 1e-3), with_(q, k, np.nan),
                  with_(q, k, 1.5), with_(q, k, -0.5)]
    kinds = [b for b in kinds if b is not None]
    for b in kinds:
        must_raise(lambda: ocp.set_normalized_mesh(b), f"division {b}", (ValueError,))
        rec.event("rejected division")
    b = kinds[bad % len(kinds)]
    must_raise(lambda: make_ocp(spec, model(), config(spec, interval_points=b)), f"division {b}", (ValueError,))
    if not free:
        check_mesh(ref, ocp.get_mesh(), scales[-1], "after a rejected division")
    rec.event(trans)
    rec.event("free" if free else "fixed")
    rec.nontrivial(ni > 1 and history[-1] is not None)
