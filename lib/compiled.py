"""Evaluating a lumos state-space model through each of its execution paths."""
import casadi as cas
import numpy as np

import lumos.numpy as lnp

GROUPS = ("states_dot", "outputs", "con_outputs", "residuals")


def cas_forward(model, kind=cas.MX):
    """The model as a CasADi function of (states, inputs, mesh, flat parameters)."""
    params = model.get_recursive_params()
    flat, unravel = params.tree_ravel()
    sym = kind.sym("p", len(flat))
    x, u, m = kind.sym("x", model.num_states), kind.sym("u", model.num_inputs), kind.sym("m")
    try:
        with lnp.use_backend("casadi"):
            ret = model.apply_and_forward_with_arrays(x, u, m, unravel(sym))
    finally:
        model.set_recursive_params(params)
    return cas.Function("f", [x, u, m, sym], [cas.densify(kind(getattr(ret, g))) for g in GROUPS])


def flat_params(params):
    return np.asarray(params.tree_ravel()[0], float)


def column(v):
    return np.array(v).reshape(-1)


def from_arrays(ret):
    return {g: np.asarray(getattr(ret, g), float) for g in GROUPS}


def from_dicts(model, ret):
    """Groups of a dictionary-style return, in name order (con_outputs/residuals come from outputs)."""
    out = {"states_dot": [ret.states_dot[n] for n in model.get_group_names("states_dot")]}
    for g in ("outputs", "con_outputs", "residuals"):
        out[g] = [ret.outputs[n] for n in model.get_group_names(g)]
    return {k: np.array([float(v) for v in vs]) for k, vs in out.items()}


def dense(rows, cols, vals, shape):
    """Sum triplets into a dense array; positions outside are an error of the structure."""
    rows, cols, vals = np.ravel(rows).astype(int), np.ravel(cols).astype(int), np.ravel(np.asarray(vals, float))
    if not (rows.size == cols.size == vals.size):
        raise ValueError(f"structure sizes {rows.size}, {cols.size} and values {vals.size} differ")
    if rows.size and (rows.min() < 0 or cols.min() < 0 or rows.max() >= shape[0] or cols.max() >= shape[1]):
        raise ValueError(f"structure positions outside {shape}")
    out = np.zeros(shape)
    np.add.at(out, (rows, cols), vals)
    return out
