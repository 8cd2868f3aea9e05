"""Judging points returned by a solver."""
import numpy as np
from scipy.optimize import lsq_linear

from lib.harness import close, ensure

OPTIONS = dict(print_level=0, tol=1e-9, max_iter=300, fixed_variable_treatment="make_parameter", print_timing_statistics="no",
               acceptable_iter=0, dual_inf_tol=1e-6, compl_inf_tol=1e-7, constr_viol_tol=1e-7)


def kkt(g, J, x, lb, ub, c, cl, cu, label, D=None, S=None, tol=1e-5, near=1e-4, info=None):
    """Feasibility and existence of multipliers at x; residuals are measured in units of the scales.

    Multipliers are those reported, where they certify the point, or else found by bounded least squares (which is less
    accurate for degenerate problems).
    """
    g, J, x, c = (np.asarray(v, dtype=float) for v in (g, J, x, c))
    if D is not None:
        g, J, x, c, lb, ub, cl, cu = g * D, J * D / S[:, None], x / D, c / S, lb / D, ub / D, cl / S, cu / S
    size = 1 + np.abs(x)
    ensure(np.all(x >= lb - tol * size) and np.all(x <= ub + tol * size),
           f"{label}: bounds violated by {np.max(np.maximum(lb - x, x - ub))}")
    # the solution is moved into its bounds, which the solver relaxes by a relative 1e-8, after convergence
    room = tol * (1 + np.abs(c)) + 3e-8 * np.abs(J) @ (1 + np.abs(x))
    ensure(np.all(c >= cl - room) and np.all(c <= cu + room),
           f"{label}: constraints violated by {np.max(np.maximum(cl - c, c - cu))}")
    low, up = x - lb < near * size, ub - x < near * size
    c_low, c_up = c - cl < near * (1 + np.abs(c)), cu - c < near * (1 + np.abs(c))
    cols = [np.eye(len(x))[:, low | up], J.T[:, c_low | c_up]]
    lo = np.r_[np.where(low, -np.inf, 0.0)[low | up], np.where(c_low, -np.inf, 0.0)[c_low | c_up]]
    hi = np.r_[np.where(up, np.inf, 0.0)[low | up], np.where(c_up, np.inf, 0.0)[c_low | c_up]]
    M = np.hstack(cols)
    if M.shape[1]:
        free = np.isinf(lo) & np.isinf(hi)
        r = lsq_linear(M, -g, bounds=(lo, hi), tol=1e-12).x if not np.all(free) else np.linalg.lstsq(M, -g, rcond=None)[0]
        res = g + M @ r
    else:
        res = g
    worst = np.max(np.abs(res)) if len(res) else 0.0
    limit = 20 * tol * (1 + np.max(np.abs(g)))
    if worst >= limit and info is not None:
        # the move by 1e-8 changes the gradient of the Lagrangian in proportion to the multipliers, which are unbounded in
        # degenerate problems (variables and constraints active that determine each other)
        limit += 3e-7 * np.max(np.abs(info["mult_g"]), initial=0.0)
        at_x = np.zeros(len(x))
        at_x[low] -= np.maximum(info["mult_x_L"][low], 0)
        at_x[up] += np.maximum(info["mult_x_U"][up], 0)
        l = np.asarray(info["mult_g"], dtype=float)
        l = np.where(c_low & c_up, l, np.where(c_low, np.minimum(l, 0), np.where(c_up, np.maximum(l, 0), 0)))
        worst = min(worst, np.max(np.abs(g + J.T @ l + at_x)))
    ensure(worst < limit, f"{label}: not stationary, gradient of the Lagrangian is {worst}")


def reported(info, f, g, D, label):
    # the solver may move the solution into its bounds by a relative 1e-8 of a scaled unit
    close(info["obj_val"], f, f"{label}: objective reported", rtol=1e-6, atol=1e-6 * (1 + np.sum(np.abs(g * D))))


def success(info):
    return info["status"] == 0
