"""C21: scaling only changes units."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from checks.c18 import verify
from lib.compiled import dense
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lib.ocp import Ref, built, config, make_ocp, ocp_spec, part_order, point, scale_list, scale_names
from lib.solver import replaced
from lumos.optimal_control.config import BoundConfig, ScaleConfig

P = Property("C21", rule=(
    "Every generated configuration (schemes, fixed/free mesh, lifted/condensed, cyclic) goes through a history of 1-4 scale "
    "assignments over states, inputs, state derivatives, constraint outputs and the mesh scale, with repeated and removed "
    "entries; after each one all values and derivatives are compared with those of an unscaled twin through the chain "
    "rule, the bounds must not move, and a recording stand-in for the solver must receive scaled bounds and starting point and "
    "have its answer unscaled. Non-trivial: at least two assignments that differ in which variables they scale."))


def to_configs(scales):
    return tuple(ScaleConfig(g, n, v) for (g, n), v in scales)


class RecordingSolver:
    """Stand-in for cyipopt.Problem: keeps what it was given and answers with a fixed point."""
    made = []

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.n, self.m, self.lb, self.ub, self.cl, self.cu = n, m, lb, ub, cl, cu
        self.x0 = None
        RecordingSolver.made.append(self)

    def add_option(self, *a):
        pass

    def solve(self, x0, lagrange=[], zl=[], zu=[]):
        self.x0 = np.array(x0)
        self.answer = bulk(self.n, self.n)
        return self.answer.copy(), {"status": 0, "status_msg": b"", "x": self.answer}


@contextlib.contextmanager
def recorded_solver():
    RecordingSolver.made = []
    with replaced(RecordingSolver):
        yield RecordingSolver.made


def against_twin(ocp, twin, ref, scales, seed, label):
    s = ref.var_scales(scales)
    order = part_order(ocp)
    c = np.concatenate([np.ravel(ref.con_scales(scales)[k]) for k in order])
    x = point(ref, seed)
    z = x / s
    n, m = ocp.num_dec, ocp.num_con
    ensure(order == part_order(twin), f"{label}: parts {order}")
    close(ocp.objective(z), twin.objective(x), f"{label}: objective", rtol=1e-9, atol=1e-9, shape=False)
    close(ocp.gradient(z), twin.gradient(x) * s, f"{label}: gradient", rtol=1e-9, atol=1e-9)
    close(ocp.constraints(z), twin.constraints(x) / c, f"{label}: constraints {order}", rtol=1e-8, atol=1e-8 / np.min(c))
    J = dense(*ocp.jacobianstructure(), ocp.jacobian(z), (m, n))
    J0 = dense(*twin.jacobianstructure(), twin.jacobian(x), (m, n))
    want = J0 * s / c[:, None]
    close(J, want, f"{label}: Jacobian", rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(want))))
    lag, of = bulk(seed + 1, m), float(bulk(seed + 2, 1)[0])
    H = dense(*ocp.hessianstructure(), ocp.hessian(z, lag, of), (n, n))
    H0 = dense(*twin.hessianstructure(), twin.hessian(x, lag / c, of), (n, n))
    want = H0 * np.outer(s, s)
    close(H, want, f"{label}: Hessian", rtol=1e-7, atol=1e-9 * (1 + np.max(np.abs(want))))


def history(spec, steps, bounds, seed, rec, full):
    ref = Ref(spec)
    bc = tuple(BoundConfig(g, n, v) for (g, n), v in bounds)
    with built(spec) as b:
        ocp = make_ocp(spec, b.model(), config(spec, bounds=bc))
        twin = make_ocp(spec, b.model(), config(spec, bounds=bc, scales=()))
        steps = list(steps)
        if seed % 3 == 0 and (steps or [spec["scales"]])[-1]:
            # the scales in force, moved by very little
            steps.append([(n, v * (1 + 3e-7 * (seed % 7 - 3))) for n, v in (steps or [spec["scales"]])[-1]])
        elif seed % 3 == 1 and steps and steps[-1]:
            # the last configurations once more, edited where they are
            steps.append([(n, v * (2.5 if i == 0 else 1.0)) for i, (n, v) in enumerate(steps[-1])])
        for k, scales in enumerate([spec["scales"]] + steps):
            if k:
                if seed % 3 == 1 and k == len(steps) and k > 1 and len(steps[-2]) == len(scales):
                    for g, (_, v) in zip(given, scales):
                        g.value = v
                    rec.event("edited in place")
                else:
                    given = to_configs(scales)
                ocp.set_scales(given)
            against_twin(ocp, twin, ref, scales, seed + k, f"assignment {k}")
            close(np.r_[ocp.lb, ocp.ub], np.r_[twin.lb, twin.ub], f"assignment {k}: bounds in unscaled units")
            if full:
                verify(spec, ocp, ref, scales, point(ref, seed) / ref.var_scales(scales), seed, rec, f"assignment {k}: ")
            s = ref.var_scales(scales)
            x0 = point(ref, seed + 9)
            with recorded_solver() as made:
                sol, info = ocp.solve(init_guess=x0.copy(), print_level=0)
            if made and made[-1].x0 is not None:
                r = made[-1]
                close(r.x0, x0 / s, f"assignment {k}: starting point given to the solver")
                close(np.r_[r.lb, r.ub], np.r_[ocp.lb / s, ocp.ub / s], f"assignment {k}: bounds given to the solver")
                close(sol, r.answer * s, f"assignment {k}: returned point")
                rec.event("solver recorded")
    keys = [frozenset(n for n, _ in sc) for sc in [spec["scales"]] + steps]
    for e in (spec["trans"], "free" if spec["free"] else "fixed", "condensed" if spec["condensed"] else "lifted"):
        rec.event(e)
    rec.nontrivial(len(set(keys)) > 1)


@st.composite
def case(draw, **kw):
    spec = draw(ocp_spec(**kw))
    m = spec["model"]
    steps = draw(st.lists(scale_list(m, spec["free"]), min_size=1, max_size=3))
    names = [n for n in scale_names(m, spec["free"]) if n[0] in ("states", "inputs", "con_outputs")]
    bounds = draw(st.lists(st.tuples(st.sampled_from(names), st.tuples(fl(-9, 0), fl(0, 9))), max_size=3))
    return spec, steps, bounds, draw(seeds)


@P.check(case(max_stages=4), quick=60, thorough=800, shards=6)
def handwritten(c, rec):
    history(*c, rec, full=False)


@P.check(case(max_ni=2, max_stages=3), quick=15, thorough=200, shards=2)
def handwritten_reference(c, rec):
    history(*c, rec, full=True)


@P.check(case(backends=("casadi",), max_ni=2), quick=8, thorough=120, shards=3)
def compiled_casadi(c, rec):
    history(*c, rec, full=False)
