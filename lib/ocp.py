"""Generated optimal control problems and an independent reference transcription of them."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Polynomial

from lib.gen import bulk, fl, seeds
from lib.models import (Built, all_outputs, all_residuals, model_spec, input_names, param_dict, ref_forward, spec_uses_mesh,
                        state_names)
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig, SimConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.nlp import BaseObjective
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

GROUP_ORDER = ("states", "inputs", "states_dot", "con_outputs")


# ------------------------------------------------------------------ schemes, from their definitions
def scheme(name, m):
    """(stage positions in [0,1], A, B) with residual A x - L B xdot."""
    if name == "ForwardEuler":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[1.0, 0.0]])
    if name == "Trapezoidal":
        return np.array([0.0, 1.0]), np.array([[-1.0, 1.0]]), np.array([[0.5, 0.5]])
    c = [0] * (m - 2) + [1, 1]
    t = np.r_[0.0, (np.sort(-np.polynomial.legendre.legroots(c)) + 1) / 2]
    basis = [Polynomial.fromroots(np.delete(t, i)) / np.prod(t[i] - np.delete(t, i)) for i in range(m)]
    if name == "LGR":
        return t, np.array([[b.deriv()(s) for b in basis] for s in t[1:]]), np.hstack([np.zeros((m - 1, 1)), np.eye(m - 1)])
    ints = [b.integ() for b in basis]
    return t, np.hstack([-np.ones((m - 1, 1)), np.eye(m - 1)]), np.array([[q(s) - q(0.0) for q in ints] for s in t[1:]])


def divisions(ni, lo=0.1, hi=2.0, nd=2):
    """Lengths of the intervals (to be normalised); some divisions are almost uniform."""
    return st.one_of(st.lists(fl(lo, hi, nd), min_size=ni, max_size=ni), st.lists(fl(lo, hi, nd), min_size=ni, max_size=ni),
                     st.lists(st.sampled_from([1.0, 1.0005, 0.9997, 1.000003]), min_size=ni, max_size=ni))


@st.composite
def ocp_spec(draw, backends=("custom",), free=None, condensed=None, cyclic=None, scaled=None, max_ni=3, max_stages=4,
             smooth=True, depth=1, mesh=None, max_x=3, max_u=2, arrays=True, objective=None, expr_depth=2):
    is_free = draw(st.booleans()) if free is None else free
    use_mesh = (not is_free) if mesh is None else mesh
    m = draw(model_spec("ss", depth=depth, smooth=smooth, mesh=use_mesh, max_x=max_x, max_u=max_u, arrays=arrays,
                        expr_depth=expr_depth, max_subs=1))
    m = dict(m, time=draw(st.booleans()), names=draw(st.sampled_from(["plain", "plain", "endings", "starts", "shared"])))
    name = draw(st.sampled_from(["Trapezoidal", "ForwardEuler", "LGR", "LGRIntegral"]))
    ns = draw(st.integers(2, max_stages)) if name.startswith("LGR") else 2
    ni = draw(st.integers(1, max_ni))
    points = draw(st.one_of(st.none(), divisions(ni), divisions(ni)))
    full = [("states", n) for n in state_names(m)] + [("inputs", n) for n in input_names(m)]
    is_cyclic = draw(st.booleans()) if cyclic is None else cyclic
    non_cyclic = draw(st.lists(st.sampled_from([g + "." + n for g, n in full]), unique=True, max_size=2)) if is_cyclic else []
    if is_cyclic and len(non_cyclic) == len(full):
        non_cyclic = non_cyclic[:-1]
    return dict(model=m, free=is_free, trans=name, ns=ns, ni=ni, points=points, cyclic=is_cyclic, non_cyclic=non_cyclic,
                condensed=(draw(st.booleans()) if condensed is None else condensed),
                backend=draw(st.sampled_from(list(backends))), T=draw(fl(0.2, 3.0, 3)),
                objective=draw(st.sampled_from(["default", "custom"])) if objective is None else objective,
                seed=draw(seeds),
                scales=draw(scale_list(m, is_free)) if (draw(st.booleans()) if scaled is None else scaled) else [])


def scale_names(m, is_free):
    names = [("states", n) for n in state_names(m)] + [("inputs", n) for n in input_names(m)]
    names += [("con_outputs", n) for n in m["con_outputs"]]
    names += [("states_dot", n) for n in state_names(m)]
    return names + ([("global", "mesh_scale")] if is_free else [])


def scale_list(m, is_free):
    return st.lists(st.tuples(st.sampled_from(scale_names(m, is_free)), st.sampled_from([0.01, 0.5, 2.0, 3.7, 10.0, 250.0])),
                    max_size=6)


def interval_points(spec):
    if spec["points"] is None:
        return None
    c = np.cumsum(spec["points"])
    p = np.r_[0.0, c / c[-1]]
    p[-1] = 1.0
    return p


def config(spec, **extra):
    tr = (spec["trans"], {"num_stages": spec["ns"]}) if spec["trans"].startswith("LGR") else (spec["trans"],)
    kw = dict(num_intervals=spec["ni"], interval_points=interval_points(spec), transcription=tr, is_cyclic=spec["cyclic"],
              non_cyclic_vars=list(spec["non_cyclic"]), is_condensed=spec["condensed"], backend=spec["backend"],
              scales=tuple(ScaleConfig(g, n, v) for (g, n), v in spec["scales"]),
              con_output_names=tuple(spec["model"]["con_outputs"]))
    kw.update(extra)
    return SimConfig(**kw)


class CustomObjective:
    """A nonlinear objective with hand-written derivatives: linear + bilinear + sines, some positions repeated."""

    def __init__(self, n, seed):
        self.n = n
        k = min(n, 6)
        idx = lambda s, lo=0: (np.floor(bulk(s, k, lo=0, hi=1) * n)).astype(int)
        self.a, self.ai = bulk(seed, k), idx(seed + 1)
        self.b, self.bi, self.bj = bulk(seed + 2, k), idx(seed + 3), idx(seed + 4)
        self.c, self.ci = bulk(seed + 5, k), idx(seed + 6)

    def f(self, x):
        return np.sum(self.a * x[self.ai]) + np.sum(self.b * x[self.bi] * x[self.bj]) + np.sum(self.c * np.sin(x[self.ci]))

    def grad(self, x):
        g = np.zeros(self.n)
        np.add.at(g, self.ai, self.a)
        np.add.at(g, self.bi, self.b * x[self.bj])
        np.add.at(g, self.bj, self.b * x[self.bi])
        np.add.at(g, self.ci, self.c * np.cos(x[self.ci]))
        return g

    def structure(self):
        return np.r_[self.bi, self.bj, self.ci], np.r_[self.bj, self.bi, self.ci]

    def hess(self, x):
        return np.r_[self.b, self.b, -self.c * np.sin(x[self.ci])]

    def objective(self):
        return BaseObjective(num_in=self.n, objective=self.f, gradient=self.grad, hessian=self.hess,
                             hessian_structure=self.structure())


def _custom(base):
    class WithObjective(base):
        _verif_seed = 0

        def _build_objective(self):
            self.add_objective("extra", CustomObjective(self.num_dec, self._verif_seed).objective())
    return WithObjective


FreeCustom, FixedCustom = _custom(ScaledMeshOCP), _custom(FixedMeshOCP)


def make_ocp(spec, model, cfg=None):
    """A lumos problem for the spec around an already built model."""
    cfg = config(spec) if cfg is None else cfg
    custom = uses_custom_objective(spec)
    if spec["free"]:
        cls = FreeCustom if custom else ScaledMeshOCP
        kw = {}
    else:
        cls = FixedCustom if custom else FixedMeshOCP
        kw = {} if spec["T"] == 1.0 else dict(mesh_scale=spec["T"])  # 1 unless given
    if custom:
        cls = type(cls.__name__, (cls,), {"_verif_seed": spec["seed"]})
    return cls(model=model, sim_config=cfg, **kw)


def uses_custom_objective(spec):
    return spec["objective"] == "custom" or (not spec["free"] and not spec["model"].get("time"))


def built(spec):
    return Built(spec["model"], custom=spec["backend"] == "custom")


class Ref:
    """The problem from its definition, in unscaled units; complex-step capable."""

    def __init__(self, spec, params=None, con_outputs=None, T=None):
        self.spec = spec
        m = spec["model"]
        self.m, self.params = m, params or param_dict(m)
        self.con = list(m["con_outputs"] if con_outputs is None else con_outputs)
        self.nx, self.nu, self.nc = m["nx"], m["nu"], len(self.con)
        self.ni, self.ns = spec["ni"], spec["ns"]
        self.N = self.ni * (self.ns - 1) + 1
        self.nv = 2 * self.nx + self.nu + self.nc
        self.free = spec["free"]
        self.T = spec["T"] if T is None else T
        self.num_dec = self.N * self.nv + int(self.free)
        self.tau, self.A, self.B = scheme(spec["trans"], self.ns)
        p = interval_points(spec)
        self.points = np.linspace(0, 1, self.ni + 1) if p is None else p
        self.length = np.diff(self.points)
        self.mesh01 = np.r_[0.0, np.concatenate([a + self.tau[1:] * (b - a) for a, b in zip(self.points, self.points[1:])])]
        self.names = {"states": state_names(m), "inputs": input_names(m),
                      "states_dot": state_names(m), "con_outputs": tuple(self.con)}
        off = np.cumsum([0, self.nx, self.nu, self.nx])
        self.offset = dict(zip(GROUP_ORDER, off))
        self.residuals = all_residuals(m)
        self.obj = CustomObjective(self.num_dec, spec["seed"]) if uses_custom_objective(spec) else None

    def index(self, group, name, stage):
        if group == "global":
            return self.num_dec - 1
        return (stage % self.N) * self.nv + self.offset[group] + self.names[group].index(name)

    def split(self, x):
        s = x[: self.N * self.nv].reshape(self.N, self.nv)
        a, b, c = self.nx, self.nx + self.nu, 2 * self.nx + self.nu
        return s[:, :a], s[:, a:b], s[:, b:c], s[:, c:], (x[-1] if self.free else self.T)

    def forward(self, x):
        X, U, _, _, T = self.split(x)
        return [ref_forward(self.m, list(X[k]), list(U[k]), self.mesh01[k] * T, self.params) for k in range(self.N)]

    def algebra(self, x):
        """(f - xdot, out - con, residuals) per stage."""
        _, _, XD, CO, _ = self.split(x)
        fs = self.forward(x)
        f = np.array([[v for v in fx] for fx, _ in fs]).reshape(self.N, self.nx)
        con = np.array([[o[n] for n in self.con] for _, o in fs]).reshape(self.N, self.nc)
        res = np.array([[o[n] for n in self.residuals] for _, o in fs]).reshape(self.N, len(self.residuals))
        return f, f - XD, con - CO, res

    def continuity(self, x, XD=None):
        X, _, xd, _, T = self.split(x)
        XD = xd if XD is None else XD
        out = []
        for k in range(self.ni):
            sl = slice(k * (self.ns - 1), k * (self.ns - 1) + self.ns)
            out.append(self.A @ X[sl] - self.length[k] * T * (self.B @ XD[sl]))
        return np.array(out)

    def cyclic_names(self):
        return [(g, n) for g in ("states", "inputs") for n in self.names[g] if g + "." + n not in self.spec["non_cyclic"]]

    def cyclic(self, x):
        return np.array([x[self.index(g, n, 0)] - x[self.index(g, n, -1)] for g, n in self.cyclic_names()])

    def parts(self, x):
        f, xd, co, res = self.algebra(x)
        out = {}
        if self.spec["condensed"]:
            out["model_algebra"] = np.concatenate([self.continuity(x, f).ravel(), np.hstack([co, res]).ravel()])
        else:
            out["model_algebra"] = np.hstack([xd, co, res]).ravel()
            out["continuity"] = self.continuity(x).ravel()
        if self.spec["cyclic"]:
            out["cyclic"] = self.cyclic(x)
        return out

    def con_scales(self, scales):
        """Divisors of each part: scale of the state / output an equation belongs to, one elsewhere."""
        table = dict(((g, n), v) for (g, n), v in scales)
        sx = np.array([table.get(("states", n), 1.0) for n in self.names["states"]])
        sc = np.array([table.get(("con_outputs", n), 1.0) for n in self.con])
        one = np.ones(len(self.residuals))
        cont = np.tile(sx, self.N - 1)
        out = {}
        if self.spec["condensed"]:
            out["model_algebra"] = np.r_[cont, np.tile(np.r_[sc, one], self.N)]
        else:
            out["model_algebra"] = np.tile(np.r_[sx, sc, one], self.N)
            out["continuity"] = cont
        if self.spec["cyclic"]:
            out["cyclic"] = np.ones(len(self.cyclic_names()))
        return out

    def var_scales(self, scales):
        s = np.ones(self.num_dec)
        for (g, n), v in scales:
            if g == "global":
                s[-1] = v
            else:
                for k in range(self.N):
                    s[self.index(g, n, k)] = v
        return s

    def objective(self, x):
        if self.obj is not None:
            return self.obj.f(x)
        if self.free:
            return x[-1]
        return x[self.index("states", "time", -1)] - x[self.index("states", "time", 0)]

    def constraints(self, x, order, scales=()):
        p, c = self.parts(x), self.con_scales(scales)
        return np.concatenate([np.ravel(p[k]) / c[k] for k in order])


def enlarged(spec, seed, sizes=(300, 3000, 8000, 34000)):
    """The same problem with so many intervals that it has about one of the given numbers of variables."""
    per = (2 * spec["model"]["nx"] + spec["model"]["nu"] + len(spec["model"]["con_outputs"])) * (spec["ns"] - 1)
    ni = max(2, int(sizes[seed % len(sizes)] * (1 + bulk(seed, 1, lo=0, hi=0.3)[0]) / per))
    return dict(spec, ni=ni, points=None if spec["points"] is None else list(bulk(seed + 1, ni, lo=0.3, hi=2.0)))


class BigRef(Ref):
    """The same, evaluated over all stages at once (smooth models only)."""

    def algebra(self, x):
        X, U, XD, CO, T = self.split(x)
        fx, out = ref_forward(self.m, list(X.T), list(U.T), self.mesh01 * T, self.params)

        def columns(vs):
            cols = [np.broadcast_to(v, (self.N,)) for v in vs]
            return np.array(cols).T if cols else np.zeros((self.N, 0))
        f = columns(fx)
        return f, f - XD, columns(out[n] for n in self.con) - CO, columns(out[n] for n in self.residuals)

    def continuity(self, x, XD=None):
        X, _, xd, _, T = self.split(x)
        XD = xd if XD is None else XD
        k = np.arange(self.ni)[:, None] * (self.ns - 1) + np.arange(self.ns)
        return np.einsum("ab,kbx->kax", self.A, X[k]) - T * np.einsum("ab,kbx,k->kax", self.B, XD[k], self.length)


def point(ref, seed, lo=-1.5, hi=1.5):
    """A random decision vector with a positive mesh scale."""
    x = bulk(seed, ref.num_dec, lo=lo, hi=hi)
    T = 0.3 + abs(x[-1])
    if seed % 5 == 2:       # some entries exactly zero, or whole stages
        if seed % 2:
            x[bulk(seed + 1, ref.num_dec) > 0.2] = 0.0
        else:
            stages = x[: ref.N * ref.nv].reshape(ref.N, ref.nv)
            stages[bulk(seed + 1, ref.N) > 0] = 0.0
    if ref.free:
        x[-1] = T
    return x


def multipliers(ref, order, seed, lo=-1, hi=1):
    """Random multipliers; some entries, blocks of intervals or whole parts exactly zero."""
    sizes = {k: np.size(v) for k, v in ref.parts(np.ones(ref.num_dec)).items()}
    block = (ref.ns - 1) * ref.nx
    out = []
    for i, k in enumerate(order):
        v = bulk(seed + i, sizes[k], lo=lo, hi=hi)
        mode = seed % 4
        if mode == 1:
            v[bulk(seed + i + 20, v.size) > 0] = 0.0
        elif mode == 2 and (k == "continuity" or (k == "model_algebra" and ref.spec["condensed"])):
            for j in np.nonzero(bulk(seed + i + 40, ref.ni) > 0)[0]:
                v[j * block:(j + 1) * block] = 0.0
        elif mode == 3 and seed % 3 == 0:
            v[:] = 0.0 if bulk(seed + i + 60, 1)[0] > 0 else v
        out.append(v)
    return np.concatenate(out)


def neighbour(ref, x, seed):
    """A point that differs from x a little, in all entries, in one kind of variable or only in the mesh scale."""
    y = x.copy()
    eps = 10.0 ** -(3 + seed % 6)
    d = eps * bulk(seed, x.size)
    mode = seed % 7
    groups = ["states", "inputs", "states_dot", "con_outputs"]
    if mode < 4:
        keep = np.zeros(x.size, bool)
        for n in ref.names[groups[mode]]:
            for k in range(ref.N):
                keep[ref.index(groups[mode], n, k)] = True
        d[~keep] = 0.0
    elif mode == 4:
        d[:-1] = 0.0
        d[-1] = eps if ref.free or d[-1] == 0 else d[-1]
    return y + d


def part_order(ocp):
    """Names of the problem's constraint parts in vector order, seen through its public split."""
    return list(ocp.split_constraints(np.arange(float(ocp.num_con))).keys())


def same(a, b):
    """Deep equality of configuration values: types of containers, arrays by value."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if hasattr(a, "__dataclass_fields__"):
        return type(a) is type(b) and same(a.__dict__, b.__dict__)
    return a == b
