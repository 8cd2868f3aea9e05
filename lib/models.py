"""Generated model programs: a spec (plain data) <-> a lumos model class, plus an independent
NumPy reference interpreter (complex-step capable)."""
import itertools

import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.gen import fl, finite
from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io,
                               state_space_io)
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ParameterTree

_counter = itertools.count()

# ------------------------------------------------------------------ expressions
SMOOTH1 = ["sin", "cos", "tanh", "exps", "sqrt1", "sq", "atan", "neg", "logs"]
NONSMOOTH1 = ["abs", "sign0", "clip"]
SMOOTH2 = ["add", "sub", "mul", "mul", "divs"]
NONSMOOTH2 = ["max", "min", "where", "atan2"]


class RefNS:
    """Reference functions (complex-step safe for the smooth ones)."""
    sin, cos, tanh, exp, sqrt, log, arctan = np.sin, np.cos, np.tanh, np.exp, np.sqrt, np.log, np.arctan
    maximum, minimum, abs, arctan2 = np.maximum, np.minimum, np.abs, np.arctan2

    @staticmethod
    def where(c, a, b):
        return a if c else b

    @staticmethod
    def matvec(w, v):
        w = np.asarray(w)
        return [sum(w[i, j] * v[j] for j in range(w.shape[1])) for i in range(w.shape[0])]

    @staticmethod
    def dot(w, v):
        w = np.asarray(w)
        return sum(w[j] * v[j] for j in range(len(v)))

    @staticmethod
    def array(vs):
        return list(vs)


class LumosNS:
    """The same through lumos' switchable namespace."""
    def __getattr__(self, name):
        return getattr(lnp, name)

    @staticmethod
    def matvec(w, v):
        return w @ v

    @staticmethod
    def dot(w, v):
        return lnp.dot(w, v)

    @staticmethod
    def array(vs):
        return lnp.array(list(vs))


REF, LUM = RefNS(), LumosNS()


def ev(e, env, ns):
    k = e[0]
    if k == "c":
        return e[1]
    if k == "x":
        return env["x"][e[1]]
    if k == "u":
        return env["u"][e[1]]
    if k == "m":
        return env["m"]
    if k == "p":
        return env["p"][e[1]]
    if k == "pe":
        v = env["p"][e[1]]
        return v[e[2]]
    if k == "pm":
        v = env["p"][e[1]]
        return v[e[2], e[3]]
    if k == "so":
        return env["s"][e[1]][e[2]]
    if k == "dot":
        return ns.dot(env["p"][e[1]], ns.array([ev(a, env, ns) for a in e[2]]))
    if k == "mv":
        return ns.matvec(env["p"][e[1]], ns.array([ev(a, env, ns) for a in e[2]]))[e[3]]
    a = ev(e[1], env, ns)
    if k == "sin":
        return ns.sin(a)
    if k == "cos":
        return ns.cos(a)
    if k == "tanh":
        return ns.tanh(a)
    if k == "exps":
        return ns.exp(0.3 * ns.sin(a))
    if k == "sqrt1":
        return ns.sqrt(1.0 + a * a)
    if k == "sq":
        return a**2
    if k == "atan":
        return ns.arctan(a)
    if k == "logs":
        return ns.log(2.0 + ns.sin(a))
    if k == "neg":
        return -a
    if k == "abs":
        return ns.abs(a)
    if k == "sign0":
        return ns.where(a > 0.0, a, 0.1 * a)
    if k == "clip":
        return ns.minimum(ns.maximum(a, -0.75), 0.75)
    b = ev(e[2], env, ns)
    if k == "add":
        return a + b
    if k == "sub":
        return a - b
    if k == "mul":
        return a * b
    if k == "divs":
        return a / (1.5 + ns.cos(b) ** 2)
    if k == "max":
        return ns.maximum(a, b)
    if k == "min":
        return ns.minimum(a, b)
    if k == "where":
        return ns.where(a > b, a * 2.0 - b, b)  # continuous: rounding at a tie does not matter
    if k == "atan2":
        return ns.arctan2(a, 0.1 + ns.abs(b))  # away from the branch cut
    raise ValueError(k)


def uses(e, kind):
    return e[0] == kind or any(isinstance(a, tuple) and uses(a, kind) for a in e[1:]) or any(
        isinstance(a, list) and any(uses(b, kind) for b in a) for a in e[1:])


@st.composite
def expr(draw, leaves, depth, smooth=True, multi=()):
    """leaves: list of leaf strategies/tuples; multi: list of (kind, name, shape) array parameters."""
    if depth <= 0 or draw(st.integers(0, 9)) < 2:
        return draw(st.sampled_from(leaves)) if draw(st.integers(0, 5)) else ("c", draw(fl(-2, 2, 2)))
    opts = ["1", "2", "2", "2"] + (["m"] if multi else [])
    o = draw(st.sampled_from(opts))
    if o == "m":
        kind, name, shape = draw(st.sampled_from(multi))
        var = [l for l in leaves if l[0] in ("x", "u")]
        n = shape[-1]
        args = [draw(st.sampled_from(var)) for _ in range(n)]
        if draw(st.booleans()):
            args[0] = ("mul", args[0], draw(st.sampled_from(leaves)))
        return ("dot", name, args) if kind == "vec" else ("mv", name, args, draw(st.integers(0, shape[0] - 1)))
    if o == "1":
        f = draw(st.sampled_from(SMOOTH1 + ([] if smooth else NONSMOOTH1)))
        return (f, draw(expr(leaves, depth - 1, smooth, multi)))
    f = draw(st.sampled_from(SMOOTH2 + ([] if smooth else NONSMOOTH2)))
    return (f, draw(expr(leaves, depth - 1, smooth, multi)), draw(expr(leaves, depth - 1, smooth, multi)))


# ------------------------------------------------------------------ model specs
@st.composite
def param_specs(draw, arrays=True, max_n=3):
    out = {}
    for i in range(draw(st.integers(0, max_n))):
        kind = draw(st.sampled_from(["s", "s", "vec", "mat"] if arrays else ["s"]))
        if kind == "s":
            out[f"p{i}"] = ("s", draw(fl(-2, 2, 3)))
        else:
            shape = (draw(st.integers(1, 3)),) if kind == "vec" else (draw(st.integers(1, 3)), draw(st.integers(1, 3)))
            n = int(np.prod(shape))
            out[f"p{i}"] = ("a", shape, draw(st.lists(fl(-2, 2, 3), min_size=n, max_size=n)))
    return out


def _leaves(nx, nu, params, subs, mesh):
    lv = [("x", i) for i in range(nx)] + [("u", i) for i in range(nu)]
    multi = []
    for n, v in params.items():
        if v[0] == "s":
            lv.append(("p", n))
        elif len(v[1]) == 1:
            lv += [("pe", n, i) for i in range(v[1][0])]
            multi.append(("vec", n, v[1]))
        else:
            lv += [("pm", n, i, j) for i in range(v[1][0]) for j in range(v[1][1])]
            multi.append(("mat", n, v[1]))
    for s in subs:
        lv += [("so", s["name"], o) for o in all_outputs(s["spec"])]
    if mesh:
        lv.append(("m",))
    return lv, multi


def all_outputs(spec):
    return [f"o{i}" for i in range(len(spec["outputs"]))] + [
        s["name"] + "." + o for s in spec["subs"] for o in all_outputs(s["spec"])]


def all_residuals(spec):
    return list(spec["residuals"]) + [
        s["name"] + "." + o for s in spec["subs"] for o in all_residuals(s["spec"])]


@st.composite
def model_spec(draw, kind="ss", depth=1, smooth=True, arrays=True, mesh=True, max_x=3, max_u=2, residuals=True,
               max_subs=2, expr_depth=3, min_u=0):
    nx = draw(st.integers(1, max_x)) if kind == "ss" else 0
    nu = draw(st.integers(min_u if kind == "ss" else 1, max_u))
    params = draw(param_specs(arrays))
    base, multi = _leaves(nx, nu, params, [], mesh and kind == "ss")
    subs = []
    if depth > 0:
        for i in range(draw(st.integers(0, max_subs))):
            sk = draw(st.sampled_from(["static", "static", "ss"])) if kind == "ss" else "static"
            sspec = draw(model_spec(sk, depth - 1, smooth, arrays, mesh, 2, 2, residuals, 1, 2))
            seen, smulti = _leaves(nx, nu, params, subs, mesh and kind == "ss")
            subs.append(dict(name=f"s{i}", spec=sspec,
                             x=[draw(expr(seen, 1, smooth, smulti)) for _ in range(sspec["nx"])],
                             u=[draw(expr(seen, 1, smooth, smulti)) for _ in range(sspec["nu"])]))
    lv, multi = _leaves(nx, nu, params, subs, mesh and kind == "ss")
    var = [l for l in base if l[0] in "xu"]

    def with_var(e):
        # keep every returned entry an expression of the inputs
        return ("add", e, ("mul", ("c", 0.5), draw(st.sampled_from(var))))

    no = draw(st.sampled_from([2, 1, 3, 0] if kind == "ss" else [1, 2, 3]))
    outputs = [with_var(draw(expr(lv, expr_depth, smooth, multi))) for _ in range(no)]
    xdot = [with_var(draw(expr(lv, expr_depth, smooth, multi))) for _ in range(nx)]
    res = draw(st.lists(st.sampled_from([f"o{i}" for i in range(no)]), unique=True, min_size=draw(st.integers(0, min(no, 1))), max_size=2)) if residuals and no else []
    spec = dict(kind=kind, nx=nx, nu=nu, params=params, subs=subs, outputs=outputs, xdot=xdot, residuals=res,
                shuffle=draw(st.integers(0, 3)))
    if kind == "ss":
        ao = all_outputs(spec)
        spec["con_outputs"] = draw(st.lists(st.sampled_from(ao), unique=True, min_size=draw(st.integers(0, min(2, len(ao)))),
                                              max_size=3)) if ao else []
    return spec


@st.composite
def some_constant(draw, base):
    """Models of which some have entries that are constant (zero, for instance)."""
    spec = draw(base)
    if draw(st.integers(0, 2)) == 0:
        for k in ("xdot", "outputs"):
            spec[k] = [("c", draw(st.sampled_from([0.0, 0.0, 1.0]))) if draw(st.integers(0, 2)) == 0 else e for e in spec[k]]
    return spec


# naming styles of the variables of a model: plain, names that end in one another, the same names in two groups
NAMES = {"plain": (tuple(f"x{i}" for i in range(20)), tuple(f"u{i}" for i in range(20))), "endings": (("v", "dv", "v_dv"), ("dv_v", "u", "u_v")),
         "starts": (("x", "x_dot", "x_d"), ("x_", "x_dot_", "t")), "shared": (("x0", "x1", "x2"), ("x1", "x0", "x2"))}


def state_names(spec):
    names = NAMES[spec.get("names", "plain")][0]
    return tuple("time" if i == 0 and spec.get("time") else names[i] for i in range(spec["nx"]))


def input_names(spec):
    return NAMES[spec.get("names", "plain")][1][:spec["nu"]]


def spec_uses_mesh(spec):
    return any(uses(e, "m") for e in spec["outputs"] + spec["xdot"]) or any(
        any(uses(e, "m") for e in s["x"] + s["u"]) or spec_uses_mesh(s["spec"]) for s in spec["subs"])


# ------------------------------------------------------------------ reference semantics
def live(v):
    return v[1] if v[0] == "s" else np.array(v[2], float).reshape(v[1])


def param_dict(spec):
    return {"data": {k: live(v) for k, v in spec["params"].items()},
            "children": {s["name"]: param_dict(s["spec"]) for s in spec["subs"]}}


def ref_forward(spec, x, u, m, params):
    """params: nested dict {'data','children'}. Returns (xdot list, {output name: value})."""
    env = dict(x=x, u=u, m=m, p=params["data"], s={})
    so = {}
    for s in spec["subs"]:
        sx = [ev(e, env, REF) for e in s["x"]]
        su = [ev(e, env, REF) for e in s["u"]]
        _, out = ref_forward(s["spec"], sx, su, m, params["children"][s["name"]])
        env["s"][s["name"]] = out
        so.update({s["name"] + "." + k: v for k, v in out.items()})
    out = {f"o{i}": ev(e, env, REF) for i, e in enumerate(spec["outputs"])}
    out.update(so)
    return [ev(e, env, REF) for e in spec["xdot"]], out


def ref_implicit(spec, flat, m, params, con_outputs=None):
    """Stage equations from the flat stage variables [states, inputs, states_dot, con_outputs]."""
    con_outputs = spec["con_outputs"] if con_outputs is None else con_outputs
    nx, nu = spec["nx"], spec["nu"]
    x, u = flat[:nx], flat[nx:nx + nu]
    xd, co = flat[nx + nu:2 * nx + nu], flat[2 * nx + nu:]
    xdot, out = ref_forward(spec, x, u, m, params)
    return np.array([a - b for a, b in zip(xdot, xd)] + [out[n] - c for n, c in zip(con_outputs, co)]
                    + [out[n] for n in all_residuals(spec)])


def cs_jac(f, x, h=1e-30):
    """Complex-step Jacobian (exact to rounding) of a NumPy function of a 1-D array."""
    x = np.asarray(x, float)
    cols = []
    for i in range(len(x)):
        z = x.astype(complex)
        z[i] += 1j * h
        cols.append(np.imag(np.asarray(f(z))) / h)
    return np.array(cols).T if cols else np.zeros((len(np.asarray(f(x))), 0))


def cs_hess(f, x, h=1e-4):
    """Hessian of a scalar function: 4th-order central difference of the complex-step gradient."""
    x = np.asarray(x, float)

    def g(y):
        return cs_jac(lambda z: np.array([f(z)]), y)[0]
    H = np.zeros((len(x), len(x)))
    for i in range(len(x)):
        d = np.zeros(len(x))
        d[i] = h
        H[i] = (8 * (g(x + d) - g(x - d)) - (g(x + 2 * d) - g(x - 2 * d))) / (12 * h)
    return 0.5 * (H + H.T)


# ------------------------------------------------------------------ lumos model classes
def _sub_names(spec):
    return {s["name"]: s["_cls"] for s in spec["subs"]}


def _forward(model, spec, x, u, m):
    env = dict(x=x, u=u, m=m, p=model._params, s={})
    for s in spec["subs"]:
        kw = dict(inputs={f"u{i}": ev(e, env, LUM) for i, e in enumerate(s["u"])})
        if s["spec"]["kind"] == "ss":
            kw["states"] = {f"x{i}": ev(e, env, LUM) for i, e in enumerate(s["x"])}
            kw["mesh"] = m
        env["s"][s["name"]] = model.call_submodel(s["name"], **kw).outputs
    return {f"o{i}": ev(e, env, LUM) for i, e in enumerate(spec["outputs"])}, [ev(e, env, LUM) for e in spec["xdot"]]


def custom_derivatives(spec):
    """Hand-written derivatives for the custom backend, from the reference interpreter (documented signatures).

    The first-derivative structure is full, row by row; the second-derivative structure is full over states and
    inputs, both triangles.
    """
    nx, nu = spec["nx"], spec["nu"]

    def con(self):
        return tuple(self.get_group_names("con_outputs"))

    def jac(self, flat_vars, mesh, params):
        self.set_recursive_params(params)
        pd = params.to_dict()
        return cs_jac(lambda z: ref_implicit(spec, z, mesh, pd, con(self)), flat_vars).ravel()

    def hess(self, flat_vars, mesh, params, mult):
        self.set_recursive_params(params)
        pd = params.to_dict()
        z0 = np.array(flat_vars, float)

        def f(v):
            z = z0.astype(complex)
            z[:nx + nu] = v
            return np.dot(mult, ref_implicit(spec, z, mesh, pd, con(self)))
        return cs_hess(f, z0[:nx + nu]).ravel()

    def jstruct(self):
        return np.nonzero(np.ones((self.num_implicit_res, self.num_implicit_var)))

    def hstruct(self):
        return np.nonzero(np.ones((nx + nu, nx + nu)))
    return dict(_implicit_jac=jac, _implicit_hess=hess, _implicit_jacobianstructure=jstruct,
                _implicit_hessianstructure=hstruct)


def shuffled(d, spec):
    """A dictionary of returned values in another order (a model is free to return them in any)."""
    k = spec.get("shuffle", 0)
    items = list(d.items())
    if k == 1:
        items = items[::-1]
    elif k == 2:
        items = items[1:] + items[:1]
    return dict(items)


class Built:
    """Registers the classes of a spec; use as a context manager."""

    def __init__(self, spec, custom=False):
        self.spec = spec
        self.custom = custom
        self.classes = []

    def __enter__(self):
        self.cls = self._make(self.spec)
        return self

    def __exit__(self, *exc):
        for c in self.classes:
            try:
                ModelMaker.remove_from_registry(c)
            except KeyError:
                pass

    def model(self):
        return ModelMaker.make_model_from_name(self.cls.__name__)

    def variant(self, sub, spec):
        """The model with another type, of the same inputs and at least the same outputs, in the slot of a submodel."""
        config = ModelMaker.make_config(self.cls.__name__)
        config.replace_subtree(sub, ModelMaker.make_config(self._make(spec).__name__))
        return ModelMaker.make_model_from_config(config)

    def params(self):
        return ParameterTree.from_dict(param_dict(self.spec))

    def _make(self, spec):
        subs = {s["name"]: self._make(s["spec"]).__name__ for s in spec["subs"]}
        name = f"Gen{next(_counter)}"
        onames = tuple(f"o{i}" for i in range(len(spec["outputs"])))
        inames = input_names(spec)

        body = dict(get_default_params=classmethod(lambda cls: {k: live(v) for k, v in spec["params"].items()}),
                    get_default_submodel_config=classmethod(lambda cls: dict(subs)))
        if spec["kind"] == "ss":
            def forward(self, states, inputs, mesh):
                x = [states[n] for n in state_names(spec)]
                u = [inputs[n] for n in input_names(spec)]
                out, xd = _forward(self, spec, x, u, mesh)
                return StateSpaceModelReturn(
                    states_dot=self.make_dict("states_dot", **shuffled(dict(zip(state_names(spec), xd)), spec)),
                    outputs=self.make_outputs_dict(**shuffled(out, spec)))
            body["forward"] = forward
            if self.custom and spec is self.spec:
                body.update(custom_derivatives(spec))
            cls = type(name, (StateSpaceModel,), body)
            cls = state_space_io(states=state_names(spec), inputs=inames, outputs=onames,
                                 residuals=tuple(spec["residuals"]))(cls)
        else:
            def forward(self, inputs):
                u = [inputs[n] for n in input_names(spec)]
                out, _ = _forward(self, spec, [], u, None)
                return ModelReturn(outputs=self.make_outputs_dict(**shuffled(out, spec)))
            body["forward"] = forward
            cls = type(name, (Model,), body)
            cls = model_io(inputs=inames, outputs=onames, residuals=tuple(spec["residuals"]))(cls)
        ModelMaker.add_to_registry(cls)
        self.classes.append(cls)
        return cls
