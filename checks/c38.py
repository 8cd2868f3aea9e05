"""C38: compiled libraries belong to their model, whatever happened while they were made."""
import atexit
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from lib.builds import Builder
from lib.gen import bulk, fl, seeds
from lib.harness import HarnessError, Property, Violation, close
from lib.models import model_spec
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
import lumos.numpy as lnp

P = Property("C38", rule=(
    "Histories of casadi builds of generated models (mostly of one shape with other numbers in them) in one directory, "
    "by real processes and with an injected compiler: it fails, is missing, is killed after writing part of the "
    "library, takes the building process with it, or another process builds a model in the same directory before, "
    "during or after it. Each build that reports success computes its own model (all models built so far are "
    "evaluated again after each step, against an interpreter); undisturbed builds succeed. Non-trivial: the injected "
    "compiler ran, and a build followed it."))

_builder = None
_count = itertools.count()


def builder():
    global _builder
    if _builder is None:
        try:
            _builder = Builder()
        except RuntimeError as e:
            raise HarnessError(str(e))
        atexit.register(_builder.close)
    return _builder


def sibling(spec, c, how):
    """A model of the same shape with another number in it."""
    s = dict(spec)
    if how == 0 or not s["outputs"]:
        s["xdot"] = [("add", e, ("c", c)) for e in s["xdot"]]
    elif how == 1:
        s["outputs"] = [("add", e, ("c", c)) for e in s["outputs"]]
    else:
        s["xdot"] = [("mul", e, ("c", 1.0 + c)) for e in s["xdot"]]
        s["outputs"] = [("sub", e, ("c", c)) for e in s["outputs"]]
    return s


FAULTS = ["fail", "half-fails", "killed", "all-killed", "missing"]
RACES = ["before", "middle", "after"]


@st.composite
def histories(draw):
    base = draw(model_spec(depth=1, smooth=True, max_subs=1, expr_depth=2))
    n = draw(st.integers(2, 3))
    specs = [base] + [sibling(base, draw(fl(0.1, 0.9, 3)) * (k + 1), draw(st.integers(0, 2))) for k in range(n - 1)]
    if draw(st.integers(0, 3)) == 0:
        specs.append(draw(model_spec(depth=0, smooth=True, expr_depth=2)))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(FAULTS + RACES + RACES + ["ok", "plain"]))
        i = draw(st.integers(0, len(specs) - 1))
        ops.append((i, k, draw(st.integers(0, len(specs) - 1)) if k in RACES else None,
                    draw(st.sampled_from([0.0, 0.01, 0.3, 0.7, 0.99])) if k in ("half-fails", "killed", "all-killed", "middle") else 0.0))
    # the same models are built again afterwards, undisturbed
    for i in draw(st.permutations(range(len(specs)))):
        if draw(st.integers(0, 3)) or any(o[0] == i for o in ops):
            ops.append((i, "plain", None, 0.0))
    return specs, ops


@P.check(st.tuples(histories(), seeds), quick=26, thorough=900, shards=2)
def builds(case, rec):
    (specs, ops), seed = case
    # never the code of an earlier case
    c = 1e-3 * next(_count) + 1e-6 * (os.getpid() % 1000)
    specs = [sibling(s, c, 0) for s in specs]
    messages, error, kinds = builder().run(specs, ops, seed)
    if messages:
        raise Violation(messages[0])
    if error:
        raise HarnessError(error)
    for k in kinds:
        rec.event(k)
    rec.nontrivial(any(k not in ("ok", "plain") for k in kinds))


def long_model(numbers, ops):
    """A model of one output per number, each computed from the one before."""
    names = tuple(f"o{k}" for k in range(len(numbers)))

    @state_space_io(states=("x",), inputs=("u",), outputs=names, con_outputs=())
    class Long(StateSpaceModel):
        @classmethod
        def get_default_params(cls):
            return {}

        def forward(self, states, inputs, mesh):
            out, v = {}, states["x"]
            for n, a, o in zip(names, numbers, ops):
                v = (lnp.cos if o else lnp.sin)(v * float(a)) + inputs["u"]
                out[n] = v
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", x=v - states["x"]),
                                         outputs=self.make_outputs_dict(**out))
    return Long()


@P.check(st.tuples(st.sampled_from([1100, 300, 1300]), st.permutations(["operation", "number"]), st.integers(-3, 2), seeds), quick=3, thorough=60)
def long_code(case, rec):
    """Models of long code which differ in one place, mostly near an end of it, built one after another in one directory."""
    n, hows, where, seed = case
    variants = [(bulk(seed, n, lo=0.3, hi=0.9), [False] * n)]
    for how in hows:
        numbers, ops = variants[0][0].copy(), list(variants[0][1])
        if how == "operation":
            ops[where] = True
        else:
            numbers[where] += 0.25
        variants.append((numbers, ops))
    x, u = bulk(seed + 1, 3).reshape(3, 1), bulk(seed + 2, 3).reshape(3, 1)
    models = []
    for k, v in enumerate(variants):
        m = long_model(*v)
        m.make_model_algebra_cons(backend="casadi")
        models.append((m, *v))
        for m, a, ops in models:
            label = f"one of {k + 1} models of {n} outputs, which differ in number {where % n}"
            want, v = [], x[:, 0]
            for c, o in zip(a, ops):
                v = (np.cos if o else np.sin)(v * c) + u[:, 0]
                want.append(v)
            got = m.batched_forward(x, u, np.zeros(3), m.get_recursive_params())
            # (each number is below 1, so rounding does not grow along the chain)
            close(got.outputs, np.array(want).T, f"outputs of {label}", rtol=1e-9, atol=1e-9)
    rec.nontrivial()


FUNCTIONS = ["sin", "cos", "sinh", "tanh", "exp"]


def small_model(v):
    """A model of two states, inputs and parameters and a few numbers, v."""
    def formula(x0, x1, u0, u1, p0, p1, np_):
        a, b = (x0, x1)[::v["x"]]
        c, d = (u0, u1)[::v["u"]]
        e, f = (p0, p1)[::v["p"]]
        g = getattr(np_, v["f"])(v["k"] * a + v["l"] * e)
        h = g - b if v["minus"] else g + b
        h = c / h if v["over"] else c * h
        return [h * v["m"] + d, f * a * v["n"] - g][::v["order"]]

    @state_space_io(states=("x0", "x1"), inputs=("u0", "u1"), outputs=("o",), con_outputs=())
    class Small(StateSpaceModel):
        @classmethod
        def get_default_params(cls):
            return {"p0": 0.7, "p1": 1.3}

        def forward(self, states, inputs, mesh):
            q = self._params
            a, b = formula(states["x0"], states["x1"], inputs["u0"], inputs["u1"], q["p0"], q["p1"], lnp)
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", x0=a, x1=b), outputs=self.make_outputs_dict(o=a - b))
    return Small(), formula


@st.composite
def families(draw):
    """A model and its closest relatives: each differs from the first in one sign, digit, function, operand or place."""
    number = st.tuples(fl(0.11, 0.95, 3), st.sampled_from([1, -1])).map(lambda t: t[0] * t[1])
    v = {k: draw(number) for k in "klmn"}
    v.update({k: draw(st.sampled_from([1, -1])) for k in ("x", "u", "p", "order")}, f=draw(st.sampled_from(FUNCTIONS)),
             minus=draw(st.booleans()), over=draw(st.booleans()))
    out = [v]
    for k in draw(st.permutations(sorted(v))):
        if k in "klmn":
            new = [-v[k], v[k] * 10, v[k] + 1e-3, v[k] * (1 + 1e-9), v[k] + np.sign(v[k]) * 7, v[draw(st.sampled_from("klmn"))]]
            out += [dict(v, **{k: a}) for a in draw(st.permutations(new))[:3]] + [dict(v, **{k: -v[k]})]
        elif k == "f":
            out.append(dict(v, f=draw(st.sampled_from(FUNCTIONS))))
        else:
            out.append(dict(v, **{k: not v[k] if isinstance(v[k], bool) else -v[k]}))
    return out


@P.check(st.tuples(families(), seeds), quick=3, thorough=60)
def relatives(case, rec):
    """Models which differ as little as models can, built one after another in one directory."""
    variants, seed = case
    x, u = bulk(seed, 12, lo=0.2, hi=1).reshape(6, 2), bulk(seed + 1, 12, lo=0.2, hi=1).reshape(6, 2)
    for k, v in enumerate(variants):
        m, formula = small_model(v)
        m.make_model_algebra_cons(backend="casadi")
        want = np.array(formula(*x.T, *u.T, 0.7, 1.3, np))
        got = m.batched_forward(x, u, np.zeros(6), m.get_recursive_params())
        what = f"of the model {v}, built after relatives of it,"
        close(got.states_dot, want.T, f"derivatives {what}", rtol=1e-11, atol=1e-12)
        close(np.ravel(got.outputs), want[0] - want[1], f"outputs {what}", rtol=1e-11, atol=1e-12)
    rec.nontrivial(len(variants) > 10)
