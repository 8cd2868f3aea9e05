"""C09: array backend selection is scoped and last-set."""
import casadi as cas
import jax
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.harness import Property, close, ensure

P = Property("C09", rule=(
    "Recursive programs of set-backend, scoped blocks (new, reused, re-entered or decorator objects), raising bodies and "
    "array calls, run against a stack interpreter. Non-trivial: a scope object is used at least twice, or a scope is "
    "entered under a backend different from the one at its construction, or left by an exception."))

KNOWN = ["numpy", "jax", "casadi"]
UNKNOWN = ["torch", "", "NumPy", "numpy ", "tensorflow"]


class Boom(Exception):
    pass


class BaseBoom(BaseException):  # like an interrupt or an exit
    pass


class ExitBoom(SystemExit):
    pass


BOOMS = (Boom, BaseBoom, KeyboardInterrupt, ExitBoom, GeneratorExit, StopIteration)


@st.composite
def program(draw, depth=3):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["set", "call", "make", "with", "with", "deco", "raise"] if depth else ["set", "call", "call", "make"]))
        if k == "set":
            ops.append(("set", draw(st.sampled_from(KNOWN + KNOWN + UNKNOWN))))
        elif k == "make":
            ops.append(("make", draw(st.sampled_from(KNOWN + KNOWN + UNKNOWN[:2]))))
        elif k == "call":
            ops.append(("call", draw(st.integers(0, 3))))
        elif k == "raise":
            ops.append(("try", draw(program(depth - 1)), draw(st.integers(0, 6))))
        else:
            ops.append((k, draw(st.integers(0, 5)), draw(program(depth - 1))))
    return ops


def call(which, active):
    if which == 0:
        r = lnp.array([1.0, 2.0])
        ensure(isinstance(r, jax.Array) == (active == "jax"), f"array() under {active} gives {type(r).__name__}")
    elif which == 1:
        r = lnp.sum(np.array([[1.0, 2.0], [3.0, 4.0]]))
        ensure(isinstance(r, jax.Array) == (active == "jax"), f"sum() under {active} gives {type(r).__name__}")
        close(r, 10.0, "sum")
    elif which == 2:
        if active == "casadi":
            x = cas.MX.sym("x", 2)
            r = lnp.concatenate([x, x])
            ensure(isinstance(r, cas.MX) and r.shape == (4, 1), "concatenate under casadi")
        else:
            r = lnp.concatenate([np.ones(2), np.ones(3)])
            ensure(r.shape == (5,) and isinstance(r, jax.Array) == (active == "jax"), f"concatenate under {active}")
    else:
        a, b = lnp.vector_concat([np.ones(2), np.zeros(1)]), None
        if active == "casadi":
            ensure(isinstance(a, cas.DM) and a.shape == (3, 1), "vector_concat under casadi")
        else:
            ensure(isinstance(a, jax.Array) == (active == "jax") and a.shape == (3,), f"vector_concat under {active}")


@P.check(st.tuples(program(), st.sampled_from(KNOWN), st.lists(st.sampled_from(range(len(BOOMS))), min_size=1, max_size=4)), quick=500, thorough=30000)
def scopes(case, rec):
    prog, start, booms = case
    raised_so_far = [0]
    outer = lnp.get_backend()
    pool = []       # [scope object, its backend, uses]
    active = [start]
    hits = [0]

    def check(w):
        ensure(lnp.get_backend() == active[0], f"after {w}: {lnp.get_backend()} instead of {active[0]}")

    def scope(i):
        if not pool:
            pool.append([lnp.use_backend("jax"), "jax", 0, active[0]])
        s = pool[i % len(pool)]
        s[2] += 1
        hits[0] += s[2] > 1 or s[3] != active[0]
        return s

    def run(ops, stop=None):
        for n, op in enumerate(ops):
            if stop is not None and n == stop:
                hits[0] += 1
                raised_so_far[0] += 1
                raise BOOMS[booms[raised_so_far[0] % len(booms)]]()
            k = op[0]
            if k == "set":
                lnp.set_backend(op[1])
                if op[1] in KNOWN:
                    active[0] = op[1]
            elif k == "make":
                pool.append([lnp.use_backend(op[1]), op[1], 0, active[0]])
            elif k == "call":
                call(op[1], active[0])
            elif k == "try":
                try:
                    run(op[1], op[2])
                except BOOMS:
                    pass
            else:
                s = scope(op[1])
                saved = active[0]
                raised = None

                def body():
                    check("entering a scope")
                    # a failure may come out of the middle of the scope
                    run(op[2], stop if stop is not None and stop > n else None)
                    check("scope body")
                    return 17
                if s[1] in KNOWN:
                    active[0] = s[1]
                try:
                    if k == "with":
                        with s[0]:
                            body()
                    else:
                        ensure(s[0](body)() == 17, "decorated function's result")
                except BOOMS as e:
                    raised = e
                active[0] = saved
                check("leaving a scope" + (" by exception" if raised else ""))
                if raised:
                    raise raised
            check(k)
    try:
        lnp.set_backend(start)
        try:
            run(prog)
        except BOOMS:
            pass
        check("the program")
        rec.nontrivial(hits[0] > 0)
    finally:
        lnp.set_backend(outer)
