"""C15: transcription schemes vanish on exact solutions and only there."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Polynomial

from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure, must_raise
from lumos.optimal_control.collocation import CollocationEnum, get_collocation_points
from lumos.optimal_control.transcription import get_transcription_options, make_transcription

P = Property("C15", rule=(
    "Every scheme, 2-10 stages for the collocation schemes, 1-4 states, interval lengths from 1e-3 to 1e3, polynomials of "
    "random coefficients up to the scheme's order, random residual points. Non-trivial: at least two states and a "
    "non-linear trajectory."))


def nodes(name, m):
    """Where in [0, 1] the stages of an interval lie (a property of the scheme, computed independently)."""
    if name in ("ForwardEuler", "Trapezoidal"):
        return np.array([0.0, 1.0])
    c = [0] * (m - 2) + [1, 1]
    return np.r_[0.0, (np.sort(-np.polynomial.legendre.legroots(c)) + 1) / 2]


ORDER = {"ForwardEuler": lambda m: 1, "Trapezoidal": lambda m: 2, "LGR": lambda m: m - 1, "LGRIntegral": lambda m: m}

CASE = st.tuples(st.sampled_from(["ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"]), st.integers(2, 10), st.integers(1, 4),
                 fl(-3, 3), seeds, st.booleans())


def make(name, m):
    t = make_transcription(name, {"num_stages": m} if name.startswith("LGR") else None)
    return t, t.num_stages_per_interval


@P.check(CASE, quick=300, thorough=4000, shards=2)
def residual(case, rec):
    name, m, d, logT, seed, use_jax = case
    t, m = make(name, m)
    T = 10.0 ** logT
    tau = nodes(name, m)
    A, B = (np.asarray(M) for M in t.get_continuity_matrices())
    ensure(A.shape == B.shape == (t.num_constraints_per_interval, m), f"{name}: matrices {A.shape}, {B.shape}")
    ensure(t.num_constraints_per_interval == m - 1, f"{name}: {t.num_constraints_per_interval} constraints for {m} stages")
    con = lambda x, xd, L: np.asarray(t.continuity_con(jnp.asarray(x), jnp.asarray(xd), L) if use_jax else t.continuity_con(x, xd, L))
    order = ORDER[name](m)
    x, xd = np.zeros((m, d)), np.zeros((m, d))
    for j in range(d):
        p = Polynomial(bulk(seed + j, 1 + (order if j == 0 else (seed + j) % (order + 1))))
        x[:, j], xd[:, j] = p(tau), p.deriv()(tau) / T   # trajectory over an interval of length T
    r = con(x, xd, T)
    scale = 1 + np.max(np.abs(A)) * np.max(np.abs(x)) + np.max(np.abs(B)) * np.max(np.abs(xd)) * T
    ensure(r.shape == (m - 1, d), f"{name}: residual {r.shape}")
    close(r, np.zeros((m - 1, d)), f"{name} of {m} stages on a polynomial of degree {order} over {T}", rtol=0, atol=1e-9 * scale)
    # linear in the states, bilinear in derivatives and length
    y, yd = bulk(seed + 20, m, d), bulk(seed + 21, m, d)
    z, zd = bulk(seed + 22, m, d), bulk(seed + 23, m, d)
    close(con(2.5 * y - z, 2.5 * yd - zd, T), 2.5 * con(y, yd, T) - con(z, zd, T), f"{name}: linear", rtol=1e-9, atol=1e-9 * scale * 10)
    close(con(y, yd * 3, T), con(y, yd, 3 * T), f"{name}: derivatives times length", rtol=1e-9, atol=1e-9 * (1 + 30 * T))
    close(con(y, 0 * yd, T), con(y, yd, 0.0), f"{name}: no length, no derivatives", rtol=1e-12, atol=1e-12)
    close(con(y, yd, T), A @ y - T * (B @ yd), f"{name}: the continuity matrices", rtol=1e-9, atol=1e-9 * (1 + 30 * T))
    # adding a constant to every state changes nothing
    close(con(y + 7.0, yd, T), con(y, yd, T), f"{name}: constant shift", rtol=1e-9, atol=1e-8 * scale)
    # first state and derivatives determine the others
    s = np.linalg.svd(A[:, 1:], compute_uv=False)
    ensure(s[-1] > 1e-8 * s[0], f"{name}: later states are not determined (singular values {s})")
    rest = np.linalg.solve(A[:, 1:], T * (B @ xd) - A[:, :1] @ x[:1])
    close(rest, x[1:], f"{name}: states recovered from the first one and the derivatives", rtol=1e-8, atol=1e-8 * scale)
    rec.event(name)
    rec.event(f"{m} stages")
    rec.nontrivial(d > 1 and order > 1)


@P.check(st.tuples(st.integers(2, 10), fl(-2, 2), seeds), quick=60, thorough=600)
def defaults_and_errors(case, rec):
    m, logT, seed = case
    ensure(set(get_transcription_options()) == {"ForwardEuler", "Trapezoidal", "LGR", "LGRIntegral"}, "options")
    must_raise(lambda: make_transcription("Nope"), "unknown scheme")
    for name in ("LGR", "LGRIntegral"):
        ensure(make_transcription(name).num_stages_per_interval == 3, f"default number of stages of {name}")
        a, _ = make(name, m)
        b = make_transcription(name, {"num_stages": m})
        for M, N in zip(a.get_continuity_matrices(), b.get_continuity_matrices()):
            close(M, N, "two objects of one scheme", rtol=0, atol=0)
    # both collocation forms agree on the states whose derivatives they both represent exactly
    D, _ = make("LGR", m)
    I, _ = make("LGRIntegral", m)
    T = 10.0 ** logT
    tau = nodes("LGR", m)
    xd = Polynomial(bulk(seed, m - 1))(tau)[:, None]
    x0 = bulk(seed + 1, 1, 1)
    sol = []
    for t in (D, I):
        A, B = (np.asarray(M) for M in t.get_continuity_matrices())
        sol.append(np.linalg.solve(A[:, 1:], T * (B @ xd) - A[:, :1] @ x0))
    close(sol[0], sol[1], "differential and integral collocation", rtol=1e-8, atol=1e-8 * (1 + T))
    rec.nontrivial(m > 2)
