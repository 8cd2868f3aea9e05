"""C14: collocation points and matrices are exact for polynomials."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Polynomial

from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure
from lumos.optimal_control.collocation import (
    CollocationEnum, build_lagrange_differential_matrix, build_lagrange_integration_matrix, get_collocation_points)

P = Property("C14", rule=(
    "Every scheme with 1-10 points (LGL from 2); random supports of 1-7 distinct points in any order, evaluation sets of "
    "1-6 points inside and outside the support, random polynomials. Non-trivial: at least three points."))


@P.check(st.tuples(st.sampled_from(list(CollocationEnum)), st.integers(1, 10), seeds), quick=150, thorough=600)
def points_are_quadrature_nodes(case, rec):
    scheme, n, seed = case
    name = scheme.name
    n = max(n, 2 if name == "LGL" else 1)
    x = np.asarray(get_collocation_points(num_points=n, scheme=scheme), float)
    ensure(x.shape == (n,), f"{name}: {x.shape} points instead of {n}")
    ensure(np.all(np.diff(x) > 0), f"{name} {n}: not increasing: {x}")
    ensure(np.all(np.abs(x) <= 1 + 1e-10), f"{name} {n}: outside [-1, 1]: {x}")
    lo, hi = abs(x[0] + 1) < 1e-9, abs(x[-1] - 1) < 1e-9
    want = {"LG": (False, False), "LGR": (False, True), "LGL": (True, True)}[name]
    ensure((lo, hi) == want, f"{name} {n}: end points {x[0]}, {x[-1]}")
    # with the interpolatory weights the rule integrates polynomials up to the maximal degree exactly
    V = np.polynomial.legendre.legvander(x, n - 1).T
    w = np.linalg.solve(V, np.r_[2.0, np.zeros(n - 1)])
    degree = {"LG": 2 * n - 1, "LGR": 2 * n - 2, "LGL": 2 * n - 3}[name]
    c = bulk(seed, degree + 1)
    p = np.polynomial.legendre.Legendre(c)
    close(w @ p(x), 2 * c[0], f"{name} {n}: integral of a polynomial of degree {degree}", rtol=0,
          atol=1e-11 if n <= 6 else 1e-9)
    ensure(np.all(w > 0), f"{name} {n}: weights {w}")
    # what was returned belongs to the caller
    first = get_collocation_points(num_points=n, scheme=scheme)
    kept = np.array(first)
    first += 1.0
    close(get_collocation_points(num_points=n, scheme=scheme), kept, f"{name} {n}: points after those returned before were changed")
    rec.event(f"{name}")
    rec.event(f"{n} points")
    rec.nontrivial(n >= 3)


MAT = st.tuples(st.integers(1, 7), st.integers(1, 6), seeds, st.booleans())


def supports(seed, n, shuffled, lo=-1.0):
    s = lo + np.cumsum(0.15 + 0.3 * bulk(seed, n, lo=0, hi=1))
    return s[np.argsort(bulk(seed + 1, n))] if shuffled else s


@P.check(MAT, quick=250, thorough=4000)
def matrices_differentiate_and_integrate(case, rec):
    n, m, seed, shuffled = case
    s = supports(seed, n, shuffled)
    ev = bulk(seed + 2, m, lo=-1.2, hi=1.8)
    if seed % 3 == 0 and m >= n:
        ev = np.r_[s, ev[n:]]      # evaluation on the support itself
    D = np.asarray(build_lagrange_differential_matrix(support=s, evaluation_points=ev))
    I = np.asarray(build_lagrange_integration_matrix(support=s, evaluation_points=ev))
    ensure(D.shape == I.shape == (len(ev), n), f"matrix shapes {D.shape}, {I.shape}")
    for d in range(n):
        c = bulk(seed + 5 + d, d + 1)
        p = Polynomial(c)
        scale = 1 + np.max(np.abs(D) @ np.abs(p(s))) + np.max(np.abs(I) @ np.abs(p(s)))
        close(D @ p(s), p.deriv()(ev), f"derivative of degree {d} on {n} points", rtol=1e-7, atol=1e-8 * scale)
        q = p.integ()
        close(I @ p(s), q(ev) - q(s[0]), f"integral of degree {d} on {n} points", rtol=1e-7, atol=1e-8 * scale)
    kept = D.copy(), I.copy()
    D[...], I[...] = 7.0, 7.0
    close(build_lagrange_differential_matrix(support=s, evaluation_points=ev), kept[0], "second differentiation matrix")
    close(build_lagrange_integration_matrix(support=s, evaluation_points=ev), kept[1], "second integration matrix")
    rec.event(f"{n} support points")
    rec.event("shuffled" if shuffled else "increasing")
    rec.nontrivial(n >= 3)
