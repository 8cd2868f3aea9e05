"""C29: track geometry is self-consistent in both descriptions."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lumos.models.tracks import ConstCurvTrack, RaceTrack, cartesian_to_curvilinear, curvilinear_to_cartesian

P = Property("C29", rule=(
    "Tracks from 2 to 400 points with even and uneven spacing: smooth curves given by random sums of sines, circles, straights, "
    "polylines, in Cartesian and curvature form. Exact relations (heading is the trapezoidal integral of curvature and position "
    "of heading, chord lengths, start values, rigid motions, mirroring, scaling) hold to rounding; conversions there and back and "
    "closed-form curves to discretisation error; lookups are compared with piecewise linear interpolation written out here. "
    "Non-trivial: a curved track with uneven spacing."))


def trap(y, x):
    out = [0.0]
    for k in range(len(x) - 1):
        out.append(out[-1] + 0.5 * (y[k] + y[k + 1]) * (x[k + 1] - x[k]))
    return np.array(out)


@st.composite
def smooth(draw, n_min=60, n_max=300):
    """(s, curvature) of a smooth track; spacing about one metre, radius above about 12 m."""
    n = draw(st.integers(n_min, n_max))
    uneven = draw(st.sampled_from([0.0, 0.0, 0.2, 0.5]))
    seed = draw(seeds)
    ds = 1.0 + uneven * bulk(seed, n - 1)
    s = np.r_[0.0, np.cumsum(ds)]
    a = bulk(seed + 1, 3, lo=-0.025, hi=0.025) * draw(st.sampled_from([0.0, 0.3, 1.0]))
    w = bulk(seed + 2, 3, lo=0.0, hi=0.15) * draw(st.sampled_from([1, 1, 1, 0.05]))  # the last turns around several times
    return dict(s=s, k=sum(a[i] * np.cos(w[i] * s + i) for i in range(3)), kind=(uneven, float(np.max(np.abs(a)))))


placement = st.tuples(fl(-100, 100, 3), fl(-100, 100, 3), fl(-3.1, 3.1, 3))


@P.check(st.tuples(smooth(n_min=2), placement, fl(-50, 50, 2)), quick=400, thorough=4000, shards=3)
def from_curvature(c, rec):
    """Curvature to Cartesian: exact discrete relations and transformation laws."""
    t, (x0, y0, h0), shift = c
    s, k = t["s"], t["k"]
    keep = s.copy(), k.copy()
    x, y, h = curvilinear_to_cartesian(s, k, x0, y0, h0)
    ensure(np.array_equal(s, keep[0]) and np.array_equal(k, keep[1]), "arguments were modified")
    tol = dict(rtol=1e-9, atol=1e-8)
    close(h, h0 + trap(k, s), "heading", **tol)
    close(x, x0 + trap(np.cos(h), s), "x", **tol)
    close(y, y0 + trap(np.sin(h), s), "y", **tol)
    xo, yo, ho = curvilinear_to_cartesian(s, k)
    close([xo[0], yo[0], ho[0]], [0, 0, 0], "default start")
    close(ho, h - h0, "heading of the track from the origin", **tol)
    C, S = np.cos(h0), np.sin(h0)
    close(x, x0 + C * xo - S * yo, "x of the moved and rotated track", **tol)
    close(y, y0 + S * xo + C * yo, "y of the moved and rotated track", **tol)
    xm, ym, hm = curvilinear_to_cartesian(s, -k)
    close(np.r_[xm, ym, hm], np.r_[xo, -yo, -ho], "mirrored track", **tol)
    xs, ys, hs = curvilinear_to_cartesian(s + shift, k, x0, y0, h0)
    close(np.r_[xs, ys, hs], np.r_[x, y, h], "track with shifted distance", **tol)
    xs, ys, hs = curvilinear_to_cartesian(2.5 * s, k / 2.5)
    close(np.r_[xs, ys, hs], np.r_[2.5 * xo, 2.5 * yo, ho], "scaled track", **tol)
    rec.nontrivial(t["kind"][0] > 0 and t["kind"][1] > 0)


@st.composite
def points(draw):
    """Cartesian points of any track: smooth ones and random polylines without sharp corners."""
    if draw(st.booleans()):
        t = draw(smooth(n_min=3))
        x, y, _ = curvilinear_to_cartesian(t["s"], t["k"])
        return np.array(x), np.array(y), t["kind"]
    n = draw(st.integers(2, 30))
    seed = draw(seeds)
    turn = np.cumsum(bulk(seed, n - 1, lo=-0.5, hi=0.5)) + draw(fl(-3, 3))
    length = bulk(seed + 1, n - 1, lo=0.3, hi=4.0)
    return np.r_[0.0, np.cumsum(length * np.cos(turn))], np.r_[0.0, np.cumsum(length * np.sin(turn))], (0.5, 0.1)


def angle(a):
    return (np.asarray(a) + np.pi) % (2 * np.pi) - np.pi


@P.check(st.tuples(points(), placement), quick=400, thorough=4000, shards=3)
def from_points(c, rec):
    """Cartesian to curvature: exact discrete relations and transformation laws."""
    (x, y, kind), (x0, y0, a) = c
    keep = x.copy(), y.copy()
    s, k, h = cartesian_to_curvilinear(x, y)
    ensure(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "arguments were modified")
    tol = dict(rtol=1e-6, atol=1e-8)
    ensure(s[0] == 0 and np.all(np.diff(s) > 0), f"distance does not increase from 0: {s}")
    close(np.diff(s), np.hypot(np.diff(x), np.diff(y)), "distances between points", **tol)
    close(h - h[0], trap(k, s), "heading is not the integral of curvature", **tol)
    # rigid motion, mirror and scale
    C, S = np.cos(a), np.sin(a)
    sr, kr, hr = cartesian_to_curvilinear(x0 + C * x - S * y, y0 + S * x + C * y)
    loose = dict(rtol=1e-6, atol=1e-7)
    close(sr, s, "distance after a rigid motion", **loose)
    close(kr, k, "curvature after a rigid motion", **loose)
    close(hr - hr[0], h - h[0], "heading after a rigid motion", rtol=1e-6, atol=1e-5)
    close(angle(hr[0] - h[0] - a), 0.0, "start heading after a rotation", atol=1e-7, shape=False)
    sm, km, hm = cartesian_to_curvilinear(x, -y)
    close(np.r_[sm, km], np.r_[s, -k], "mirrored distance and curvature", **loose)
    close(angle(hm[0] + h[0]), 0.0, "mirrored start heading", atol=1e-7, shape=False)
    close(hm - hm[0], -(h - h[0]), "mirrored heading", **loose)
    ss, ks, hs = cartesian_to_curvilinear(0.25 * x, 0.25 * y)
    close(np.r_[ss, ks, hs], np.r_[0.25 * s, 4 * k, h], "scaled track", **loose)
    # start heading: direction of the first segment
    first = np.arctan2(y[1] - y[0], x[1] - x[0])
    close(angle(h[0] - first), 0.0, "start heading", atol=1e-7, shape=False)
    rec.nontrivial(kind[0] > 0 and kind[1] > 0)


@P.check(st.tuples(smooth(), placement), quick=300, thorough=3000, shards=2)
def there_and_back(c, rec):
    """Conversions reproduce the track up to discretisation, which shrinks with the spacing."""
    t, (x0, y0, h0) = c
    errors = []
    for refine in (1, 4):
        s = np.interp(np.linspace(0, len(t["s"]) - 1, (len(t["s"]) - 1) * refine + 1), np.arange(len(t["s"])), t["s"])
        # curvature of the refined track: cubic through the same smooth values would differ, so refine the function itself
        k = np.interp(s, t["s"], t["k"])
        x, y, h = curvilinear_to_cartesian(s, k, x0, y0, h0)
        s2, k2, h2 = cartesian_to_curvilinear(x, y)
        L = s[-1]
        step = np.max(np.diff(s))
        close(s2[-1], L, f"total distance (spacing {step})", atol=2e-3 * step**2 * L + 1e-9, rtol=0, shape=False)
        inner = slice(3 * refine, -3 * refine)
        e_k = np.max(np.abs(k2 - k)[inner])
        e_h = np.max(np.abs(angle(h2 - h)))
        ensure(e_k < 0.02 * step, f"curvature of the track differs by {e_k} at spacing {step}")
        ensure(e_h < 0.06 * step, f"heading of the track differs by {e_h} at spacing {step}")
        x3, y3, _ = curvilinear_to_cartesian(s2, k2, x[0], y[0], h2[0])
        e_x = np.max(np.hypot(x3 - x, y3 - y))
        ensure(e_x < 0.06 * step * L, f"position of the track differs by {e_x} at spacing {step}, length {L}")
        errors.append(e_x / L)
    rec.nontrivial(t["kind"][0] > 0 and t["kind"][1] > 0)


@P.check(st.tuples(fl(5, 200, 2), st.sampled_from([-1, 1]), fl(-3, 3, 2), st.one_of(fl(0.2, 6.0, 2), fl(6.0, 25.0, 2)), st.integers(60, 400), st.booleans(), seeds),
         quick=300, thorough=3000)
def circles(c, rec):
    """Arcs have the curvature of their radius and headings of their tangent; so do constant-curvature tracks."""
    R, sign, h0, sweep, n, uneven, seed = c
    u = np.r_[0.0, np.cumsum(1 + (0.4 if uneven else 0.0) * bulk(seed, n - 1))]
    th = sweep * u / u[-1]
    x, y = R * np.sin(th), sign * R * (1 - np.cos(th))
    C, S = np.cos(h0), np.sin(h0)
    x, y = C * x - S * y, S * x + C * y
    track = RaceTrack.from_cartesian(x, y)
    d = np.max(np.diff(th))
    if d > 0.25:
        rec.event("coarse")
        return
    close(track.total_distance, R * sweep, "length of an arc", rtol=d**2, atol=0, shape=False)
    mid = track.total_distance * np.linspace(0.1, 0.9, 7)
    close(track.curvature_at(mid), np.full(7, sign / R), "curvature of an arc", rtol=0.05 + 2 * d, atol=0)
    close(angle(track.heading_at(mid) - (h0 + sign * mid / R)), np.zeros(7), "heading of an arc", atol=3 * d, rtol=0)
    const = ConstCurvTrack(curvature=sign / R, start_heading=h0)
    close(const.heading_at(mid), h0 + sign * mid / R, "heading of a constant-curvature track")
    close(np.broadcast_to(const.curvature_at(mid), 7), np.full(7, sign / R), "curvature of a constant-curvature track")
    exact = RaceTrack.from_curvilinear(np.linspace(0, R * sweep, n), np.full(n, sign / R), heading0=h0)
    mid = exact.total_distance * np.linspace(0, 1, 7)
    close(exact.heading_at(mid), const.heading_at(mid), "heading, from curvature and constant", rtol=1e-9, atol=1e-9)
    close(exact.curvature_at(mid), np.full(7, sign / R), "curvature, from curvature and constant", rtol=1e-9)
    plain = RaceTrack.from_curvilinear(np.linspace(0, R * sweep, n), np.full(n, sign / R))
    close(plain.heading_at(mid), sign * mid / R, "heading, from curvature alone", rtol=1e-9, atol=1e-9)
    close(ConstCurvTrack(curvature=sign / R).heading_at(mid), sign * mid / R, "heading of a constant-curvature track without a start heading", rtol=1e-9, atol=1e-9)
    rec.nontrivial(uneven)


def lookup(s, v, q):
    if q <= s[0]:
        return v[0]
    if q >= s[-1]:
        return v[-1]
    i = max(k for k in range(len(s)) if s[k] <= q)
    if i == len(s) - 1:
        return v[-1]
    w = (q - s[i]) / (s[i + 1] - s[i])
    return v[i] * (1 - w) + v[i + 1] * w


SIDES = ["any", "any", "any", "zero", "constant", "partly zero", "beyond the centreline", "very wide"]


def side(kind, v):
    """Distances to one side of the road."""
    if kind == "zero":
        return 0 * v
    if kind == "constant":
        return np.full(len(v), v[0])
    if kind == "partly zero":
        return np.where(np.arange(len(v)) % 2, v, 0.0)
    return {"any": v, "beyond the centreline": v - 5, "very wide": 40 * v}[kind]


@st.composite
def data(draw):
    n = draw(st.integers(2, 12))
    seed = draw(seeds)
    s = draw(fl(-30, 30, 2)) + np.r_[0.0, np.cumsum(bulk(seed, n - 1, lo=0.1, hi=5.0))]
    return dict(s=s, seed=seed, n=n, left=draw(st.booleans()), right=draw(st.booleans()),
                way=draw(st.sampled_from(["plain", "curvilinear", "cartesian", "csv"])), h0=draw(fl(-3, 3, 2)),
                q=draw(st.lists(fl(-0.3, 1.3, 4), min_size=1, max_size=6)),
                sides=(draw(st.sampled_from(SIDES)), draw(st.sampled_from(SIDES))))


@P.check(data(), quick=400, thorough=4000, shards=2)
def lookups(d, rec):
    n, s = d["n"], d["s"]
    r = bulk(d["seed"] + 1, 5, n)
    left, right = side(d["sides"][0], np.round(4 + 2 * r[0], 6)), side(d["sides"][1], np.round(5 + 2 * r[1], 6))
    given = dict(s=s, left=left, right=right)
    kw = {}
    if d["left"]:
        kw["left_distance"] = left
    if d["right"]:
        kw["right_distance"] = right
    if d["way"] == "plain":
        table = dict(curvature=0.1 * r[2], heading=3 * r[3])
        given.update(x=r[4], y=r[3], **table)
        keep = {k: v.copy() for k, v in given.items()}
        table = {k: v.copy() for k, v in table.items()}
        t = RaceTrack(x=r[4], y=r[3], s=s, curvature=given["curvature"], heading=given["heading"], **kw)
    elif d["way"] == "curvilinear":
        table = dict(curvature=0.1 * r[2])
        table["heading"] = d["h0"] + trap(table["curvature"], s)
        given.update(curvature=table["curvature"].copy())
        keep = {k: v.copy() for k, v in given.items()}
        t = RaceTrack.from_curvilinear(s, given["curvature"], heading0=d["h0"], **kw)
    else:
        turn = np.cumsum(0.5 * r[2])[1:]
        x, y = np.round(np.r_[1.0, 1.0 + np.cumsum(np.diff(s) * np.cos(turn))], 6), np.round(np.r_[2.0, 2.0 + np.cumsum(np.diff(s) * np.sin(turn))], 6)
        s, k, h = cartesian_to_curvilinear(x, y)
        table = dict(curvature=k, heading=h)
        given = dict(x=x, y=y, left=left, right=right)
        keep = {k: v.copy() for k, v in given.items()}
        if d["way"] == "cartesian":
            t = RaceTrack.from_cartesian(x, y, **kw)
        else:
            kw = dict(left_distance=left, right_distance=right)
            f = tempfile.NamedTemporaryFile("w", suffix=".csv", dir=".", delete=False)
            f.write("# x_m,y_m,w_tr_right_m,w_tr_left_m\n")
            f.writelines(f"{x[i]:.6f},{y[i]:.6f},{right[i]:.6f},{left[i]:.6f}\n" for i in range(n))
            f.close()
            t = RaceTrack.from_tum_csv(f.name)
            os.remove(f.name)
    for k, v in given.items():
        ensure(np.array_equal(v, keep[k]), f"the array of {k} given by the caller was changed")
    if "s" in given:
        s = keep["s"]
    table["left_distance"] = keep["left"] if "left_distance" in kw else np.full(n, 5.0)
    table["right_distance"] = keep["right"] if "right_distance" in kw else np.full(n, 5.0)
    z = s - s[0]
    close(t.total_distance, z[-1], "total distance", rtol=1e-9, shape=False)
    q = [f * z[-1] for f in d["q"]]
    for name, v in table.items():
        f = getattr(t, name + "_at")
        # values within a rounding of a point may belong to either side
        close(f(z), v, f"{name} at the points", rtol=1e-6, atol=1e-9)
        want = np.array([lookup(z, v, w) for w in q])
        close(f(np.array(q)), want, f"{name} at {q}", rtol=1e-6, atol=1e-7)
        close(np.array([f(w) for w in q]), want, f"{name} one by one", rtol=1e-6, atol=1e-7)
    for k, v in given.items():
        ensure(np.array_equal(v, keep[k]), f"the array of {k} given by the caller was changed by a lookup")
    rec.event(d["way"])
    for v in d["sides"]:
        rec.event(v)
    rec.nontrivial(any(0 < w < z[-1] for w in q) and any(w < 0 or w > z[-1] for w in q))
