"""C11: the CasADi array functions agree with NumPy."""
import casadi as cas
import numpy as np
from hypothesis import strategies as st

import lumos.numpy.casadi_numpy as cnp
from lib.gen import bulk, seeds
from lib.harness import Property, Violation, close, ensure

P = Property("C11", rule=(
    "A table of calls of the CasADi array namespace (every function the namespace defines, over vectors, rows, matrices, "
    "scalars, axes, shifts, orders, mixtures with plain arrays), each with random sizes 1-5 and values (generic, with ties "
    "and zeros, integers), as SX and MX expressions evaluated afterwards, as DM numbers and as plain arrays alone, against NumPy on the same "
    "numbers. Non-trivial: an argument with at least two elements."),
    assumptions=("a one-column CasADi array is a vector (CasADi has no 1-D arrays)",))


# ---- arguments: letters name sizes: v=(n,), w=(n,), m=(n,k), M=(n,k), q=(n,n), r=(1,n), s=scalar, t=(k,), 3=(3,), p=(n,3)
def shape_of(letter, n, k):
    return {"v": (n,), "t": (k,), "m": (n, k), "q": (n, n), "r": (1, n), "s": (), "3": (3,), "p": (n, 3), "P": (3, n),
            "T": (k, n)}[letter]


def values(seed, shape, mode):
    a = bulk(seed, *shape, lo=-3, hi=3)
    if mode == "ties":
        a = np.round(a)
    if mode == "pos":
        a = np.abs(a) + 0.1
    if mode == "unit":
        a = a / 3.2
    return a


def c(ns, name):
    return getattr(ns, name)


E = {}   # name -> (letters, call, options)


def entry(name, letters, call, **opt):
    E[name] = (letters, call, opt)


# reductions and elementwise
for L in "vmrs":
    entry(f"sum.{L}", L, lambda n, a, i: n.sum(a))
    entry(f"mean.{L}", L, lambda n, a, i: n.mean(a))
    entry(f"abs.{L}", L, lambda n, a, i: n.abs(a))
    entry(f"max.{L}", L, lambda n, a, i: n.max(a))
    entry(f"min.{L}", L, lambda n, a, i: n.min(a))
    entry(f"clip.{L}", L, lambda n, a, i: n.clip(a, -1.0 + i[0] * 0.1, 0.5 + i[1]))
    entry(f"clip.any.{L}", L, lambda n, a, i: n.clip(a, i[0] - 4.0, 1.0 - i[1]))   # also lower above upper limit
    entry(f"clip.array.{L}", L * 3, lambda n, a, b, d, i: n.clip(a, b, d))
    entry(f"and.num.{L}", L + L, lambda n, a, b, i: n.logical_and(a, b), mode="ties")
    entry(f"or.num.{L}", L + L, lambda n, a, b, i: n.logical_or(a, b), mode="ties")
    entry(f"not.num.{L}", L, lambda n, a, i: n.logical_not(a), mode="ties")
    entry(f"where.num.{L}", L + L + L, lambda n, a, b, d, i: n.where(a, b, d), mode="ties")
    entry(f"all.num.{L}", L, lambda n, a, i: n.all(a), mode="ties", no=("MX",))
    entry(f"any.num.{L}", L, lambda n, a, i: n.any(a), mode="ties", no=("MX",))
    entry(f"minimum.{L}", L + L, lambda n, a, b, i: n.minimum(a, b), mix=True)
    entry(f"maximum.{L}", L + L, lambda n, a, b, i: n.maximum(a, b), mix=True)
    entry(f"minimum.{L}s", L + "s", lambda n, a, b, i: n.minimum(a, b), mix=True)
    entry(f"where.{L}", L + L + L, lambda n, a, b, d, i: n.where(a > b, d, b))
    entry(f"where.{L}s", L, lambda n, a, i: n.where(a <= 0, 2.0, a))
    entry(f"where.{L}=", L + L, lambda n, a, b, i: n.where(a == b, 1.0, a * b))
    entry(f"and.{L}", L + L, lambda n, a, b, i: n.logical_and(a > 0, b >= 0))
    entry(f"or.{L}", L + L, lambda n, a, b, i: n.logical_or(a > 0, b >= 0))
    entry(f"not.{L}", L, lambda n, a, i: n.logical_not(a > 0))
    entry(f"all.{L}", L, lambda n, a, i: n.all(a > -2.0 + i[0]), no=("MX",))
    entry(f"any.{L}", L, lambda n, a, i: n.any(a > 2.0 - i[0]), no=("MX",))
    for f in ("sin", "cos", "tan", "arctan", "sinh", "cosh", "tanh", "exp", "fabs", "sign", "floor", "ceil", "arcsinh",
              "expm1"):
        entry(f"{f}.{L}", L, lambda n, a, i, f=f: c(n, f)(a))
    for f in ("sqrt", "log", "log10", "log1p"):
        entry(f"{f}.{L}", L, lambda n, a, i, f=f: c(n, f)(a), mode="pos")
    for f in ("arcsin", "arccos", "arctanh"):
        entry(f"{f}.{L}", L, lambda n, a, i, f=f: c(n, f)(a), mode="unit")
    for f in ("arctan2", "hypot", "fmin", "fmax", "copysign", "add", "subtract", "multiply"):
        entry(f"{f}.{L}", L + L, lambda n, a, b, i, f=f: c(n, f)(a, b), generic=f == "copysign")
    entry(f"divide.{L}", L + L, lambda n, a, b, i: n.divide(a, b), mode="pos")
    entry(f"power.{L}", L + L, lambda n, a, b, i: n.power(a, b), mode="pos")
for ax in (0, 1):
    entry(f"sum.{ax}", "m", lambda n, a, i, ax=ax: n.sum(a, axis=ax))
    entry(f"mean.{ax}", "m", lambda n, a, i, ax=ax: n.mean(a, axis=ax))
    entry(f"roll.{ax}", "m", lambda n, a, i, ax=ax: n.roll(a, i[0] - 4, axis=ax))
    entry(f"concatenate.{ax}", "mm", lambda n, a, b, i, ax=ax: n.concatenate((a, b), axis=ax), mix=True)
    entry(f"concatenate3.{ax}", "mmm", lambda n, a, b, d, i, ax=ax: n.concatenate((a, b, d), axis=ax), mix=True)
    entry(f"stack.{ax}", "vvv", lambda n, a, b, d, i, ax=ax: n.stack((a, b, d), axis=ax), mix=True)
    entry(f"stack.{ax - 2}", "vv", lambda n, a, b, i, ax=ax: n.stack((a, b), axis=ax - 2), mix=True)
    for o in (None, 1, 2, 3, np.inf, -np.inf, 0, 1.5):
        entry(f"norm.m.{o}.{ax}", "m", lambda n, a, i, ax=ax, o=o: n.linalg.norm(a, o, ax))
    entry(f"cumulative.split.{ax}", "m", lambda n, a, i, ax=ax: n.split(a, a.shape[ax], axis=ax))
    entry(f"split.list.{ax}", "m", lambda n, a, i, ax=ax: n.split(a, sorted({min(1, a.shape[ax]), min(i[0] % 4 + 1, a.shape[ax])}), axis=ax))
entry("hsplit", "m", lambda n, a, i: n.hsplit(a, [1]))
entry("vsplit", "m", lambda n, a, i: n.vsplit(a, a.shape[0]))
entry("roll.v", "v", lambda n, a, i: n.roll(a, i[0] - 4))
entry("roll.v0", "v", lambda n, a, i: n.roll(a, i[0] - 4, axis=0))
entry("roll.m", "m", lambda n, a, i: n.roll(a, i[0] - 4), minn=2)
entry("roll.r", "r", lambda n, a, i: n.roll(a, i[0] - 4, axis=1))
entry("concatenate.v", "vt", lambda n, a, b, i: n.concatenate((a, b)), mix=True)
entry("hstack.m", "mm", lambda n, a, b, i: n.hstack((a, b)), mix=True)
entry("vstack.m", "mm", lambda n, a, b, i: n.vstack((a, b)), mix=True)
entry("vstack.r", "rr", lambda n, a, b, i: n.vstack((a, b)), mix=True)
entry("hstack.r", "rr", lambda n, a, b, i: n.hstack((a, b)), mix=True)
entry("column_stack", "vvv", lambda n, a, b, d, i: n.column_stack((a, b, d)))
entry("row_stack", "vv", lambda n, a, b, i: n.row_stack((a, b)))
entry("array.flat", "sss", lambda n, a, b, d, i: n.array([a, b * d, d]))
entry("array.mixed", "s", lambda n, a, i: n.array([1.5, a, 2.0 * a]))
entry("array.nested", "sss", lambda n, a, b, d, i: n.array([[a, b, d], [d, 0.0, a]]))
entry("diff.v", "v", lambda n, a, i: n.diff(a, n=1 + i[0] % 3))
entry("diff.m", "m", lambda n, a, i: n.diff(a, n=1 + i[0] % 3), minn=2)
entry("diff.r", "r", lambda n, a, i: n.diff(a, n=1 + i[0] % 3))
entry("diff.0", "v", lambda n, a, i: n.diff(a, n=0))
entry("diag.v", "v", lambda n, a, i: n.diag(a))
entry("reshape.m", "m", lambda n, a, i: n.reshape(a, a.shape[::-1]))
entry("reshape.same", "m", lambda n, a, i: n.reshape(a, tuple(a.shape)))
entry("reshape.flat", "m", lambda n, a, i: n.reshape(a, (1, -1)))
entry("reshape.col", "m", lambda n, a, i: n.reshape(a, (-1, 1)))
entry("reshape.-1", "m", lambda n, a, i: n.reshape(a, -1))
entry("reshape.v", "v", lambda n, a, i: n.reshape(a, (1, a.shape[0])))
entry("zeros_like", "m", lambda n, a, i: n.zeros_like(a), no=("MX",))
entry("zeros", "m", lambda n, a, i: n.zeros(tuple(a.shape)) + a, no=("MX",))
entry("ones", "m", lambda n, a, i: n.ones(tuple(a.shape)) * a, no=("MX",))
entry("eye", "q", lambda n, a, i: n.eye(a.shape[0]) + a, no=("MX",))
entry("linspace", "ss", lambda n, a, b, i: n.linspace(a, b, 2 + i[0]))
entry("logspace", "ss", lambda n, a, b, i: n.logspace(a, b, 2 + i[0]))
entry("geomspace", "ss", lambda n, a, b, i: n.geomspace(a, b, 2 + i[0]), mode="pos", no=("SX", "MX"))
# linear algebra
entry("dot.v", "vv", lambda n, a, b, i: n.dot(a, b), mix=True)
entry("dot.mt", "mt", lambda n, a, b, i: n.dot(a, b), mix=True)
entry("dot.mT", "mT", lambda n, a, b, i: n.dot(a, b), mix=True)
entry("dot.q", "qq", lambda n, a, b, i: n.dot(a, b), mix=True)
entry("dot.sm", "sm", lambda n, a, b, i: n.dot(a, b))
entry("cross.3", "33", lambda n, a, b, i: n.cross(a, b), mix=True)
entry("cross.p", "pp", lambda n, a, b, i: n.cross(a, b), mix=True)
entry("cross.P", "PP", lambda n, a, b, i: n.cross(a, b, axis=0), mix=True)
for xa in (0, 1, -1):
    for xb in (0, 1, -1):
        for xc in (0, 1, -1):
            entry(f"cross.{xa}.{xb}.{xc}", ("P" if xa == 0 else "p") + ("P" if xb == 0 else "p"),
                  lambda n, a, b, i, xa=xa, xb=xb, xc=xc: n.cross(a, b, axisa=xa, axisb=xb, axisc=xc), mix=True)
entry("cross.1", "pp", lambda n, a, b, i: n.cross(a, b, axis=1), mix=True)
entry("cross.-1", "pp", lambda n, a, b, i: n.cross(a, b, axis=-1), mix=True)
entry("cross.abc", "Pp", lambda n, a, b, i: n.cross(a, b, axisa=0, axisb=1, axisc=0))
entry("inner.v", "vv", lambda n, a, b, i: n.linalg.inner(a, b) if n is cnp else np.inner(a, b), mix=True)
entry("inner.m", "mm", lambda n, a, b, i: n.linalg.inner(a, b) if n is cnp else np.inner(a, b), mix=True, minn=2)
entry("outer.v", "vt", lambda n, a, b, i: n.linalg.outer(a, b) if n is cnp else np.outer(a, b), mix=True)
entry("outer.m", "mr", lambda n, a, b, i: n.linalg.outer(a, b) if n is cnp else np.outer(a, b), mix=True)
entry("solve.v", "qv", lambda n, a, b, i: n.linalg.solve(a + 12 * np.eye(a.shape[0]), b))
entry("solve.m", "qm", lambda n, a, b, i: n.linalg.solve(a + 12 * np.eye(a.shape[0]), b))
for o in (None, 1, 2, 3, np.inf, -np.inf, 0, 1.5):
    entry(f"norm.v.{o}", "v", lambda n, a, i, o=o: n.linalg.norm(a, o))
for o in (None, "fro", 1, np.inf):
    entry(f"norm.m.{o}", "m", lambda n, a, i, o=o: n.linalg.norm(a, o), minn=2)


def _interp(n, x, i, left=None, right=None):
    k = 2 + i[0] % 4
    xp = np.cumsum(0.2 + np.abs(bulk(i[2], k))) - 2.0
    fp = bulk(i[2] + 1, k, lo=-3, hi=3)
    return n.interp(x, xp, fp, left=left, right=right)


entry("interp.s", "s", lambda n, a, i: _interp(n, a, i), no=("SX",))
entry("interp.v", "v", lambda n, a, i: _interp(n, a, i), no=("SX",))
entry("interp.lr", "v", lambda n, a, i: _interp(n, a, i, left=7.0, right=-4.5), no=("SX",))
entry("interp.l", "v", lambda n, a, i: _interp(n, a, i, left=7.0), no=("SX",))



def _interp_grid(n, x, i, **kw):
    """Lookups that hit the table points, the end points included."""
    xp = np.arange(2.0 + i[0] % 4) - 1.0 - i[1] % 2
    return n.interp(x, xp, bulk(i[2] + 1, len(xp), lo=-3, hi=3), **kw)


entry("interp.grid", "v", lambda n, a, i: _interp_grid(n, a, i), no=("SX",), mode="ties")
entry("interp.grid.s", "s", lambda n, a, i: _interp_grid(n, a, i, left=7.0, right=-4.5), no=("SX",), mode="ties")
entry("interp.grid.lr", "v", lambda n, a, i: _interp_grid(n, a, i, left=7.0, right=-4.5), no=("SX",), mode="ties")
entry("interp.grid.r", "v", lambda n, a, i: _interp_grid(n, a, i, right=5.0), no=("SX",), mode="ties")
entry("linspace.1", "ss", lambda n, a, b, i: n.linspace(a, b, 1))
entry("logspace.1", "ss", lambda n, a, b, i: n.logspace(a, b, 1))
entry("geomspace.1", "ss", lambda n, a, b, i: n.geomspace(a, b, 1), mode="pos", no=("SX", "MX"))

SMOOTH_EXEMPT = ("sign", "floor", "ceil")   # exact functions, kept away from nothing


def canon(a):
    a = np.asarray(a, dtype=float)
    return a.reshape(1, 1) if a.ndim == 0 else a.reshape(-1, 1) if a.ndim == 1 else a


def evaluate(kind, letters, call, arrays, plain, ints):
    """The call on CasADi arguments; returns a list of numeric arrays."""
    if kind == "DM":
        out = call(cnp, *[a if p else cas.DM(a) for a, p in zip(arrays, plain)], ints)
        outs = out if isinstance(out, (list, tuple)) else [out]
        return [cas.DM(o).full() for o in outs]
    T = getattr(cas, kind)
    syms, vals, args = [], [], []
    for k, (a, p) in enumerate(zip(arrays, plain)):
        if p:
            args.append(a)
            continue
        s = T.sym(f"x{k}", *canon(a).shape)
        syms.append(s), vals.append(cas.DM(a)), args.append(s)
    out = call(cnp, *args, ints)
    outs = out if isinstance(out, (list, tuple)) else [out]
    f = cas.Function("f", syms, [T(o) if not isinstance(o, T) else o for o in outs])
    r = f(*vals)
    return [o.full() for o in (r if isinstance(r, tuple) else (r,))]


SIZES = st.tuples(st.integers(1, 5), st.integers(1, 4))
CASE = st.tuples(st.sampled_from(sorted(E)), st.sampled_from(["SX", "MX", "DM"]), SIZES,
                 st.sampled_from(["gen", "ties"]), st.integers(0, 3), st.tuples(st.integers(0, 9), st.integers(0, 3), seeds),
                 seeds)


def compare(rec, name, kind, n, k, mode, mixpos, ints, seed):
    letters, call, opt = E[name]
    n = max(n, opt.get("minn", 1))
    k = max(k, opt.get("minn", 1))
    if kind in opt.get("no", ()):
        kind = "DM"
    if opt.get("generic"):
        mode = "gen"
    arrays = [values(seed + 17 * j, shape_of(L, n, k), opt.get("mode", mode)) for j, L in enumerate(letters)]
    plain = [bool(opt.get("mix")) and mixpos == j + 1 and j < 2 for j in range(len(arrays))]
    if all(plain):
        plain[0] = False
    with np.errstate(all="ignore"):
        try:
            ref = call(np, *arrays, ints)
        except Exception:
            return False   # not a call NumPy defines (e.g. an empty reduction)
    refs = [canon(r) for r in (ref if isinstance(ref, (list, tuple)) else [ref])]
    if any(r.size == 0 or not np.all(np.isfinite(r)) for r in refs):
        return False
    outs = evaluate(kind, letters, call, arrays, plain, ints)
    label = f"{name} as {kind} on {[a.shape for a in arrays]}{' mixed' if any(plain) else ''}"
    ensure(len(outs) == len(refs), f"{label}: {len(outs)} results instead of {len(refs)}")
    for j, (o, r) in enumerate(zip(outs, refs)):
        close(o, r, f"{label} result {j}", rtol=1e-10, atol=1e-10)
    rec.event(kind)
    rec.nontrivial(any(a.size > 1 for a in arrays))
    return True


@P.check(st.lists(CASE, min_size=8, max_size=8), quick=350, thorough=6000, shards=4)
def functions_agree_with_numpy(cases, rec):
    for name, kind, (n, k), mode, mixpos, ints, seed in cases:
        if compare(rec, name, kind, n, k, mode, mixpos, ints, seed):
            rec.event(name.split(".")[0])


# One case covers the whole table at one size: the edges, where a row, a column and a scalar look alike, and large ones.
EDGES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (12, 11)]


@P.check(st.tuples(st.sampled_from(EDGES),
                   st.sampled_from(["SX", "MX", "DM"]), st.sampled_from(["gen", "ties"]), st.integers(0, 2),
                   st.integers(0, 9), seeds), quick=45, thorough=600, shards=4)
def every_function_at_edge_sizes(case, rec):
    (n, k), kind, mode, mixpos, i0, seed = case
    for name in sorted(E):
        compare(rec, name, kind, n, k, mode, mixpos, (i0, seed % 4, seed), seed)
    rec.event(f"{n}x{k} {kind}")


@P.check(st.tuples(st.sampled_from(EDGES), st.sampled_from(["gen", "ties"]), st.integers(0, 9), seeds), quick=25, thorough=300)
def every_function_of_plain_arrays(case, rec):
    """Models mix constants into their equations: a call on plain arrays alone is NumPy's."""
    (n, k), mode, i0, seed = case
    for name in sorted(E):
        letters, call, opt = E[name]
        n1, k1 = max(n, opt.get("minn", 1)), max(k, opt.get("minn", 1))
        arrays = [values(seed + 17 * j, shape_of(L, n1, k1), opt.get("mode", mode)) for j, L in enumerate(letters)]
        ints = (i0, seed % 4, seed)
        with np.errstate(all="ignore"):
            try:
                ref = call(np, *arrays, ints)
            except Exception:
                continue
            kept = [a.copy() for a in arrays]
            try:
                got = call(cnp, *arrays, ints)
            except Exception:
                rec.event(f"raised: {name}")
                continue
        label = f"{name} of plain arrays {[a.shape for a in arrays]}"
        refs, outs = (list(r) if isinstance(r, (list, tuple)) else [r] for r in (ref, got))
        ensure(len(outs) == len(refs), f"{label}: {len(outs)} results instead of {len(refs)}")
        for o, r in zip(outs, refs):
            o = cas.evalf(o).full() if isinstance(o, (cas.SX, cas.MX)) else o.full() if isinstance(o, cas.DM) else o
            close(canon(o), canon(r), label, rtol=1e-10, atol=1e-10)
        for a, b in zip(arrays, kept):
            close(a, b, f"{label}: argument", rtol=0, atol=0)
    rec.nontrivial(n * k > 1)


# ---------------------------------------------------------------- calls outside the supported set
U = {
    "all MX": ("m", lambda n, a, i: n.all(a > 0)),
    "norm 2 of a matrix": ("q", lambda n, a, i: n.linalg.norm(a, 2)),
    "norm -1": ("q", lambda n, a, i: n.linalg.norm(a, -1)),
    "diff axis": ("q", lambda n, a, i: n.diff(a, axis=0)),
    "diag of a matrix": ("q", lambda n, a, i: n.diag(a)),
    "diag with offset": ("v", lambda n, a, i: n.diag(a, k=1)),
    "cross in the plane": ("rr", lambda n, a, b, i: n.cross(a, b)),
    "stack matrices": ("qq", lambda n, a, b, i: n.stack((a, b))),
    "stack axis 2": ("vv", lambda n, a, b, i: n.stack((a, b), axis=2)),
    "dstack": ("qq", lambda n, a, b, i: n.dstack((a, b))),
    "split unevenly": ("m", lambda n, a, i: n.split(a, a.shape[0] + 1, axis=0)),
    "column_stack matrices": ("mm", lambda n, a, b, i: n.column_stack((a[:, :2], b[:, :2]))),
    "mismatched dot": ("vt", lambda n, a, b, i: n.dot(a, b)),
    "mismatched add": ("vt", lambda n, a, b, i: n.add(a, b)),
    "mismatched minimum": ("vt", lambda n, a, b, i: n.minimum(a, b)),
    "concatenate axis 2": ("mm", lambda n, a, b, i: n.concatenate((a, b), axis=2)),
    "roll axis 2": ("m", lambda n, a, i: n.roll(a, 1, axis=2)),
    "sum axis 2": ("m", lambda n, a, i: n.sum(a, axis=2)),
    "reshape to the wrong size": ("m", lambda n, a, i: n.reshape(a, (a.shape[0] + 1, a.shape[1]))),
    "cross axisa 2": ("pp", lambda n, a, b, i: n.cross(a, b, axisa=2)),
    "cross axisb 2": ("pp", lambda n, a, b, i: n.cross(a, b, axisb=2)),
    "cross axisc 2": ("pp", lambda n, a, b, i: n.cross(a, b, axisc=2)),
    "cross axis 2": ("pp", lambda n, a, b, i: n.cross(a, b, axis=2)),
    "norm axis 2": ("m", lambda n, a, i: n.linalg.norm(a, 2, 2)),
    "norm axis -2": ("m", lambda n, a, i: n.linalg.norm(a, 1, -2)),
    "norm of no order": ("v", lambda n, a, i: n.linalg.norm(a, "xyz")),
    "diag of a rectangle": ("m", lambda n, a, i: n.diag(a)),
    "reshape to three dimensions": ("m", lambda n, a, i: n.reshape(a, (1, *a.shape))),
    "mean axis 2": ("m", lambda n, a, i: n.mean(a, axis=2)),
    "stack with a matrix": ("vm", lambda n, a, b, i: n.stack((a, b))),
    "row_stack matrices": ("mm", lambda n, a, b, i: n.row_stack((a, b))),
    "column_stack of other lengths": ("vt", lambda n, a, b, i: n.column_stack((a, b))),
    "concatenate other widths": ("mp", lambda n, a, b, i: n.concatenate((a, np.hstack([b, b]) if n is np else cas.horzcat(b, b)), axis=0)),
    "geomspace": ("ss", lambda n, a, b, i: n.geomspace(a, b, 4)),
    "cumsum": ("m", lambda n, a, i: n.cumsum(a)),
    "prod": ("m", lambda n, a, i: n.prod(a)),
    "sort": ("v", lambda n, a, i: n.sort(a)),
    "transpose": ("m", lambda n, a, i: n.transpose(a)),
    "matmul": ("qq", lambda n, a, b, i: n.matmul(a, b)),
    "flip": ("v", lambda n, a, i: n.flip(a)),
    "round": ("v", lambda n, a, i: n.round(a)),
    "square": ("v", lambda n, a, i: n.square(a)),
    "trace": ("q", lambda n, a, i: n.trace(a)),
    "tile": ("v", lambda n, a, i: n.tile(a, 2)),
}


@P.check(st.lists(st.tuples(st.sampled_from(sorted(U)), st.sampled_from(["SX", "MX"]), SIZES, seeds),
                  min_size=6, max_size=6), quick=60, thorough=1000)
def unsupported_calls_agree_or_raise(cases, rec):
    for name, kind, (n, k), seed in cases:
        letters, call = U[name]
        n, k = n + 1, k + 1
        if n == k:
            k += 1
        arrays = [values(seed + 17 * j, shape_of(L, n, k), "gen") for j, L in enumerate(letters)]
        try:
            ref = call(np, *arrays, (0, 0, 0))
        except Exception:
            ref = None
        try:
            outs = evaluate(kind, letters, call, arrays, [False] * len(arrays), (0, 0, 0))
        except Exception:
            rec.event("raised")
            rec.nontrivial()
            continue
        ensure(ref is not None, f"{name} as {kind} on {[a.shape for a in arrays]}: NumPy rejects it, got {outs}")
        refs = ref if isinstance(ref, (list, tuple)) else [ref]
        ensure(len(outs) == len(refs), f"{name}: number of results")
        for o, r in zip(outs, refs):
            close(o.squeeze(), np.squeeze(r), f"{name} as {kind}", rtol=1e-10, atol=1e-10)
        rec.event("agreed")


# ---------------------------------------------------------------- functions of its own
def fd_reference(x, x0, d):
    """Weights from the moment equations: sum w_i (x_i-x0)^k / k! = [k == d]."""
    from math import factorial
    n = len(x)
    A = np.array([[(xi - x0) ** k / factorial(k) for xi in x] for k in range(n)])
    b = np.zeros(n)
    b[d] = 1
    return A, b


@P.check(st.tuples(st.integers(2, 6), st.integers(1, 3), st.booleans(), seeds, st.booleans()), quick=60, thorough=1500)
def finite_difference_weights_are_exact(case, rec):
    n, d, on_grid, seed, as_dm = case
    x = np.cumsum(0.3 + np.abs(bulk(seed, n)))
    x = x[np.argsort(bulk(seed + 1, n))]     # not necessarily in order
    x0 = float(x[0]) if on_grid else float(bulk(seed + 2, 1, lo=-1, hi=3)[0])
    if d > n - 1:
        rec.event("rejected")
        try:
            cnp.finite_difference_coefficients(x, x0, d)
        except ValueError:
            return
        raise Violation(f"{n} points accepted for derivative {d}")
    w = cnp.finite_difference_coefficients(cas.DM(x) if as_dm else x, x0, d)
    w = cas.DM(w).full().ravel() if as_dm else np.asarray(w, float)
    A, b = fd_reference(x, x0, d)
    scale = np.abs(A) @ np.abs(w) + 1
    ensure(np.all(np.abs(A @ w - b) < 1e-9 * scale), f"weights {w} on {x} at {x0} for derivative {d}: moments {A @ w}")
    rec.event(f"derivative {d}")
    rec.nontrivial()


@P.check(st.tuples(st.sampled_from(["SX", "MX", "DM", "np"]), st.integers(2, 7), seeds), quick=100, thorough=1500)
def trigonometry_rotations_and_trapezoids(case, rec):
    kind, n, seed = case
    a = bulk(seed, n, lo=-180, hi=180)
    u = bulk(seed + 1, n, lo=-0.99, hi=0.99)

    def run(call, *arrays):
        if kind == "np":
            return np.asarray(call(*arrays), float)
        return evaluate(kind, None, lambda ns, *x: call(*x[:-1]), arrays, [False] * len(arrays), None)[0]

    r = np.pi / 180
    for call, args, ref in [
            (cnp.degrees, (u,), u / r), (cnp.radians, (a,), a * r), (cnp.sind, (a,), np.sin(a * r)),
            (cnp.cosd, (a,), np.cos(a * r)), (cnp.arcsind, (u,), np.arcsin(u) / r), (cnp.arccosd, (u,), np.arccos(u) / r),
            (cnp.arctan2d, (a, u), np.arctan2(a, u) / r), (cnp.tand, (u * 80,), np.tan(u * 80 * r)),
            (lambda x: cnp.trapz(x), (a,), (a[1:] + a[:-1]) / 2)]:
        close(run(call, *args).ravel(), ref, getattr(call, "__name__", "trapz"), rtol=1e-10, atol=1e-10)
    # rotations
    th = np.array(float(a[0]) * r)
    R2 = run(cnp.rotation_matrix_2D, th)
    close(R2, [[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]], "rotation in the plane", rtol=1e-10, atol=1e-10)
    axis = bulk(seed + 2, 3, lo=-2, hi=2) + 0.01
    R3 = run(lambda t: cnp.rotation_matrix_3D(t, axis), th)
    k = axis / np.linalg.norm(axis)
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    close(R3, np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K, "rotation in space", rtol=1e-9, atol=1e-10)
    if kind == "DM":
        close(run(lambda t: cnp.rotation_matrix_3D(float(th), t), axis), R3, "rotation about a CasADi axis", rtol=1e-9, atol=1e-10)
    # cosine spacing: Chebyshev extrema of the range
    lo, hi = float(u[0]), float(u[0]) + 1.7
    close(np.asarray(cnp.cosspace(lo, hi, n)), (lo + hi) / 2 - (hi - lo) / 2 * np.cos(np.pi * np.arange(n) / (n - 1)),
          "cosspace", rtol=1e-10, atol=1e-10)
    s = cnp.length(cas.DM(u)) if kind != "np" else cnp.length(u)
    ensure(s == n, f"length of a vector of {n}: {s}")
    rec.event(kind)
    rec.nontrivial()


@P.probe("C11-roll-row")
def roll_of_a_row_without_axis():
    """numpy.roll without an axis moves the entries of a (1, n) row; the CasADi version leaves them."""
    row = np.array([[3.0, 1.0, 2.0]])
    if not np.array_equal(cas.DM(cnp.roll(cas.DM(row), 1)).full(), np.roll(row, 1)):
        return "roll of a one-row CasADi array without an axis does not move its entries"
