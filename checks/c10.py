"""C10: mapped evaluation equals evaluating stage by stage."""
from typing import NamedTuple

import casadi as cas
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

import lumos.numpy as lnp
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lumos.optimal_control.nlp import JaxMappedConstraints

P = Property("C10", rule=(
    "Random polynomial/trigonometric functions of 1-4 vector or scalar arguments, some shared, with one or several "
    "outputs; a history of 2-6 batch sizes through one mapped object (arrays reused with other contents, any memory layout, samples that are not numbers), "
    "every row compared with the function itself. "
    "Non-trivial: batch sizes change within a history and at least one argument is shared or there are several outputs."))


class Pair(NamedTuple):
    a: np.ndarray
    b: np.ndarray


def case_strategy():
    return st.tuples(
        st.lists(st.tuples(st.integers(1, 4), st.booleans(), st.booleans()), min_size=1, max_size=4),  # (size, mapped, 1-D)
        st.lists(st.integers(1, 4), min_size=1, max_size=3),    # outputs
        st.lists(st.one_of(*[st.integers(1, 9)] * 19, st.sampled_from([64, 100, 129, 257])), min_size=2, max_size=6),    # batch sizes
        seeds, st.integers(1, 40))


def coef(seed, n_out, n_in):
    return bulk(seed, n_out, n_in), np.round(bulk(seed + 1, n_out, n_in) * 2)


def func(ns, parts, outs, seed, stack):
    """The same formula for NumPy arrays and CasADi symbols: parts is a list of element lists."""
    v = [e for p in parts for e in p]
    res = []
    for k, n in enumerate(outs):
        A, B = coef(seed + 5 * k, n, len(v))
        rows = []
        for i in range(n):
            t = 0.0
            for j, e in enumerate(v):
                if B[i, j] == 0 and (i + j) % 2:
                    continue  # some outputs do not depend on some inputs
                t = t + A[i, j] * ns.sin(e + B[i, j]) * v[(i + j) % len(v)]
            rows.append(t)
        res.append(stack(rows))
    return res


def arguments(argspec, n, seed):
    args = []
    for k, (size, mapped, flat) in enumerate(argspec):
        if mapped:
            args.append(bulk(seed + k, n, size) if not (flat and size == 1) else bulk(seed + k, n))
        else:
            args.append(bulk(seed + k, size))
    return args


def row(argspec, args, i):
    return [np.atleast_1d(a[i]) if mapped else np.atleast_1d(a) for (_, mapped, _), a in zip(argspec, args)]


def reference(argspec, args, outs, seed, n):
    cols = []
    for (_, mapped, _), a in zip(argspec, args):
        cols.append(list(a.reshape(n, -1).T) if mapped else [np.full(n, e) for e in np.atleast_1d(a)])
    return [np.array(r).T for r in func(np, cols, outs, seed, lambda r: [np.broadcast_to(x, (n,)) for x in r])]


def usable(argspec):
    argspec = list(argspec)
    if not any(m for _, m, _ in argspec):
        argspec[-1] = (argspec[-1][0], True, argspec[-1][2])
    return argspec


def histories(argspec, sizes, seed):
    """Arguments of each call: new ones for every size, then some of the same arrays with other contents."""
    for k, n in enumerate(sizes):
        args = arguments(argspec, n, seed + 100 * k)
        if k % 3 == 1:  # memory layout is nothing a user sees
            args = [np.asfortranarray(a) for a in args]
        elif k % 3 == 2:
            args = [np.repeat(a, 2, axis=0)[::2] for a in args]
        if (seed >> k) % 5 == 0:  # some samples are undefined
            for a, (_, mapped, _) in zip(args, argspec):
                if mapped and (seed >> k) % 2:
                    a[(seed >> k) % n] = np.nan
                elif mapped:
                    a[-1] = np.nan
                    break
        yield n, args
        if (seed >> k) % 2:
            for j, a in enumerate(args):
                if (seed >> (k + j)) % 3 < 2:
                    a[...] = a[::-1] * 2.0 - 1.5
            yield n, args


def nontriv(rec, argspec, outs, sizes):
    shared = any(not m for _, m, _ in argspec)
    rec.event(f"args={len(argspec)}" + ("+shared" if shared else ""))
    rec.event(f"outs={len(outs)}")
    rec.nontrivial(len(set(sizes)) > 1 and (shared or len(outs) > 1))


@P.check(st.tuples(case_strategy(), st.sampled_from(["array", "tuple", "named", "scalar"])), quick=125, thorough=8000, shards=2)
def listmap(case, rec):
    (argspec, outs, sizes, seed, _), kind = case
    argspec = usable(argspec)
    outs = {"array": outs[:1], "tuple": outs, "named": (outs * 2)[:2], "scalar": [1]}[kind]
    # the outputs may have any number of dimensions, each its own
    shapes = [[(n,), (n,), (1, n), (n, 1, 1), () if n == 1 else (n,)][(seed >> 3 * i) % 5] for i, n in enumerate(outs)]
    if kind == "scalar":
        shapes = [(1,)]

    def f(*a):
        r = func(np, [np.atleast_1d(x) for x in a], outs, seed, lambda r: np.array([float(x) for x in r]))
        r = [np.reshape(x, s) for x, s in zip(r, shapes)]
        return {"array": lambda: r[0], "tuple": lambda: tuple(r), "named": lambda: Pair(*r), "scalar": lambda: r[0][0]}[kind]()
    axes = [0 if m else None for _, m, _ in argspec]
    g = lnp.lmap(f, in_axes=axes) if any(a is None for a in axes) or seed % 2 else lnp.lmap(f)
    for n, args in histories(argspec, sizes, seed):
        want = [np.reshape(w, (n, *s)) for w, s in zip(reference(argspec, args, outs, seed, n), shapes)]
        got = g(*args)
        if kind == "array":
            close(got, want[0], "list map")
        elif kind == "scalar":
            close(got, want[0][:, 0], "list map of scalars")
        else:
            ensure(type(got) is (tuple if kind == "tuple" else Pair) and len(got) == len(outs), "container of the outputs")
            for a, b in zip(got, want):
                close(a, b, f"list map ({kind})")
    nontriv(rec, argspec, outs, sizes)
    rec.event(kind)


SAMPLE = st.one_of(st.integers(-3, 3), st.booleans(), fl(-3, 3, 3), fl(-3, 3, 3).map(np.float32), st.integers(-3, 3).map(np.int8))


@P.check(st.tuples(st.lists(SAMPLE, min_size=1, max_size=6), st.sampled_from([None, (), (1,), (2,), (2, 3)])), quick=120, thorough=1000)
def listmap_types(case, rec):
    """A mapped function may return integers for some samples and floats for others."""
    samples, shape = case

    def f(i):
        v = samples[int(i)]
        return v if shape is None else np.full(shape, v)
    got = lnp.lmap(f)(np.arange(len(samples)))
    close(got, [f(i) for i in range(len(samples))], "list map of mixed types", rtol=0, atol=0)
    rec.event("-".join(sorted({type(v).__name__ for v in samples})))
    rec.nontrivial(len({type(v) for v in samples}) > 1)


def symbolic(argspec, outs, seed):
    syms = [cas.SX.sym(f"a{k}", size) for k, (size, _, _) in enumerate(argspec)]
    r = func(cas, [[s[i] for i in range(s.numel())] for s in syms], outs, seed, lambda rows: cas.vertcat(*[cas.SX(x) for x in rows]))
    return syms, r


@P.check(case_strategy(), quick=160, thorough=5000)
def casadi_dense(case, rec):
    argspec, outs, sizes, seed, workers = case
    argspec = usable(argspec)
    syms, r = symbolic(argspec, outs, seed)
    g = lnp.cmap(cas.Function("f", syms, r), in_axes=[0 if m else None for _, m, _ in argspec], num_workers=workers)
    for n, args in histories(argspec, sizes, seed):
        want = reference(argspec, args, outs, seed, n)
        got = g(*args)
        got = got if isinstance(got, tuple) else (got,)
        ensure(len(got) == len(outs), "number of outputs")
        for a, b in zip(got, want):
            close(a, b, f"CasADi map, batch {n}")
    nontriv(rec, argspec, outs, sizes)


@P.check(case_strategy(), quick=160, thorough=5000)
def casadi_sparse(case, rec):
    """Sparse Jacobians: row k of the result is the stored nonzeros (column order) of the Jacobian at row k."""
    argspec, outs, sizes, seed, workers = case
    argspec = usable(argspec)
    outs = outs[:1]
    syms, r = symbolic(argspec, outs, seed)
    J = cas.jacobian(r[0], cas.vertcat(*syms))
    f = cas.Function("j", syms, [J])
    rows, cols = J.sparsity().get_triplet()
    if not rows:
        return
    g = lnp.cmap(f, in_axes=[0 if m else None for _, m, _ in argspec], num_workers=workers, sparse=True)
    for n, args in histories(argspec, sizes, seed):
        got = np.asarray(g(*args))
        ensure(got.shape == (n, len(rows)), f"shape {got.shape} of sparse values")
        for i in range(n):
            ref = np.array(f(*row(argspec, args, i)))
            close(got[i], ref[rows, cols], f"sparse values of row {i}")
    nontriv(rec, argspec, [1, 1], sizes)
    rec.event("sparse" if len(rows) < J.numel() else "full")


@P.check(st.tuples(case_strategy(), st.one_of(st.integers(300, 3000), st.integers(300, 20000))), quick=16, thorough=300)
def large_batches(case, rec):
    """As many samples as large problems have stages."""
    (argspec, outs, _, seed, workers), n = case
    argspec, outs = usable(argspec), outs[:1]
    axes = [0 if m else None for _, m, _ in argspec]
    syms, r = symbolic(argspec, outs, seed)
    J = cas.jacobian(r[0], cas.vertcat(*syms))
    f = cas.Function("j", syms, [J])
    rows, cols = J.sparsity().get_triplet()
    dense = lnp.cmap(cas.Function("f", syms, r), in_axes=axes, num_workers=workers)
    sparse = lnp.cmap(f, in_axes=axes, num_workers=workers, sparse=True)
    args = arguments(argspec, n, seed)
    want = reference(argspec, args, outs, seed, n)[0]
    close(dense(*args), want, f"CasADi map, batch {n}")
    spots = sorted({0, 1, n // 2, n - 2, n - 1, *((bulk(seed + 7, 40, lo=0, hi=1) * (n - 1)).astype(int).tolist())})
    if rows:
        got = np.asarray(sparse(*args))
        ensure(got.shape == (n, len(rows)), f"shape {got.shape} of sparse values")
        for i in spots:
            close(got[i], np.array(f(*row(argspec, args, i)))[rows, cols], f"sparse values of row {i} of {n}")

    def g(*a):
        return func(np, [np.atleast_1d(x) for x in a], outs, seed, lambda r: np.array([float(x) for x in r]))[0]
    if n < 3000:
        close(lnp.lmap(g, in_axes=axes)(*args), want, f"list map, batch {n}")
    rec.nontrivial(n > 1000)


@P.check(st.tuples(st.integers(1, 3), st.integers(1, 3), st.lists(st.integers(1, 6), min_size=1, max_size=3), seeds,
                   st.booleans()), quick=8, thorough=80)
def jaxmap(case, rec):
    nin, nout, sizes, seed, sparse = case
    A = bulk(seed, nout, nin)

    def con(x, mesh, p):
        return jnp.sin(A @ x) * p + jnp.sum(x**2) * mesh

    js = np.nonzero(np.ones((nout, nin)))
    hs = np.nonzero(np.ones((nin, nin)))
    if sparse:
        o = np.random.RandomState(seed % 2**31).permutation(len(js[0]))
        js = js[0][o], js[1][o]
        o = np.random.RandomState(seed % 2**31).permutation(len(hs[0]))
        hs = hs[0][o], hs[1][o]
    c = JaxMappedConstraints(num_in=nin, num_con=nout, constraints=con, jacobian_structure=js, hessian_structure=hs)
    old = lnp.get_backend()
    for k, n in enumerate(sizes):
        X, M, L = bulk(seed + k, n, nin), bulk(seed + k + 1, n), bulk(seed + k + 2, n, nout)
        p = float(bulk(seed + k + 3, 1)[0])
        close(c.mapped_constraints(X, M, p), np.sin(X @ A.T) * p + np.sum(X**2, 1)[:, None] * M[:, None], "JAX map values")
        J = [np.cos(A @ X[i])[:, None] * A * p + 2 * X[i] * M[i] for i in range(n)]
        H = [-(A.T * (L[i] * np.sin(A @ X[i]) * p)) @ A + 2 * np.eye(nin) * M[i] * np.sum(L[i]) for i in range(n)]
        close(np.asarray(c.mapped_jacobian(X, M, p)).reshape(n, -1), [j[js[0], js[1]] for j in J], "JAX map Jacobian")
        close(np.asarray(c.mapped_hessian(X, L, M, p)).reshape(n, -1), [h[hs[0], hs[1]] for h in H], "JAX map Hessian")
        ensure(lnp.get_backend() == old, "backend changed by a mapped call")
    rec.nontrivial(len(sizes) > 1)


@P.check(st.tuples(st.lists(st.integers(0, 5), min_size=1, max_size=5), st.integers(1, 6), seeds,
                   st.sampled_from(["numpy", "jax", "casadi"]), st.booleans()), quick=200, thorough=4000)
def vectors(case, rec):
    lens, reps, seed, backend, sym = case
    if not sum(lens):
        lens = lens + [1]
    parts = [bulk(seed + i, n) for i, n in enumerate(lens)]
    whole = np.concatenate(parts)
    cuts = [int(c) for c in np.cumsum(lens)[:-1]]
    with lnp.use_backend(backend):
        if backend == "casadi":
            T = cas.SX if sym else cas.MX
            ps = [T.sym(f"p{i}", n) for i, n in enumerate(lens)]
            cat = lnp.vector_concat(ps)
            tile = lnp.vector_tile(cat, reps)
            spl = lnp.vector_split(cat, cuts)
            f = cas.Function("f", ps, [cat, tile] + list(spl))
            r = [np.array(o) for o in f.call([cas.DM(p) for p in parts])]
            cat, tile, spl = r[0].ravel(), r[1], [o.ravel() for o in r[2:]]
        else:
            conv = jnp.array if backend == "jax" else np.array
            cat = lnp.vector_concat([conv(p) for p in parts])
            tile = lnp.vector_tile(cat, reps)
            spl = lnp.vector_split(cat, cuts)
    close(cat, whole, "vector_concat")
    close(tile, np.array([whole] * reps), "vector_tile")
    ensure(len(spl) == len(parts), "number of pieces")
    for a, b in zip(spl, parts):
        close(a, b, "vector_split")
    rec.event(backend)
    rec.nontrivial(len(lens) > 1 and reps > 1)
