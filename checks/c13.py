"""C13: windowing and block-offset helpers equal their naive definitions."""
import numpy as np
from hypothesis import strategies as st

from lib.gen import bulk, seeds
from lib.harness import Property, Violation, close, ensure
from lumos.optimal_control.utils import batch_conv1d, create_offset_structure, stack_and_increment

P = Property("C13", rule=(
    "Random lengths, widths, strides (with and without overlap, even and uneven), 0-2 trailing dimensions, NumPy and JAX; "
    "random blocks, offsets (also zero and negative) and repeat counts. Non-trivial: more than one window or block, for large problems an index beyond 32767."))

CONV = st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 6), st.integers(0, 3),
                 st.lists(st.integers(1, 3), max_size=2), seeds, st.sampled_from(["numpy", "jax"]))


@P.check(CONV, quick=250, thorough=3000, shards=2)
def windows(case, rec):
    nwin, width, stride, extra, trailing, seed, backend = case
    length = (nwin - 1) * stride + width + (extra if seed % 3 == 0 else 0)
    x = bulk(seed, length, *trailing)
    even = (length - width) % stride == 0
    overlap = width - stride
    supported = even and 0 <= overlap <= stride
    try:
        out = np.asarray(batch_conv1d(x, width=width, stride=stride, backend=backend))
    except Exception as e:
        if supported:
            raise
        if not even and not isinstance(e, ValueError):
            raise Violation(f"uneven length reported as {type(e).__name__}: {e}")
        rec.event("rejected")
        rec.nontrivial(not even)
        return
    ensure(even, f"length {length} cut into windows of {width} every {stride}: {out.shape}")
    k = (length - width) // stride + 1
    close(out, np.array([x[i * stride: i * stride + width] for i in range(k)]),
          f"windows of {width} every {stride} from {x.shape}", rtol=0, atol=0)
    rec.event("overlap" if overlap else "adjacent")
    rec.event(backend)
    rec.nontrivial(k > 1)


OFF = st.tuples(st.lists(st.tuples(st.integers(0, 20), st.integers(0, 20)), max_size=6), st.integers(-3, 30),
                st.integers(-3, 30), st.integers(1, 7))


@P.check(OFF, quick=200, thorough=3000)
def offset_structures(case, rec):
    base, ro, co, blocks = case
    rows, cols = np.array([b[0] for b in base], int), np.array([b[1] for b in base], int)
    keep = rows.copy(), cols.copy()
    r, c = create_offset_structure(rows, cols, ro, co, blocks)
    er = [i + k * ro for k in range(blocks) for i in rows]
    ec = [j + k * co for k in range(blocks) for j in cols]
    close(r, er, "rows", rtol=0, atol=0), close(c, ec, "columns", rtol=0, atol=0)
    ensure(np.array_equal(rows, keep[0]) and np.array_equal(cols, keep[1]), "the base block was modified")
    rec.nontrivial(blocks > 1 and len(base) > 1)


STACK = st.tuples(st.lists(st.integers(1, 4), min_size=0, max_size=3), st.integers(0, 3), st.integers(1, 5),
                  st.integers(-4, 30), seeds)


@P.check(STACK, quick=200, thorough=3000)
def stacked_increments(case, rec):
    shape, axis, repeat, inc, seed = case
    axis = min(axis, len(shape))
    x = np.round(bulk(seed, *shape, lo=0, hi=20)).astype(int)
    out = stack_and_increment(x, axis=axis, num_repeat=repeat, num_increment=inc)
    ensure(out.shape == tuple(shape[:axis]) + (repeat,) + tuple(shape[axis:]), f"shape {out.shape}")
    for k in range(repeat):
        close(np.take(out, k, axis=axis), x + k * inc, f"repeat {k} along axis {axis}", rtol=0, atol=0)
    rec.nontrivial(repeat > 1 and x.size > 1)


BIG = st.tuples(st.integers(1, 300), st.integers(0, 5000), st.integers(0, 5000), st.integers(1, 40), seeds)


@P.check(BIG, quick=60, thorough=1500)
def indices_of_large_problems(case, rec):
    """Offsets and counts of a problem with many thousand variables."""
    blocks, ro, co, n, seed = case
    rows, cols = (np.round(bulk(seed + k, n, lo=0, hi=3000)).astype(int) for k in (0, 1))
    r, c = create_offset_structure(rows, cols, ro, co, blocks)
    k = np.arange(blocks, dtype=object)
    close(r, np.array([rows + i * ro for i in k], float).ravel(), "rows", rtol=0, atol=0)
    close(c, np.array([cols + i * co for i in k], float).ravel(), "columns", rtol=0, atol=0)
    out = stack_and_increment(rows, axis=seed % 2, num_repeat=blocks, num_increment=ro)
    ref = np.array([rows + i * ro for i in k], float)
    close(out, ref.T if seed % 2 else ref, "stacked indices", rtol=0, atol=0)
    x = bulk(seed, blocks * 7 + 2)
    close(batch_conv1d(x, width=9, stride=7), np.array([x[7 * i: 7 * i + 9] for i in range(blocks)]), "windows", rtol=0, atol=0)
    top = int(max(r.max(), c.max(), out.max()))
    rec.event("beyond 65535" if top > 65535 else "beyond 32767" if top > 32767 else "small")
    rec.nontrivial(top > 32767)
