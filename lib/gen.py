"""Shared strategies.  Everything drawn is plain data (floats, lists, dicts, tuples)."""
import numpy as np
from hypothesis import strategies as st


def finite(lo=-10.0, hi=10.0):
    """Floats with some round values; never subnormal noise."""
    return st.one_of(
        st.integers(int(np.ceil(lo)), int(np.floor(hi))).map(float),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float(np.round(v, 6))),
    )


def fl(lo, hi, nd=6):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float(np.round(v, nd)) + 0.0)


def vec(n, lo=-3.0, hi=3.0):
    return st.lists(fl(lo, hi), min_size=n, max_size=n)


# A reproducible bulk of numbers from one drawn integer: shrinking sees one integer, and the
# stream is a pure function of it.
def bulk(seed, *shape, lo=-1.0, hi=1.0):
    r = np.random.RandomState(seed % (2**32))
    return lo + (hi - lo) * r.random_sample(shape)


seeds = st.integers(0, 2**31 - 1)

names = st.text(alphabet="abcxyz_", min_size=1, max_size=4)


@st.composite
def array_value(draw, max_dim=2, allow_empty=True):
    """('s', v) scalar or ('a', shape, values[, layout])."""
    kind = draw(st.sampled_from(["s", "1", "2", "1", "2", "int", "one", "one2"]
                                + (["e"] if allow_empty else [])))
    if kind == "s":
        return ("s", draw(finite()))
    if kind == "int":
        return ("s", draw(st.integers(-5, 5)))
    if kind == "one":
        shape = (1,)
    elif kind == "one2":
        shape = draw(st.sampled_from([(1, 1), (1, 3), (3, 1)]))
    elif kind == "e":
        shape = draw(st.sampled_from([(0,), (0, 2)]))
    elif kind == "1":
        shape = (draw(st.integers(2, 5)),)
    else:
        shape = (draw(st.integers(1, 4)), draw(st.integers(2, 4)))
    n = int(np.prod(shape))
    vals = draw(st.lists(finite(), min_size=n, max_size=n))
    # how the array lies in memory is nothing a user sees
    layout = draw(st.sampled_from(["C", "C", "F", "view", "neg"]))
    return ("a", shape, vals) if layout == "C" else ("a", shape, vals, layout)


def realize(v):
    if v[0] == "s":
        return v[1]
    a = np.array(v[2], dtype=float).reshape(v[1])
    layout = v[3] if len(v) > 3 else "C"
    if layout == "F":
        return np.array(a, order="F")
    if layout == "view":  # every second element of a larger array
        big = np.full(tuple(2 * n for n in a.shape), -5.0)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return big[tuple(slice(None, None, 2) for _ in a.shape)]
    if layout == "neg":  # negative strides
        flip = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[flip])[flip]
    return a


@st.composite
def tree_spec(draw, depth=3, values=None, max_keys=3, max_children=3):
    values = values or array_value()
    data = draw(st.dictionaries(names, values, max_size=max_keys))
    children = {}
    if depth > 0:
        for n in draw(st.lists(names, max_size=max_children, unique=True)):
            children[n] = draw(tree_spec(depth - 1, values, max_keys, max_children))
    return {"data": data, "children": children}


@st.composite
def maybe_deep(draw, trees):
    """Sometimes below a chain of nodes, each with an entry of its own."""
    spec = draw(trees)
    for i in range(draw(st.sampled_from([0] * 7 + [6, 9, 13, 20]))):
        spec = {"data": {f"e{i}": ("s", 0.5 + i)}, "children": {f"n{i}" if i % 3 else "n": spec}}
    return spec


def build_dict(spec):
    """Nested dict {'data','children'} with live values."""
    return {"data": {k: realize(v) for k, v in spec["data"].items()},
            "children": {k: build_dict(v) for k, v in spec["children"].items()}}


def walk(spec, prefix=()):
    """Leaves (path tuple, value spec) in flat-dictionary order."""
    for k, v in spec["data"].items():
        yield prefix + (k,), v
    for k, c in spec["children"].items():
        yield from walk(c, prefix + (k,))


def nodes(spec, prefix=()):
    yield prefix, spec
    for k, c in spec["children"].items():
        yield from nodes(c, prefix + (k,))


def subset_perm(xs):
    return st.permutations(xs)
