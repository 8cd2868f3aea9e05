"""C12: the decision vector layout is one consistent bijection."""
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from lib.gen import bulk, seeds
from lib.harness import Property, Violation, close, ensure
from lumos.optimal_control.utils import DecVarOperator

P = Property("C12", rule=(
    "Random layouts: 1-4 groups of 0-4 names (repeated across groups, order shuffled, extra unused groups), 1-6 intervals, "
    "2-5 stages per interval, 0-3 global variables; a random decision vector, every index query of every variable, group "
    "and stage. Large layouts with up to 96000 variables. Non-trivial: at least two groups, two intervals and a global variable; more than 32767 variables when large."))

GROUPS = ("states", "inputs", "states_dot", "con_outputs")
NAMES = ("x", "y", "z", "time", "abc")


@st.composite
def layout(draw):
    sizes = draw(st.tuples(*[st.integers(0, 4)] * 4))
    names = {g: tuple(draw(st.permutations(NAMES))[:n]) for g, n in zip(GROUPS, sizes)}
    used = draw(st.permutations(GROUPS))[: draw(st.integers(1, 4))]
    if sum(len(names[g]) for g in used) == 0:
        names[used[0]] = ("x",)
    glob = tuple(draw(st.permutations(("mesh_scale", "alpha", "x", "T")))[: draw(st.integers(0, 3))])
    return names, tuple(used), glob, draw(st.integers(1, 6)), draw(st.integers(2, 5)), draw(seeds)


def build(names, used, glob, ni, ns):
    Names = namedtuple("Names", GROUPS)
    return DecVarOperator(model_var_names=Names(**names), num_intervals=ni, num_stages_per_interval=ns,
                          stage_var_groups=used, global_var_names=glob)


LAYOUTS = ("column major", "strided", "reversed view", "read-only")


def relaid(v, kind):
    """The same values in another memory layout."""
    v = np.asarray(v, float)
    if v.ndim == 0:
        return float(v)
    if kind == "column major":
        return np.asfortranarray(v)
    if kind == "strided":
        w = np.full(tuple(2 * n for n in v.shape), 77.0)
        w[tuple(slice(None, None, 2) for _ in v.shape)] = v
        return w[tuple(slice(None, None, 2) for _ in v.shape)]
    if kind == "reversed view":
        return v[::-1].copy()[::-1]
    w = v.copy()
    w.setflags(write=kind != "read-only")
    return w


def rejected(fn, what):
    try:
        r = fn()
    except (ValueError, IndexError):
        return
    raise Violation(f"{what} accepted: {r}")


@P.check(layout(), quick=250, thorough=5000, shards=4)
def queries_agree_with_unpacking(case, rec):
    names, used, glob, ni, ns, seed = case
    op = build(names, used, glob, ni, ns)
    N = ni * (ns - 1) + 1
    d = sum(len(names[g]) for g in used)
    ensure(op.num_stages == N, f"{op.num_stages} stages for {ni} intervals of {ns}")
    ensure(op.num_dec == N * d + len(glob), f"{op.num_dec} decision variables instead of {N * d + len(glob)}")
    ensure(bool(op.has_global_var()) == bool(glob) and op.num_global_var == len(glob), f"globals {glob} reported as {op.num_global_var}, {op.has_global_var()}")
    ensure(op.num_var_stage == d and op.num_all_stage_var == N * d, f"{op.num_var_stage} variables a stage, {op.num_all_stage_var} in all")
    x = bulk(seed, op.num_dec)
    out = op.unflatten_var(x)
    ensure(set(out._fields) == set(used) | set(glob), f"fields {out._fields}")
    # every entry of the vector appears exactly once in the unpacked values
    seen = np.concatenate([np.ravel(np.asarray(getattr(out, f), float)) for f in out._fields])
    close(np.sort(seen), np.sort(x), "entries of the unpacked vector", rtol=0, atol=0)
    for g in used:
        ensure(np.shape(getattr(out, g)) == (N, len(names[g])), f"{g} unpacked to shape {np.shape(getattr(out, g))}")
    # packing is the inverse in both directions
    close(op.flatten_var(**out._asdict()), x, "packed again", rtol=0, atol=0)
    vals = {g: bulk(seed + 1 + i, N, len(names[g])) for i, g in enumerate(used)}
    vals.update({n: float(bulk(seed + 9 + i, 1)[0]) for i, n in enumerate(glob)})
    back = op.unflatten_var(op.flatten_var(**vals))
    for k, v in vals.items():
        close(getattr(back, k), v, f"{k} packed and unpacked", rtol=0, atol=0)
    # the memory layout of what is passed does not matter
    for kind in LAYOUTS:
        same = {k: relaid(v, kind) for k, v in vals.items()}
        close(op.flatten_var(**same), op.flatten_var(**vals), f"{kind} arrays packed", rtol=0, atol=0)
        for a, b in zip(op.unflatten_var(relaid(x, kind)), out):
            close(a, b, f"{kind} vector unpacked", rtol=0, atol=0)
    close(op.flatten_var(**dict(reversed(list(vals.items())))), op.flatten_var(**vals), "packed in another order", rtol=0, atol=0)
    # index queries
    hit = np.zeros(op.num_dec, int)
    for g in used:
        arr = np.asarray(getattr(out, g))
        for j, n in enumerate(names[g]):
            ensure(op.get_var_index_in_group(g, n) == j, f"position of {n} in {g}")
            idx = np.asarray(op.get_var_index_in_dec(group=g, name=n))
            close(x[idx], arr[:, j], f"{g}.{n} at all stages", rtol=0, atol=0)
            close(op.get_var(x, g, n), arr[:, j], f"values of {g}.{n}", rtol=0, atol=0)
            hit[idx] += 1
            for s in range(-N, N):
                i = op.get_var_index_in_dec(group=g, name=n, stage=s)
                ensure(i == idx[s], f"{g}.{n} at stage {s}: index {i} instead of {idx[s]}")
                ensure(op.get_var(x, g, n, s) == arr[s, j], f"value of {g}.{n} at stage {s}")
            for integer in (np.int64, np.int32, np.int8)[:1 + seed % 3]:
                for s in {-N, -1, 0, N - 1}:
                    i = op.get_var_index_in_dec(group=g, name=n, stage=integer(s))
                    ensure(np.shape(i) == () and i == idx[s], f"{g}.{n} at stage {integer.__name__} {s}: index {i} instead of {idx[s]}")
        for s in range(-N, N):
            gi = op.get_group_indices_at_stage(group=g, stage=s)
            close(x[gi], arr[s], f"{g} at stage {s}", rtol=0, atol=0)
            close(x[op.get_group_indices_at_stage(group=g, stage=np.int64(s))], arr[s], f"{g} at stage np.int64 {s}", rtol=0, atol=0)
        close(x[op.get_group_indcies_in_dec(g)], arr.ravel(), f"all of {g}", rtol=0, atol=0)
        for s in (N, -N - 1, N + 3):
            rejected(lambda: op.get_group_indices_at_stage(group=g, stage=s), f"stage {s} of {N} for group {g}")
            for n in names[g][:1]:
                rejected(lambda: op.get_var_index_in_dec(group=g, name=n, stage=s), f"stage {s} of {N} for {g}.{n}")
    for i, n in enumerate(glob):
        k = op.get_var_index_in_dec("global", n)
        ensure(x[k] == getattr(out, n), f"global {n} at {k}")
        ensure(op.get_var_index_in_group("global", n) == i, f"position of global {n}")
        ensure(op.get_var(x, "global", n) == getattr(out, n), f"value of global {n}")
        hit[k] += 1
    ensure(np.all(hit == 1), f"entries addressed {hit.tolist()} times")
    # views by stage and by interval
    stages = op.get_stage_var_array(x)
    close(stages, np.hstack([np.asarray(getattr(out, g)).reshape(N, -1) for g in used]), "stage array", rtol=0, atol=0)
    sv, gv = op.split_stage_and_global_vars(x)
    close(op.merge_stage_and_global_vars(np.asarray(sv), np.asarray(gv)), x, "split and merged", rtol=0, atol=0)
    ensure(np.size(gv) == len(glob), "global part")
    for g in used:
        if len(names[g]):
            t = op.get_interval_tensor(x, g)
            a = np.asarray(getattr(out, g))
            close(t, np.array([a[k * (ns - 1): k * (ns - 1) + ns] for k in range(ni)]), f"{g} by interval", rtol=0, atol=0)
    rec.event(f"{len(used)} groups"), rec.event(f"{len(glob)} globals"), rec.event(f"{ns} stages/interval")
    rec.nontrivial(len(used) > 1 and ni > 1 and len(glob) > 0)


@P.check(layout(), quick=25, thorough=600, shards=2)
def large_layouts(case, rec):
    """The same queries when there are many thousand variables, against one vectorised reference."""
    names, used, glob, _, ns, seed = case
    d = sum(len(names[g]) for g in used)
    size = (1000, 20000, 40000, 80000)[seed % 4] * (1 + bulk(seed, 1, lo=0, hi=0.2)[0])
    ni = max(1, int(size / d / (ns - 1)))
    N = ni * (ns - 1) + 1
    op = build(names, used, glob, ni, ns)
    ensure(op.num_dec == N * d + len(glob), f"{op.num_dec} decision variables instead of {N * d + len(glob)}")
    place = np.arange(N * d).reshape(N, d)
    x = np.arange(op.num_dec, dtype=float) + 0.5
    out = op.unflatten_var(x)
    off = 0
    spot = sorted({0, 1, N // 2, N - 2, N - 1} & set(range(N)))
    for g in used:
        w = len(names[g])
        ref = place[:, off:off + w]
        close(getattr(out, g), ref + 0.5, f"{g} unpacked", rtol=0, atol=0)
        if N * d < 20000 or seed % 3 == 0:
            close(op.get_group_indcies_in_dec(g), ref.ravel(), f"all of {g}", rtol=0, atol=0)
        for s in spot:
            close(op.get_group_indices_at_stage(group=g, stage=s), ref[s], f"{g} at stage {s}", rtol=0, atol=0)
            close(op.get_group_indices_at_stage(group=g, stage=s - N), ref[s], f"{g} at stage {s - N}", rtol=0, atol=0)
        for j, n in enumerate(names[g]):
            close(op.get_var_index_in_dec(group=g, name=n), ref[:, j], f"{g}.{n} at all stages", rtol=0, atol=0)
            for s in spot:
                ensure(op.get_var_index_in_dec(group=g, name=n, stage=s) == ref[s, j], f"{g}.{n} at stage {s}")
                ensure(op.get_var_index_in_dec(group=g, name=n, stage=s - N) == ref[s, j], f"{g}.{n} at stage {s - N}")
        if w:
            k = np.arange(ni)[:, None] * (ns - 1) + np.arange(ns)
            close(op.get_interval_tensor(x, g), ref[k] + 0.5, f"{g} by interval", rtol=0, atol=0)
        off += w
    for i, n in enumerate(glob):
        ensure(op.get_var_index_in_dec("global", n) == N * d + i, f"global {n}")
    close(op.flatten_var(**out._asdict()), x, "packed again", rtol=0, atol=0)
    rec.event("beyond 65535" if op.num_dec > 65535 else "beyond 32767" if op.num_dec > 32767 else "small")
    rec.nontrivial(op.num_dec > 32767)
