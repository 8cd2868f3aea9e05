"""C26: solve logs record exactly the iterations that happened."""
import contextlib
import copy
import glob
import os
import shutil
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c03 import paths
from checks.c25 import set_in
from lib import domain
from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lib.models import all_residuals, param_dict
from lib.ocp import Ref, built, config, interval_points, make_ocp, ocp_spec, part_order, point
from lib.solver import replaced
from lumos.optimal_control.config import BoundConfig, LoggingConfig, ScaleConfig
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

P = Property("C26", rule=(
    "Problems of every formulation (scaled, fixed/free mesh, lifted/condensed, cyclic, sub-models) with logging; a stand-in for "
    "the solver plays generated histories of trial points and iterations, with line-search evaluations, restoration phases that "
    "repeat an iteration number, solves aborted by an error, solves without iterations, and 1-3 solves of the same "
    "problem, with a change of a parameter, the mesh scale, the mesh division or the scales in between. Files are compared row by row with values from the reference transcription. A smaller check records a run of the "
    "real solver, another plays iterates at which the model is undefined. Non-trivial: a second solve, or a restoration, with a logging interval above one."))

METRICS = ["alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du",
           "alpha_pr", "ls_trials"]


class Abort(Exception):
    pass


class PlayedSolver:
    """Stand-in for cyipopt.Problem that plays a script of iterations into the problem's callbacks."""
    script, played, point = None, None, None

    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        self.obj = problem_obj

    def add_option(self, *a):
        pass

    def solve(self, x0, lagrange=[], zl=[], zu=[]):
        cls = PlayedSolver
        cls.played = []
        z = np.array(x0)
        self.obj.objective(z)
        for kind, count, mode, seed, trials in cls.script:
            if kind == "abort":
                raise Abort()
            if kind != "repeat":
                for k in range(trials):
                    z = cls.point(seed + k)
                    val = self.obj.objective(np.array(z))
                    self.obj.constraints(np.array(z))
            metrics = dict(zip(METRICS, [mode, count] + [float(v) for v in bulk(seed, 8, lo=0, hi=5)] + [trials]))
            if kind != "repeat":
                cls.played.append((count, np.array(z), metrics))
            ok = self.obj.intermediate(*[metrics[k] for k in METRICS])
            ensure(ok is None or ok, "the callback asked the solver to stop")
        return z, {"status": 0, "status_msg": b"", "x": z}


@contextlib.contextmanager
def playing():
    with replaced(PlayedSolver):
        yield


@st.composite
def script(draw):
    """Iterations 0..n with restoration phases: modes 1, ended by a regular callback with the same number."""
    out, n = [], draw(st.integers(0, 12))
    mode = 0
    for k in range(n + 1):
        if mode == 0 and k and draw(st.integers(0, 4)) == 0:
            mode = 1
        out.append(("iter", k, mode, draw(seeds), draw(st.sampled_from([1, 1, 1, 2, 3]))))
        if mode == 1 and draw(st.booleans()):
            out.append(("repeat", k, 0, draw(seeds), 0))
            mode = 0
    end = draw(st.integers(0, 9))
    if end == 0:
        out = out[:draw(st.integers(0, len(out)))] + [("abort", 0, 0, 0, 0)]
    elif end == 1:
        out = []
    return out


def rename(x, old, new):
    if isinstance(x, str):
        return new + x[len(old):] if x == old or x.startswith(old + ".") else x
    if isinstance(x, dict):
        return {k: rename(v, old, new) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(rename(v, old, new) for v in x)
    return x


def expected_table(ref, spec, z, order_of_cyclic):
    """{column: values per stage} for the scaled point z."""
    scales = spec["scales"]
    x = z * ref.var_scales(scales)
    N = ref.N
    X, U, XD, CO, T = ref.split(x)
    t = {}
    for g, a in (("states", X), ("inputs", U), ("states_dot", XD), ("con_outputs", CO)):
        for j, n in enumerate(ref.names[g]):
            t[f"{g}.{n}"] = a[:, j]
    outs = [o for _, o in ref.forward(x)]
    for n in outs[0]:
        t["outputs." + n] = np.array([o[n] for o in outs])
    parts, sc = ref.parts(x), ref.con_scales(scales)
    v = {k: np.ravel(p) / sc[k] for k, p in parts.items()}
    cont_size = (N - 1) * ref.nx
    if spec["condensed"]:
        cont, stage = v["model_algebra"][:cont_size], v["model_algebra"][cont_size:].reshape(N, -1)
        cols = list(ref.con) + list(ref.residuals)
    else:
        cont, stage = v["continuity"], v["model_algebra"].reshape(N, -1)
        cols = list(ref.names["states_dot"]) + list(ref.con) + list(ref.residuals)
    cons = {}
    cont = np.vstack([np.zeros(ref.nx), cont.reshape(N - 1, ref.nx)])
    for j, n in enumerate(ref.names["states"]):
        cons["interval_con." + n] = cont[:, j]
    for j, n in enumerate(cols):
        cons["stage_con." + n] = stage[:, j]
    if spec["cyclic"]:
        for j, (g, n) in enumerate(ref.cyclic_names()):
            cons[f"cyclic_con.{g}.{n}"] = np.r_[np.zeros(N - 1), v["cyclic"][j]]
    t.update(cons)
    t["mesh"] = ref.mesh01 * T
    return t, cons


def compare(df, want, count, label):
    for c, v in want.items():
        ensure(c in df.columns, f"{label}: column {c} missing, there are {list(df.columns)}")
        close(np.asarray(df[c], dtype=float), v, f"{label}: {c}", rtol=1e-11, atol=1e-11)
    ensure(np.all(np.asarray(df["iter"]) == count), f"{label}: iteration {set(df['iter'])} instead of {count}")
    ensure(len(df.columns) == len(want) + 1, f"{label}: unexpected columns {set(df.columns) - set(want)}")


def check_logs(d, ref, spec, every, played, label, rec):
    """Files in directory d after a solve that played [(count, z, metrics)]."""
    from pyarrow import parquet as pq
    cyc = None
    last = played[-1][0]
    shown = {c for c, _, _ in played if every and c % every == 0} | {last}
    tables = {c: expected_table(ref, spec, z, cyc) if c in shown else None for c, z, _ in played}
    compare(pd.read_csv(os.path.join(d, "results.csv")), tables[last][0], last, f"{label}: final result")
    h = pd.read_csv(os.path.join(d, "metrics_history.csv"))
    ensure(list(h["iter_count"]) == [c for c, _, _ in played], f"{label}: metrics of iterations {list(h['iter_count'])}, "
           f"there were {[c for c, _, _ in played]}")
    for k in METRICS:
        if len(played):
            close(np.asarray(h[k], dtype=float), np.array([float(m[k]) for _, _, m in played]), f"{label}: metric {k}", rtol=1e-12, atol=1e-12)
    left = sorted(os.path.basename(f) for f in os.listdir(d))
    want_files = ["metrics_history.csv", "results.csv"] + (["all_iters.parquet"] if every else [])
    ensure(left == sorted(want_files), f"{label}: files {left}")
    if not every:
        return
    a = pq.read_table(os.path.join(d, "all_iters.parquet")).to_pandas()
    logged = sorted({c for c in tables if c % every == 0} | {last})
    ensure(sorted(set(a["iter"])) == logged, f"{label}: combined iterations {sorted(set(a['iter']))} instead of {logged}")
    ensure(len(a) == len(logged) * ref.N, f"{label}: {len(a)} rows of {len(logged)} iterations with {ref.N} stages")
    keys = list(zip(a["iter"].tolist(), a["mesh"].tolist()))
    ensure(keys == sorted(keys) or not np.all(np.isfinite(a["mesh"])), f"{label}: combined iterations in the order {list(dict.fromkeys(a['iter'].tolist()))}")
    rows = {int(r["iter_count"]): r for _, r in h.iterrows()}
    for c in logged:
        compare(a[a["iter"] == c].reset_index(drop=True), tables[c][0], c, f"{label}: combined iteration {c}")
        cons, mesh = tables[c][1], tables[c][0]["mesh"]
        worst = max(np.max(np.abs(v)) for v in cons.values())
        name, where = rows[c]["max_violation_con_name"], rows[c]["max_violation_mesh"]
        ensure(name in cons, f"{label}: iteration {c}: largest violation attributed to {name!r}, constraints are {list(cons)}")
        k = int(np.argmin(np.abs(mesh - where)))
        close(mesh[k], where, f"{label}: iteration {c}: mesh of the largest violation", rtol=1e-8)
        close(abs(cons[name][k]), worst, f"{label}: iteration {c}: value of {name} at {where}, reported as the largest violation",
              rtol=1e-7, atol=1e-11)
    for c in tables:
        if c not in logged:
            ensure(rows[c]["max_violation_con_name"] == "NotRecorded", f"{label}: violation of unrecorded iteration {c}")


def unique_columns(spec):
    """A signal that is both residual and constraint output has two columns of one name in the logs: left out."""
    m = spec["model"]
    res = set(all_residuals(m))
    con = [n for n in m["con_outputs"] if n not in res]
    return dict(spec, model=dict(m, con_outputs=con), scales=[x for x in spec["scales"] if x[0][0] != "con_outputs" or x[0][1] in con])


@st.composite
def case(draw):
    spec = unique_columns(draw(ocp_spec(max_ni=3, max_stages=3, mesh=draw(st.sampled_from([True, None])))))
    if draw(st.booleans()):
        for i, s in enumerate(spec["model"]["subs"]):
            spec = rename(spec, s["name"], s["name"] + "_con")
    return (spec, draw(st.sampled_from([0, 1, 1, 2, 3, 5, 10])), draw(st.lists(script(), min_size=1, max_size=3)),
            draw(st.sampled_from(["sim", "a b", "x[1]", "iter_3"])), draw(seeds),
            draw(st.lists(st.tuples(st.sampled_from(["none", "set", "set", "mesh", "divide", "scales"]), seeds), min_size=2, max_size=2)))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c26_", dir=".")
    try:
        yield os.path.abspath(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def nearly_feasible(ref, k):
    """A point whose violations are all tiny (unless the model has residuals): constant states, a very short mesh."""
    x = point(ref, k)
    X, _, XD, CO, _ = ref.split(x)
    X[:] = X[0]
    x[-1] = 1e-8
    fs = ref.forward(x)
    noise = bulk(k + 1, ref.N, ref.nx + ref.nc, lo=-1e-8, hi=1e-8)
    XD[:] = np.array([f for f, _ in fs]).reshape(XD.shape) + noise[:, :ref.nx]
    CO[:] = np.array([[o[n] for n in ref.con] for _, o in fs]).reshape(CO.shape) + noise[:, ref.nx:]
    return x


def change(ocp, spec, now, kind, seed, rec):
    """Change a problem between two solves; the specification it has afterwards."""
    rec.event("between solves: " + kind)
    if kind == "set":
        leaves = list(paths(spec["model"]))
        if leaves:
            path = leaves[seed % len(leaves)]
            ocp.modify_model_param(".".join(path), copy.deepcopy(set_in(now, path, float(bulk(seed, 1)[0]))))
    elif kind == "mesh" and not spec["free"]:
        T = 0.3 + (seed % 97) / 30
        ocp.set_mesh_scale(T)
        return dict(spec, T=T)
    elif kind == "divide":
        points = [round(float(v), 2) for v in bulk(seed, spec["ni"], lo=0.2, hi=2.0)]
        ocp.set_normalized_mesh(interval_points(dict(points=points)))
        return dict(spec, points=points)
    elif kind == "scales" and spec["scales"]:
        v = np.exp(bulk(seed, len(spec["scales"])))
        scales = [(t, float(v[i])) for i, (t, _) in enumerate(spec["scales"])]
        ocp.set_scales(tuple(ScaleConfig(g, n, x) for (g, n), x in scales))
        return dict(spec, scales=scales)
    return spec


@P.check(case(), quick=60, thorough=900, shards=6)
def played_histories(c, rec):
    spec, every, scripts, sim_name, seed, changes = c
    now = param_dict(spec["model"])
    with built(spec) as b, scratch() as d:
        ocp = make_ocp(spec, b.model(), config(spec, logging_config=LoggingConfig(sim_name, d, every)))
        for i, sc in enumerate(scripts):
            if i:
                spec = change(ocp, spec, now, *changes[i - 1], rec)
            ref = Ref(spec, params=now)
            s = ref.var_scales(spec["scales"])
            PlayedSolver.point = staticmethod(
                lambda k: (nearly_feasible if ref.free and not spec["condensed"] and k % 3 == 2 else point)(ref, k) / s)
            PlayedSolver.script, PlayedSolver.played = sc, None
            with playing():
                try:
                    sol, info = ocp.solve(init_guess=point(ref, seed), print_level=0)
                except Abort:
                    rec.event("aborted solve")
                    continue
            if PlayedSolver.played is None:
                rec.event("solver not replaced")
                return
            if not PlayedSolver.played:
                rec.event("no iterations")
                continue
            check_logs(ocp.logging_dir, ref, spec, every, PlayedSolver.played, f"solve {i}", rec)
            repeats = any(k[0] == "repeat" for k in sc)
            rec.event("restoration" if repeats else "regular")
            rec.nontrivial((i > 0 or repeats) and every > 1)
    rec.event("condensed" if spec["condensed"] else "lifted")
    rec.event("free" if spec["free"] else "fixed")


@P.check(st.tuples(ocp_spec(max_ni=2, max_stages=3, depth=0, mesh=True), st.integers(900, 2500), st.sampled_from([100, 250, 333, 500, 999, 1000, 1100]), seeds),
         quick=6, thorough=40, shards=2)
def long_histories(c, rec):
    """Solves of thousands of iterations."""
    spec, n, every, seed = c
    spec = unique_columns(spec)
    ref = Ref(spec)
    s = ref.var_scales(spec["scales"])
    with built(spec) as b, scratch() as d:
        ocp = make_ocp(spec, b.model(), config(spec, logging_config=LoggingConfig("long", d, every)))
        for sc in ([("iter", k, 0, seed + k, 1) for k in range(n)], [("iter", k, 0, seed + k, 1) for k in range(1 + n // 500)]):
            PlayedSolver.point = staticmethod(lambda k: point(ref, k) / s)
            PlayedSolver.script, PlayedSolver.played = sc, None
            with playing():
                ocp.solve(init_guess=point(ref, seed), print_level=0)
            if PlayedSolver.played is None:
                rec.event("solver not replaced")
                return
            check_logs(ocp.logging_dir, ref, spec, every, PlayedSolver.played, f"solve of {len(sc)} iterations", rec)
    rec.event(f"every {every}")
    rec.nontrivial(n > 1000)


@P.check(st.tuples(st.integers(1, 3), st.booleans(), st.integers(1, 3), st.lists(seeds, min_size=2, max_size=5), st.booleans()), quick=8, thorough=80)
def undefined_iterations(c, rec):
    """Iterations at points where the model is undefined are logged as that."""
    ni, con, every, points, whole = c
    with scratch() as d:
        ocp = ScaledMeshOCP(model=domain.Domain(), sim_config=ScaledMeshOCP.get_sim_config(
            num_intervals=ni, backend="casadi", con_output_names=("c",) if con else (), logging_config=LoggingConfig("u", d, every)))
        op, N = ocp.dec_var_operator, ocp.num_stages
        table = {}

        def at(k):
            X, U = domain.points(k, N)
            if whole and k % 2:
                X, U = np.abs(X) + 0.1, np.abs(U) + 0.1
            z = bulk(k, ocp.num_dec, lo=0.5, hi=1.5)
            for j, (g, n) in enumerate((("states", "a"), ("states", "b"), ("inputs", "u"))):
                z[op.get_var_index_in_dec(g, n)] = X[:, j] if g == "states" else U[:, 0]
            return z
        PlayedSolver.point = staticmethod(at)
        PlayedSolver.script, PlayedSolver.played = [("iter", k, 0, p, 1) for k, p in enumerate(points)], None
        with playing(), np.errstate(all="ignore"):
            ocp.solve(init_guess=at(points[0]), print_level=0)
        if PlayedSolver.played is None:
            rec.event("solver not replaced")
            return
        from pyarrow import parquet as pq
        every_df = pq.read_table(os.path.join(ocp.logging_dir, "all_iters.parquet")).to_pandas()
        last = PlayedSolver.played[-1][0]
        frames = [(last, pd.read_csv(os.path.join(ocp.logging_dir, "results.csv")))]
        shown = sorted({k for k, _, _ in PlayedSolver.played if k % every == 0} | {last})
        ensure(sorted(set(every_df["iter"])) == shown, f"combined iterations {sorted(set(every_df['iter']))} instead of {shown}")
        frames += [(k, every_df[every_df["iter"] == k].reset_index(drop=True)) for k in shown]
        for k, df in frames:
            z = PlayedSolver.played[k][1]
            a, b, u = (op.get_var(z, *v) for v in (("states", "a"), ("states", "b"), ("inputs", "u")))
            xd, out = domain.values(a, b, u)
            with np.errstate(all="ignore"):
                table = {"states.a": a, "states.b": b, "inputs.u": u, "outputs.c": out[:, 0], "outputs.d": out[:, 1],
                         "stage_con.a": xd[:, 0] - op.get_var(z, "states_dot", "a"), "stage_con.b": xd[:, 1] - op.get_var(z, "states_dot", "b")}
                if con:
                    table["stage_con.c"] = out[:, 0] - op.get_var(z, "con_outputs", "c")
            ensure(len(df) == N, f"{len(df)} rows of iteration {k} with {N} stages")
            for n, v in table.items():
                close(np.asarray(df[n], float), v, f"iteration {k}: {n}", rtol=1e-11, atol=1e-11)
            rec.nontrivial(not np.all(np.isfinite(xd)))


@contextlib.contextmanager
def stopped_clock():
    """The next problems are all made at one time."""
    import datetime

    import lumos.optimal_control.scaled_mesh_ocp as mod

    class Stopped(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls(2024, 2, 29, 12, 0, 0, tzinfo=tz)
    real = getattr(mod, "datetime", None)
    if real is datetime.datetime:
        mod.datetime = Stopped
    try:
        yield
    finally:
        if real is datetime.datetime:
            mod.datetime = real


@P.check(st.tuples(ocp_spec(max_ni=2, max_stages=3, depth=0, mesh=True), st.lists(st.tuples(st.sampled_from(["a", "a", "a_1", "b"]),
         st.sampled_from([0, 1, 2])), min_size=2, max_size=4), st.lists(st.tuples(st.integers(0, 3), script()), min_size=2, max_size=5), seeds),
         quick=30, thorough=400, shards=2)
def several_problems(c, rec):
    """Problems made one after the other, at the same time, keep logs of their own."""
    spec, names, solves, seed = c
    spec = unique_columns(spec)
    ref = Ref(spec)
    s = ref.var_scales(spec["scales"])
    with built(spec) as b, scratch() as d:
        with stopped_clock():
            ocps = [make_ocp(spec, b.model(), config(spec, logging_config=LoggingConfig(n, d, every))) for n, every in names]
        done = {}
        for k, (i, sc) in enumerate(solves):
            i %= len(ocps)
            PlayedSolver.point = staticmethod(lambda j: point(ref, j) / s)
            PlayedSolver.script, PlayedSolver.played = sc, None
            with playing():
                try:
                    ocps[i].solve(init_guess=point(ref, seed), print_level=0)
                except Abort:
                    done.pop(i, None)
            if PlayedSolver.played is None:
                return
            if not PlayedSolver.played:
                done.pop(i, None)  # nothing is logged then
            elif sc[-1][0] != "abort":
                done[i] = PlayedSolver.played
            for j, played in done.items():
                check_logs(ocps[j].logging_dir, ref, spec, names[j][1], played, f"problem {j} after solve {k} (of problem {i})", rec)
        rec.event(f"{len(set(n for n, _ in names))} names")
        rec.nontrivial(len(done) > 1)


@P.check(st.tuples(ocp_spec(max_ni=3, max_stages=3, depth=0, objective="custom"), st.integers(1, 3), st.integers(0, 8), seeds),
         quick=15, thorough=200, shards=2)
def real_solver(c, rec):
    """The same comparison for iterations recorded around the real solver."""
    spec, every, max_iter, seed = c
    spec = unique_columns(spec)
    ref = Ref(spec)
    with built(spec) as b, scratch() as d:
        bounds = (BoundConfig("global", "mesh_scale", (0.1, 10.0)),) if spec["free"] else ()  # meshes are ordered
        ocp = make_ocp(spec, b.model(), config(spec, logging_config=LoggingConfig("real", d, every), bounds=bounds))
        cls = type(ocp)
        seen = []

        class Watched(cls):
            def objective(self, x):
                seen.append(("point", np.array(x)))
                return cls.objective(self, x)

            def intermediate(self, *a):
                seen.append(("iter", a))
                return cls.intermediate(self, *a)

        ocp.__class__ = Watched
        for i in range(2):
            seen.clear()
            sol, info = ocp.solve(init_guess=point(ref, seed + i), print_level=0, max_iter=max_iter,
                                  fixed_variable_treatment="make_parameter", print_timing_statistics="no")
            played, z = [], None
            for kind, v in seen:
                if kind == "point":
                    z = v
                else:
                    m = dict(zip(METRICS, v))
                    if not played or played[-1][0] != m["iter_count"]:
                        played.append((m["iter_count"], z, m))
            if not played:
                rec.event("no iterations")
                continue
            # evaluations after the last callback belong to the returned point
            played[-1] = (played[-1][0], z, played[-1][2])
            if any(not np.all(np.isfinite(p)) or np.max(np.abs(p)) > 1e6 for _, p, _ in played):
                rec.event("diverged")
                continue
            ensure(info["num_iter"] == played[-1][0], f"{info['num_iter']} iterations reported, {played[-1][0]} happened")
            check_logs(ocp.logging_dir, ref, spec, every, played, f"solve {i}", rec)
            rec.nontrivial(len(played) > 1)
            rec.event("solved")
