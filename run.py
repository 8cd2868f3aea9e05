#!/opt/venv/bin/python
"""Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + 'VIOLATION property=.. replay=..': broken.
Exit 2: the check itself failed.
"""
import argparse
import base64
import importlib
import json
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LUMOS_REPO", "/repo")
PY = "/opt/venv/bin/python"
STUCK = 75  # exit code of a worker one of whose cases does not end
STUCK_AGAIN = float(os.environ.get("VERIF_STUCK", 150.0))
DEADLY = {-n for n in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)}


def set_env():
    env = os.environ
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["JAX_PLATFORMS"] = "cpu"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["OMP_NUM_THREADS"] = "1"
    env.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    env["TF_CPP_MIN_LOG_LEVEL"] = "3"
    env["PYTHONWARNINGS"] = "ignore"


def load(pid, work):
    sys.path.insert(0, HERE)
    from lib import boot
    boot.bootstrap(work)
    import logging
    logging.disable(logging.CRITICAL)
    import lumos.numpy  # noqa: F401  (enables float64 in jax before anything else)
    return importlib.import_module("checks." + pid.lower()).P


def make_cwd(base, name):
    d = os.path.join(base, name)
    os.makedirs(d)
    os.symlink(os.path.join(REPO, "data"), os.path.join(d, "data"))
    return d


def worker(a):
    work = a.workdir
    P = load(a.pid, work)
    from lib import harness
    os.chdir(make_cwd(work, f"cwd-{a.check or 'list'}-{a.shard}" + "-again" * bool(os.environ.get("VERIF_TRACE"))))
    if a.mode == "list":
        from lib.harness import describe
        probes = {}
        for fid, fn in P.probes.items():
            probes[fid] = fn()
        out = dict(checks={n: c.shards for n, c in P.checks.items()}, rule=P.rule,
                   assumptions=P.assumptions, probes=probes)
    else:
        base = int(os.environ.get("VERIF_SEED", "1"))
        seed = zlib.crc32(f"{base}/{a.pid}/{a.check}/{a.shard}".encode())

        def stuck(case, report):
            if report is None:
                with open(a.out + ".case", "wb") as f:
                    f.write(pickle.dumps(case))
                os._exit(STUCK)
            with open(a.out, "w") as f:
                json.dump(report, f)
            os._exit(0)

        out = harness.run_check(P, P.checks[a.check], a.tier, seed, a.budget,
                                trace=a.out + ".case" if os.environ.get("VERIF_TRACE") else None, stuck=stuck)
    with open(a.out, "w") as f:
        json.dump(out, f)
    os._exit(0)  # skip slow interpreter teardown (thread pools)


def replay(a):
    """Replay in a process of its own, as the case may end it or never end."""
    d = json.load(open(a.replay))
    found = f"VIOLATION property={d['property']} replay={a.replay}"
    p = subprocess.Popen([PY, os.path.abspath(__file__), "--mode", "replay", "--replay", a.replay])
    try:
        rc = p.wait(1500)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        print("does not end\n" + found)
        return 1
    if rc in DEADLY:
        print(f"the process was ended by signal {-rc}\n" + found)
        return 1
    return rc


def replay_here(a):
    work = tempfile.mkdtemp(prefix="verif-replay-")
    rc = 2
    try:
        d = json.load(open(a.replay))
        P = load(d["property"], work)
        from lib import harness
        from lib.harness import Rec, is_violation
        os.chdir(make_cwd(work, "cwd"))
        case = pickle.loads(base64.b64decode(d["case_b64"]))
        print("case:", repr(case)[:3000])
        if isinstance(case, tuple) and len(case) == 3 and isinstance(case[0], str) and case[0] == harness.GENERATION:
            v = harness.run_check(P, P.checks[d["check"]], case[1], case[2], 600)["violation"]
            print(v["message"] if v else "property holds on the generated cases")
            if v:
                print(f"VIOLATION property={d['property']} replay={a.replay}")
            return 1 if v else 0
        try:
            P.checks[d["check"]].fn(case, Rec())
            print("property holds on this case")
            rc = 0
        except Exception as e:
            import traceback
            traceback.print_exc()
            rc = 1 if is_violation(e) else 2
            if rc == 1:
                print(f"VIOLATION property={d['property']} replay={a.replay}")
    finally:
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--mode", default="main")
    ap.add_argument("--check")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--out")
    ap.add_argument("--workdir")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--only", help="run only this check function (debugging)")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    set_env()
    if a.selftest:
        work = tempfile.mkdtemp(prefix="verif-setup-")
        sys.path.insert(0, HERE)
        from lib import boot
        boot.bootstrap(work)
        import hypothesis
        print("hypothesis", hypothesis.__version__)
        shutil.rmtree(work, ignore_errors=True)
        return 0
    if a.replay:
        return replay_here(a) if a.mode == "replay" else replay(a)
    if a.budget is None:
        a.budget = 300.0 if a.tier == "quick" else 1500.0
    if a.mode != "main":
        return worker(a)

    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{a.pid}-")
    rc = 2
    try:
        rc = campaign(a, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def spawn(a, work, mode, check=None, shard=0, trace=False):
    out = os.path.join(work, f"out-{mode}-{check}-{shard}{'-again' * trace}.json")
    log = open(out + ".log", "w")
    cmd = [PY, os.path.abspath(__file__), a.pid, "--mode", mode, "--tier", a.tier, "--out", out,
           "--workdir", work, "--shard", str(shard), "--budget", str(a.budget)]
    if check:
        cmd += ["--check", check]
    env = dict(os.environ, VERIF_TRACE="1") if trace else None
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=HERE, env=env)
    return dict(p=p, out=out, check=check, shard=shard, t=time.time())


def result(j):
    if j["p"].returncode != 0 or not os.path.exists(j["out"]):
        tail = open(j["out"] + ".log").read()[-3000:]
        return None, f"worker {j['check']}/{j['shard']} exit {j['p'].returncode}: {tail}"
    return json.load(open(j["out"])), None


def confirm(a, work, j, hard):
    """A worker was ended by a signal, or is stuck: a report of the violation if it happens again, else what the second run reports."""
    code, case = j["p"].returncode, j["out"] + ".case"
    again = None
    if code in DEADLY:
        again = spawn(a, work, "worker", j["check"], j["shard"], trace=True)
        try:
            again["p"].wait(max(1.0, hard - time.time()))
        except subprocess.TimeoutExpired:
            again["p"].kill()
            return None, f"worker {j['check']}/{j['shard']} ended by signal {-code}, and ran out of time when run again"
        if again["p"].returncode not in DEADLY:
            rep, err = result(again)
            return rep, err and f"worker {j['check']}/{j['shard']} ended by signal {-code}; again: {err}"
        case = again["out"] + ".case"
    try:
        data = open(case, "rb").read()
        text = repr(pickle.loads(data))
    except Exception:  # ended before its first case
        return None, result(j)[1]
    seed = zlib.crc32(f"{os.environ.get('VERIF_SEED', '1')}/{a.pid}/{j['check']}/{j['shard']}".encode())
    whole = base64.b64encode(pickle.dumps(("<generation>", a.tier, seed))).decode()
    one = base64.b64encode(data).decode()
    path = os.path.join(work, "one.json")
    with open(path, "w") as f:
        json.dump(dict(property=a.pid, check=j["check"], case_b64=one), f)
    p = subprocess.Popen([PY, os.path.abspath(__file__), "--mode", "replay", "--replay", path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        rc = p.wait(max(1.0, min(STUCK_AGAIN, hard - time.time())))
    except subprocess.TimeoutExpired:
        p.kill()
        rc = "stuck"
    if code == STUCK and rc != "stuck":
        return None, f"worker {j['check']}/{j['shard']}: a case that did not end, did when run again ({rc}): {text[:2000]}"
    message = "does not end" if code == STUCK else f"the process was ended by signal {-code}"
    v = dict(message=message, case_repr=text[:5000], case_b64=one if code == STUCK or rc in DEADLY else whole, traceback="",
             shrink_evaluations=0)
    return dict(check=j["check"], seed=seed, evaluations=0, events={}, nontrivial=[], samples=[], known={}, skipped=0,
                wall=time.time() - j["t"], violation=v, error=None), None


def campaign(a, work, t0):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    j = spawn(a, work, "list")
    j["p"].wait()
    info, err = result(j)
    if err:
        print("ERROR:", err)
        return 2
    todo = []
    for name, shards in info["checks"].items():
        if a.only and name != a.only:
            continue
        ns = shards if a.tier == "quick" else max(shards, 4)
        todo += [(name, s) for s in range(ns)]
    hard = (780.0 if a.tier == "quick" else 6000.0)
    running, reports, errors = [], [], []
    while todo or running:
        while todo and len(running) < a.jobs:
            name, s = todo.pop(0)
            running.append(spawn(a, work, "worker", name, s))
        for r in list(running):
            if r["p"].poll() is None:
                continue
            running.remove(r)
            rep, err = confirm(a, work, r, t0 + hard) if r["p"].returncode in DEADLY | {STUCK} else result(r)
            if err:
                errors.append(err)
            else:
                rep["shard"] = r["shard"]
                reports.append(rep)
        if time.time() - t0 > hard:
            for r in running:
                r["p"].kill()
                errors.append(f"worker {r['check']}/{r['shard']} ran out of time (inconclusive)")
            break
        time.sleep(0.05)

    reports.sort(key=lambda r: (r["check"], r["shard"]))
    errors += [f"{r['check']}: harness error {r['error'][0]}\n{r['error'][1]}\ncase: {r['error'][2]}"
               for r in reports if r["error"]]
    violations = [r for r in reports if r["violation"]]
    lines = []
    for r in violations:
        v = r["violation"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{a.pid}-{r['check']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=a.pid, check=r["check"], message=v["message"], seed=r["seed"],
                           case=v["case_repr"], case_b64=v["case_b64"], traceback=v["traceback"]), f, indent=1)
        lines.append((f"VIOLATION property={a.pid} replay={path}", v, r["check"]))

    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    for k in known.get("findings", []):
        if k["property"] == a.pid and info["probes"].get(k["id"]):
            print(f"KNOWN-FINDING: property={a.pid} {k['id']}: {k['what']} ({info['probes'][k['id']]})")

    nontriv = set()
    for r in reports:
        nontriv |= {r["check"] + h for h in r["nontrivial"]}
    ev = dict(
        property=a.pid, tier=a.tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in reports),
            distinct_nontrivial=len(nontriv),
            rule=info["rule"],
            samples=[dict(check=r["check"], case=s) for r in reports for s in r["samples"][:2]][:14],
            per_check={f"{r['check']}/{r['shard']}": dict(
                evaluations=r["evaluations"], distinct_nontrivial=len(r["nontrivial"]),
                classes=dict(sorted(r["events"].items(), key=lambda kv: -kv[1])[:40]),
                not_run_budget=r["skipped"], wall_s=round(r["wall"], 2)) for r in reports}),
        assumptions=info["assumptions"], wall_s=round(time.time() - t0, 2),
        violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for r in reports:
        print(f"{a.pid}.{r['check']}/{r['shard']}: {r['evaluations']} cases, "
              f"{len(r['nontrivial'])} distinct non-trivial, {r['wall']:.1f}s"
              + (f", {r['skipped']} not run (budget)" if r["skipped"] else ""))
        if os.environ.get("VERIF_VERBOSE"):
            print("   ", dict(sorted(r["events"].items(), key=lambda kv: -kv[1])[:60]))
    for line, v, name in lines:
        print(f"  {name}: {v['message']}\n  case: {v['case_repr'][:1500]}")
        if os.environ.get("VERIF_VERBOSE"):
            print(v["traceback"])
        print(line)
    for e in errors:
        print("ERROR:", e)
    if lines:
        return 1
    if errors:
        return 2
    print(f"OK property={a.pid} ({ev['coverage']['evaluations']} cases, {ev['wall_s']}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
