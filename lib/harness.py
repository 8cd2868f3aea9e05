"""Small property-based testing harness on top of Hypothesis.

A check module defines ``P = Property("C01", rule=...)`` and registers check functions
``fn(case, rec)`` with ``@P.check(strategy, quick=N, thorough=M)``.  Cases are plain
picklable data; ``fn`` calls ``ensure(...)``/``close(...)`` and raises Violation.
"""
import base64
import hashlib
import json
import os
import pickle
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("LUMOS_REPO", "/repo")


class Violation(AssertionError):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class Stop(BaseException):
    """Leaves Hypothesis early (shrink budget used up)."""


class KnownFinding(Exception):
    """The case fails exactly in a way listed in known_findings.json."""

    def __init__(self, fid):
        self.fid = fid


def ensure(cond, msg="property does not hold"):
    if not cond:
        raise Violation(msg)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def arr(x, what="value"):
    """Numeric ndarray of anything lumos may return (violation when it is not numeric)."""
    try:
        import casadi
        if isinstance(x, (casadi.SX, casadi.MX)):
            x = casadi.DM(x) if isinstance(x, casadi.SX) else casadi.evalf(x)
        if isinstance(x, casadi.DM):
            return np.array(x.full(), dtype=float)
        return np.asarray(x, dtype=float)
    except Exception as e:
        raise Violation(f"{what}: not numeric ({type(x).__name__}): {e}")


def close(a, b, what="values", rtol=1e-9, atol=1e-9, shape=True):
    """Elementwise agreement; a shape mismatch or NaN disagreement is a violation."""
    a, b = arr(a, what), arr(b, what)
    if shape and a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != {b.shape}")
    if not shape:
        a, b = a.ravel(), b.ravel()
        if a.shape != b.shape:
            raise Violation(f"{what}: size {a.size} != {b.size}")
    both_nan = np.isnan(a) & np.isnan(b)
    same_inf = np.isinf(a) & np.isinf(b) & (np.sign(a) == np.sign(b))
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    bad = ~((ok & np.isfinite(a) & np.isfinite(b)) | both_nan | same_inf)
    if np.any(bad):
        idx = tuple(int(i[0]) for i in np.nonzero(np.atleast_1d(bad)))
        av, bv = np.atleast_1d(a)[idx], np.atleast_1d(b)[idx]
        raise Violation(f"{what}: differ at {idx}: {av!r} != {bv!r} "
                        f"({int(np.sum(bad))}/{bad.size} entries)")


def must_raise(fn, what, kinds=(Exception,)):
    try:
        out = fn()
    except kinds as e:
        return e
    raise Violation(f"{what}: accepted instead of rejected, returned {short(out, 120)}")


class Rec:
    """Per-case recorder handed to the check function."""

    def __init__(self):
        self.events = set()
        self.is_nontrivial = False
        self.known = []

    def event(self, label):
        self.events.add(str(label))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Check:
    def __init__(self, name, fn, strategy, quick, thorough, shards, examples):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.examples = examples


class Property:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.checks = {}
        self.probes = {}

    def check(self, strategy, quick=100, thorough=2000, shards=1, examples=()):
        def deco(fn):
            self.checks[fn.__name__] = Check(fn.__name__, fn, strategy, quick, thorough,
                                             shards, list(examples))
            return fn
        return deco

    def probe(self, fid):
        """Register a probe for a listed known finding: returns text when it still fails."""
        def deco(fn):
            self.probes[fid] = fn
            return fn
        return deco


GENERATION = "<generation>"
RESOURCES = (HarnessError, MemoryError, ImportError, OSError)
# a file that lumos itself looks for in the wrong place
WRONG_FILE = (FileNotFoundError, FileExistsError, NotADirectoryError, IsADirectoryError)


def in_lumos(exc):
    """Did this exception come out of the code under test, other than for want of resources?"""
    if isinstance(exc, RESOURCES) and not isinstance(exc, WRONG_FILE) or not isinstance(exc, Exception):
        return False
    root = os.path.join(os.path.realpath(REPO), "lumos") + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(exc.__traceback__))


def is_violation(exc):
    """Is this exception, raised inside a case, evidence against the code under test?

    Explicit Violations are.  So is any ordinary exception that left lumos code on a
    valid input, and a malformed result that breaks the oracle's arithmetic.  Resource
    trouble and a check asking for things that do not exist are errors of the check.
    """
    if isinstance(exc, Violation):
        return True
    if in_lumos(exc):
        return True
    if isinstance(exc, RESOURCES):
        return False
    return isinstance(exc, (ValueError, IndexError, KeyError, TypeError,
                            ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError))


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for f in reversed(tb):
        if "/lumos/" in f.filename:
            where = f" [{f.filename.split('/lumos/', 1)[1]}:{f.lineno} in {f.name}]"
            break
    return f"{type(exc).__name__}: {str(exc)[:600]}{where}"


def case_key(case):
    return hashlib.md5(repr(case).encode()).hexdigest()


def stuck_after(tier):
    """Seconds after which one case counts as never ending (they take a few at most)."""
    return float(os.environ.get("VERIF_STUCK", 200.0 if tier == "quick" else 900.0))


def run_check(prop, check, tier, seed, budget_s, shrink_s=45.0, trace=None, stuck=None):
    """Run one check in this process and return a JSON-able report.

    With ``trace``, every case is written to that file before it runs.  When one case does not
    end, ``stuck(case, report)`` is called from another thread; the report is None unless a
    violation was found before.
    """
    import threading
    import warnings
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    warnings.filterwarnings("ignore")
    n = check.quick if tier == "quick" else check.thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int(n * scale))
    t0 = time.time()
    st = dict(evals=0, events={}, nontrivial=set(), samples=[], known={}, skipped=0,
              first_fail=None, best=None, msg=None, shrink_evals=0, err=None, now=None)

    def one(case, counted):
        rec = Rec()
        if trace:
            with open(trace, "wb") as f:
                f.write(pickle.dumps(case))
        st["now"] = (time.time(), case)
        try:
            check.fn(case, rec)
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            if not is_violation(e):
                st["err"] = (describe(e), "".join(traceback.format_exception(e))[-4000:], short(case, 2000))
                raise Stop()
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            st["best"], st["msg"] = case, describe(e)
            st["tb"] = "".join(traceback.format_exception(e))[-3000:]
            raise
        finally:
            st["now"] = None
        if counted:
            st["evals"] += 1
            for ev in rec.events:
                st["events"][ev] = st["events"].get(ev, 0) + 1
            for k in rec.known:
                st["known"][k] = st["known"].get(k, 0) + 1
            if rec.is_nontrivial:
                st["nontrivial"].add(case_key(case))
                if len(st["samples"]) < 3 and (st["evals"] % 7 == 1 or st["evals"] > n // 2):
                    st["samples"].append(short(case, 700))

    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)
    @hypothesis.seed(seed)
    @given(check.strategy)
    def test(case):
        if st["first_fail"] is not None:
            st["shrink_evals"] += 1
            if time.time() - st["first_fail"] > shrink_s:
                raise Stop()
            one(case, False)
        elif time.time() - t0 > budget_s:
            st["skipped"] += 1
        else:
            one(case, True)

    def report():
        rep = dict(check=check.name, seed=seed, evaluations=st["evals"], events=st["events"],
                   nontrivial=sorted(st["nontrivial"]), samples=st["samples"], known=st["known"],
                   skipped=st["skipped"], wall=time.time() - t0, violation=None, error=st["err"])
        if st["best"] is not None:
            rep["violation"] = dict(
                message=st["msg"], case_repr=short(st["best"], 5000), traceback=st.get("tb"),
                case_b64=base64.b64encode(pickle.dumps(st["best"])).decode(),
                shrink_evaluations=st["shrink_evals"])
        return rep

    def watch():
        while True:
            time.sleep(2)
            now = st["now"]
            if now and time.time() - now[0] > stuck_after(tier):
                stuck(now[1], report() if st["best"] is not None else None)

    if stuck:
        threading.Thread(target=watch, daemon=True).start()
    try:
        for ex in check.examples:
            one(ex, True)
        test()
    except Stop:
        pass
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        if st["best"] is None and st["err"] is None and in_lumos(e):
            # the code under test failed on a valid input while a case was put together
            st["best"], st["msg"] = (GENERATION, tier, seed), "while generating cases: " + describe(e)
            st["tb"] = traceback.format_exc()[-3000:]
        elif st["best"] is None and st["err"] is None:
            st["err"] = (describe(e), traceback.format_exc()[-4000:], "")

    return report()
