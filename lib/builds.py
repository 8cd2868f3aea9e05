"""Casadi builds in processes of their own, with a compiler whose behaviour is injected.

A server process imports lumos once and forks a child for every request (the server itself never computes).  A child
runs a list of builds in a given directory.  The compiler found on PATH is a stand-in which follows the plan of the
build: run the real one, fail, be killed half way (leaving part of its output behind), kill the building process as
well, or let another process build another model in the same directory first, half way through, or afterwards.
"""
import json
import os
import pickle
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time
import traceback

SHIM = r'''#!{python} -SE
import json, os, pickle, shutil, signal, socket, struct, subprocess, sys
plan = json.load(open(os.environ["BUILD_PLAN"]))
real, args = {real!r}, sys.argv[1:]
out = args[len(args) - args[::-1].index("-o")] if "-o" in args else "a.out"

def other():
    if plan.get("other") is None:
        return
    s = socket.socket(socket.AF_UNIX)
    s.connect({sock!r})
    d = json.dumps(dict(ref=plan["case"], index=plan["other"])).encode()
    s.sendall(struct.pack("<I", len(d)) + d)
    n = b""
    while len(n) < 4:
        c = s.recv(4 - len(n))
        if not c:
            with open(plan["log"], "a") as f:
                f.write("other-crashed\\n")
            break
        n += c
    s.close()

def compile_to(path):
    a = list(args)
    if "-o" in a:
        a[len(a) - a[::-1].index("-o")] = path
    else:
        a += ["-o", path]
    return subprocess.call([real] + a)

kind = plan["kind"]
with open(plan["log"], "a") as f:
    f.write(kind + "\n")
if kind == "fail":
    sys.stderr.write("injected failure\n")
    sys.exit(1)
if kind == "before":
    other()
    sys.exit(compile_to(out))
if kind == "after":
    rc = compile_to(out)
    other()
    sys.exit(rc)
if kind == "ok":
    sys.exit(compile_to(out))
# the others write their output in two steps
tmp = os.path.join(plan["scratch"], "whole.so")
rc = compile_to(tmp)
if rc:
    sys.exit(rc)
data = open(tmp, "rb").read()
os.remove(tmp)
cut = int(len(data) * plan["fraction"])
f = open(out, "wb")
f.write(data[:cut])
f.flush()
if kind == "half-fails":
    sys.exit(1)
if kind == "killed":
    os.kill(os.getpid(), signal.SIGKILL)
if kind == "all-killed":
    os.kill(os.getppid(), signal.SIGKILL)
    os.kill(os.getpid(), signal.SIGKILL)
other()  # "middle"
f.write(data[cut:])
f.close()
os.chmod(out, 0o755)
sys.exit(0)
'''


def _recv(s):
    def exactly(n):
        b = b""
        while len(b) < n:
            c = s.recv(n - len(b))
            if not c:
                return None
            b += c
        return b
    h = exactly(4)
    return None if h is None else exactly(struct.unpack("<I", h)[0])


def _send(s, b):
    s.sendall(struct.pack("<I", len(b)) + b)


# ------------------------------------------------------------------ server side
def _run_builds(case, root):
    """case: dict(dir, specs, ops=[(index, event, other, fraction)], seed).  Returns a list of messages (empty: fine)."""
    from checks.c06 import verify
    from lib.harness import Rec, is_violation, describe
    from lib import models
    import itertools
    os.chdir(case["dir"])
    scratch = case["scratch"]
    path = os.environ["PATH"]
    done = []
    for k, (i, kind, other, fraction) in enumerate(case["ops"]):
        spec = case["specs"][i]
        if kind in ("missing", "plain"):
            os.environ["PATH"] = os.path.join(root, "nothing") if kind == "missing" else path
        else:
            os.environ["PATH"] = os.path.join(root, "bin") + os.pathsep + path
            plan = os.path.join(scratch, f"plan{os.getpid()}_{k}.json")
            with open(plan, "w") as f:
                json.dump(dict(kind=kind, other=other, fraction=fraction, case=case["file"], scratch=scratch,
                               log=case["log"]), f)
            os.environ["BUILD_PLAN"] = plan
        # the classes of all models have the same names, as in a script that is edited and run again
        models._counter = itertools.count(1000)
        with models.Built(spec) as b:
            m = b.model()
        m.set_con_outputs(tuple(spec["con_outputs"]))
        before = m.get_recursive_params().to_dict()
        may_fail = kind in ("fail", "half-fails", "killed", "missing")
        what = f"build {k} (model {i}, {kind})"
        try:
            m.make_model_algebra_cons("casadi")
            ok = True
        except Exception as e:
            if not may_fail:
                return [f"{what} raises {describe(e)}"]
            ok = False
        os.environ["PATH"] = path
        after = m.get_recursive_params().to_dict()
        if repr(before) != repr(after):
            return [f"{what} changes the parameters of the model"]
        if ok:
            done.append((what, i, m, spec))
        # all models built so far compute what they should
        for j, (w, _, mm, sp) in enumerate(done):
            try:
                verify(mm, sp, case["seed"] + k, (2,) if j < len(done) - 1 else (2, 3), Rec(), "casadi")
            except Exception as e:
                if is_violation(e):
                    return [f"after {what}: model of {w}: {describe(e)}"]
                raise
    return []


def _handle(conn, root):
    req = json.loads(_recv(conn))
    with open(req["ref"], "rb") as f:
        case = pickle.load(f)
    if req.get("index") is not None:
        case = dict(case, ops=[(req["index"], "plain", None, 0.0)])
        log = case["others"]
    else:
        if req.get("ops") is not None:
            case = dict(case, ops=[case["ops"][i] for i in req["ops"]])
        log = case["result"]
    try:
        out = dict(messages=_run_builds(case, root))
    except BaseException:
        out = dict(error=traceback.format_exc()[-3000:])
    with open(log + f".{os.getpid()}", "wb") as f:
        pickle.dump(out, f)
    _send(conn, b"done")


def serve(root):
    import checks.c06  # noqa: F401  (everything is imported once)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    s = socket.socket(socket.AF_UNIX)
    s.bind(os.path.join(root, "sock.tmp"))
    s.listen(16)
    os.rename(os.path.join(root, "sock.tmp"), os.path.join(root, "sock"))
    parent = os.getppid()
    s.settimeout(2.0)
    while True:
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        try:
            conn, _ = s.accept()
        except socket.timeout:
            if os.getppid() != parent:
                os._exit(0)
            continue
        conn.setblocking(True)
        if os.fork() == 0:
            try:
                s.close()
                _handle(conn, root)
            finally:
                os._exit(0)
        conn.close()


# ------------------------------------------------------------------ client side
class Builder:
    """Runs build histories through a server of its own (started on first use)."""

    def __init__(self):
        self.root = os.path.abspath("builds")
        if len(self.root) > 80:  # addresses of sockets are short
            self.root = tempfile.mkdtemp(prefix="builds")
        self.n = 0
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ("bin", "nothing"):
            os.makedirs(os.path.join(self.root, d))
        real = shutil.which("gcc")
        for n in ("gcc", "cc", "clang"):
            with open(os.path.join(self.root, "bin", n), "w") as f:
                f.write(SHIM.format(python=os.path.realpath(sys.executable), real=real,
                                    sock=os.path.join(self.root, "sock")))
            os.chmod(os.path.join(self.root, "bin", n), 0o755)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")
        code = (f"import sys; sys.path.insert(0, {here!r})\nimport lib.boot\nlib.boot.bootstrap({self.root!r})\n"
                f"import lib.builds\nlib.builds.serve({self.root!r})\n")
        self.err = open(os.path.join(self.root, "err"), "wb")
        self.p = subprocess.Popen([sys.executable, "-c", code], env=env, stdin=subprocess.DEVNULL,
                                  stdout=self.err, stderr=self.err)
        t0 = time.time()
        while not os.path.exists(os.path.join(self.root, "sock")):
            if self.p.poll() is not None or time.time() - t0 > 120:
                raise RuntimeError("build server: " + open(os.path.join(self.root, "err")).read()[-800:])
            time.sleep(0.02)

    def run(self, specs, ops, seed):
        """Returns (messages, harness error, kinds of compiler runs)."""
        self.n += 1
        base = os.path.join(self.root, f"case{self.n}")
        work, scratch = os.path.join(base, "work"), os.path.join(base, "scratch")
        os.makedirs(work)
        os.makedirs(scratch)
        case = dict(dir=work, scratch=scratch, file=os.path.join(base, "case.pkl"), log=os.path.join(base, "log"),
                    result=os.path.join(base, "result"), others=os.path.join(base, "others"), specs=specs, ops=ops,
                    seed=seed)
        with open(case["file"], "wb") as f:
            pickle.dump(case, f)
        # builds that take their process with them run in processes of their own
        parts, cur = [], []
        for k, op in enumerate(ops):
            if op[1] == "all-killed":
                parts += [cur, [k]]
                cur = []
            else:
                cur.append(k)
        parts.append(cur)
        messages, error = [], None
        try:
            for part in parts:
                if not part or messages or error:
                    continue
                dies = ops[part[0]][1] == "all-killed"
                s = socket.socket(socket.AF_UNIX)
                s.settimeout(300)
                s.connect(os.path.join(self.root, "sock"))
                _send(s, json.dumps(dict(ref=case["file"], ops=part)).encode())
                back = _recv(s)
                s.close()
                res = []
                for n in sorted(os.listdir(base)):
                    if n.startswith(("result.", "others.")):
                        with open(os.path.join(base, n), "rb") as f:
                            r = pickle.load(f)
                        res.append(n)
                        if "error" in r:
                            error = r["error"]
                        else:
                            messages += [("another process: " if n.startswith("others.") else "") + t
                                         for t in r["messages"]]
                        os.remove(os.path.join(base, n))
                if back is None and not dies:
                    messages.append("the process building " + ", ".join(f"model {ops[k][0]} ({ops[k][1]})" for k in part)
                                    + " crashes")
            kinds = open(case["log"]).read().split() if os.path.exists(case["log"]) else []
            if "other-crashed" in kinds:
                messages.append("another process building a model in the same directory crashes")
        finally:
            shutil.rmtree(base, ignore_errors=True)
        return messages, error, kinds

    def close(self):
        self.p.kill()
        self.p.wait()
