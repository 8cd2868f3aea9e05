"""C08: exported C code computes the model."""
import ctypes
import itertools
import os
import subprocess

import casadi as cas
import numpy as np
from hypothesis import strategies as st

from checks.c05 import BUILTIN, agree, draw_inputs, make, perturb, reference, _scaled
from lib.compiled import GROUPS, flat_params, from_arrays
from lib.gen import bulk, seeds
from lib.harness import HarnessError, Property, close, ensure
from lib.models import Built, model_spec, param_dict, some_constant
from lumos.models.tree_utils import ParameterTree

P = Property("C08", rule=(
    "Generated composite models (and built-in state-space models) exported as C for MX and SX with varying options, "
    "compiled by gcc and called through the exported C interface at random states, inputs, mesh values and flat "
    "parameter vectors. Non-trivial: the model has parameters and outputs."))

_n = itertools.count()
_so = itertools.count()


class CFun:
    """Calls an exported CasADi C function through its C interface only."""

    def __init__(self, cfile):
        so = os.path.abspath(f"lib{next(_so)}.so")
        r = subprocess.run(["gcc", "-fPIC", "-shared", "-O0", cfile, "-o", so, "-lm"], capture_output=True, text=True)
        ensure(r.returncode == 0, "exported code does not compile: " + r.stderr[-500:])
        self.lib = ctypes.CDLL(so)
        os.remove(so)
        L, I = ctypes.c_longlong, ctypes.c_longlong
        for f in ("forward_n_in", "forward_n_out"):
            getattr(self.lib, f).restype = I
        for f in ("forward_sparsity_in", "forward_sparsity_out"):
            getattr(self.lib, f).restype = ctypes.POINTER(L)
            getattr(self.lib, f).argtypes = [I]
        self.n_in, self.n_out = self.lib.forward_n_in(), self.lib.forward_n_out()

    def sparsity(self, which, i):
        s = getattr(self.lib, f"forward_sparsity_{which}")(i)
        nrow, ncol, dense = s[0], s[1], s[2]
        if dense:
            return nrow, ncol, [(r, c) for c in range(ncol) for r in range(nrow)]
        colind = [s[2 + k] for k in range(ncol + 1)]
        out = []
        for c in range(ncol):
            for k in range(colind[c], colind[c + 1]):
                out.append((s[2 + ncol + 1 + k], c))
        return nrow, ncol, out

    def __call__(self, *args):
        L, D = ctypes.c_longlong, ctypes.c_double
        sz = [L() for _ in range(4)]
        self.lib.forward_work(*[ctypes.byref(s) for s in sz])
        ins = []
        for i, a in enumerate(args):
            nr, nc, nz = self.sparsity("in", i)
            a = np.asarray(a, float).reshape(-1)
            ensure(nr * nc == a.size, f"argument {i} has shape {nr}x{nc}, expected {a.size} values")
            ins.append((D * max(1, len(nz)))(*[a[r + c * nr] for r, c in nz]))
        outs, meta = [], []
        for i in range(self.n_out):
            nr, nc, nz = self.sparsity("out", i)
            ensure(len(nz) == nr * nc, f"result {i} leaves out {nr * nc - len(nz)} of its {nr * nc} entries")
            outs.append((D * max(1, len(nz)))())
            meta.append((nr, nc, nz))
        P_ = ctypes.POINTER(D)
        arg = (P_ * max(1, sz[0].value))(*[ctypes.cast(a, P_) for a in ins])
        res = (P_ * max(1, sz[1].value))(*[ctypes.cast(a, P_) for a in outs])
        iw, w = (L * max(1, sz[2].value))(), (D * max(1, sz[3].value))()
        ensure(self.lib.forward(arg, res, iw, w, 0) == 0, "exported function failed")
        vals = []
        for o, (nr, nc, nz) in zip(outs, meta):
            v = np.zeros(nr * nc)
            for k, (r, c) in enumerate(nz):
                v[r + c * nr] = o[k]
            vals.append(v)
        return vals


OPTIONS = [None, {}, {"with_header": True}, {"verbose": True}, {"indent": 4}]


def export(m, sx, opt, inc):
    # every other one to a file which already exists, with the code of another model
    i = next(_n)
    n = f"code{i}.c" if i % 2 else "again.c"
    m.export_c_code(n, CasType=cas.SX if sx else cas.MX, options=OPTIONS[opt], includes=inc)
    with open(n) as f:
        text = f.read()
    for h in inc or []:
        ensure(f"#include <{h}>" in text or f'#include "{h}"' in text, f"requested include {h} missing")
    f = CFun(n)
    if i % 2 == 0:
        return checked(f)
    os.remove(n)
    if os.path.exists(n[:-2] + ".h"):
        os.remove(n[:-2] + ".h")
    return checked(f)


def checked(f):
    ensure(f.n_in == 4 and f.n_out == 4, f"exported interface has {f.n_in} inputs and {f.n_out} outputs")
    return f


inc = st.sampled_from([None, [], ["stdlib.h"], ["stdlib.h", "string.h"]])


@P.check(st.tuples(some_constant(model_spec(depth=2, smooth=False)), seeds, st.booleans(), st.integers(0, 4), inc), quick=150,
         thorough=1200, shards=2)
def generated(case, rec):
    spec, seed, sx, opt, includes = case
    with Built(spec) as b:
        m = b.model()
        con = tuple(spec["con_outputs"])
        m.set_con_outputs(con)
        before = perturb(param_dict(spec), seed + 99) if seed % 2 else param_dict(spec)
        m.set_recursive_params(ParameterTree.from_dict(before))
        f = export(m, sx, opt, includes)
        nx, nu = spec["nx"], spec["nu"]
        for k in range(3):
            pd = perturb(param_dict(spec), seed + k) if k else param_dict(spec)
            z = bulk(seed + 10 + k, nx + nu + 1, lo=-2, hi=2)
            out = f(z[:nx], z[nx:nx + nu], z[-1], flat_params(ParameterTree.from_dict(pd)))
            agree(dict(zip(GROUPS, out)), reference(spec, con, z[:nx], z[nx:nx + nu], float(z[-1]), pd), "exported code")
        rec.event("SX" if sx else "MX")
        rec.event(f"params={len(flat_params(ParameterTree.from_dict(param_dict(spec))))}")
        rec.nontrivial(len(flat_params(m.get_recursive_params())) > 0 and out[1].size > 0)


_cache = {}


@P.check(st.tuples(st.sampled_from(["SimpleVehicle", "SimpleVehicleOnTrack", "DroneModel", "SimpleVehicleMF52"]), seeds,
                   st.booleans()), quick=40, thorough=1500)
def builtin(case, rec):
    name, seed, sx = case
    if (name, sx) not in _cache:
        m = make(name)
        m.set_con_outputs(tuple(m.get_group_names("outputs")[:2]))
        _cache[name, sx] = m, export(m, sx, 0, None)
    m, f = _cache[name, sx]
    params = _scaled(m.get_recursive_params(), seed % 1000)
    x, u, s = np.array(draw_inputs(m, "states", seed)), np.array(draw_inputs(m, "inputs", seed + 1)), 3.0
    out = f(x, u, s, flat_params(params))
    old = m.get_recursive_params()
    want = from_arrays(m.apply_and_forward_with_arrays(x, u, s, params))
    m.set_recursive_params(old)
    for g, v in zip(GROUPS, out):
        scale = max(1.0, float(np.max(np.abs(want[g]), initial=0.0)))
        close(v, want[g], f"{name} exported: {g}", rtol=1e-7, atol=1e-9 * scale)
    rec.event(name)
    rec.nontrivial()
