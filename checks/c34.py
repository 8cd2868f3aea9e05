"""C34: tire property files are read completely and exactly."""
import copy
import os
import tempfile

from hypothesis import strategies as st

from lib.gen import bulk, fl, seeds
from lib.harness import Property, close, ensure
from lumos.models.tires.pacejka import MF52
from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file
from lumos.models.tree_utils import ParameterTree

P = Property("C34", rule=(
    "Generated property files: any order of sections and parameters, spaces and tabs around everything, integer, decimal and "
    "exponent numbers, quoted strings, comments at line ends and on lines of their own holding '=', '$', numbers and "
    "commented-out parameters, blank lines, either line ending, with or without a final one; and files holding changed MF5.2 parameters from which a tire is "
    "built. Non-trivial: at least three parameters, a comment holding '=', and a tab."))

NAMES = ["PCX1", "PDX1", "LMUX", "FNOMIN", "Q1", "a", "epsilonx", "VXLOW", "X_1_Y", "FILE_VERSION"] + [f"P{i}" for i in range(30)]
PADS = ["", " ", "  ", "\t", " \t ", "          "]
number = st.one_of(
    st.tuples(fl(-1e4, 1e4, 6), st.sampled_from(["{}", "{:+}", "{:.6f}", "{:e}", "{:E}", "{:.3g}", "{:+.8E}"])).map(lambda t: t[1].format(t[0])),
    st.integers(-10 ** 6, 10 ** 6).map(str),
    st.floats(allow_nan=False, allow_infinity=False).map(repr),
    st.sampled_from(["0", "-0.0", ".5", "-.25", "5.", "+3", "1e5", "1E-07", "007", "2.50000"]))
text = st.lists(st.sampled_from(["=", "$", " ", "\t", "a", "5", "1.5", "=3", "QSX2 = 0.6", "'", "[", "]", "units", "0.5=x", "7 = 8", "-", "{}"]),
                max_size=6).map("".join)
comment = text.map(lambda t: "$" + t)
quoted = st.text(st.sampled_from("abcXYZ_ .5-/"), max_size=8).map(lambda t: f"'{t}'")


@st.composite
def line(draw):
    """(line, (name, value) or None)"""
    kind = draw(st.sampled_from(["number"] * 6 + ["string", "comment", "section", "blank", "ruler"]))
    pad = lambda: draw(st.sampled_from(PADS))  # noqa: E731
    end = pad() + (draw(comment) if draw(st.booleans()) else "")
    if kind == "number":
        name, value = draw(st.sampled_from(NAMES)), draw(number)
        return pad() + name + pad() + "=" + pad() + value + end, (name, float(value))
    if kind == "string":
        return pad() + draw(st.sampled_from(["TYRESIDE", "LENGTH", "FILE_TYPE"])) + pad() + "=" + pad() + draw(quoted) + end, None
    if kind == "comment":
        return pad() + draw(comment), None
    if kind == "section":
        return pad() + "[" + draw(st.sampled_from(["UNITS", "MODEL", "LATERAL_COEFFICIENTS"])) + "]" + end, None
    if kind == "ruler":
        return "$" + "-" * draw(st.integers(0, 60)) + draw(st.sampled_from(["", "units", "7=8"])), None
    return pad(), None


def read(content, end="\n", last=True, function=read_tir_file):
    f = tempfile.NamedTemporaryFile("wb", suffix=".tir", dir=".", delete=False)
    f.write((end.join(content) + (end if last else "")).encode())
    f.close()
    try:
        return function(f.name)
    finally:
        os.remove(f.name)


def same(got, want, what):
    ensure(set(got) == set(want), f"{what}: read {sorted(set(got) - set(want))}, not {sorted(set(want) - set(got))}")
    for k, v in want.items():
        ensure(isinstance(got[k], float) and got[k] == v, f"{what}: {k} is {got[k]!r}, written {v!r}")


@P.check(st.tuples(st.lists(line(), max_size=25), st.sampled_from(["\n", "\r\n"]), st.booleans()), quick=800, thorough=30000, shards=2)
def files(c, rec):
    lines, end, last = c
    want = {}
    for _, item in lines:
        if item:
            want[item[0]] = item[1]
    content = [t for t, _ in lines]
    same(read(content, end, last), want, f"file {content}")
    extra = dict(epsilonv=1e-6, epsilonx=1e-3, epsilonk=1e-6, epsilony=1e-3)
    same(read(content, end, last, create_params_from_tir_file), {**want, **extra}, f"parameters of file {content}")
    rec.nontrivial(len(want) >= 3 and any("$" in t and "=" in t.split("$", 1)[1] for t in content) and any("\t" in t for t in content))


_m = {}


@P.check(st.tuples(seeds, st.booleans(), st.booleans(), st.sampled_from([0.0, 0.1])), quick=60, thorough=2000)
def tires(c, rec):
    """A tire with the values of a written file equals the tire with these values; the shipped files are read in full."""
    seed, partly, shuffled, spread = c
    if not _m:
        _m["t"], _m["u"] = MF52(opt_mode=False), MF52(opt_mode=False)
        _m["base"] = copy.deepcopy(_m["t"].get_recursive_params())
    base = {k: float(v) for k, v in _m["base"].to_flat_dict()[0].items()}
    r = bulk(seed, len(base))
    new = {k: v * (1 + spread * r[i]) for i, (k, v) in enumerate(base.items()) if not k.startswith("epsilon")}
    names = list(new)
    if partly:
        names = names[: len(names) // 2]
    if shuffled:
        names = sorted(names, key=lambda n: n[::-1])
    pads = [" ", "\t", "   "]
    content = ["[MDI_HEADER]", "FILE_TYPE ='tir'"] + [f"{n}{pads[i % 3]}= {new[n]!r} $ {n} = {i}" for i, n in enumerate(names)]
    params = read(content, function=create_params_from_tir_file)
    a, b = copy.deepcopy(_m["base"]), copy.deepcopy(_m["base"])
    for n in params:
        a.set_param(n, params[n])
    for n in names:
        b.set_param(n, new[n])
    u = dict(Fz=4000.0 + 1000 * r[0], kappa=0.1 * r[1], alpha=0.1 * r[2], vx=30.0, gamma=0.05 * r[3])
    _m["t"].set_recursive_params(a if partly else ParameterTree(params))
    _m["u"].set_recursive_params(b)
    got, want = _m["t"].forward(dict(u)).outputs, _m["u"].forward(dict(u)).outputs
    for k in want:
        close(float(got[k]), float(want[k]), f"output {k} of the tire of the file", rtol=1e-12, atol=0, shape=False)
    for path in ("data/tires/default.tir", "data/tires/sharpened.tir"):
        want = {}
        for t in open(path):
            t = t.split("$")[0].replace("\t", " ")
            if t.count("=") == 1 and "'" not in t:
                k, v = (w.strip() for w in t.split("="))
                want[k] = float(v)
        same(read_tir_file(path), want, path)
        ensure(len(want) > 100, f"{path} holds {len(want)} parameters")
    rec.nontrivial(spread > 0 and not partly)
