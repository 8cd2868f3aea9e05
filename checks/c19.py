"""C19: a composed problem equals the sum of its current parts."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from lib.compiled import dense
from lib.gen import bulk, seeds
from lib.harness import Property, close, ensure, must_raise
from lib.ocp import CustomObjective, Ref, built, make_ocp, ocp_spec, point, scale_list, part_order
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem, LinearConstraints, NLPFunction

P = Property("C19", rule=(
    "Histories of up to 14 operations (add, delete, replace, rescale constraints and objectives, queries in between, rejected "
    "additions) on problems of 1-6 variables; parts have 0-4 rows with linear, bilinear and sine terms, dense, sparse, "
    "two-dimensional, repeated, upper-only or empty structures. Every query is compared with a dense sum over the parts "
    "that a dictionary model says are present. A second check edits real optimal control problems; a third has parts that are "
    "undefined or overflow. Non-trivial: a part was "
    "removed or rescaled after a derivative had been queried."))


class Part:
    """Random functions of n variables: rows of linear, bilinear and sine terms, with derivatives in a chosen layout."""

    def __init__(self, n, m, seed, jac, hess, linear=False):
        self.n, self.m, self.jac_style, self.hess_style, self.linear = n, m, jac, hess, linear
        r = bulk(seed, 3 * m * 5, lo=0, hi=1).reshape(-1, 5) if m else np.zeros((0, 5))
        self.terms = []
        for k, (a, b, c, d, e) in enumerate(r):
            kind = "lin" if linear else ("lin", "bil", "sin")[int(c * 3)]
            self.terms.append((k % m, kind, int(a * n), int(b * n), 2 * d - 1 + 0.25))
        self.con_scale, self.in_scale = np.ones(m), np.ones(n)

    def f(self, x):
        out = np.zeros(self.m)
        for i, kind, p, q, c in self.terms:
            out[i] += c * (x[p] if kind == "lin" else x[p] * x[q] if kind == "bil" else np.sin(x[p]))
        return out

    def jac_entries(self, x):
        for i, kind, p, q, c in self.terms:
            if kind == "lin":
                yield i, p, c
            elif kind == "bil":
                yield i, p, c * x[q]
                yield i, q, c * x[p]
            else:
                yield i, p, c * np.cos(x[p])

    def hess_entries(self, x, lag):
        for i, kind, p, q, c in self.terms:
            if kind == "bil":
                yield p, q, c * lag[i]
                yield q, p, c * lag[i]
            elif kind == "sin":
                yield p, p, -c * np.sin(x[p]) * lag[i]

    def J(self, x):
        out = np.zeros((self.m, self.n))
        for i, j, v in self.jac_entries(x):
            out[i, j] += v
        return out

    def H(self, x, lag):
        out = np.zeros((self.n, self.n))
        for i, j, v in self.hess_entries(x, lag):
            out[i, j] += v
        return out

    # --- values in the layout the part declares
    def jac_structure(self):
        if self.jac_style == "dense":
            return None
        e = [(i, j) for i, j, _ in self.jac_entries(np.ones(self.n))]
        return self._layout(e, self.jac_style)

    def jac_vals(self, x):
        if self.jac_style == "dense":
            return self.J(x).ravel()
        v = self._shape(np.array([v for _, _, v in self.jac_entries(x)]), self.jac_style)
        return np.ascontiguousarray(v) if self.m % 2 else v

    def _upper(self, gen):
        return [e for e in gen if self.hess_style != "upper" or e[0] <= e[1]]

    def hess_structure(self):
        if self.hess_style == "dense":
            return None
        return self._layout([(i, j) for i, j, _ in self._upper(self.hess_entries(np.ones(self.n), np.ones(self.m)))],
                            self.hess_style)

    def hess_vals(self, x, lag):
        if self.hess_style == "dense":
            return self.H(x, lag).ravel()
        return self._shape(np.array([e[2] for e in self._upper(self.hess_entries(x, lag))], dtype=float), self.hess_style)

    def _layout(self, e, style):
        a = np.array(e, dtype=int).reshape(-1, 2)
        return self._shape(a[:, 0], style), self._shape(a[:, 1], style)

    def _shape(self, a, style):
        if style == "fortran":  # two columns where possible, in column order in memory
            return np.asfortranarray(a.reshape(-1, 2 if a.size % 2 == 0 else 1))
        return a.reshape(-1, 1) if style == "2d" else a

    # --- lumos objects
    def constraints(self):
        if self.linear:
            return LinearConstraints(num_in=self.n, num_con=self.m, constraints=self.f, jacobian=self.jac_vals,
                                     jacobian_structure=self.jac_structure() or np.nonzero(np.ones((self.m, self.n))),
                                     cache_jacobian=self.hess_style == "upper")
        return BaseConstraints(num_in=self.n, num_con=self.m, constraints=self.f, jacobian=self.jac_vals,
                               hessian=self.hess_vals, jacobian_structure=self.jac_structure(),
                               hessian_structure=self.hess_structure())

    def objective(self):
        w = np.ones(self.m)
        return BaseObjective(num_in=self.n, objective=lambda x: np.sum(self.f(x)), gradient=lambda x: self.J(x).sum(axis=0),
                             hessian=lambda x: self.hess_vals(x, w), hessian_structure=self.hess_structure())

    # --- scaled oracle
    def sf(self, z):
        return self.f(z * self.in_scale) / self.con_scale

    def sJ(self, z):
        return self.J(z * self.in_scale) * self.in_scale / self.con_scale[:, None]

    def sH(self, z, lag):
        return self.H(z * self.in_scale, lag / self.con_scale) * np.outer(self.in_scale, self.in_scale)


part = st.tuples(st.integers(0, 4), seeds, st.sampled_from(["dense", "sparse", "2d", "fortran"]),
                 st.sampled_from(["dense", "sparse", "2d", "upper", "fortran"]), st.sampled_from([False, False, True]))
name = st.sampled_from(["a", "b", "c", "d"])
op = st.one_of(
    st.tuples(st.just("add"), name, part), st.tuples(st.just("add"), name, part), st.tuples(st.just("del"), name),
    st.tuples(st.just("replace"), name, part), st.tuples(st.just("regrow"), st.integers(0, 3), seeds, st.integers(1, 3)), st.tuples(st.just("addobj"), name, part),
    st.tuples(st.just("addobj"), name, part), st.tuples(st.just("delobj"), name), st.tuples(st.just("wrong"), name, part),
    st.tuples(st.just("conscale"), name, seeds), st.tuples(st.just("inscale"), seeds), st.tuples(st.just("split"), seeds),
    st.tuples(st.just("query"), st.sampled_from(["all", "hessian", "structure", "values"]), seeds),
    st.tuples(st.just("query"), st.sampled_from(["all", "hessian"]), seeds))


def query(prob, cons, objs, what, n, seed, label):
    z = bulk(seed, n, lo=-1.5, hi=1.5)
    ensure(prob.num_con == sum(p.m for p in cons.values()), f"{label}: {prob.num_con} constraints")
    if what in ("all", "values"):
        if objs:
            close(prob.objective(z), sum(np.sum(p.f(z * p.in_scale)) for p in objs.values()), f"{label}: objective", shape=False)
            close(prob.gradient(z), sum(p.J(z * p.in_scale).sum(axis=0) * p.in_scale for p in objs.values()), f"{label}: gradient")
        if cons:
            close(prob.constraints(z), np.concatenate([p.sf(z) for p in cons.values()]), f"{label}: constraints")
            v = bulk(seed + 1, prob.num_con) if prob.num_con else np.zeros(0)
            s = prob.split_constraints(v)
            ensure(list(s) == list(cons), f"{label}: split into {list(s)}, parts are {list(cons)}")
            close(np.concatenate(list(s.values())), v, f"{label}: split values")
            for k, p in cons.items():
                ensure(np.size(s[k]) == p.m, f"{label}: {np.size(s[k])} multipliers of part {k}, which has {p.m}")
    if what in ("all", "structure", "values") and cons:
        J = dense(*prob.jacobianstructure(), prob.jacobian(z), (prob.num_con, n))
        close(J, np.concatenate([p.sJ(z) for p in cons.values()]), f"{label}: Jacobian")
        for k, p in cons.items():
            if p.m and seed % 3 == 0:
                # each part on its own, as sparse matrices
                close(p.obj.get_csc_jacobian(z).toarray(), p.sJ(z), f"{label}: Jacobian of part {k} as a matrix")
                lag = bulk(seed + 4, p.m)
                H = p.sH(z, lag)
                close(p.obj.get_csc_hessian(z, lag).toarray(), np.triu(H) if p.hess_style == "upper" else H, f"{label}: Hessian of part {k} as a matrix",
                      rtol=1e-8, atol=1e-8)
    if what == "structure" and (cons or objs):
        prob.hessianstructure()
    if what in ("all", "hessian") and (cons or objs):
        lag = bulk(seed + 2, prob.num_con) if prob.num_con else np.zeros(0)
        # multipliers of any size, also tiny ones, and no objective (as in a restoration phase)
        unit = (1.0, 1e-15, 1e6)[seed % 3]
        of = 0.0 if seed % 4 == 1 else float(bulk(seed + 3, 1)[0])
        first = prob.hessianstructure() if seed % 2 else None
        vals = np.asarray(prob.hessian(z, unit * lag, unit * of)) / unit
        rows, cols = prob.hessianstructure() if first is None else first
        ensure(np.all(np.ravel(rows) <= np.ravel(cols)), f"{label}: Hessian below the diagonal")
        want, k = np.zeros((n, n)), 0
        for p in cons.values():
            want += p.sH(z, lag[k:k + p.m])
            k += p.m
        for p in objs.values():
            want += of * p.H(z * p.in_scale, np.ones(p.m)) * np.outer(p.in_scale, p.in_scale)
        close(dense(rows, cols, vals, (n, n)), np.triu(want), f"{label}: Hessian", rtol=1e-8, atol=1e-8)


@P.check(st.tuples(st.integers(1, 6), st.lists(op, min_size=2, max_size=14)), quick=500, thorough=6000, shards=4)
def histories(case, rec):
    n, ops = case
    prob = CompositeProblem(n)
    cons, objs, asked, edited = {}, {}, False, False
    for i, o in enumerate(ops):
        label = f"step {i} {o[0]}"
        table = objs if "obj" in o[0] else cons
        if o[0] in ("add", "addobj"):
            m, seed, jac, hess, linear = o[2]
            p = Part(n, m, seed, jac, hess, linear and o[0] == "add")
            p.obj = p.constraints() if o[0] == "add" else p.objective()
            add = (lambda: prob.add_constraints(o[1], p.obj)) if o[0] == "add" else (lambda: prob.add_objective(o[1], p.obj))
            if o[1] in table:
                must_raise(add, f"{label}: name in use")
            else:
                add()
                table[o[1]] = p
        elif o[0] in ("del", "delobj", "replace"):
            if o[1] not in table:
                continue
            (prob.delete_objective if o[0] == "delobj" else prob.delete_constraints)(o[1])
            del table[o[1]]
            if o[0] == "replace":
                m, seed, jac, hess, linear = o[2]
                p = Part(n, m, seed, jac, hess, linear)
                p.obj = p.constraints()
                prob.add_constraints(o[1], p.obj)
                cons[o[1]] = p
            edited |= asked
        elif o[0] == "regrow" and cons:
            # parts from one on are taken out and come back under the same names, in the same order, with other sizes
            names = list(cons)
            names = names[o[1] % len(names):]
            old = {k: cons.pop(k) for k in names}
            for k in names:
                prob.delete_constraints(k)
            for j, k in enumerate(names):
                p = Part(n, (old[k].m + (o[3] + j) % 3) % 5, o[2] + j, old[k].jac_style, old[k].hess_style, old[k].linear)
                p.obj = p.constraints()
                prob.add_constraints(k, p.obj)
                cons[k] = p
            edited |= asked
        elif o[0] == "wrong":
            m, seed, jac, hess, linear = o[2]
            p = Part(n + (1, 2, -1 if n > 1 else 3)[seed % 3], m, seed, jac, hess, linear)
            must_raise(lambda: prob.add_constraints(o[1] + "_wrong", p.constraints()), f"{label}: {p.n} variables instead of {n}")
        elif o[0] == "conscale" and o[1] in cons:
            p = cons[o[1]]
            if p.m:
                # other scales, or almost the same ones
                p.con_scale = bulk(o[2], p.m, lo=0.2, hi=4) if o[2] % 3 else p.con_scale * (1 + 3e-6 * bulk(o[2], p.m))
                p.obj.set_con_scales(p.con_scale.copy())
                edited |= asked
        elif o[0] == "inscale":
            s = bulk(o[1], n, lo=0.2, hi=4)
            for p in list(cons.values()) + list(objs.values()):
                if o[1] % 3 == 0:
                    s = p.in_scale * (1 + 3e-6 * bulk(o[1], n))
                p.obj.set_input_scales(s.copy())
                p.in_scale = s
            edited |= asked
        elif o[0] == "split" and cons:
            prob.split_constraints(np.arange(float(prob.num_con)))
        elif o[0] == "query":
            query(prob, cons, objs, o[1], n, o[2], label + " " + o[1])
            asked |= o[1] in ("all", "hessian", "structure")
        rec.event(o[0])
    query(prob, cons, objs, "all", n, 77, "end")
    rec.nontrivial(edited)


@P.check(st.tuples(st.integers(1, 5), st.lists(part, min_size=2, max_size=4), st.lists(part, min_size=4, max_size=4), st.integers(0, 3),
                   st.sampled_from(["all", "values", "hessian", "structure"]), seeds), quick=60, thorough=600, shards=2)
def regrown(case, rec):
    """Everything asked, then parts taken out and put back under the same names with other sizes."""
    n, first, second, start, what, seed = case
    prob, cons = CompositeProblem(n), {}

    def add(k, args):
        m, s, jac, hess, linear = args
        p = Part(n, m, s, jac, hess, linear)
        p.obj = p.constraints()
        prob.add_constraints(k, p.obj)
        cons[k] = p
    for k, a in zip("abcd", first):
        add(k, a)
    query(prob, cons, {}, what, n, seed, "before")
    gone = list(cons)[start % len(cons):]
    for k in gone:
        prob.delete_constraints(k)
        del cons[k]
    for k, a in zip(gone, second):
        add(k, a)
    query(prob, cons, {}, "all", n, seed + 1, "after")
    rec.nontrivial()


@P.check(st.tuples(st.integers(1, 5), st.lists(st.integers(0, 4), min_size=1, max_size=3), st.integers(1, 3), st.integers(0, 4), seeds),
         quick=60, thorough=900)
def undefined_points(case, rec):
    """Parts that cannot be evaluated at a point, or not everywhere: the problem says so, as a solver has to step back then."""
    n, sizes, objs, last, seed = case
    sizes = sizes + [last + 1]
    prob = CompositeProblem(n)
    r = np.random.RandomState(seed % 2**31)
    special = np.array([np.nan, np.inf, -np.inf, 1e200, -1e200, 0.0])

    def values(k, share=0.3):
        v = r.uniform(-2, 2, k)
        return np.where(r.uniform(size=k) < share, special[r.randint(0, len(special), k)], v)
    parts = []
    for i, m in enumerate(sizes):
        v = dict(f=values(m), J=values(m * n), H=values(n * n))
        parts.append(v)
        prob.add_constraints(f"c{i}", BaseConstraints(num_in=n, num_con=m, constraints=lambda x, v=v: v["f"].copy(), jacobian=lambda x, v=v: v["J"].copy(),
                                                      hessian=lambda x, lag, v=v: v["H"].copy()))
    goals = []
    for i in range(objs):
        v = dict(f=values(1)[0], g=values(n), H=values(n * n))
        goals.append(v)
        prob.add_objective(f"o{i}", BaseObjective(num_in=n, objective=lambda x, v=v: v["f"], gradient=lambda x, v=v: v["g"].copy(), hessian=lambda x, v=v: v["H"].copy()))
    z = bulk(seed, n)
    with np.errstate(all="ignore"):
        close(prob.constraints(z), np.concatenate([v["f"] for v in parts]), "constraints")
        J = dense(*prob.jacobianstructure(), prob.jacobian(z), (prob.num_con, n))
        close(J, np.concatenate([v["J"] for v in parts]).reshape(-1, n), "Jacobian")
        close(prob.objective(z), sum(v["f"] for v in goals), "objective", shape=False)
        close(prob.gradient(z), sum(v["g"] for v in goals), "gradient")
        vals = prob.hessian(z, np.ones(prob.num_con), 1.0)
        want = sum(v["H"].reshape(n, n) for v in parts + goals)
        close(dense(*prob.hessianstructure(), vals, (n, n)), np.where(np.triu(np.ones((n, n))) > 0, want, 0.0), "Hessian")
        back = prob.split_constraints(prob.constraints(z))
        for i, v in enumerate(parts):
            close(back[f"c{i}"], v["f"], f"part {i}")
    rec.nontrivial(any(not np.all(np.isfinite(v["f"])) for v in parts))


class Functions(NLPFunction):
    """A problem given by its functions alone."""

    def __init__(self, p, q):
        self.num_dec, self.p, self.q = p.n, p, q

    def value(self, part, x):
        out = [0.0] * part.m
        for i, kind, a, b, c in part.terms:
            out[i] += c * (x[a] if kind == "lin" else x[a] * x[b] if kind == "bil" else jnp.sin(x[a]))
        return jnp.stack([jnp.asarray(v) for v in out])

    def _compute_objective(self, x):
        return jnp.sum(self.value(self.p, x))

    def constraints(self, x):
        return self.value(self.q, x)


@P.check(st.tuples(st.integers(1, 5), st.integers(1, 3), st.integers(1, 4), seeds), quick=8, thorough=60)
def functions_alone(case, rec):
    n, k, m, seed = case
    p, q = Part(n, k, seed, "dense", "dense"), Part(n, m, seed + 1, "dense", "dense")
    prob = Functions(p, q)
    rows, cols = prob.hessianstructure()
    for j in range(3):
        z, lag, of = bulk(seed + 2 + j, n, lo=-1.5, hi=1.5), bulk(seed + 5 + j, m), 0.4 + j
        close(prob.objective(z), np.sum(p.f(z)), "objective", rtol=1e-6, atol=1e-6, shape=False)
        close(prob.gradient(z), p.J(z).sum(axis=0), "gradient", rtol=1e-6, atol=1e-6)
        close(prob.constraints(z), q.f(z), "constraints", rtol=1e-6, atol=1e-6)
        close(prob.jacobian(z), q.J(z), "Jacobian", rtol=1e-6, atol=1e-6)
        H = of * p.H(z, np.ones(k)) + q.H(z, lag)
        close(prob.lagrangian(z, lag, of), of * np.sum(p.f(z)) + lag @ q.f(z), "Lagrangian", rtol=1e-6, atol=1e-6, shape=False)
        close(dense(rows, cols, prob.hessian(z, lag, of), (n, n)), np.triu(H), "Hessian", rtol=1e-6, atol=1e-6)
    rec.nontrivial(n > 1 and m > 1)


# ------------------------------------------------------------------------- edits of a real problem
@st.composite
def ocp_history(draw):
    spec = draw(ocp_spec(max_ni=2, max_stages=3))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("addobj"), seeds), st.tuples(st.just("addcon"), st.tuples(st.integers(1, 3), seeds)),
        st.tuples(st.just("delobj"), st.just(0)), st.tuples(st.just("delcon"), st.just(0)),
        st.tuples(st.just("scales"), scale_list(spec["model"], spec["free"])), st.tuples(st.just("query"), seeds)),
        min_size=2, max_size=7))
    return spec, ops


def ocp_query(spec, ocp, ref, scales, con, obj, base, seed, label):
    """The edited problem against the untouched part plus the extra parts."""
    s = ref.var_scales(scales)
    z = point(ref, seed) / s
    n = ocp.num_dec
    of, lag = 0.7, bulk(seed + 1, ocp.num_con)
    f, g = ref.objective(z * s), base["grad"](z)
    for o in obj:
        f, g = f + o.f(z * s), g + o.grad(z * s) * s
    close(ocp.objective(z), f, f"{label}: objective", rtol=1e-8, atol=1e-8, shape=False)
    close(ocp.gradient(z), g, f"{label}: gradient", rtol=1e-8, atol=1e-8)
    k = ocp.num_con - sum(p.m for p in con)
    order = part_order(ocp)
    want = np.concatenate([ref.constraints(z * s, order[:len(order) - len(con)], scales)] + [p.f(z * s) for p in con])
    close(ocp.constraints(z), want, f"{label}: constraints", rtol=1e-8, atol=1e-8)
    J = dense(*ocp.jacobianstructure(), ocp.jacobian(z), (ocp.num_con, n))
    close(J[k:], np.concatenate([p.J(z * s) * s for p in con] + [np.zeros((0, n))]), f"{label}: Jacobian of extra parts", rtol=1e-8, atol=1e-8)
    vals = ocp.hessian(z, lag, of)
    H = dense(*ocp.hessianstructure(), vals, (n, n))
    extra, r = np.zeros((n, n)), k
    for p in con:
        extra += p.H(z * s, lag[r:r + p.m])
        r += p.m
    for o in obj:
        extra += of * dense(*o.structure(), o.hess(z * s), (n, n))
    fresh = base["ocp"](scales)
    close(J[:k], dense(*fresh.jacobianstructure(), fresh.jacobian(z), (k, n)), f"{label}: Jacobian of the original parts", rtol=1e-8, atol=1e-8)
    H0 = dense(*fresh.hessianstructure(), fresh.hessian(z, lag[:k], of), (n, n))
    close(H, H0 + np.triu(extra * np.outer(s, s)), f"{label}: Hessian", rtol=1e-7, atol=1e-7 * (1 + np.max(np.abs(H0))))


@P.check(ocp_history(), quick=40, thorough=500, shards=3)
def edited_problems(case, rec):
    from lib.ocp import config
    from lumos.optimal_control.config import ScaleConfig
    spec, ops = case
    ref = Ref(spec)
    with built(spec) as b:
        def fresh(scales):
            return make_ocp(spec, b.model(), config(spec, scales=tuple(ScaleConfig(g, n, v) for (g, n), v in scales)))
        ocp, scales = fresh(spec["scales"]), spec["scales"]
        from checks.c18 import cs_objective
        base = {"ocp": fresh, "grad": lambda z: cs_objective(ref, z, ref.var_scales(scales))}
        con, obj = [], []
        names, edited, asked = 0, False, False
        for i, (o, arg) in enumerate([("query", 3)] + ops + [("query", 5)]):
            if o == "addobj":
                p = CustomObjective(ocp.num_dec, arg)
                ocp.add_objective(f"o{names}", p.objective())
                p.name = f"o{names}"
                obj.append(p)
                names += 1
            elif o == "addcon":
                p = Part(ocp.num_dec, arg[0], arg[1], "sparse", "sparse")
                p.name = f"c{names}"
                ocp.add_constraints(p.name, p.constraints())
                con.append(p)
                names += 1
            elif o == "delobj" and obj:
                ocp.delete_objective(obj.pop(0).name)
                edited |= asked
            elif o == "delcon" and con:
                ocp.delete_constraints(con.pop(0).name)
                edited |= asked
            elif o == "scales":
                scales = arg
                ocp.set_scales(tuple(ScaleConfig(g, n, v) for (g, n), v in scales))
                edited |= asked
            elif o == "query":
                ocp_query(spec, ocp, ref, scales, con, obj, base, arg, f"step {i}")
                asked = True
    rec.nontrivial(edited)
