"""C19: integrators as parts of larger OpenMDAO models."""

import time

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation

PROPERTY = "C19"


# --------------------------------------------------------------------- plain components
class Link(om.ExplicitComponent):
    """out = bias + sum_k M_k in_k + gain sin(sum_k N_k in_k), dense partials."""

    def initialize(self):
        self.options.declare("ins")  # [(name, shape)]
        self.options.declare("outs")  # [(name, shape)]
        self.options.declare("seed", types=int)
        self.options.declare("weight")  # {input name: factor}
        self.options.declare("matrix_free", types=bool)

    def setup(self):
        self.law = LinkLaw(
            self.options["ins"],
            self.options["outs"],
            self.options["seed"],
            self.options["weight"],
        )
        for name, shape in self.options["ins"]:
            self.add_input(name, shape=tuple(shape))
        for name, shape in self.options["outs"]:
            self.add_output(name, shape=tuple(shape))
        if not self.options["matrix_free"]:
            self.declare_partials("*", "*")

    def _x(self, vec):
        return np.concatenate([vec[n].ravel() for n, _ in self.options["ins"]])

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        y = self.law(self._x(inputs))
        for (name, shape), sl in zip(self.options["outs"], self.law.out_slices):
            outputs[name] = y[sl].reshape(shape)


class LinkPartials(Link):
    def compute_partials(self, inputs, partials, discrete_inputs=None):
        J = self.law.jac(self._x(inputs))
        for (o, _), so in zip(self.options["outs"], self.law.out_slices):
            for (i, _), si in zip(self.options["ins"], self.law.in_slices):
                partials[o, i] = J[so, si]


class LinkMatrixFree(Link):
    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        J = self.law.jac(self._x(inputs))
        for (o, so_), so in zip(self.options["outs"], self.law.out_slices):
            if o not in d_outputs:
                continue
            for (i, si_), si in zip(self.options["ins"], self.law.in_slices):
                if i not in d_inputs:
                    continue
                if mode == "fwd":
                    d_outputs[o] += (J[so, si] @ d_inputs[i].ravel()).reshape(so_)
                else:
                    d_inputs[i] += (J[so, si].T @ d_outputs[o].ravel()).reshape(si_)


def slices(items):
    out, off = [], 0
    for _, shape in items:
        k = vm.size(shape)
        out.append(slice(off, off + k))
        off += k
    return out, off


class LinkLaw:
    def __init__(self, ins, outs, seed, weight):
        self.in_slices, n = slices(ins)
        self.out_slices, m = slices(outs)
        rng = np.random.RandomState(seed)
        self.M = rng.uniform(-1, 1, (m, n)) / np.sqrt(n)
        self.N = rng.uniform(-1, 1, (m, n)) / np.sqrt(n)
        self.bias = rng.uniform(-0.5, 0.5, m)
        for (name, _), sl in zip(ins, self.in_slices):
            self.M[:, sl] *= weight[name]
            self.N[:, sl] *= weight[name]

    def __call__(self, x):
        return self.bias + self.M @ x + 0.5 * np.sin(self.N @ x)

    def jac(self, x):
        return self.M + (0.5 * np.cos(self.N @ x))[:, None] * self.N


# ------------------------------------------------------------------------------- cases
@st.composite
def integrator_spec(draw):
    spec = draw(vm.ode_spec(max_state=3, max_quantities=2, max_indep=1))
    return {
        "ode": spec,
        "tab": draw(vm.tableau(max_stages=2)),
        "dt": draw(st.sampled_from([1 / 32, 1 / 16, 1 / 8])),
        "n": draw(st.integers(1, 3)),
        "checkpointing": draw(st.sampled_from(["all", "pyrevolve"])),
        # does a component compute the initial time, or is it the default?
        "link_time": draw(st.booleans()),
    }


@st.composite
def outer_case(draw):
    k = draw(st.sampled_from([1, 1, 2, 2, 2, 3]))
    design = [
        [f"z{i}", draw(st.sampled_from([[1], [2], [2, 1]]))]
        for i in range(draw(st.integers(1, 2)))
    ]
    edges = []
    for i in range(k):
        for j in range(k):
            if j < i and draw(st.sampled_from([True, True, False])):
                edges.append([i, j])
            if j >= i and draw(st.sampled_from([True, False, False])):
                edges.append([i, j])
    # which integrators live in a group of their own, with their links
    group = draw(st.sampled_from(["flat", "all in a group", "one in a group"]))
    cyclic = any(j >= i for i, j in edges)
    lin = ["krylov", "direct", "gs", "petsc", "jac"]
    order = list(draw(st.permutations(range(k))))
    once = not cyclic and group == "flat" and draw(st.booleans())
    if once:
        order.sort()
    return {
        "integrators": [draw(integrator_spec()) for _ in range(k)],
        "design": design,
        "edges": edges,
        "order": order,
        "group": group,
        "member": draw(st.integers(0, k - 1)),
        "nonlinear": "once" if once else draw(st.sampled_from(["gs", "gs", "newton"])),
        "linear": "once" if once else draw(st.sampled_from(lin)),
        "inner_linear": draw(st.sampled_from(lin)),
        "link_matrix_free": draw(st.booleans()),
        "mode": draw(st.sampled_from(["fwd", "rev"])),
        "of": draw(st.sampled_from([1, 2, 3, 4])),
        "seed": draw(st.integers(0, 10**6)),
        "again": draw(st.booleans()),
    }


def linear_solver(name):
    if name == "krylov":
        return om.ScipyKrylov(atol=1e-12, rtol=1e-12, maxiter=100, iprint=-1)
    if name == "petsc":
        return om.PETScKrylov(atol=1e-12, rtol=1e-12, maxiter=100, iprint=-1)
    if name == "direct":
        return om.DirectSolver(assemble_jac=False, iprint=-1)
    if name == "gs":
        return om.LinearBlockGS(atol=1e-11, rtol=1e-11, maxiter=40, iprint=-1)
    if name == "jac":
        return om.LinearBlockJac(atol=1e-10, rtol=1e-10, maxiter=60, iprint=-1)
    return om.LinearRunOnce()


def nonlinear_solver(name):
    if name == "gs":
        return om.NonlinearBlockGS(
            atol=1e-13, rtol=1e-30, maxiter=60, iprint=-1, use_apply_nonlinear=False
        )
    if name == "once":
        return om.NonlinearRunOnce()
    return om.NewtonSolver(
        atol=1e-13, rtol=1e-30, maxiter=20, iprint=-1, solve_subsystems=True
    )


class LimitedIntegrator(integ.RungeKuttaIntegrator):
    """Gives up compositions in which nested solvers ask for very many products."""

    deadline = np.inf

    def compute(self, *args, **kwargs):
        self._limit()
        return super().compute(*args, **kwargs)

    def compute_jacvec_product(self, *args, **kwargs):
        self._limit()
        return super().compute_jacvec_product(*args, **kwargs)

    def _limit(self):
        if time.monotonic() > self.deadline:
            raise Skip("solvers of the outer model take too long")


# ------------------------------------------------------------------ model and reference
class Outer:
    def __init__(self, case):
        self.case = case
        self.odes = [vm.ODE(s["ode"]) for s in case["integrators"]]
        self.design = [(n, tuple(s)) for n, s in case["design"]]
        self.links = []
        for i, spec in enumerate(case["integrators"]):
            ode = self.odes[i]
            ins = list(self.design)
            weight = {n: 1.0 for n, _ in ins}
            for a, b in case["edges"]:
                if a == i:
                    ins += [(n, s) for n, s in self.results(b)]
                    weight.update({n: 0.12 for n, _ in self.results(b)})
            outs = [(f"r{i}_{q['name']}_initial", tuple(q["shape"])) for q in ode.quantities]
            outs += [(f"r{i}_{q['name']}_p", tuple(q["shape"])) for q in ode.indep]
            if spec["link_time"]:
                outs.append((f"r{i}_time_initial", (1,)))
            self.links.append(
                {"ins": ins, "outs": outs, "seed": case["seed"] + 7 * i, "weight": weight}
            )
        ins = list(self.design)
        for i in range(len(self.odes)):
            ins += self.results(i)
        self.objective = {
            "ins": ins,
            "outs": [("f", (2,)), ("g", (1,))],
            "seed": case["seed"] + 1000,
            "weight": {n: 1.0 for n, _ in ins},
        }

    def results(self, i):
        ode = self.odes[i]
        out = [(f"r{i}_{q['name']}_final", tuple(q["shape"])) for q in ode.quantities]
        return out + [(f"r{i}_time_final", (1,))]

    # --- the OpenMDAO model
    def build(self):
        case = self.case
        prob = om.Problem()
        self.prob = prob
        ivc = om.IndepVarComp()
        for name, shape in self.design:
            ivc.add_output(name, val=np.zeros(shape))
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        cls = LinkMatrixFree if case["link_matrix_free"] else LinkPartials
        cyclic = prob.model.add_subsystem("cycle", om.Group(), promotes=["*"])
        solved = [cyclic]
        inner = None
        for i in case["order"]:
            parent = cyclic
            if case["group"] == "all in a group" or (
                case["group"] == "one in a group" and i == case["member"]
            ):
                if inner is None:
                    inner = cyclic.add_subsystem("inner", om.Group(), promotes=["*"])
                    inner.nonlinear_solver = nonlinear_solver(case["nonlinear"])
                    inner.linear_solver = linear_solver(case["inner_linear"])
                    solved.append(inner)
                parent = inner
            spec, ode = case["integrators"][i], self.odes[i]
            parent.add_subsystem(
                f"link{i}",
                cls(matrix_free=case["link_matrix_free"], **self.links[i]),
                promotes=["*"],
            )
            obj, _ = vm.build_tableau(spec["tab"])
            su = integ.Setup(
                ode,
                obj,
                spec["dt"],
                n_steps=spec["n"],
                checkpointing=spec["checkpointing"],
                setup=False,
            )
            rk = LimitedIntegrator(**su.options)
            rk.deadline = self.deadline
            pin = [(q["name"] + "_initial", f"r{i}_{q['name']}_initial") for q in ode.quantities]
            pin += [(q["name"], f"r{i}_{q['name']}_p") for q in ode.indep]
            pin.append(("time_initial", f"r{i}_time_initial"))
            pout = [(q["name"] + "_final", f"r{i}_{q['name']}_final") for q in ode.quantities]
            pout.append(("time_final", f"r{i}_time_final"))
            parent.add_subsystem(
                f"rk{i}", rk, promotes_inputs=pin, promotes_outputs=pout
            )
        cyclic.nonlinear_solver = nonlinear_solver(case["nonlinear"])
        cyclic.linear_solver = linear_solver(case["linear"])
        prob.model.add_subsystem(
            "objective",
            cls(matrix_free=case["link_matrix_free"], **self.objective),
            promotes=["*"],
        )
        prob.setup(mode=case["mode"])
        prob.final_setup()

    # --- the reference: fixed point and dense total derivatives
    def reference(self, z):
        """z: {name: value} -> values {name: flat}, totals {(of, design): matrix}"""
        k = len(self.odes)
        refs = [
            vm.Ref(o, vm.build_tableau(s["tab"])[1])
            for o, s in zip(self.odes, self.case["integrators"])
        ]
        vals = {n: np.asarray(z[n], float).ravel() for n, _ in self.design}
        for i in range(k):
            for n, shape in self.results(i):
                vals[n] = np.zeros(vm.size(shape))

        def link(i):
            d = self.links[i]
            law = LinkLaw(d["ins"], d["outs"], d["seed"], d["weight"])
            x = np.concatenate([vals[n] for n, _ in d["ins"]])
            y = law(x)
            for (n, _), sl in zip(d["outs"], law.out_slices):
                vals[n] = y[sl]
            return law, x

        def run(i, jac):
            ode, spec = self.odes[i], self.case["integrators"][i]
            x0 = np.concatenate([vals[f"r{i}_{q['name']}_initial"] for q in ode.quantities])
            p = np.concatenate(
                [vals[f"r{i}_{q['name']}_p"] for q in ode.indep] + [np.zeros(0)]
            )
            t0 = vals[f"r{i}_time_initial"][0] if spec["link_time"] else 0.0
            res = refs[i].run(t0, x0, p, [spec["dt"]] * spec["n"], jac)
            for q in ode.quantities:
                vals[f"r{i}_{q['name']}_final"] = res["x"][ode.slices[q["name"]]]
            vals[f"r{i}_time_final"] = np.array([res["t"]])
            return res

        change = np.inf
        for _ in range(200):
            old = {n: v.copy() for n, v in vals.items()}
            for i in range(k):
                link(i)
                run(i, False)
            change = max(
                np.max(np.abs(vals[n] - old[n]), initial=0.0) if n in old else np.inf
                for n in vals
            )
            if change < 1e-14:
                break
        if change > 1e-11 or max(np.max(np.abs(v)) for v in vals.values()) > 50:
            raise Skip("the composed model doesn't converge well")
        # d(results)/d(z): linear system over all results
        names = [n for i in range(k) for n, _ in self.results(i)]
        dsl, off = {}, 0
        for n in names:
            dsl[n] = slice(off, off + len(vals[n]))
            off += len(vals[n])
        zsl, zn = slices(self.design)
        zsl = {n: s for (n, _), s in zip(self.design, zsl)}
        A = np.eye(off)
        B = np.zeros((off, zn))
        for i in range(k):
            law, x = link(i)
            Jl = law.jac(x)
            res = run(i, True)
            Jr = integ.full_jac(res["J"])
            ode, spec = self.odes[i], self.case["integrators"][i]
            cols = Jr if spec["link_time"] else Jr[:, :-1]
            J = cols @ Jl  # d(x_final, t_final) / d(link inputs)
            rows = [
                (f"r{i}_{q['name']}_final", ode.slices[q["name"]]) for q in ode.quantities
            ] + [(f"r{i}_time_final", slice(ode.n, ode.n + 1))]
            for rn, rs in rows:
                for (cn, _), cs in zip(self.links[i]["ins"], law.in_slices):
                    if cn in zsl:
                        B[dsl[rn], zsl[cn]] += J[rs, cs]
                    else:
                        A[dsl[rn], dsl[cn]] -= J[rs, cs]
        if np.linalg.cond(A) > 1e3:
            raise Skip("badly conditioned composition")
        D = np.linalg.solve(A, B)
        d = self.objective
        law = LinkLaw(d["ins"], d["outs"], d["seed"], d["weight"])
        x = np.concatenate([vals[n] for n, _ in d["ins"]])
        y, Jo = law(x), law.jac(x)
        grads = {n: D[dsl[n]] for n in names}
        F = np.zeros((len(y), zn))
        for (cn, _), cs in zip(d["ins"], law.in_slices):
            if cn in zsl:
                F[:, zsl[cn]] += Jo[:, cs]
            else:
                F += Jo[:, cs] @ D[dsl[cn]]
        for (n, _), sl in zip(d["outs"], law.out_slices):
            vals[n] = y[sl]
            grads[n] = F[sl]
        totals = {}
        for n, g in grads.items():
            for zname, s in zsl.items():
                totals[n, zname] = g[:, s]
        return vals, totals


    def check_integrators(self, tol):
        """Each of them solves the problem it was given, whatever the others do."""
        get = self.prob.get_val
        for i, (ode, spec) in enumerate(zip(self.odes, self.case["integrators"])):
            _, tab = vm.build_tableau(spec["tab"])
            x0 = [get(f"r{i}_{q['name']}_initial").ravel() for q in ode.quantities]
            p = [get(f"r{i}_{q['name']}_p").ravel() for q in ode.indep]
            t0 = get(f"r{i}_time_initial")[0] if spec["link_time"] else 0.0
            res = vm.Ref(ode, tab).run(
                t0,
                np.concatenate(x0),
                np.concatenate(p + [np.zeros(0)]),
                [spec["dt"]] * spec["n"],
                False,
            )
            for q in ode.quantities:
                vm.close(
                    get(f"r{i}_{q['name']}_final").ravel(),
                    res["x"][ode.slices[q["name"]]],
                    tol,
                    f"{q['name']} of integrator {i} for its inputs",
                )
            vm.close(get(f"r{i}_time_final"), [res["t"]], tol, f"time of integrator {i}")


def run_outer(case, rec):
    outer = Outer(case)
    outer.deadline = time.monotonic() + 25
    points = 2 if case["again"] else 1
    outer.build()
    for k in range(points):
        rng = np.random.RandomState(case["seed"] + k)
        z = {n: rng.uniform(-1, 1, s) for n, s in outer.design}
        vals, totals = outer.reference(z)
        for n, v in z.items():
            outer.prob.set_val(n, v)
        outer.prob.run_model()
        # Newton's method changes outputs without running the components again
        outer.check_integrators(1e-10 if case["nonlinear"] != "newton" else 1e-5)
        off = 0.0
        for n, v in vals.items():
            got = outer.prob.get_val(n).ravel()
            vm.close(got, v, 1e-9 if case["nonlinear"] != "newton" else 1e-5, f"value of {n}")
            off = max(off, np.max(np.abs(got - v)))
        if off > 1e-9:
            # inexact linear solvers slow Newton's method down
            rec.label("outer Newton solver is not quite at the solution")
        of = sorted({n for n, _ in totals})
        wrt = [n for n, _ in outer.design]
        of = [of[i] for i in rng.permutation(len(of))][: case["of"]]
        wrt = [wrt[i] for i in rng.permutation(len(wrt))][: rng.randint(1, len(wrt) + 1)]
        tot = outer.prob.compute_totals(of=of, wrt=wrt)
        for o in of:
            for w in wrt:
                vm.close(
                    tot[o, w],
                    totals[o, w],
                    1e-8 + 100 * off,
                    f"{case['mode']} total of {o} wrt {w}",
                )
    cyclic = any(j >= i for i, j in case["edges"])
    rec.label("feedback" if cyclic else "no feedback")
    rec.label(f"integrators={len(case['integrators'])}")
    rec.label(f"linear={case['linear']}")
    if case["group"] != "flat":
        rec.label(f"inner linear={case['inner_linear']}")
    rec.label(f"mode={case['mode']}")
    rec.label(f"nonlinear={case['nonlinear']}")
    rec.nontrivial(bool(case["edges"]))


# ------------------------------------------------- the interface outer models build upon
@st.composite
def product_case(draw):
    spec = draw(vm.ode_spec(max_state=5))
    return {
        "ode": spec,
        "tab": draw(vm.tableau(max_stages=3)),
        "dt": draw(integ.step_size),
        "n": draw(st.integers(1, 3)),
        "ops": draw(
            st.lists(
                st.tuples(st.sampled_from(["fwd", "rev"]), st.integers(0, 10**6)).map(list),
                min_size=1,
                max_size=4,
            )
        ),
        **draw(integ.point(spec)),
    }


def run_product(case, rec):
    """Matrix-vector products as OpenMDAO's solvers ask for them: on vectors that already
    contain something, with some of the variables left out."""
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    su = integ.Setup(
        ode, obj, case["dt"], n_steps=case["n"], checkpointing="all", mode="rev"
    )
    su.set_inputs(case["t0"], case["x0"], case["p"])
    su.run()
    su.prob.model.run_linearize()
    ref = vm.Ref(ode, tab).run(
        case["t0"], case["x0"], np.array(case["p"]), [case["dt"]] * case["n"], True
    )
    J = integ.full_jac(ref["J"])
    n, m = ode.n, ode.m
    rows = {q["name"] + "_final": ode.slices[q["name"]] for q in ode.quantities}
    rows["time_final"] = slice(n, n + 1)
    cols = {q["name"] + "_initial": ode.slices[q["name"]] for q in ode.quantities}
    for q in ode.indep:
        s = ode.islices[q["name"]]
        cols[q["name"]] = slice(n + s.start, n + s.stop)
    cols["time_initial"] = slice(n + m, n + m + 1)
    rk = su.rk
    for k, (mode, seed) in enumerate(case["ops"]):
        rng = np.random.RandomState(seed)
        chosen = [c for c in cols if rng.rand() < 0.7] or ["time_initial"]
        scope_in = frozenset("rk." + c for c in chosen)
        old_in, old_out = rng.uniform(-1, 1, n + m + 1), rng.uniform(-1, 1, n + 1)
        if rng.rand() < 0.4:
            # only one of the outputs is of interest, or none at all
            only = list(rows)[rng.randint(len(rows))]
            mask = np.zeros(n + 1)
            mask[rows[only]] = rng.rand() < 0.8
            old_out = old_out * mask
            rec.label("seeds with zeros")
        if rng.rand() < 0.3:
            only = list(cols)[rng.randint(len(cols))]
            mask = np.zeros(n + m + 1)
            mask[cols[only]] = rng.rand() < 0.8
            old_in = old_in * mask
        garbage = rng.uniform(-1, 1, n + m + 1)
        for c, sl in cols.items():
            rk._dinputs[c] = garbage[sl].reshape(rk._dinputs[c].shape)
        with rk._matvec_context(
            frozenset(), scope_in, mode, clear=False
        ) as (d_inputs, _, d_res):
            for c in chosen:
                d_inputs[c] = old_in[cols[c]].reshape(d_inputs[c].shape)
            for r, sl in rows.items():
                d_res[r] = old_out[sl].reshape(d_res[r].shape)
            rk.compute_jacvec_product(rk._inputs, d_inputs, d_res, mode)
            new_in = {c: np.array(d_inputs[c]).ravel() for c in chosen}
            new_out = {r: np.array(d_res[r]).ravel() for r in rows}
        v = np.zeros(n + m + 1)
        for c in chosen:
            v[cols[c]] = old_in[cols[c]]
        want_out = old_out + J @ v if mode == "fwd" else old_out
        want_in = old_in if mode == "fwd" else old_in + J.T @ old_out
        what = f"operation {k + 1} ({mode} with {chosen})"
        for r, sl in rows.items():
            vm.close(new_out[r], want_out[sl], 1e-10, f"{what}: {r}")
        for c, sl in cols.items():
            if c in chosen:
                vm.close(new_in[c], want_in[sl], 1e-10, f"{what}: {c}")
            else:
                vm.close(rk._dinputs[c].ravel(), garbage[sl], 0, f"{what}: left out {c}")
        rec.label(mode)
        rec.label("all inputs" if len(chosen) == len(cols) else "some inputs")
    rec.nontrivial(True)


SUBS = [
    Sub("compositions", outer_case(), run_outer, 280, 2000),
    Sub("products", product_case(), run_product, 300, 4000),
]
