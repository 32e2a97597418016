"""C17: shipped ODEs and helper components."""

import contextlib
import io
import os
import pathlib
import sys
import tempfile
import warnings

import h5py
import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation
from rkopenmdao import butcher_tableaux as _bt
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_controllers import pseudo, integral
from rkopenmdao.error_measurer import SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.odes.kaps import KapsComponent1, KapsComponent2, KapsGroup
from rkopenmdao.odes.prothero_robinson_ode import ProtheroRobinson
from rkopenmdao.odes.simple_linear_ode import SimpleLinearODE
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedFinalTime, PredefinedNumberOfSteps
from rkopenmdao.utils import problems
from rkopenmdao.utils.utility_components import (
    StageUpdateComponent,
    StageValueComponent,
)

PROPERTY = "C17"
DT = st.sampled_from([1 / 32, 1 / 16, 0.1, 1 / 8, 0.25, 0.5])
FACTOR = st.sampled_from([0.0, 0.25, 0.435, 0.5, 1.0])


def rng_of(case):
    return np.random.RandomState(case["seed"])


# --------------------------------------------------------- residual forms, from the docs
class Kaps1Law:
    """epsilon y_1' = -(1 + 2 epsilon) y_1 + y_2^2"""

    cls = KapsComponent1
    ins = ["y_1_old", "y_1_accumulated_stages", "y_2"]
    outs = ["y_1", "y_1_stage"]

    def __init__(self, eps):
        self.eps = eps
        self.kw = {"epsilon": eps}

    def residual(self, u, v, dt, a):
        e = self.eps
        return np.array(
            [
                u[0] + dt * u[1] + dt * a * v[1] - v[0],
                -(1 + 2 * e) * v[0] + u[2] ** 2 - e * v[1],
            ]
        )

    def d_in(self, u, v, dt, a):
        return np.array([[1.0, dt, 0.0], [0.0, 0.0, 2 * u[2]]])

    def d_out(self, u, v, dt, a):
        e = self.eps
        return np.array([[-1.0, dt * a], [-(1 + 2 * e), -e]])


class Kaps2Law:
    """y_2' = y_1 - y_2 - y_2^2"""

    cls = KapsComponent2
    ins = ["y_2_old", "y_2_accumulated_stages", "y_1"]
    outs = ["y_2", "y_2_stage"]

    def __init__(self, eps):
        self.kw = {}

    def residual(self, u, v, dt, a):
        return np.array(
            [
                u[0] + dt * u[1] + dt * a * v[1] - v[0],
                u[2] - v[0] - v[0] ** 2 - v[1],
            ]
        )

    def d_in(self, u, v, dt, a):
        return np.array([[1.0, dt, 0.0], [0.0, 0.0, 1.0]])

    def d_out(self, u, v, dt, a):
        return np.array([[-1.0, dt * a], [-1.0 - 2 * v[0], -1.0]])


@st.composite
def kaps_case(draw):
    return {
        "which": draw(st.sampled_from([1, 2])),
        "eps": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 1.75])),
        "dt": draw(DT),
        "a": draw(FACTOR),
        "seed": draw(st.integers(0, 10**6)),
        "points": draw(st.integers(1, 3)),
    }


def kaps_component(case, rec):
    law = {1: Kaps1Law, 2: Kaps2Law}[case["which"]](case["eps"])
    rng = rng_of(case)
    # exercised within a model, the values of the inputs come from other components
    prob = om.Problem()
    ivc = om.IndepVarComp()
    for name in law.ins:
        ivc.add_output(name, val=1.0)
    prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    comp = law.cls(**law.kw)
    prob.model.add_subsystem("comp", comp, promotes=["*"])
    prob.setup(mode="rev", force_alloc_complex=False)
    prob.final_setup()
    dt, a = case["dt"], case["a"]
    comp.om_data_exchange.step_size = dt
    comp.om_data_exchange.stage_factor = a
    for _ in range(case["points"]):
        u = rng.uniform(0.1, 1.5, 3)
        for name, val in zip(law.ins, u):
            prob.set_val(name, val)
        prob.run_model()
        v = np.array([prob.get_val(name)[0] for name in law.outs])
        what = f"{law.cls.__name__} with inputs {u.tolist()}"
        vm.close(law.residual(u, v, dt, a), np.zeros(2), 1e-9, what + ": stage equation")
        if case["which"] == 2 and 1 + dt * a * (1 + 2 * v[0]) <= 0:
            raise Violation(f"{what}: solution {v} isn't the one near the old value")
        D, E = law.d_out(u, v, dt, a), law.d_in(u, v, dt, a)
        total = -np.linalg.solve(D, E)
        for mode in ["fwd", "rev"]:
            _kaps_products(prob, comp, law, mode, D, E, total, rng, what)
            _kaps_partial(comp, law, mode, D, E, rng, what)
        # residuals at an arbitrary point
        w = rng.uniform(0.1, 1.5, 2)
        for name, val in zip(law.outs, w):
            prob.set_val(name, val)
        comp.run_apply_nonlinear()
        got = [comp._residuals[name][0] for name in law.outs]
        vm.close(got, law.residual(u, w, dt, a), 1e-12, what + ": residual")
    rec.label(f"KapsComponent{case['which']}")
    rec.label("explicit stage" if a == 0.0 else "implicit stage")
    rec.nontrivial(a != 0.0)


def _kaps_products(prob, comp, law, mode, D, E, total, rng, what):
    """linear operator, its inverse and the total product through the model"""
    model = prob.model
    model.run_linearize()
    _, d_out, d_res = model.get_linear_vectors()
    order = law.ins + law.outs

    def put(vec, values):
        vec.set_val(0.0)
        for name, val in zip(order, values):
            vec[_abs(model, name)] = val

    def get(vec):
        return np.array([vec[_abs(model, name)][0] for name in order])

    full = np.block([[np.eye(3), np.zeros((3, 2))], [E, D]])
    # d_residuals of an explicit component y - f(x) = 0 have the opposite sign in
    # OpenMDAO's convention; both signs are brought to that of the implicit part
    v = rng.uniform(-1, 1, 5)
    if mode == "fwd":
        put(d_out, v)
        d_res.set_val(0.0)
        model.run_apply_linear("fwd")
        got = get(d_res)[3:]
        vm.close(got, (full @ v)[3:], 1e-10, f"{what}: apply_linear fwd")
        rhs = np.concatenate([-v[:3], v[3:]])
        put(d_res, rhs)
        d_out.set_val(0.0)
        model.run_solve_linear("fwd")
        got = get(d_out)
        du = got[:3]
        if not np.allclose(np.abs(du), np.abs(v[:3]), atol=1e-12):
            raise Violation(f"{what}: independent variables {du} for {rhs[:3]}")
        want = np.linalg.solve(D, rhs[3:] - E @ du)
        vm.close(got[3:], want, 1e-8, f"{what}: solve_linear fwd")
    else:
        put(d_res, v)
        d_out.set_val(0.0)
        model.run_apply_linear("rev")
        got = get(d_out)
        vm.close(got[3:], D.T @ v[3:], 1e-10, f"{what}: apply_linear rev, outputs")
        put(d_out, np.concatenate([np.zeros(3), v[3:]]))
        d_res.set_val(0.0)
        model.run_solve_linear("rev")
        got = get(d_res)
        want = np.linalg.solve(D.T, v[3:])
        vm.close(got[3:], want, 1e-8, f"{what}: solve_linear rev")
        # the adjoint of the independent variables, up to OpenMDAO's sign convention
        sens = E.T @ want
        if not np.allclose(np.abs(got[:3]), np.abs(sens), rtol=1e-7, atol=1e-9):
            raise Violation(f"{what}: adjoint of the inputs {got[:3]}, expected {sens}")
    prob.model._owns_approx_jac = False
    J = prob.compute_totals(of=law.outs, wrt=law.ins)
    got = np.array([[J[o, i][0, 0] for i in law.ins] for o in law.outs])
    vm.close(got, total, 1e-8, f"{what}: total derivatives")


def _kaps_partial(comp, law, mode, D, E, rng, what):
    """linear operator with some of the variables left out, on vectors that already
    contain something, as solvers of a group around the component ask for it"""
    ins = [i for i in law.ins if rng.rand() < 0.6]
    outs = [o for o in law.outs if rng.rand() < 0.6]
    scope_in = frozenset(f"{comp.pathname}.{i}" for i in ins)
    scope_out = frozenset(f"{comp.pathname}.{o}" for o in outs)
    full = np.hstack([E, D])
    cols = law.ins + law.outs
    garbage = {c: rng.uniform(-1, 1) for c in cols}
    for c in cols:
        (comp._dinputs if c in law.ins else comp._doutputs)[c] = garbage[c]
    with comp._matvec_context(scope_out, scope_in, mode, clear=False) as (d_in, d_out, d_res):
        x = np.zeros(5)
        for j, c in enumerate(cols):
            if c in ins or c in outs:
                x[j] = rng.uniform(-1, 1)
                (d_in if c in ins else d_out)[c] = x[j]
        y = rng.uniform(-1, 1, 2)
        for o, val in zip(law.outs, y):
            d_res[o] = val
        comp.apply_linear(comp._inputs, comp._outputs, d_in, d_out, d_res, mode)
        for j, c in enumerate(cols):
            if c in ins or c in outs:
                want = x[j] if mode == "fwd" else x[j] + full[:, j] @ y
                got = (d_in if c in ins else d_out)[c]
                vm.close(got, [want], 1e-10, f"{what}: {mode} with {ins + outs}: {c}")
        want = y + full @ x if mode == "fwd" else y
        got = [d_res[o][0] for o in law.outs]
        vm.close(got, want, 1e-10, f"{what}: {mode} with {ins + outs}: residuals")
    for c in cols:
        if c not in ins and c not in outs:
            got = (comp._dinputs if c in law.ins else comp._doutputs)[c]
            vm.close(got, [garbage[c]], 0, f"{what}: {mode} with {ins + outs}: {c}")


def _abs(model, name):
    return f"ivc.{name}" if _is_input(model, name) else f"comp.{name}"


def _is_input(model, name):
    return f"ivc.{name}" in model._var_allprocs_abs2meta["output"]


# ------------------------------------------------------------- whole ODEs via the view
@st.composite
def view_case(draw):
    which = draw(st.sampled_from(["kaps", "linear", "robinson"]))
    return {
        "which": which,
        "eps": draw(st.sampled_from([0.1, 0.5, 1.0, 1.75])),
        "lam": draw(st.sampled_from([-100.0, -10.0, -1.0, -0.25, 0.5])),
        "t": draw(integ.start_time),
        "dt": draw(DT),
        "a": draw(FACTOR),
        "seed": draw(st.integers(0, 10**6)),
        "points": draw(st.integers(1, 3)),
        "wrap": draw(st.sampled_from(["plain", "ivc", "group"])),
    }


def stage_problem(case):
    prob = om.Problem()
    if case["which"] == "kaps":
        prob.model.add_subsystem("ode", KapsGroup(epsilon=case["eps"]))
        names, src = ["y_1", "y_2"], []
    elif case["which"] == "linear":
        comp = SimpleLinearODE()
        names, src = ["y"], ["y_old", "y_accumulated_stages"]
    else:
        comp = ProtheroRobinson(lambda_=case["lam"])
        names, src = ["x"], ["x", "acc_stages", "time"]
    if case["which"] != "kaps":
        group = prob.model
        if case["wrap"] == "group":
            group = prob.model.add_subsystem("g", om.Group(), promotes=["*"])
        if case["wrap"] != "plain":
            ivc = om.IndepVarComp()
            for name in src:
                ivc.add_output(name, val=0.5)
            group.add_subsystem("ivc", ivc, promotes=["*"])
        group.add_subsystem("ode", comp, promotes=["*"])
    prob.setup(mode="rev")
    prob.final_setup()
    return prob, names


def right_hand_side(case):
    """f, df/dx, df/dt for the whole state"""
    if case["which"] == "kaps":
        e = case["eps"]
        return (
            lambda t, y: np.array(
                [(-(1 + 2 * e) * y[0] + y[1] ** 2) / e, y[0] - y[1] - y[1] ** 2]
            ),
            lambda t, y: np.array(
                [[-(1 + 2 * e) / e, 2 * y[1] / e], [1.0, -1.0 - 2 * y[1]]]
            ),
        )
    if case["which"] == "linear":
        return lambda t, y: -y, lambda t, y: np.array([[-1.0]])
    lam = case["lam"]
    return (
        lambda t, y: lam * (y - np.sin(np.pi / 4 + t)) + np.cos(np.pi / 4 + t),
        lambda t, y: np.array([[lam]]),
    )


def stage(case, t, base, da):
    f, jac = right_hand_side(case)
    k = f(t, base)
    for _ in range(50):
        x = base + da * k
        dk = np.linalg.solve(np.eye(len(k)) - da * jac(t, x), f(t, x) - k)
        k = k + dk
        if np.max(np.abs(dk)) < 1e-14 * (1 + np.max(np.abs(k))):
            break
    return k


def view(case, rec):
    prob, names = stage_problem(case)
    ode = OpenMDAOODE(prob, names)
    n = len(names)
    rng = rng_of(case)
    f, jac = right_hand_side(case)
    dt, a, t = case["dt"], case["a"], case["t"]
    tol = 1e-10
    if case["which"] == "kaps":
        # the group iterates until its residuals are below 1e-7
        tol = 3e-6 / min(case["eps"], 1.0)
    for _ in range(case["points"]):
        base = rng.uniform(0.3, 1.2, n)
        if case["which"] == "kaps":
            base[0] = base[1] ** 2 + rng.uniform(-0.2, 0.2)
        acc = rng.uniform(-0.5, 0.5, n)
        x = base - dt * acc
        res = ode.compute_update(
            DiscretizedODEInputState(x.copy(), acc.copy(), np.zeros(0), t), dt, a
        )
        k = stage(case, t, base, dt * a)
        if case["which"] == "kaps" and base[1] + dt * a * k[1] < 0:
            raise Skip("another branch")
        what = f"{case['which']} at {x.tolist()}, {acc.tolist()}"
        vm.close(res.stage_update, k, tol, what + ": stage update")
        if case["which"] == "robinson":
            continue  # doesn't provide derivatives
        M = np.linalg.solve(
            np.eye(n) - dt * a * jac(t, base + dt * a * k), jac(t, base + dt * a * k)
        )
        v = rng.uniform(-1, 1, 2 * n)
        got = ode.compute_update_derivative(
            DiscretizedODEInputState(
                v[:n], v[n:], np.zeros(0), 0.0, res.linearization_point.copy()
            ),
            dt,
            a,
        )
        vm.close(
            got.stage_update, M @ (v[:n] + dt * v[n:]), 10 * tol, what + ": derivative"
        )
        w = rng.uniform(-1, 1, n)
        got = ode.compute_update_adjoint_derivative(
            DiscretizedODEResultState(
                w, np.zeros(n), np.zeros(0), res.linearization_point.copy()
            ),
            dt,
            a,
        )
        vm.close(got.step_input, M.T @ w, 10 * tol, what + ": adjoint, step input")
        vm.close(
            got.stage_input, dt * (M.T @ w), 10 * tol, what + ": adjoint, stage input"
        )
    rec.label(case["which"])
    rec.label("explicit stage" if a == 0.0 else "implicit stage")
    rec.nontrivial(a != 0.0)


# ------------------------------------------------------------------ reference solutions
@st.composite
def solution_case(draw):
    return {
        "which": draw(st.sampled_from(["kaps", "linear", "robinson"])),
        "eps": draw(st.sampled_from([0.1, 0.5, 1.0, 1.75])),
        "lam": draw(st.sampled_from([-100.0, -10.0, -1.0, -0.25, 0.5])),
        "t0": draw(integ.start_time),
        "x": draw(st.integers(1, 24)) / 8,
        "span": draw(st.sampled_from([0.0, 0.1, 0.5, 1.0, 1.75])),
        "default": draw(st.sampled_from(["no", "no", "time", "both"])),
    }


def solution_of(case):
    if case["which"] == "kaps":
        return problems.kaps_problem(case["eps"]).solution
    if case["which"] == "linear":
        return SimpleLinearODE.simple_linear_solution
    if case["lam"] == -100.0 and case["default"] != "no":
        return ProtheroRobinson.solution  # for the default stiffness
    return problems.prothero_robinson_problem(case["lam"]).solution


def solution(case, rec):
    sol = solution_of(case)
    f, _ = right_hand_side(case)
    t0 = case["t0"] if case["default"] == "no" else 0.0
    if case["which"] == "kaps":
        x0 = np.array([case["x"] ** 2, case["x"]])
        default = KapsGroup.get_initial_values()
    elif case["which"] == "linear":
        x0, default = np.array([case["x"]]), np.array([1.0])
    else:
        x0, default = np.array([case["x"]]), ProtheroRobinson.get_initial_values()
        vm.close(default, [np.sin(np.pi / 4)], 1e-15, "initial values")
    if case["default"] == "both":
        x0 = np.array(default)

    def y(t):
        if case["default"] == "both":
            return np.ravel(sol(t))
        if case["default"] == "time":
            return np.ravel(sol(t, x0))
        return np.ravel(sol(t, x0, t0))

    what = f"{case['which']} from {x0.tolist()} at {t0}"
    vm.close(y(t0), x0, 1e-12, what + ": at the initial time")
    t = t0 + case["span"]
    h = 1e-3 / max(1.0, abs(case["lam"]) if case["which"] == "robinson" else 1.0)
    # sixth order differences
    d = sum(
        c * (y(t + i * h) - y(t - i * h)) for i, c in ((1, 45), (2, -9), (3, 1))
    ) / (60 * h)
    vm.close(d, f(t, y(t)), 1e-7, f"{what}: derivative at {t}")
    if case["default"] == "no":
        s = t0 + 0.4 * case["span"]
        vm.close(
            np.ravel(sol(t, y(s), s)), y(t), 1e-9, what + f": restarted at {s}"
        )
    rec.label(case["which"])
    rec.label("defaults: " + case["default"])
    rec.nontrivial(t0 != 0.0 and case["span"] > 0)


# -------------------------------------------------------------- integration and order
@st.composite
def order_case(draw):
    which = draw(st.sampled_from(["kaps", "linear", "robinson"]))
    return {
        "which": which,
        "eps": draw(st.sampled_from([0.5, 1.0, 1.75])),
        "lam": draw(st.sampled_from([-2.0, -1.0, -0.25, 0.5])),
        "t0": draw(integ.start_time) if which != "kaps" else 0.0,
        "x": draw(st.integers(4, 12)) / 8,
        "tab": draw(st.sampled_from(vm.SHIPPED)),
        "n": draw(st.sampled_from([4, 8])),
    }


def integrate(case, prob, names, tab, x0, n, span):
    kw = {}
    outer = om.Problem()
    outer.model.add_subsystem(
        "rk",
        RungeKuttaIntegrator(
            time_stage_problem=prob,
            butcher_tableau=tab,
            integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(n), span / n),
            time_integration_quantities=names,
            **kw,
        ),
        promotes=["*"],
    )
    outer.setup()
    for name, val in zip(names, x0):
        outer[name + "_initial"].fill(val)
    outer["time_initial"].fill(case["t0"])
    outer.run_model()
    return np.array([outer[name + "_final"][0] for name in names])


def order(case, rec):
    tab = getattr(_bt, case["tab"])
    sol = solution_of(case)
    span = 0.5
    coarse = case["n"] * {1: 8, 2: 4}.get(tab.p, 2)
    errors = []
    for n in (coarse, 2 * coarse):
        total = 0.0
        # the leading term of the error may vanish by chance for one initial value
        for x in (case["x"], 1.3 * case["x"]):
            x0 = np.array([x**2, x])
            if case["which"] != "kaps":
                x0 = x0[1:]
            want = np.ravel(sol(case["t0"] + span, x0, case["t0"]))
            prob, names = stage_problem(dict(case, wrap="plain"))
            got = integrate(case, prob, names, tab, x0, n, span)
            total += np.max(np.abs(got - want))
        errors.append(total)
    floor = 1e-6 if case["which"] == "kaps" else 1e-12
    what = f"{case['which']} with {case['tab']}: errors {errors} with steps {span}/{coarse}"
    if errors[0] > 0.15:
        raise Violation(f"{what}: doesn't converge to the reference solution")
    # (errors far below h^p may not decrease monotonically)
    floor = max(floor, 0.01 * (span / (2 * coarse)) ** tab.p)
    if errors[1] > floor and errors[1] > errors[0] * 2.0 ** -(tab.p - 0.6):
        raise Violation(f"{what}: less than order {tab.p}")
    rec.label(case["which"])
    rec.label(f"order {tab.p}")
    rec.nontrivial(errors[1] > floor)


# -------------------------------------------------------------------- helper components
@st.composite
def helper_case(draw):
    nq = draw(st.sampled_from([1, 1, 2, 3]))
    return {
        "which": draw(st.sampled_from(["value", "update", "both"])),
        "shapes": [
            draw(st.sampled_from([[1], [3], [2, 2], [1, 3], [2, 1, 2], [4]]))
            for _ in range(nq)
        ],
        "dt": draw(st.one_of(DT, st.sampled_from([1.0, 2.5, 1e-4]))),
        "a": draw(st.sampled_from([0.25, 0.435, 0.5, 1.0, -0.5])),
        "seed": draw(st.integers(0, 10**6)),
        "of": draw(st.integers(1, 7)),
        "wrt": draw(st.integers(1, 7)),
        "mode": draw(st.sampled_from(["fwd", "rev"])),
        "points": draw(st.integers(1, 3)),
    }


def helper_products(comps, dt, rng, rec):
    """Matrix-vector products with some of the variables left out, on vectors that
    already contain something, as OpenMDAO's solvers ask for them."""
    for comp in comps:
        outs = list(comp._var_rel_names["output"])
        ins = list(comp._var_rel_names["input"])
        if isinstance(comp, StageUpdateComponent):
            # here the component on its own, whatever its input is computed from
            a = comp.om_data_exchange.stage_factor
            factor = {}
            for o in outs:
                n = o[: -len("_update")]
                factor[o] = {
                    n: 1 / (dt * a), n + "_old": -1 / (dt * a), n + "_acc_stages": -1 / a,
                }
        else:
            a = comp.om_data_exchange.stage_factor
            factor = {
                "stage_value": {
                    "stage_slope": dt * a, "old_value": 1.0, "acc_stages": dt,
                }
            }
        for mode in ["fwd", "rev"]:
            chosen = [i for i in ins if rng.rand() < 0.6] or [ins[rng.randint(len(ins))]]
            scope = frozenset(f"{comp.pathname}.{i}" for i in chosen)
            garbage = {i: rng.uniform(-1, 1, comp._dinputs[i].shape) for i in ins}
            for i in ins:
                comp._dinputs[i] = garbage[i]
            with comp._matvec_context(frozenset(), scope, mode, clear=False) as (d_in, _, d_res):
                before = {}
                for i in chosen:
                    d_in[i] = before[i] = rng.uniform(-1, 1, d_in[i].shape)
                for o in outs:
                    d_res[o] = before[o] = rng.uniform(-1, 1, d_res[o].shape)
                comp.compute_jacvec_product(comp._inputs, d_in, d_res, mode)
                after = {i: np.array(d_in[i]) for i in chosen}
                after.update({o: np.array(d_res[o]) for o in outs})
            want = dict(before)
            for o in outs:
                for i, f in factor[o].items():
                    if i in chosen and mode == "fwd":
                        want[o] = want[o] + f * before[i].reshape(before[o].shape)
                    elif i in chosen:
                        want[i] = want[i] + f * before[o].reshape(before[i].shape)
            for i in ins:
                if i not in chosen:
                    after[i], want[i] = np.array(comp._dinputs[i]), garbage[i]
            for v in want:
                vm.close(
                    after[v], want[v], 1e-10,
                    f"{type(comp).__name__}, {mode} product with {chosen}: {v}",
                )
        rec.label("products: " + type(comp).__name__)


def helper(case, rec):
    rng = rng_of(case)
    dt, a = case["dt"], case["a"]
    prob = om.Problem()
    names = [f"q{i}" for i in range(len(case["shapes"]))]
    ivc = om.IndepVarComp()
    prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    parts = []  # (output, {input: factor}, shape)
    first = {}
    if case["which"] == "update":
        comp = StageUpdateComponent(quantity_list=list(names))
        prob.model.add_subsystem("upd", comp, promotes=["*"])
        comps = [comp]
    else:
        comps = []
        for n in names:
            comp = StageValueComponent(tag=n if rng.rand() < 0.5 else None)
            comps.append(comp)
            prob.model.add_subsystem(
                "val_" + n,
                comp,
                promotes_inputs=[
                    ("stage_slope", n + "_slope"),
                    ("old_value", n + "_old"),
                    ("acc_stages", n + "_acc_stages"),
                ],
                promotes_outputs=[("stage_value", n)],
            )
        if case["which"] == "both":
            comp = StageUpdateComponent(quantity_list=list(names))
            comps.append(comp)
            prob.model.add_subsystem("upd", comp, promotes=["*"])
    for n, shape in zip(names, case["shapes"]):
        ins = ["_old", "_acc_stages"]
        ins.append("" if case["which"] == "update" else "_slope")
        for i in ins:
            # in a serial run distributed and other variables are the same
            ivc.add_output(n + i, val=np.zeros(shape))
    order_ = list(rng.permutation(len(names)))
    prob.setup(mode=case["mode"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        prob.final_setup()
    for comp in comps:
        comp.om_data_exchange.step_size = dt
        comp.om_data_exchange.stage_factor = a
    for _ in range(case["points"]):
        values = {}
        for n, shape in zip(names, case["shapes"]):
            for i in ["_old", "_acc_stages", "" if case["which"] == "update" else "_slope"]:
                values[n + i] = rng.uniform(-1, 1, shape)
                prob.set_val(n + i, values[n + i])
        prob.run_model()
        maps = {}
        for n in names:
            if case["which"] == "update":
                want = (
                    values[n] - values[n + "_old"] - dt * values[n + "_acc_stages"]
                ) / (dt * a)
                maps[n + "_update"] = {
                    n: 1 / (dt * a), n + "_old": -1 / (dt * a), n + "_acc_stages": -1 / a,
                }
                vm.close(prob.get_val(n + "_update"), want, 1e-10, n + "_update")
                continue
            want = values[n + "_old"] + dt * values[n + "_acc_stages"] + dt * a * values[
                n + "_slope"
            ]
            vm.close(prob.get_val(n), want, 1e-12, f"stage value of {n}")
            maps[n] = {n + "_old": 1.0, n + "_acc_stages": dt, n + "_slope": dt * a}
            if case["which"] == "both":
                # the update of the value is the slope again
                vm.close(
                    prob.get_val(n + "_update"), values[n + "_slope"], 1e-9, n + "_update"
                )
                maps[n + "_update"] = {
                    n + "_old": 0.0, n + "_acc_stages": 0.0, n + "_slope": 1.0,
                }
        outs = sorted(maps)
        ins = sorted({i for m in maps.values() for i in m})
        of = [o for j, o in enumerate(outs) if case["of"] >> (j % 3) & 1] or outs
        wrt = [i for j, i in enumerate(ins) if case["wrt"] >> (j % 3) & 1] or ins
        J = prob.compute_totals(of=of, wrt=wrt)
        for o in of:
            for i in wrt:
                size = J[o, i].shape
                want = maps[o].get(i, 0.0) * np.eye(size[0], size[1]) if i in maps[
                    o
                ] else np.zeros(size)
                vm.close(J[o, i], want, 1e-9, f"d {o} / d {i}, mode {case['mode']}")
        helper_products(comps, dt, rng, rec)
    rec.label(case["which"])
    rec.label(f"{len(names)} quantities")
    rec.nontrivial(any(vm.size(s) > 1 for s in case["shapes"]))


# ------------------------------------------------------------------------ problem runner
@st.composite
def runner_case(draw):
    return {
        "problem": draw(st.sampled_from(["prothero_robinson", "kaps"])),
        "coef": draw(st.sampled_from([None, 0.5, 1.0, 1.75])),
        "tab": draw(st.sampled_from(vm.SHIPPED)),
        "steps": draw(
            st.lists(st.sampled_from([0.01, 0.02, 0.04, 0.05, 0.1]), min_size=1, max_size=3, unique=True)
        ),
        "n": draw(st.integers(1, 3)),
        "missing": draw(st.booleans()),
        "relative": draw(st.booleans()),
        "adaptive": draw(st.booleans()),
    }


def runner(case, rec):
    here = os.getcwd()
    with tempfile.TemporaryDirectory(dir=here) as scratch:
        os.chdir(scratch)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                _runner(case, rec)
        finally:
            os.chdir(here)


def _runner(case, rec):
    cli = [] if case["coef"] is None else ["--stiffness", str(case["coef"])]
    argv = sys.argv
    sys.argv = ["prog", case["problem"]] + cli
    try:
        problem = problems.parse_problem()
    finally:
        sys.argv = argv
    direct = {
        "kaps": problems.kaps_problem,
        "prothero_robinson": problems.prothero_robinson_problem,
    }[case["problem"]](*([] if case["coef"] is None else [case["coef"]]))
    if (
        problem.problem is not direct.problem
        or problem.quantities != direct.quantities
        or problem.stiffness_coef != direct.stiffness_coef
        or problem.time_objective != direct.time_objective
        or not np.array_equal(problem.step_sizes, direct.step_sizes)
    ):
        raise Violation(f"command line gives {problem}, expected {direct}")
    key = {"kaps": "epsilon", "prothero_robinson": "lambda_"}[case["problem"]]
    default = {"kaps": 1.0, "prothero_robinson": -1e2}[case["problem"]]
    want = default if case["coef"] is None else case["coef"]
    if problem.stiffness_coef != {key: want}:
        raise Violation(f"stiffness {problem.stiffness_coef}, expected {want}")
    tab = getattr(_bt, case["tab"])
    problem.folder_path = pathlib.Path.cwd() / "data"
    problem.step_sizes = np.array(case["steps"])
    names = problem.quantities
    if problem.compute_tolerance(tab.name) != 1e-6:
        raise Violation("tolerance without data isn't 1e-6")
    paths = [problem.get_file_path(tab.name, h)[1] for h in case["steps"]]
    paths += [problem.get_file_path(tab.name, k)[1] for k in ("adaptive", "avg_homogeneous")]
    if len(set(paths)) != len(paths):
        raise Violation(f"the same file for different runs: {paths}")
    last = []
    for h, path in zip(case["steps"], paths):
        if problem.file_exists(tab.name, h):
            raise Violation(f"{path} is said to exist")
        use = pathlib.Path(os.path.relpath(path)) if case["relative"] else path
        if case["relative"] and not last:
            # a file in the working directory itself
            use = pathlib.Path("output.h5")
        config = problems.ProblemConfig(
            IntegrationConfig(False, PredefinedNumberOfSteps(case["n"]), h),
            [pseudo],
            SimpleErrorMeasurer(),
            write_file=use,
        )
        problem.execute(tab, config)
        if use == pathlib.Path("output.h5"):
            path.parent.mkdir(parents=True, exist_ok=True)
            os.rename("output.h5", path)
        if not problem.file_exists(tab.name, h):
            raise Violation(f"no file {path} after the execution")
        c = {
            "which": "kaps" if case["problem"] == "kaps" else "robinson",
            "eps": want,
            "lam": want,
            "t0": 0.0,
            "wrap": "plain",
        }
        sp, _ = stage_problem(c)
        x0 = problem.problem.get_initial_values()
        ref = integrate(c, sp, names, tab, x0, case["n"], case["n"] * h)
        with h5py.File(path, "r") as f:
            got = np.array([f[str(case["n"])][q][0] for q in names])
            start = np.array([f["0"][q][0] for q in names])
            last.append(f[str(case["n"])]["error_measure"][0]
                        if "error_measure" in f[str(case["n"])] else None)
        vm.close(start, x0, 1e-15, f"initial values in {path}")
        if np.all(np.isfinite(ref)) and np.max(np.abs(ref)) < 1e6:
            vm.close(got, ref, 1e-10, f"final values in {path}")
    if None not in last and np.all(np.isfinite(last)):
        vm.close(
            [problem.compute_tolerance(tab.name)], [np.mean(last)], 1e-14, "tolerance"
        )
    if case["missing"]:
        os.remove(paths[0])
        tol = problem.compute_tolerance(tab.name)
        if tol != 1e-6:
            raise Violation(f"tolerance {tol} with a missing file")
    rec.label(case["problem"])
    rec.label(f"{len(case['steps'])} step sizes")
    rec.nontrivial(len(case["steps"]) > 1 or case["n"] > 1)


SUBS = [
    Sub("kaps components", kaps_case(), kaps_component, 3000, 40000),
    Sub("stage equations", view_case(), view, 3000, 40000),
    Sub("reference solutions", solution_case(), solution, 3000, 20000),
    Sub("order", order_case(), order, 600, 6000),
    Sub("helper components", helper_case(), helper, 3000, 40000),
    Sub("problem runner", runner_case(), runner, 150, 1500),
]
