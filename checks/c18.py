"""C18: the time discretization works for any implementation of the ODE interface."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib import integ, model as vm, npode
from vlib.driver import Sub, Violation
from rkopenmdao.time_discretization.stage_ordered_runge_kutta_discretization import (
    StageOrderedEmbeddedRungeKuttaDiscretization,
    StageOrderedRungeKuttaDiscretization,
)
from rkopenmdao.time_discretization.time_discretization_scheme_interface import (
    TimeDiscretizationFinalizationValues,
    TimeDiscretizationStartingValues,
)

PROPERTY = "C18"
FIELDS = [
    "start_state", "stage_states", "stage_updates", "final_state",
    "independent_inputs", "stage_independent_outputs", "final_independent_outputs",
    "start_time", "stage_times", "final_time", "step_size", "linearization_points",
]


@st.composite
def ode_only(draw):
    """Sizes and coefficients; the OpenMDAO side of ode_spec isn't needed here."""
    n = draw(st.integers(1, 5))
    m = draw(st.integers(0, 3))
    return {
        "quantities": [{"name": "q", "shape": [n], "has_state": True}],
        "indep": [{"name": "u", "shape": [m]}] if m else [],
        "use_time": draw(st.booleans()),
        "coef": draw(st.integers(0, 10**6)),
    }


@st.composite
def case_strategy(draw):
    spec = draw(ode_only())
    n = spec["quantities"][0]["shape"][0]
    m = spec["indep"][0]["shape"][0] if spec["indep"] else 0
    size = draw(st.sampled_from([1, 2, 3, 4]))
    return {
        "ode": spec,
        "n_out": draw(st.integers(0, 2)),
        "tab": draw(st.one_of(vm.tableau(max_stages=4), vm.shipped_tableau())),
        "dts": [draw(integ.step_size) for _ in range(size)],
        "t0": draw(integ.start_time),
        "x0": draw(vm.vector(n)),
        "p": draw(vm.vector(m)),
        "seed": draw(st.integers(0, 10**6)),
        # history: which perturbation container serves which sweep
        "sweeps": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["fwd", "rev"]),
                    st.integers(0, 2),  # 2: the state the scheme itself provides
                    st.integers(0, 5),
                ).map(list),
                min_size=1,
                max_size=4,
            )
        ),
        "in_place": draw(st.booleans()),
    }


def snapshot(state):
    return {f: getattr(state, f).copy() for f in vars(state)}


def unchanged(state, snap, what):
    for f, v in snap.items():
        if not np.array_equal(getattr(state, f), v):
            raise Violation(f"{what} changes {f} of the linearization state")


def run(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    real = npode.NpODE(ode, case["n_out"], case["seed"])
    embedded = tab.bhat is not None
    cls = (
        StageOrderedEmbeddedRungeKuttaDiscretization
        if embedded
        else StageOrderedRungeKuttaDiscretization
    )
    disc = cls(obj)
    t0, x0, p = case["t0"], np.array(case["x0"]), np.array(case["p"])
    n, m = ode.n, ode.m
    ref = vm.Ref(ode, tab).run(t0, x0, p, case["dts"], True)

    start = TimeDiscretizationStartingValues(t0, x0.copy(), p.copy())
    state = disc.time_discretization_starting_scheme(real, start, case["dts"][0])
    for f in ("initial_values", "independent_inputs"):
        # whoever called may use these arrays for something else from now on
        getattr(start, f)[:] = 1e300
    states = []
    for k, dt in enumerate(case["dts"]):
        work = state if case["in_place"] else copy.deepcopy(state)
        keep = None if case["in_place"] else snapshot(state)
        out = disc.compute_step(real, work, dt)
        if out is not work:
            unequal = [
                f for f in vars(out)
                if not np.array_equal(getattr(out, f), getattr(work, f))
            ]
            if unequal:
                raise Violation(f"compute_step does not work in place: {unequal}")
        if keep is not None:
            unchanged(state, keep, "compute_step on a copy")
        state = work
        r = ref["steps"][k]
        t_ref, x_ref = ref["traj"][k]
        what = f"step {k + 1}: "
        vm.close(state.start_time, [t_ref], 1e-12, what + "start time")
        vm.close(state.start_state, x_ref, 1e-10, what + "start state")
        vm.close(state.final_time, [r["t"]], 1e-12, what + "final time")
        vm.close(state.final_state, r["x"], 1e-10, what + "final state")
        vm.close(state.step_size, [dt], 1e-14, what + "step size")
        vm.close(state.stage_updates, r["k"], 1e-11, what + "stage updates")
        vm.close(state.stage_states, r["X"], 1e-11, what + "stage states")
        vm.close(state.stage_times, r["ts"], 1e-12, what + "stage times")
        vm.close(state.independent_inputs, p, 1e-15, what + "independent inputs")
        lin = np.column_stack([r["ts"], r["X"], np.tile(p, (tab.s, 1))])
        vm.close(state.linearization_points, lin, 1e-11, what + "linearization points")
        outs = r["X"] @ real.C.T + r["ts"][:, None] * real.d
        vm.close(state.stage_independent_outputs, outs, 1e-11, what + "stage outputs")
        if embedded:
            vm.close(state.embedded_state, r["emb"], 1e-10, what + "embedded state")
            vm.close(
                state.error_estimate, r["x"] - r["emb"], 1e-11, what + "error estimate"
            )
        states.append(copy.deepcopy(state))
    start.initial_values[:] = x0
    start.independent_inputs[:] = p
    # each stage is evaluated exactly with the data of the scheme
    want = []
    for k, dt in enumerate(case["dts"]):
        for i in range(tab.s):
            want.append(
                ("update", ref["steps"][k]["ts"][i], dt, float(tab.A[i, i]))
            )
    if len(want) != len(real.calls) or any(
        g[0] != w[0] or not np.allclose(g[1:], w[1:], rtol=1e-12, atol=1e-13)
        for g, w in zip(real.calls, want)
    ):
        raise Violation(f"evaluations of the ODE: {real.calls}, expected {want}")
    fin = disc.time_discretization_finalization_scheme(real, states[-1], case["dts"][-1])
    vm.close(fin.final_values, ref["x"], 1e-10, "finalized values")
    vm.close(np.ravel(fin.final_time), [ref["t"]], 1e-12, "finalized time")

    J = ref["J"]
    if not (np.all(np.isfinite(J)) and np.max(np.abs(J)) < 1e6):
        return
    containers = [disc.create_empty_discretization_state(real) for _ in range(2)]
    for sweep in case["sweeps"]:
        pert = containers[sweep[1]] if sweep[1] < 2 else None
        _sweep(case, sweep, disc, real, states, start, pert, J, n, m)
    rec.label("embedded" if embedded else "not embedded")
    rec.label(f"steps={len(case['dts'])}")
    kinds = [s[0] for s in case["sweeps"]]
    rec.label("both modes" if len(set(kinds)) == 2 else f"only {kinds[0]}")
    rec.nontrivial(tab.s * len(case["dts"]) > 1 and len(case["sweeps"]) > 1)


def _sweep(case, sweep, disc, real, states, start, pert, J, n, m):
    kind, which, seed = sweep
    what = f"{kind} sweep with container {which} (sweeps {case['sweeps']})"
    if kind == "fwd":
        v = integ.direction(seed + 1, n + m + 1)
        dstart = TimeDiscretizationStartingValues(
            v[n + m], v[:n].copy(), v[n : n + m].copy()
        )
        fresh = disc.time_discretization_starting_scheme_derivative(
            real, start, dstart, case["dts"][0]
        )
        dstart.initial_values[:] = dstart.independent_inputs[:] = 1e300
        if pert is None:
            pert = fresh
        else:
            pert.final_state[:] = fresh.final_state
            pert.final_time[:] = fresh.final_time
            pert.independent_inputs[:] = fresh.independent_inputs
        for state, dt in zip(states, case["dts"]):
            snap = snapshot(state)
            disc.compute_step_derivative(real, state, pert, dt)
            unchanged(state, snap, "compute_step_derivative")
        fin = disc.time_discretization_finalization_scheme_derivative(
            real, states[-1], pert, case["dts"][-1]
        )
        vm.close(fin.final_values, J @ v, 1e-11, f"{what}: values", integ.unit(v))
        vm.close(
            np.ravel(fin.final_time), [v[n + m]], 1e-12, f"{what}: time", integ.unit(v)
        )
        return
    w = integ.direction(seed + 1, n + 1)
    dfin = TimeDiscretizationFinalizationValues(
        w[n], w[:n].copy(), np.zeros(real.n_out)
    )
    seed_state = disc.time_discretization_finalization_scheme_adjoint_derivative(
        real,
        states[-1],
        dfin,
        case["dts"][-1],
    )
    # whoever called may use these arrays for something else from now on
    dfin.final_values[:] = dfin.final_independent_outputs[:] = 1e300
    if pert is None:
        pert = seed_state
    else:
        pert.final_state[:] = seed_state.final_state
        pert.final_time[:] = seed_state.final_time
        pert.final_independent_outputs[:] = seed_state.final_independent_outputs
        pert.independent_inputs[:] = 0.0
    for state, dt in zip(reversed(states), reversed(case["dts"])):
        snap = snapshot(state)
        disc.compute_step_adjoint_derivative(real, state, pert, dt)
        unchanged(state, snap, "compute_step_adjoint_derivative")
    got = disc.time_discretization_starting_scheme_adjoint_derivative(
        real, start, pert, case["dts"][0]
    )
    want = J.T @ w[:n]
    want[n + m] += w[n]
    unit = integ.unit(w)
    vm.close(got.initial_values, want[:n], 1e-11, f"{what}: initial values", unit)
    vm.close(
        got.independent_inputs,
        want[n : n + m],
        1e-11,
        f"{what}: independent inputs",
        unit,
    )
    vm.close(
        np.ravel(got.initial_time), want[n + m :], 1e-11, f"{what}: initial time", unit
    )


SUBS = [Sub("sweeps", case_strategy(), run, 5000, 60000)]
