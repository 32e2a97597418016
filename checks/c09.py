"""C09: the termination criterion, and nothing else, decides when stepping ends."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from rkopenmdao.errors import ErrorControllerError
from rkopenmdao.termination_criterion import (
    PredefinedFinalTime,
    PredefinedNumberOfSteps,
    TerminationCriterion,
)
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState,
    RungeKuttaDiscretizationState,
)
from rkopenmdao.time_integration_state import TimeIntegrationState
from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation

PROPERTY = "C09"


class UntilTimeOrSteps(TerminationCriterion):
    """A criterion of the user: whatever comes first."""

    def __init__(self, time, steps):
        self.time, self.steps = time, steps

    def is_iteration_finished(self, iteration, time_integration_state):
        now = time_integration_state.discretization_state.final_time[0]
        return iteration >= self.steps or now >= self.time


class UntilState(TerminationCriterion):
    """A criterion of the user: the state leaves a box."""

    def __init__(self, bound, steps):
        self.bound, self.steps = bound, steps

    def is_iteration_finished(self, iteration, time_integration_state):
        x = time_integration_state.discretization_state.final_state
        return iteration >= self.steps or np.max(np.abs(x), initial=0.0) > self.bound


@st.composite
def run_case(draw):
    spec = draw(vm.ode_spec(max_state=3, archs=["explicit_mf", "implicit_solve", "split"]))
    kind = draw(st.sampled_from(["steps", "time", "time", "time", "either", "state"]))
    adaptive = draw(st.sampled_from([False, False, True]))
    dt = draw(st.sampled_from([1 / 64, 1 / 16, 1 / 8, 0.1, 0.3]))
    # step sizes that are no binary fractions accumulate rounding errors, so a final
    # time on the grid of steps may or may not need one step more
    exact = float(dt).as_integer_ratio()[1] <= 64
    offset = draw(st.sampled_from([0, 0, 1, 3, 7] if exact else [1, 3, 7]))
    cps = ["none", "all"] + (["pyrevolve"] if kind == "steps" else [])
    return {
        "ode": spec,
        "tab": draw(vm.tableau(embedded=True if adaptive else None, max_stages=3)),
        "dt": dt,
        "n": draw(st.sampled_from([0, 1, 1, 2, 3, 4, 6, 9, 17])),
        "eighths": offset,
        "kind": kind,
        "bound": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "adaptive": (
            {
                "controllers": [draw(st.sampled_from(sorted(integ.CONTROLLERS)))],
                "tol": draw(st.sampled_from([1e-2, 1e-3])),
                "lower": dt / 4,
                "upper": 4 * dt,
            }
            if adaptive
            else None
        ),
        "checkpointing": draw(st.sampled_from(cps)),
        "ops": draw(
            st.lists(st.sampled_from(["run", "fwd", "rev", "move"]), max_size=4)
        ),
        "seed": draw(st.integers(0, 10**6)),
        **draw(integ.point(spec)),
    }


def criterion_of(case, t0):
    end = t0 + (case["n"] + case["eighths"] / 8) * case["dt"]
    if case["kind"] == "steps":
        return PredefinedNumberOfSteps(case["n"]), None
    if case["kind"] == "time":
        return PredefinedFinalTime(end), end
    if case["kind"] == "either":
        return UntilTimeOrSteps(end, case["n"] + 2), end
    return UntilState(case["bound"], case["n"] + 2), None


def check_steps(case, what, steps, t0, x0, end, mode):
    """steps: (start time, start state, end time, end state) in the order of time"""
    dt = case["dt"]
    times = [t0] + [s["final_time"] for s in steps]
    states = [np.array(x0)] + [s["final_state"] for s in steps]
    numbers = [s["iteration"] for s in steps]
    if numbers != list(range(1, len(steps) + 1)):
        raise Violation(f"{what}: steps numbered {numbers}")
    kind, n = case["kind"], case["n"]
    if kind == "steps":
        if len(steps) != n:
            raise Violation(f"{what}: {len(steps)} steps instead of {n}")
        return

    def done(k):
        if kind == "time":
            return times[k] >= end
        if kind == "either":
            return k >= n + 2 or times[k] >= end
        return k >= n + 2 or np.max(np.abs(states[k]), initial=0.0) > case["bound"]

    for k in range(len(steps)):
        if done(k):
            raise Violation(
                f"{what}: step {k + 1} was started at time {times[k]} and state "
                f"{states[k]} although the integration is over ({kind})"
            )
    if not done(len(steps)):
        raise Violation(
            f"{what}: stopped after {len(steps)} steps at time {times[-1]}, end {end}"
        )
    if kind == "time" and case["adaptive"] is None:
        # independent of the arithmetic of the run
        span = Fraction(end) - Fraction(t0)
        want = max(0, -(-span // Fraction(dt)))
        if len(steps) != want:
            raise Violation(f"{what}: {len(steps)} steps instead of {want}")
    if kind == "time" and case["adaptive"] is not None and steps:
        vm.close([times[-1]], [end], 1e-12, f"{what}: end of the adaptive run")


def run_runs(case, rec):
    ode = vm.ODE(case["ode"])
    obj, _ = vm.build_tableau(case["tab"])
    t0, x0 = case["t0"], np.array(case["x0"])
    crit, end = criterion_of(case, t0)
    logs = {"run": [], "fwd": [], "rev": []}
    su = integ.Setup(
        ode,
        obj,
        case["dt"],
        criterion=crit,
        adaptive=case["adaptive"],
        checkpointing=case["checkpointing"],
        callbacks=[integ.Recording(logs["run"])],
        fwd_callbacks=[integ.Recording(logs["fwd"])],
        rev_callbacks=[integ.Recording(logs["rev"])],
    )
    su.set_inputs(t0, x0, case["p"])
    total = 0
    first = None
    for k, op in enumerate(["run"] + case["ops"]):
        what = f"operation {k} ({op})"
        for log in logs.values():
            log.clear()
        if op == "rev" and case["checkpointing"] == "none":
            continue
        if op == "move":
            # the same criterion seen from another start
            t0 = case["t0"] + (k % 3) * case["dt"]
            x0 = np.array(case["x0"]) + 0.125 * (k % 2)
            su.set_inputs(t0, x0, case["p"])
            first = None
            op = "run"
        try:
            if op == "run":
                t, x = su.run()
            else:
                v = integ.expand(
                    case["seed"], ode.n + 1 + (ode.m if op == "fwd" else 0)
                )
                su.jacvec(op, v)
        except ErrorControllerError as err:
            raise Skip("no controller could reduce the step") from err
        seen = {m: [s for s in log if s["when"] == "after"] for m, log in logs.items()}
        if op == "rev":
            seen["rev"].reverse()
            if seen["run"]:
                check_steps(case, what + " (run)", seen["run"], t0, x0, end, "run")
        steps = seen[op]
        check_steps(case, what, steps, t0, x0, end, op)
        if op == "run":
            last_t = steps[-1]["final_time"] if steps else t0
            last_x = steps[-1]["final_state"] if steps else x0
            if t != last_t or not np.array_equal(x, last_x):
                raise Violation(f"{what}: outputs aren't those after the last step")
        first = len(steps) if first is None else first
        if len(steps) != first and case["adaptive"] is None:
            raise Violation(f"{what}: {len(steps)} steps, but {first} before")
        total = max(total, len(steps))
    rec.label(f"kind={case['kind']}")
    rec.label("adaptive" if case["adaptive"] else "fixed")
    rec.label("no steps" if total == 0 else "steps")
    rec.nontrivial(total > 1)


# ------------------------------------------------------------------ the criteria alone
number = st.one_of(
    st.integers(-64, 64).map(lambda k: k / 16),
    st.floats(-1e6, 1e6, allow_nan=False),
)


@st.composite
def object_case(draw):
    end = draw(number)
    times = draw(st.lists(number, min_size=1, max_size=5))
    if draw(st.booleans()):
        times += [end, float(np.nextafter(end, -np.inf)), float(np.nextafter(end, np.inf))]
    return {
        "end": end,
        "times": times,
        "n": draw(st.sampled_from([0, 1, 2, 3, 10, 1000])),
        "iterations": draw(st.lists(st.integers(0, 1001), min_size=1, max_size=6)),
        "embedded": draw(st.booleans()),
        "size": draw(st.sampled_from([0, 1, 3])),
    }


def run_objects(case, rec):
    cls = (
        EmbeddedRungeKuttaDiscretizationState
        if case["embedded"]
        else RungeKuttaDiscretizationState
    )
    ds = cls(
        ode_state_size=case["size"],
        independent_input_size=1,
        independent_output_size=0,
        number_of_stages=2,
        linearization_point_size=1,
    )
    state = TimeIntegrationState(ds, np.array([0.1]), np.zeros(2), np.zeros(2))
    steps = PredefinedNumberOfSteps(case["n"])
    until = PredefinedFinalTime(case["end"])
    for i, time in enumerate(case["times"]):
        for it in case["iterations"]:
            ds.start_time[0], ds.final_time[0] = time - 1.0, time
            if bool(steps.is_iteration_finished(it, state)) != (it >= case["n"]):
                raise Violation(f"{steps} at iteration {it}")
            if bool(until.is_iteration_finished(it, state)) != (time >= case["end"]):
                raise Violation(f"{until} at time {time}, iteration {it}")
        left = float(until.remaining_time(time))
        if left != case["end"] - time:
            raise Violation(f"{until}: remaining time {left} at {time}")
    rec.nontrivial(len(case["times"]) > 1)
    if case["n"] in case["iterations"]:
        rec.label("iteration equal to the number of steps")


SUBS = [
    Sub("runs", run_case(), run_runs, 900, 8000),
    Sub("criteria", object_case(), run_objects, 400, 4000),
]
