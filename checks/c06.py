"""C06: adaptive time stepping accepts, rejects, limits and ends as promised."""

import numpy as np
from hypothesis import strategies as st

from vlib import adapt, integ, model as vm
from rkopenmdao.callback import Callback
from vlib.driver import Sub, Violation
from rkopenmdao.errors import ErrorControllerError

PROPERTY = "C06"

quarter = st.integers(-8, 8).map(lambda k: k / 8)
user_controller = st.tuples(
    st.integers(1, 8).map(lambda k: k / 8), quarter, quarter, quarter, quarter
).map(list)
controller = st.one_of(
    st.sampled_from(sorted(adapt.TABLE)),
    st.sampled_from(sorted(adapt.TABLE)),
    user_controller,
)


MAX_EVALUATIONS = 5000
MAX_STEPS = 40


class Enough(Exception):
    """The run has shown enough steps."""


class StepLimit(Callback):
    """Ends runs for which the controller chose very small steps."""

    def before_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        pass

    def after_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        if iteration >= MAX_STEPS:
            raise Enough


@st.composite
def adaptive_case(draw):
    spec = draw(vm.ode_spec(max_state=4, max_quantities=3))
    dt = draw(st.sampled_from([0.1, 1 / 8, 0.25, 0.25, 0.5, 0.5, 1.0]))
    steps = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        lower = dt / draw(st.sampled_from([1, 2, 8, 1.00001, 1.003, 1.1]))
    else:
        lower = draw(st.sampled_from([0.0, dt / 64]))
    measurer = draw(
        st.one_of(
            st.just("simple"),
            st.tuples(
                st.sampled_from([1e-6, 1e-3, 0.5]), st.sampled_from([1e-6, 1e-2, 1.0])
            ).map(list),
        )
    )
    return {
        "ode": spec,
        "tab": draw(
            st.one_of(
                vm.shipped_tableau(embedded=True),
                vm.tableau(embedded=True, max_stages=3),
            )
        ),
        "controllers": [
            draw(controller) for _ in range(draw(st.sampled_from([1, 2, 3])))
        ],
        "tol": 10.0 ** -draw(st.integers(2, 8)),
        "lower": lower,
        "upper": draw(st.sampled_from([np.inf, dt, 1.5 * dt, 4 * dt, max(0.3, dt)])),
        "safety": draw(st.sampled_from([0.95, 0.95, 0.8, 0.5, 1.0])),
        "max_iter": draw(st.sampled_from([5, 5, 0, 1, 2])),
        "measurer": measurer,
        "dt": dt,
        "until": "steps" if steps else "time",
        "n": draw(st.integers(1, 6)),
        # time to integrate over, in multiples of dt
        "span": draw(st.sampled_from([0.3, 0.75, 1.0, 1.25, 2.0, 2.5, 3.0, 10 / 3])),
        **draw(integ.point(spec)),
    }


def run_adaptive(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    ref = vm.Ref(ode, tab)
    t0, x0, p = case["t0"], np.array(case["x0"]), np.array(case["p"])
    tol, lower, upper = case["tol"], case["lower"], case["upper"]
    final_time = None
    if case["until"] == "time":
        final_time = t0 + case["span"] * case["dt"]
    log = []
    fault = vm.Fault()
    su = integ.Setup(
        ode,
        obj,
        case["dt"],
        adaptive=case,
        checkpointing="none",
        callbacks=[integ.Recording(log), StepLimit()],
        fault=fault,
        **(
            {"n_steps": case["n"]} if final_time is None else {"final_time": final_time}
        ),
    )
    su.set_inputs(t0, x0, p)
    failed = stopped = False
    fault.countdown = MAX_EVALUATIONS
    try:
        t_end, x_end = su.run()
    except ErrorControllerError:
        failed = True
    except (vm.FaultInjected, Enough, RecursionError):
        stopped = True

    befores = [s for s in log if s["when"] == "before"]
    steps = [s for s in log if s["when"] == "after"]
    if stopped:
        rec.label("stopped by the harness after many steps or evaluations")
        befores = befores[: len(steps)]
    if len(befores) != len(steps) + (1 if failed else 0):
        raise Violation(f"{len(befores)} steps were started, {len(steps)} completed")

    # --- what holds for the accepted steps, whatever the model says
    t, x = t0, x0
    for k, s in enumerate(steps):
        what = f"step {k + 1}"
        if s["start_time"] != t or not np.array_equal(s["start_state"], x):
            raise Violation(f"{what} does not start where the step before ended")
        if not s["dt"] > 0:
            raise Violation(f"{what} has step size {s['dt']}")
        vm.close([s["final_time"]], [t + s["dt"]], 1e-14, f"{what}: time")
        if not (s["err"] <= tol or s["dt"] <= lower + 1e-10):
            raise Violation(
                f"{what} was accepted with error {s['err']} > {tol} and step size "
                f"{s['dt']} above the lower bound {lower}"
            )
        if s["dt"] > max(upper, case["dt"] if k == 0 else 0.0) * (1 + 1e-14):
            raise Violation(f"{what} is larger than the upper bound: {s['dt']}")
        if final_time is not None:
            if s["start_time"] >= final_time:
                raise Violation(f"{what} starts at or after the final time")
            if s["final_time"] > final_time + 1e-12 * (1 + abs(final_time)):
                raise Violation(f"{what} ends after the final time: {s['final_time']}")
        t, x = s["final_time"], s["final_state"]
    if not failed and not stopped:
        if final_time is None:
            if len(steps) != case["n"]:
                raise Violation(f"{len(steps)} steps instead of {case['n']}")
        else:
            vm.close([t], [final_time], 1e-12, "time at the end")
        if t_end != t or not np.array_equal(x_end, x):
            raise Violation("outputs differ from the result of the last step")

    # --- every step against the model, from the state the step really started at
    porder = min(tab_orders(case, obj))
    exps = [adapt.exponents(c, porder) for c in case["controllers"]]
    measure = adapt.Measure(case["measurer"], x0)
    chain = adapt.Chain(
        exps, tol, lower, upper, case["safety"], case["max_iter"], noise=1e-4
    )
    eh, dth = [tol, tol], [0.0, 0.0]
    suggestion = case["dt"]
    if final_time is not None:
        suggestion = min(suggestion, final_time - t0)
    rejected = judged = 0
    fallback = False
    for k, b in enumerate(befores):
        s = steps[k] if k < len(steps) else None
        what = f"step {k + 1}"
        if b["suggestion"] != suggestion:
            raise Violation(f"{what} starts with another step size than suggested")
        chain.reset()
        try:
            dt, e, new, rej, res = adapt.one_step(
                ref, b["start_time"] if s is None else s["start_time"],
                x0 if k == 0 else steps[k - 1]["final_state"],
                p, suggestion, chain, measure, eh, dth, final_time,
            ) if s is not None else adapt.one_step(
                ref, t, x, p, suggestion, chain, measure, eh, dth, final_time
            )
        except adapt.Ambiguous:
            if s is None:
                break
        except adapt.ControllerError:
            if s is not None:
                raise Violation(
                    f"{what} was accepted with step size {s['dt']} although no "
                    "controller reduces the rejected step"
                ) from None
            rec.label("no controller reduces the step")
            judged += 1
            break
        else:
            if s is None:
                raise Violation(
                    f"{what} failed although step size {dt} is accepted with error {e}"
                )
            # the error estimate carries the errors of the stage solver
            noise = 1e-7 + 1e-11 / (e / measure.unit)
            amp = 2 + sum(abs(v) for v in exps[0])
            vm.close([s["dt"]], [dt], 20 * noise * (1 + rej), f"{what}: step size")
            vm.close(s["final_state"], res["x"], 1e-7 + 20 * noise * rej, f"{what}: state")
            if abs(s["err"] - e) > 100 * noise * (1 + rej) * max(e, s["err"]):
                raise Violation(f"{what}: error measure {s['err']}, expected {e}")
            vm.close(
                [s["suggestion"]], [new], 100 * amp * noise * (1 + rej),
                f"{what}: suggestion for the next step",
            )
            rejected += rej
            fallback = fallback or chain.fell_back
            judged += 1
        suggestion = s["suggestion"]
        eh = [s["err"], eh[0]]
        dth = [s["dt"], dth[0]]
    rec.label(f"until={case['until']}")
    rec.label(f"controllers={len(exps)}")
    rec.label("rejected steps" if rejected else "no rejected steps")
    if fallback:
        rec.label("fallback controller used")
    if any(s["err"] > tol for s in steps):
        rec.label("accepted at lower bound")
    if judged < len(befores):
        rec.label("some steps not judged by the model")
    rec.nontrivial(judged > 0 and (len(befores) > 1 or rejected > 0))


def tab_orders(case, obj):
    return [obj.p, obj.phat]


SUBS = [Sub("stepping", adaptive_case(), run_adaptive, 2000, 12000)]
