"""C15: state norms and error measures are the documented norms of the whole state."""

import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import model as vm
from vlib.driver import Sub, Violation
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer

PROPERTY = "C15"
ORDERS = [2.0, 2.0, 1.0, 0.5, 1.5, 3.0, 6.0, 0.0, "inf", "-inf", -1.0, -2.0, 2, 1]


def entry():
    return st.one_of(
        st.integers(-16, 16).map(lambda k: k / 8),
        st.tuples(st.integers(1, 99), st.integers(-6, 5)).map(
            lambda t: t[0] * 10.0 ** t[1]
        ),
        st.tuples(st.integers(1, 99), st.integers(-6, 5)).map(
            lambda t: -t[0] * 10.0 ** t[1]
        ),
    )


@st.composite
def case_strategy(draw):
    spec = draw(vm.ode_spec(max_quantities=4, max_state=8, max_indep=1))
    n = sum(vm.size(q["shape"]) for q in spec["quantities"])
    names = [q["name"] for q in spec["quantities"]]
    return {
        "ode": spec,
        "order": draw(st.sampled_from(ORDERS)),
        "default": draw(st.sampled_from([False, False, False, True])),
        "exclude": [
            x for x in names if draw(st.sampled_from([False, False, False, True]))
        ],
        "x": draw(st.lists(entry(), min_size=n, max_size=n)),
        "err": draw(st.lists(entry(), min_size=n, max_size=n)),
        "scale": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-24, 1e-12, 1e20])),
        "factor": draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, -3.0, 1e3])),
        "eta": draw(st.sampled_from([1e-6, 1e-3, 0.5, 1.0, 10.0])),
        "eps": draw(st.sampled_from([1e-6, 1e-3, 0.5, 1.0, 10.0])),
    }


def norm(vals, order):
    """Independent formula."""
    v = np.abs(np.asarray(vals, float))
    if order == np.inf:
        return float(np.max(v))
    if order == -np.inf:
        return float(np.min(v))
    if order == 0:
        return float(np.count_nonzero(v))
    if order < 0 and np.any(v == 0):
        return 0.0
    scale = np.max(v)
    if scale == 0:
        return 0.0
    return float(scale * np.sum((v / scale) ** order) ** (1.0 / order))


def result_state(x):
    """State as the integrator passes it to the measurers."""
    return DiscretizedODEResultState(np.zeros(0), np.array(x, float), np.zeros(0))


def check(got, want, what):
    if not np.ndim(got) == 0:
        raise Violation(f"{what} is no number: {got!r}")
    if not abs(float(got) - want) <= 1e-10 * abs(want) + 1e-300:
        raise Violation(f"{what}: {got}, expected {want}")


def run(case, rec):
    ode = vm.ODE(case["ode"])
    names, inames = vm.option_lists(ode)
    prob = vm.build_stage_problem(ode)
    prob.setup()
    prob.final_setup()
    kw = {}
    order, exclude = 2.0, []
    if not case["default"]:
        order = case["order"] if not isinstance(case["order"], str) else float(
            case["order"]
        )
        kw["norm_order"] = order
        exclude = list(case["exclude"])
        if len(exclude) == len(names):
            exclude = exclude[1:]
        if exclude:
            kw["norm_exclusions"] = exclude
    real = OpenMDAOODE(prob, names, independent_input_quantities=inames, **kw)
    # layout of the state as the metadata defines it
    layout = {}
    for q in real.time_integration_metadata.time_integration_quantity_list:
        layout[q.name] = slice(q.array_metadata.start_index, q.array_metadata.end_index)

    def flat(x):
        out = np.full(ode.n, np.nan)
        for name, sl in layout.items():
            out[sl] = np.asarray(x)[ode.slices[name]]
        return out

    keep = np.concatenate(
        [np.arange(ode.n)[ode.slices[x]] for x in names if x not in exclude]
    )
    x, err = (case["scale"] * np.array(case[k]) for k in ("x", "err"))
    rec.label(f"order {order}")
    rec.label("excluded quantities" if exclude else "all quantities")
    rec.nontrivial(len(names) > 1 and len(keep) > 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")  # division by zero for negative orders
        state, est = result_state(flat(x)), result_state(flat(err))
        snap = state.stage_state.copy()
        check(
            real.compute_state_norm(state), norm(x[keep], order), f"norm of order {order}"
        )
        check(
            real.compute_state_norm(result_state(flat(case["factor"] * x))),
            norm(case["factor"] * x[keep], order),
            f"norm of order {order} of the scaled state",
        )
        zero = np.zeros(ode.n)
        check(real.compute_state_norm(result_state(zero)), 0.0, "norm of zero")
        one = zero.copy()
        one[keep[-1]] = 2.5
        check(
            real.compute_state_norm(result_state(flat(one))), norm(one[keep], order),
            "norm of a state with one nonzero entry",
        )
        want_err = norm(err[keep], order)
        check(
            SimpleErrorMeasurer().get_measure(est, state, real), want_err, "measure"
        )
        eta, eps = case["eta"], case["eps"]
        got = ImprovedErrorMeasurer(eta=eta, eps=eps).get_measure(est, state, real)
        check(got, want_err / (norm(x[keep], order) + eta / eps), "relative measure")
        # eps is the relative, eta the absolute tolerance
        bound = eps * norm(x[keep], order) + eta
        if want_err > 0 and abs(want_err - bound) > 1e-6 * bound:
            if (got <= eps) != (want_err <= bound):
                raise Violation(
                    f"measure {got} versus eps {eps}, but error {want_err} and bound "
                    f"{bound}"
                )
        got = ImprovedErrorMeasurer().get_measure(est, state, real)
        check(got, want_err / (norm(x[keep], order) + 1.0), "default relative measure")
        if not np.array_equal(state.stage_state, snap):
            raise Violation("computing norms changes the state")


SUBS = [Sub("norms", case_strategy(), run, 4000, 80000)]
