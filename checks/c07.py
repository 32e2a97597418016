"""C07: error controllers compute their published formulas."""

import numpy as np
from hypothesis import strategies as st

from vlib import adapt, integ
from vlib.driver import Sub, Violation
from checks.c06 import user_controller
from rkopenmdao.error_controller import ErrorControllerConfig
from rkopenmdao.errors import ErrorControllerError

PROPERTY = "C07"


def logfloat(lo, hi):
    return st.floats(lo, hi).map(lambda v: float(f"{1.37 * 10.0 ** v:.6g}"))


general_controller = st.fixed_dictionaries(
    {
        "general": st.sampled_from(sorted(adapt.GENERAL)),
        "args": st.lists(
            st.integers(-8, 12).map(lambda k: k / 8), min_size=3, max_size=3
        ),
    }
)
any_controller = st.one_of(
    st.sampled_from(sorted(adapt.TABLE)),
    st.sampled_from(sorted(adapt.TABLE)),
    user_controller,
    general_controller,
)


@st.composite
def config(draw):
    lower = draw(st.one_of(st.just(0.0), logfloat(-4, -1)))
    return {
        "tol": draw(st.one_of(st.just(1e-6), logfloat(-9, 0))),
        "lower": lower,
        "upper": draw(st.one_of(st.just(np.inf), logfloat(-1, 2))),
        "safety": draw(st.sampled_from([0.95, 0.9, 0.5, 1.0])),
        "max_iter": draw(st.sampled_from([5, 5, 0, 1, 2, 3])),
    }


@st.composite
def call_data(draw):
    hist = draw(st.sampled_from(["none", "one", "two", "two", "two"]))
    d1 = draw(logfloat(-3, 1))
    d2 = draw(logfloat(-3, 1))
    return {
        # error relative to the tolerance
        "e": draw(st.one_of(logfloat(-6, 4), logfloat(-1, 1), logfloat(0, 2))),
        "eh": [draw(logfloat(-4, 1)), draw(logfloat(-4, 1))],
        "dth": {"none": [0.0, 0.0], "one": [d1, 0.0], "two": [d1, d2]}[hist],
        "dt": draw(logfloat(-3, 1)),
        "remaining": draw(st.one_of(st.just(np.inf), logfloat(-3, 1))),
    }


def make(specs, p, cfg, scale=1.0):
    """The real chain of controllers, built as the integrator does."""
    conf = ErrorControllerConfig(
        tol=cfg["tol"] * scale,
        lower_bound=cfg["lower"],
        upper_bound=cfg["upper"],
        safety_factor=cfg["safety"],
        max_iter=cfg["max_iter"],
    )
    ctrl = None
    for s in specs:
        ctrl = integ.controller(s)(p=p, config=conf, base=ctrl)
    return ctrl


def call(ctrl, tol, c, e, dt, scale=1.0):
    """-> (suggestion, accepted) or None if the controller gave up."""
    eh = np.array(c["eh"]) * tol * scale
    dth = np.array(c["dth"])
    keep = eh.copy(), dth.copy()
    try:
        st_ = ctrl(
            error_measure=e * tol * scale,
            delta_t=dt,
            remaining_time=c["remaining"],
            error_history=eh,
            step_size_history=dth,
        )
    except ErrorControllerError:
        return None
    finally:
        if not (np.array_equal(eh, keep[0]) and np.array_equal(dth, keep[1])):
            raise Violation("the controller changes the histories passed to it")
    return float(st_.step_size_suggestion), bool(st_.acceptance)


def describe(res):
    return "an error" if res is None else f"suggestion {res[0]!r}, accepted={res[1]}"


def compare(got, want, what):
    if (got is None) != (want is None) or (got is not None and got[1] != want[1]):
        raise Violation(f"{what}: {describe(got)}, expected {describe(want)}")
    if got is not None and got[0] != want[0]:
        if not abs(got[0] - want[0]) <= 1e-9 * abs(want[0]):
            raise Violation(f"{what}: {describe(got)}, expected {describe(want)}")


@st.composite
def sequence_case(draw):
    return {
        "controllers": [
            draw(any_controller) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4])))
        ],
        "p": draw(st.integers(1, 8)),
        "cfg": draw(config()),
        # each step: data of its first try, errors of further tries (relative to tol)
        "steps": draw(
            st.lists(
                st.tuples(
                    call_data(),
                    st.lists(
                        st.one_of(logfloat(-1, 2), logfloat(0, 3)), max_size=9
                    ),
                ).map(list),
                min_size=1,
                max_size=4,
            )
        ),
        "scale": draw(st.sampled_from([1.0, 0.5, 4.0, 1024.0])),
    }


def run_sequence(case, rec):
    cfg, p, specs = case["cfg"], case["p"], case["controllers"]
    tol = cfg["tol"]
    exps = [adapt.exponents(s, p) for s in specs]
    chain = adapt.Chain(
        exps, tol, cfg["lower"], cfg["upper"], cfg["safety"], cfg["max_iter"], 1e-9
    )
    ctrl = make(specs, p, cfg)
    scaled = make(specs, p, cfg, case["scale"])
    if not str(ctrl):
        raise Violation("a controller prints as nothing")
    rejections = 0
    errors = 0
    ambiguous = False
    for i, (c, more) in enumerate(case["steps"]):
        dt = c["dt"]
        for j, e in enumerate([c["e"], *more]):
            what = f"controllers {specs}, order {p}, step {i}, try {j}"
            try:
                want = chain(
                    e * tol, dt, c["remaining"],
                    [v * tol for v in c["eh"]], c["dth"],
                )
            except adapt.ControllerError:
                want = None
            except adapt.Ambiguous:
                ambiguous = True
                break
            got = call(ctrl, tol, c, e, dt)
            compare(got, want, what)
            compare(
                call(scaled, tol, c, e, dt, case["scale"]), want, what + ", scaled"
            )
            if want is None:
                # giving up ends the time integration
                ctrl.reset()
                scaled.reset()
                errors += 1
                break
            if want[1]:
                break
            rejections += 1
            dt = want[0]
            if dt <= 0:
                ambiguous = True
                break
        else:
            # the step is given up without being accepted: as when the time
            # integration is aborted and started again
            ctrl.reset()
            scaled.reset()
            chain.reset()
        if ambiguous:
            break
    rec.label(f"controllers={len(specs)}")
    rec.label("rejections" if rejections else "no rejections")
    if chain.fell_back:
        rec.label("fallback used in last step")
    if errors:
        rec.label("gives up")
    if ambiguous:
        rec.label("ended early: decision within rounding")
    rec.nontrivial(rejections > 0 or any(c["dth"][1] != 0 for c, _ in case["steps"]))


@st.composite
def single_case(draw):
    return {
        "controller": draw(st.one_of(any_controller, user_controller)),
        "as_fallback": draw(st.booleans()),
        "p": draw(st.integers(1, 8)),
        "cfg": draw(config()),
        "call": draw(call_data()),
        "exact": draw(
            st.sampled_from(
                [None, None, None, "e=tol", "e>tol", "e<tol", "dt=lower", "dt>lower"]
                + ["dt<lower", "e=0", "eh=0"]
            )
        ),
        "margin": 10.0 ** -draw(st.integers(2, 7)),
    }


def run_single(case, rec):
    """One call; includes the values exactly at the limits of acceptance."""
    cfg, p, c = case["cfg"], case["p"], case["call"]
    tol, spec = cfg["tol"], case["controller"]
    specs = [spec]
    if case["as_fallback"]:
        # a first controller that never shrinks a step hands rejected ones on
        specs = [[0.0, 0.0, 0.0, 0.0, 0.0], spec]
        cfg = {**cfg, "safety": 1.0, "upper": np.inf}
    e, dt = c["e"], c["dt"]
    exps = adapt.exponents(spec, p)
    if case["exact"] == "e=tol":
        e = 1.0
    elif case["exact"] == "e=0":
        e = 0.0
    elif case["exact"] == "dt=lower":
        dt = cfg["lower"]
        if dt == 0.0:
            return
    elif case["exact"] in ("dt>lower", "dt<lower"):
        dt = cfg["lower"] * (1 + case["margin"] * (1 if ">" in case["exact"] else -1))
        if dt == 0.0:
            return
    elif case["exact"] in ("e>tol", "e<tol"):
        e = 1 + case["margin"] * (1 if ">" in case["exact"] else -1)
    elif case["exact"] == "eh=0":
        c = {**c, "eh": [0.0, c["eh"][1]]}
    ctrl = make(specs, p, cfg)
    got = call(ctrl, tol, c, e, dt)
    what = f"controllers {specs}, order {p}"
    small = dt - cfg["lower"]
    if case["exact"] not in ("e=tol", "dt=lower"):
        if abs(e - 1.0) < 1e-9 or 0 < small < 1e-9:
            return
    accepted = e * tol <= tol or dt <= cfg["lower"]
    rec.label(f"at limit: {case['exact']}")
    rec.label("accepted" if accepted else "rejected")
    rec.nontrivial(c["dth"][1] != 0.0 or case["exact"] is not None)
    if got is None:
        if accepted:
            raise Violation(f"{what}: gives up on a step that has to be accepted")
        if case["exact"] == "eh=0":
            return
    elif got[1] != accepted:
        raise Violation(f"{what}: {describe(got)}, expected accepted={accepted}")
    if case["exact"] == "eh=0":
        # the formula is not defined; but the result has to be usable
        if not 0 < got[0] < np.inf and c["remaining"] > 0:
            raise Violation(f"{what}: {describe(got)} with vanishing past error")
        return
    if e == 0.0:
        new = dt
    elif accepted and case["as_fallback"]:
        new = dt  # what the first controller suggests
    else:
        new = adapt.estimate(
            exps, tol, cfg["safety"], e * tol, dt,
            [v * tol for v in c["eh"]], c["dth"],
        )
    new = max(cfg["lower"], min(cfg["upper"], new))
    new = min(c["remaining"] + (0.0 if accepted else dt), new)
    if not accepted:
        if abs(new - dt) < 1e-9 * dt and new != dt:
            return
        want = None if new >= dt else (new, False)
    else:
        want = (new, True)
    compare(got, want, what)


SUBS = [
    Sub("sequences", sequence_case(), run_sequence, 16000, 200000),
    Sub("single", single_case(), run_single, 16000, 200000),
]
