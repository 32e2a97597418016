"""C10: callbacks observe every step of their own mode once, in order, with its data."""

import contextlib
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from rkopenmdao.errors import ErrorControllerError
from vlib import adapt, integ, model as vm
from vlib.driver import Skip, Sub, Violation

PROPERTY = "C10"
MODES = ["compute", "fwd", "rev"]


@st.composite
def callback_case(draw):
    spec = draw(vm.ode_spec(max_state=4))
    embedded = draw(st.sampled_from([True, False]))
    adaptive = embedded and draw(st.booleans())
    until = draw(st.sampled_from(["steps", "time"]))
    cps = ["all", "none"] if until == "time" else ["all", "none", "pyrevolve", "pyrevolve"]
    cp = draw(st.sampled_from(cps))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 9]))
    ops = draw(
        st.lists(
            st.sampled_from(["run", "fwd", "rev", "set"] if cp != "none" else ["run", "fwd", "set"]),
            min_size=1,
            max_size=draw(st.sampled_from([1, 2, 4, 6])),
        )
    )
    tags = st.lists(
        st.sampled_from(["a", "b", "c"]), min_size=0, max_size=3
    )
    return {
        "ode": spec,
        "tab": draw(vm.tableau(embedded=embedded, max_stages=3)),
        "dt": draw(st.sampled_from([1 / 32, 1 / 16, 1 / 8])),
        "n": n,
        "until": until,
        "adaptive": (
            {
                "controllers": [draw(st.sampled_from(sorted(integ.CONTROLLERS)))],
                "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-4])),
                "lower": 1 / 64,
                "upper": 1.0,
            }
            if adaptive
            else None
        ),
        "checkpointing": cp,
        "checkpoints": (
            draw(st.one_of(st.none(), st.integers(1, n))) if cp == "pyrevolve" else None
        ),
        "tags": {m: draw(tags) for m in MODES},
        "ops": ops,
        "seed": draw(st.integers(0, 10**6)),
        "points": [draw(integ.point(spec)) for _ in range(2)],
    }


def make(case, ode, obj, callbacks):
    kw = {"n_steps": case["n"]}
    if case["until"] == "time":
        kw = {"final_time": case["points"][0]["t0"] + (case["n"] - 0.5) * case["dt"]}
    opts = None
    if case["checkpoints"] is not None:
        opts = {"revolver_options": {"n_checkpoints": case["checkpoints"]}}
    return integ.Setup(
        ode,
        obj,
        case["dt"],
        adaptive=case["adaptive"],
        checkpointing=case["checkpointing"],
        checkpoint_options=opts,
        callbacks=callbacks["compute"],
        fwd_callbacks=callbacks["fwd"],
        rev_callbacks=callbacks["rev"],
        **kw,
    )


def apply(su, op, point, seed):
    if op == "set":
        su.set_inputs(point["t0"], point["x0"], point["p"])
        return None
    if op == "run":
        t, x = su.run()
        return np.append(x, t)
    n, m = su.ode.n, su.ode.m
    v = integ.expand(seed, n + m + 1 if op == "fwd" else n + 1)
    return su.jacvec(op, v)


def sequence(tags, numbers):
    """What callbacks registered in the order of tags have to see."""
    return [(when, tag, k) for k in numbers for when in ("before", "after") for tag in tags]


def run_callbacks(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    logs = {m: [] for m in MODES}
    probe = []  # one more callback in each mode's list, if there is any
    callbacks = {
        m: [integ.Recording(logs[m], tag) for tag in case["tags"][m]] for m in MODES
    }
    su = make(case, ode, obj, callbacks)
    silent = make(case, ode, obj, {m: [] for m in MODES})
    # what the steps are, seen by an integrator of its own
    witness = make(case, ode, obj, {"compute": [integ.Recording(probe)], "fwd": [], "rev": []})
    ref = vm.Ref(ode, tab)
    current = 0
    point = dict(case["points"][0])
    last_run = None
    for s in (su, silent, witness):
        apply(s, "set", point, 0)
    observed = False
    for k, op in enumerate(["run"] + case["ops"]):
        if op == "set":
            current = 1 - current
            # the initial time stays, so that the number of steps does as well
            point = {**case["points"][current], "t0": case["points"][0]["t0"]}
            if case["seed"] % 3 == 0:
                point = {**point, "t0": point["t0"] + case["dt"] / 4}
            for s in (su, silent, witness):
                apply(s, "set", point, 0)
            op = "run"  # derivatives without running the model first make no sense
        for log in logs.values():
            log.clear()
        probe.clear()
        try:
            apply(witness, "run", None, 0)
            want = apply(silent, op, None, case["seed"] + k)
            got = apply(su, op, None, case["seed"] + k)
        except ErrorControllerError as err:
            raise Skip("no controller could reduce the step") from err
        if not np.array_equal(got, want):
            raise Violation(f"{op} gives {got} with callbacks and {want} without")
        steps = [s for s in probe if s["when"] == "after"]
        n = len(steps)
        what = f"operation {k} ({op})"
        numbers = {"fwd": [], "rev": [], "compute": []}
        if op == "run":
            numbers["compute"] = list(range(1, n + 1))
        elif op == "fwd":
            numbers["fwd"] = list(range(1, n + 1))
        else:
            numbers["rev"] = list(range(n, 0, -1))
            # without usable checkpoints, the reverse mode starts with compute itself
            if logs["compute"]:
                if last_run == point:
                    raise Violation(f"{what}: callbacks of compute were called")
                numbers["compute"] = list(range(1, n + 1))
                rec.label("reverse mode recomputes without checkpoints")
        if op == "run":
            last_run = dict(point)
        elif op == "rev":
            last_run = None
        for m in MODES:
            seen = [(s["when"], s["tag"], s["iteration"]) for s in logs[m]]
            if seen != sequence(case["tags"][m], numbers[m]):
                raise Violation(
                    f"{what}: callbacks {case['tags'][m]} of {m} saw {seen} for {n} "
                    "steps"
                )
            observed = observed or bool(seen)
            check_data(case, what, m, logs[m], steps, point, ref)
        if n:
            rec.label(f"{op} over {'1' if n == 1 else '2-4' if n < 5 else '>4'} steps")
    rec.label(f"checkpointing={case['checkpointing']}")
    rec.label("adaptive" if case["adaptive"] else "fixed")
    rec.nontrivial(observed and max(len(t) for t in case["tags"].values()) > 1)


def check_data(case, what, mode, log, steps, point, ref):
    """Every snapshot is that of its step; the steps themselves fit the scheme."""
    t, x = point["t0"], np.array(point["x0"])
    p = np.array(point["p"])
    starts = []
    for k, s in enumerate(steps):
        starts.append((t, x))
        if s["start_time"] != t or not np.array_equal(s["start_state"], x):
            raise Violation(f"{what}: step {k + 1} doesn't start where the last ended")
        if not case["adaptive"] and s["dt"] != case["dt"]:
            raise Violation(f"{what}: step size {s['dt']} reported for step {k + 1}")
        res = ref.step(t, x, p, s["dt"])
        vm.close(s["final_state"], res["x"], 1e-10, f"{what}: state after step {k + 1}")
        if res["emb"] is not None:
            err = np.linalg.norm(res["x"] - res["emb"])
            vm.close([s["err"]], [err], 1e-10, f"{what}: error measure of step {k + 1}")
        t, x = s["final_time"], s["final_state"]
    # the witness' stage solver started from other values, which the errors, and the step
    # sizes chosen by them, show
    tol = 1e-6 if case["adaptive"] else 1e-10
    for s in log:
        k = s["iteration"]
        step = steps[k - 1]
        name = f"{what}: callback of {mode} {s['when']} step {k}"
        if s["when"] == "before" and mode != "rev":
            t, x = starts[k - 1]
            what2 = f"{name}: state the step starts from"
            vm.close(s["final_state"], x, tol, what2)
            vm.close([s["final_time"]], [t], tol, what2)
            continue
        for key in ("start_time", "final_time", "dt", "err"):
            if key == "err" and ref.tab.bhat is None:
                continue
            vm.close([s[key]], [step[key]], tol, f"{name}: {key}")
        for key in ("start_state", "final_state"):
            vm.close(s[key], step[key], tol, f"{name}: {key}")


# ---------------------------------------------------------------- the default callbacks
@st.composite
def default_case(draw):
    spec = draw(vm.ode_spec(max_state=3, archs=["explicit_mf", "implicit_solve"]))
    n = draw(st.integers(1, 6))
    return {
        "ode": spec,
        "tab": draw(vm.tableau(max_stages=2)),
        "dt": draw(integ.step_size),
        "n": n,
        "checkpointing": draw(st.sampled_from(["all", "pyrevolve"])),
        "default": draw(st.lists(st.sampled_from(MODES), unique=True, min_size=1)),
        "op": draw(st.sampled_from(["run", "fwd", "rev"])),
        "seed": draw(st.integers(0, 10**6)),
        **draw(integ.point(spec)),
    }


NAMES = {
    "run": "compute",
    "fwd": "compute_jacvec_product_fwd",
    "rev": "compute_jacvec_product_rev",
}


def run_default(case, rec):
    """Without callbacks given, each mode logs its steps."""
    ode = vm.ODE(case["ode"])
    obj, _ = vm.build_tableau(case["tab"])
    su = integ.Setup(
        ode, obj, case["dt"], n_steps=case["n"], checkpointing=case["checkpointing"],
        setup=False,
    )
    option = {"compute": "run", "fwd": "fwd", "rev": "rev"}
    for m in MODES:
        su.rk.options[
            "compute_callbacks" if m == "compute" else f"compute_jacvec_product_{m}_callbacks"
        ] = (None if m in case["default"] else [])
    su.setup()
    su.set_inputs(case["t0"], case["x0"], case["p"])
    if case["op"] != "run":
        su.run()
    # a file of its own: pyrevolve captures stdout by its file descriptor
    with tempfile.TemporaryFile("w+", dir=".") as out:
        with contextlib.redirect_stdout(out):
            apply(su, case["op"], None, case["seed"])
            out.flush()
        out.seek(0)
        text = out.read()
    got = re.findall(r"(Start|Finish)ing step <(\d+)> of (\w+)", text)
    name = NAMES[case["op"]]
    want = []
    if case["op"] in [option[m] for m in case["default"]]:
        numbers = range(1, case["n"] + 1)
        if case["op"] == "rev":
            numbers = reversed(numbers)
        want = [(w, str(k), name) for k in numbers for w in ("Start", "Finish")]
        rec.nontrivial(case["n"] > 1)
    if got != want:
        raise Violation(f"logged steps {got}, expected {want}")
    if text.count("Iteration took") != len(want) // 2:
        raise Violation("not every step is accompanied by its wall clock time")
    for sec in re.findall(r"Iteration took (\S+) seconds", text):
        if not 0.0 <= float(sec) < 100.0:
            raise Violation(f"wall clock time {sec}")
    rec.label(f"op={case['op']}")


SUBS = [
    Sub("observation", callback_case(), run_callbacks, 500, 5000),
    Sub("default_callbacks", default_case(), run_default, 120, 1000),
]
