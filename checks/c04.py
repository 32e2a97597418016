"""C04: the checkpointing strategy never changes a result."""

import numpy as np
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation
from rkopenmdao.errors import ErrorControllerError

PROPERTY = "C04"


@st.composite
def strategy_spec(draw, n):
    kind = draw(
        st.sampled_from(["all", "Memory", "Memory", "SingleLevel", "SingleDisk", "Disk"])
    )
    if kind == "all":
        return {"kind": "all", "c": None}
    return {
        "kind": kind,
        "c": draw(st.one_of(st.none(), st.integers(1, min(n + 2, 6)))),
    }


@st.composite
def fixed_case(draw):
    spec = draw(vm.ode_spec(max_state=4))
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 24)))
    return {
        "ode": spec,
        "tab": draw(vm.tableau(max_stages=3)),
        "dt": draw(st.sampled_from([1 / 64, 1 / 32, 1 / 16, 0.1, 1 / 8])),
        "n": n,
        "strategies": draw(st.lists(strategy_spec(n), min_size=1, max_size=3)),
        "seed": draw(st.integers(0, 10**6)),
        "repeat": draw(st.integers(1, 2)),
        # what the integrator computed before, at other inputs
        "before": draw(st.sampled_from(["nothing", "nothing", "run", "rev"])),
        **draw(integ.point(spec)),
    }


def checkpoint_options(s):
    """-> (checkpointing, options)"""
    if s["kind"] == "all":
        return "all", None
    opts = {"revolver_type": s["kind"], "revolver_options": {}}
    if s["kind"] == "SingleDisk":
        opts["revolver_type"] = "SingleLevel"
        opts["revolver_options"]["diskstorage"] = True
    if s["c"] is not None:
        opts["revolver_options"]["n_checkpoints"] = s["c"]
    return "pyrevolve", opts


def run_fixed(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    plain = integ.Setup(ode, obj, case["dt"], n_steps=case["n"], checkpointing="none")
    plain.set_inputs(case["t0"], case["x0"], case["p"])
    t, x = plain.run()
    v = integ.direction(case["seed"], ode.n + 1)
    try:
        plain.jacvec("rev", v)
    except NotImplementedError:
        pass
    else:
        raise Violation("reverse mode without checkpoints returned a result")
    ref = vm.Ref(ode, tab).run(
        case["t0"], case["x0"], np.array(case["p"]), [case["dt"]] * case["n"], True
    )
    want = integ.full_jac(ref["J"]).T @ v
    for s in case["strategies"]:
        cp, opts = checkpoint_options(s)
        su = integ.Setup(
            ode,
            obj,
            case["dt"],
            n_steps=case["n"],
            checkpointing=cp,
            checkpoint_options=opts,
            mode="rev",
        )
        if case["before"] != "nothing":
            su.set_inputs(case["t0"] + 0.25, 0.5 * np.array(case["x0"]) + 0.1, case["p"])
            su.run()
            if case["before"] == "rev":
                su.jacvec("rev", v)
        su.set_inputs(case["t0"], case["x0"], case["p"])
        for k in range(case["repeat"]):
            t2, x2 = su.run()
            vm.close([t2], [t], 1e-14, f"final time with {s}")
            vm.close(x2, x, 1e-11, f"final values with {s} (run {k})")
            for _ in range(2):  # second time without new forward computation
                vm.close(
                    su.jacvec("rev", v), want, 1e-10, f"rev product with {s}", integ.unit(v)
                )
        rec.label(f"strategy={s['kind']}")
        if s["kind"] != "all":
            rec.label("default number of checkpoints" if s["c"] is None else "given c")
            rec.nontrivial(case["n"] > 2 and (s["c"] is None or s["c"] < case["n"]))
    rec.label(f"steps={case['n'] if case['n'] < 3 else '>2'}")


@st.composite
def adaptive_case(draw):
    spec = draw(vm.ode_spec(max_state=3, archs=["explicit_mf", "implicit_solve", "split"]))
    return {
        "ode": spec,
        "tab": draw(vm.tableau(embedded=True, max_stages=3)),
        "dt": draw(integ.step_size),
        "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-4])),
        "controllers": draw(
            st.lists(st.sampled_from(sorted(integ.CONTROLLERS)), min_size=1, max_size=2)
        ),
        "until": draw(st.sampled_from(["time", "steps"])),
        "n": draw(st.one_of(st.integers(1, 5), st.integers(4, 12))),
        # few checkpoints mean that several steps in a row are repeated
        "c": draw(st.sampled_from([None, 1, 1, 2, 3])),
        "seed": draw(st.integers(0, 10**6)),
        **draw(integ.point(spec)),
    }


def run_adaptive(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    adaptive = {
        "controllers": case["controllers"],
        "tol": case["tol"],
        "lower": case["dt"] / 8,
        "upper": 1.0,
    }
    kw = (
        {"n_steps": case["n"]}
        if case["until"] == "steps"
        else {"final_time": case["t0"] + case["n"] * case["dt"]}
    )
    kinds = ["none", "all"] + (["pyrevolve"] if case["until"] == "steps" else [])
    results = {}
    v = integ.direction(case["seed"], ode.n + 1)
    for cp in kinds:
        log = []
        su = integ.Setup(
            ode,
            obj,
            case["dt"],
            adaptive=adaptive,
            checkpointing=cp,
            checkpoint_options=(
                {"revolver_options": {"n_checkpoints": case["c"]}}
                if cp == "pyrevolve" and case["c"] is not None
                else None
            ),
            mode="rev",
            callbacks=[integ.Recording(log)],
            **kw,
        )
        su.set_inputs(case["t0"], case["x0"], case["p"])
        try:
            t, x = su.run()
        except ErrorControllerError:
            results[cp] = None
            continue
        dts = [s["dt"] for s in log if s["when"] == "after"]
        results[cp] = (t, x, dts)
        if cp == "none":
            continue
        J = vm.Ref(ode, tab).run(
            case["t0"], case["x0"], np.array(case["p"]), dts, True
        )["J"]
        noise = 0.0
        if cp == "pyrevolve" and case["ode"]["arch"] == "split":
            # recomputed steps start Newton's method elsewhere; the rounding errors of
            # an error estimate go into the step sizes taken from it
            errs = [s["err"] for s in log if s["when"] == "after"]
            noise = 1e-12 / max(min(errs), 1e-300)
        if np.all(np.isfinite(J)) and np.max(np.abs(J)) < 1e6 and noise < 1e-4:
            vm.close(
                su.jacvec("rev", v),
                integ.full_jac(J).T @ v,
                1e-10 + noise,
                f"adaptive rev product with {cp}",
                integ.unit(v),
            )
    base = results["none"]
    if case["until"] == "time":
        try:
            integ.Setup(ode, obj, case["dt"], adaptive=adaptive,
                        checkpointing="pyrevolve", **kw)
        except TypeError:
            pass
        else:
            raise Violation("pyrevolve accepted a termination criterion it can't support")
    for cp, res in results.items():
        if (res is None) != (base is None):
            raise Violation(f"adaptive run with {cp}: {res}, without checkpoints: {base}")
        if base is not None:
            vm.close(res[2], base[2], 1e-10, f"step sizes with {cp}")
            vm.close(res[1], base[1], 1e-10, f"final values with {cp}")
            vm.close([res[0]], [base[0]], 1e-10, f"final time with {cp}")
    if base is None:
        raise Skip
    rec.label(f"until={case['until']}")
    rec.nontrivial(len(base[2]) > 1 and len(set(base[2])) > 1)


@st.composite
def long_case(draw):
    """More steps than small buffers or caches hold."""
    case = draw(fixed_case())
    case["ode"] = draw(
        vm.ode_spec(max_state=2, max_quantities=1, archs=["explicit_mf", "implicit_solve"])
    )
    case.update(draw(integ.point(case["ode"])))
    case["tab"] = {"kind": "shipped", "name": draw(st.sampled_from(["explicit_euler",
                   "implicit_euler", "implicit_midpoint"]))}
    case["n"] = draw(st.sampled_from([1050, 30, 60, 129, 300, 520, 1050, 2100]))
    case["dt"] = 1 / 256
    case["strategies"] = (
        case["strategies"][:1]
        if case["n"] < 1000 or draw(st.booleans())
        else [{"kind": "all", "c": None}]
    )
    for s in case["strategies"]:
        if s["c"] is not None:  # few checkpoints mean many repeated steps
            s["c"] += 2 if case["n"] < 200 else 6
    case["repeat"] = 1
    return case


SUBS = [
    Sub("long", long_case(), run_fixed, 40, 300),
    Sub("fixed_step", fixed_case(), run_fixed, 240, 2400),
    Sub("adaptive", adaptive_case(), run_adaptive, 160, 1500),
]
