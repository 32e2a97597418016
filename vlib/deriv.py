"""Derivative checks shared by C02 and C03."""

import numpy as np
from hypothesis import strategies as st

from . import integ, model as vm
from .driver import Skip, Violation
from rkopenmdao.errors import ErrorControllerError


@st.composite
def fixed_case(draw, checkpointing):
    spec = draw(vm.ode_spec(wide=True))
    n = draw(st.integers(1, 7))
    dt = draw(integ.step_size)
    if spec["arch"] == "explicit_mf" and draw(st.integers(0, 4)) == 2:
        n, dt = draw(st.integers(8, 30)), 1 / 64
    cp = draw(st.sampled_from(checkpointing))
    case = {
        "ode": spec,
        "tab": draw(vm.tableau()),
        "dt": dt,
        "n": n,
        "checkpointing": cp,
        "checkpoints": (
            draw(st.one_of(st.none(), st.integers(1, n + 1)))
            if cp == "pyrevolve"
            else None
        ),
        "seed": draw(st.integers(0, 10**6)),
        "api": draw(st.sampled_from(["jacvec", "totals", "subset"])),
        **draw(integ.point(spec, integ.FACTORS)),
    }
    return case


def labels(case, rec, ode, tab):
    rec.label(f"arch={case['ode']['arch']}")
    rec.label(f"tab={case['tab']['kind']}")
    rec.label(f"checkpointing={case['checkpointing']}")
    rec.label(f"api={case['api']}")
    rec.label(f"stages={tab.s}")
    if case["ode"].get("scaled"):
        rec.label("scaled stage outputs")
    if ode.m:
        rec.label("time-independent inputs")


def compare(su, J, case, mode, tolerance=lambda: 1e-10):
    """tolerance is asked for after the derivatives have been computed."""
    for got, want, what, unit in list(_products(su, J, case, mode)):
        vm.close(got, want, tolerance(), what, unit)


def _products(su, J, case, mode):
    ode = su.ode
    n, m = ode.n, ode.m
    if case["api"] == "jacvec":
        for k in range(2):
            v = integ.direction(case["seed"] + k, n + m + 1 if mode == "fwd" else n + 1)
            got = su.jacvec(mode, v)
            want = J @ v if mode == "fwd" else J.T @ v
            yield got, want, f"{mode} product", integ.unit(v)
    elif case["api"] == "totals":
        yield su.totals(), J, f"{mode} totals", 1.0
    else:
        rng = np.random.RandomState(case["seed"])
        of_all = [(q["name"] + "_final", ode.slices[q["name"]]) for q in ode.quantities]
        of_all.append(("time_final", slice(n, n + 1)))
        wrt_all = [
            (q["name"] + "_initial", ode.slices[q["name"]]) for q in ode.quantities
        ]
        for q in ode.indep:
            s = ode.islices[q["name"]]
            wrt_all.append((q["name"], slice(n + s.start, n + s.stop)))
        wrt_all.append(("time_initial", slice(n + m, n + m + 1)))
        of = [of_all[i] for i in rng.permutation(len(of_all))]
        of = of[: rng.randint(1, len(of) + 1)]
        wrt = [wrt_all[i] for i in rng.permutation(len(wrt_all))]
        wrt = wrt[: rng.randint(1, len(wrt) + 1)]
        tot = su.prob.compute_totals(of=[o for o, _ in of], wrt=[w for w, _ in wrt])
        for o, so in of:
            for w, sw in wrt:
                yield tot[o, w], J[so, sw], f"{mode} total of {o} wrt {w}", 1.0


def run_fixed(case, rec, mode):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    opts = None
    if case["checkpoints"] is not None:
        opts = {"revolver_options": {"n_checkpoints": case["checkpoints"]}}
    su = integ.Setup(
        ode,
        obj,
        case["dt"],
        n_steps=case["n"],
        checkpointing=case["checkpointing"],
        checkpoint_options=opts,
        mode=mode,
    )
    su.set_inputs(case["t0"], case["x0"], case["p"])
    su.run()
    ref = vm.Ref(ode, tab).run(
        case["t0"], case["x0"], np.array(case["p"]), [case["dt"]] * case["n"], True
    )
    labels(case, rec, ode, tab)
    rec.nontrivial(case["n"] > 1 and (tab.s > 1 or len(ode.quantities) > 1))
    compare(su, integ.full_jac(ref["J"]), case, mode)


@st.composite
def adaptive_case(draw, checkpointing):
    spec = draw(vm.ode_spec(max_state=4))
    return {
        "ode": spec,
        "tab": draw(vm.shipped_tableau(embedded=True)),
        "dt": draw(integ.step_size),
        "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5, 1e-6])),
        "controllers": draw(
            st.lists(st.sampled_from(sorted(integ.CONTROLLERS)), min_size=1, max_size=2)
        ),
        "until": draw(st.sampled_from(["time", "steps"])),
        "n": draw(st.integers(1, 5)),
        "checkpointing": draw(st.sampled_from(checkpointing)),
        "seed": draw(st.integers(0, 10**6)),
        "api": draw(st.sampled_from(["jacvec", "totals", "subset"])),
        **draw(integ.point(spec)),
    }


def run_adaptive(case, rec, mode):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    log, product_log = [], []
    observer = [integ.Recording(product_log)]
    su = integ.Setup(
        ode,
        obj,
        case["dt"],
        fwd_callbacks=observer,
        rev_callbacks=observer,
        **(
            {"n_steps": case["n"]}
            if case["until"] == "steps"
            else {"final_time": case["t0"] + case["n"] * case["dt"]}
        ),
        adaptive={
            "controllers": case["controllers"],
            "tol": case["tol"],
            "lower": case["dt"] / 16,
            "upper": 1.0,
        },
        checkpointing=case["checkpointing"],
        mode=mode,
        callbacks=[integ.Recording(log)],
    )
    su.set_inputs(case["t0"], case["x0"], case["p"])
    try:
        _, x = su.run()
    except ErrorControllerError as err:
        raise Skip("no controller could reduce the step") from err
    after = [s for s in log if s["when"] == "after"]
    dts = [s["dt"] for s in after]
    ref = vm.Ref(ode, tab).run(
        case["t0"], case["x0"], np.array(case["p"]), dts, True
    )
    if not np.all(np.isfinite(ref["x"])) or np.max(np.abs(ref["J"])) > 1e6:
        raise Skip
    vm.close(x, ref["x"], 1e-10, "final values for the observed step sizes")
    labels(case, rec, ode, tab)
    rec.label(f"steps={'>3' if len(dts) > 3 else '<=3'}")
    rec.nontrivial(len(dts) > 1 and len({round(d, 12) for d in dts}) > 1)

    def tolerance():
        """Derivative products integrate again. The rounding errors of an error estimate
        (another initial guess of a Newton solver changes them) go into the step sizes
        taken from it, and derivatives can't agree better than those."""
        dev = 0.0
        for s in product_log:
            # steps are numbered alike in both
            ref_dt = next(
                (a["dt"] for a in after if a["iteration"] == s["iteration"]), None
            )
            if s["when"] == "after" and ref_dt is not None:
                dev = max(dev, abs(s["dt"] - ref_dt) / ref_dt)
        noise = 1e-13 / max(min(a["err"] for a in after), 1e-300)
        if dev > 1e-5 and noise > 1e-5:
            raise Skip("step sizes hang on rounding noise")
        if dev > 1e-12:
            rec.label("step sizes differ by rounding noise")
        return 1e-10 + 20 * min(dev, noise)

    compare(su, integ.full_jac(ref["J"]), case, mode, tolerance)
