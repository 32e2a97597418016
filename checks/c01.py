"""C01: forward time integration equals the Runge-Kutta recursion of the tableau."""

import numpy as np
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Sub

PROPERTY = "C01"


@st.composite
def fixed_case(draw):
    spec = draw(vm.ode_spec(wide=True))
    n = draw(st.integers(1, 8))
    dt = draw(st.one_of(integ.step_size, integ.step_size, st.sampled_from([1e-3, 1e-7])))
    if spec["arch"] == "explicit_mf" and draw(st.integers(0, 4)) == 2:
        n, dt = draw(st.integers(9, 60)), 1 / 64
    case = {
        "ode": spec,
        "tab": draw(vm.tableau()),
        "dt": dt,
        "n": n,
        "checkpointing": draw(st.sampled_from(["none", "none", "all", "pyrevolve"])),
        **draw(integ.point(spec, integ.FACTORS)),
    }
    return case


def run_fixed(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    su = integ.Setup(
        ode, obj, case["dt"], n_steps=case["n"], checkpointing=case["checkpointing"]
    )
    su.set_inputs(case["t0"], case["x0"], case["p"])
    t, x = su.run()
    ref = vm.Ref(ode, tab).run(
        case["t0"], case["x0"], np.array(case["p"]), [case["dt"]] * case["n"]
    )
    rec.label(f"arch={case['ode']['arch']}")
    rec.label(f"tab={case['tab']['kind']}")
    rec.label(f"stages={tab.s}")
    rec.label(f"checkpointing={case['checkpointing']}")
    rec.label(f"quantities={len(ode.quantities)}")
    rec.label(f"indep={len(ode.indep)}")
    rec.label(f"steps={'1' if case['n'] == 1 else '>1'}")
    if any(not q["has_state"] for q in ode.quantities):
        rec.label("stateless quantity")
    if any(len(q["shape"]) > 1 for q in ode.quantities):
        rec.label("multi-dimensional quantity")
    rec.nontrivial(case["n"] > 1 and (tab.s > 1 or len(ode.quantities) > 1))
    vm.close(x, ref["x"], 1e-11, "final values")
    vm.close([t], [ref["t"]], 1e-11, "final time")


SUBS = [Sub("fixed_step", fixed_case(), run_fixed, 2000, 12000)]
