"""C03: reverse-mode derivatives are the exact adjoint of the discrete time integration."""

from vlib import deriv
from vlib.driver import Sub

PROPERTY = "C03"

SUBS = [
    Sub(
        "fixed_step_rev",
        deriv.fixed_case(["all", "pyrevolve"]),
        lambda case, rec: deriv.run_fixed(case, rec, "rev"),
        500,
        5000,
    ),
    Sub(
        "adaptive_rev",
        deriv.adaptive_case(["all"]),
        lambda case, rec: deriv.run_adaptive(case, rec, "rev"),
        240,
        2000,
    ),
]
