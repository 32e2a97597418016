"""C02: forward-mode derivatives are the exact Jacobian of the discrete time integration."""

import numpy as np
from hypothesis import strategies as st

from vlib import deriv, integ, model as vm
from vlib.driver import Sub

PROPERTY = "C02"

SUBS = [
    Sub(
        "fixed_step_fwd",
        deriv.fixed_case(["none", "none", "all", "pyrevolve"]),
        lambda case, rec: deriv.run_fixed(case, rec, "fwd"),
        500,
        5000,
    ),
    Sub(
        "adaptive_fwd",
        deriv.adaptive_case(["none", "all"]),
        lambda case, rec: deriv.run_adaptive(case, rec, "fwd"),
        240,
        2000,
    ),
]
