"""Building and running RungeKuttaIntegrator problems from plain-data cases."""

from __future__ import annotations

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from rkopenmdao.callback import Callback
from rkopenmdao.checkpoint_interface.all_checkpointer import AllCheckpointer
from rkopenmdao.checkpoint_interface.no_checkpointer import NoCheckpointer
from rkopenmdao.checkpoint_interface.pyrevolve_checkpointer import PyrevolveCheckpointer
from rkopenmdao.error_controller import (
    ErrorController,
    ErrorControllerConfig,
    ErrorControllerDecorator,
)
from rkopenmdao import error_controllers as ec
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import (
    PredefinedFinalTime,
    PredefinedNumberOfSteps,
)

from . import model as vm

CHECKPOINTERS = {
    "none": NoCheckpointer,
    "all": AllCheckpointer,
    "pyrevolve": PyrevolveCheckpointer,
}
CONTROLLERS = {
    n: getattr(ec, n)
    for n in [
        "pseudo",
        "integral",
        "h0_110",
        "h_211",
        "h0_211",
        "pc",
        "h0_220",
        "pid",
        "h_312",
        "h0_312",
        "ppid",
        "h_321",
        "h0_321",
        "h0_330",
    ]
}



def controller(spec):
    """A shipped controller by name, or one with the exponents given."""
    if isinstance(spec, str):
        return CONTROLLERS[spec]
    if isinstance(spec, dict):
        general = getattr(ec, spec["general"])

        def with_parameters(p, config=ErrorControllerConfig(), base=None):
            return general(p, *spec["args"], config=config, base=base)

        return with_parameters
    alpha, beta, gamma, a, b = spec

    def user_defined(p, config=ErrorControllerConfig(), base=None):
        # pylint: disable=unused-argument
        kw = {"alpha": alpha, "beta": beta, "gamma": gamma, "a": a, "b": b}
        if base:
            return ErrorControllerDecorator(error_controller=base, **kw)
        return ErrorController(config=config, **kw)

    return user_defined


# exactly representable step sizes keep t0 + N dt free of rounding noise
step_size = st.sampled_from([1 / 64, 1 / 32, 3 / 64, 1 / 16, 0.1, 1 / 8, 3 / 16, 0.25])
start_time = st.integers(-16, 16).map(lambda k: k / 8)


def by_name(ode):
    """Indices bringing the entries of a state into the order of the quantities' names,
    which is the order of the generated ODEs (the integrator may order them at will)."""
    quantities = sorted(
        ode.time_integration_metadata.time_integration_quantity_list,
        key=lambda q: (len(q.name), q.name),
    )
    index = [
        np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
        for q in quantities
    ]
    return np.concatenate(index + [np.zeros(0, int)]).astype(int)


class Recording(Callback):
    """Copies everything the integrator shows to callbacks."""

    def __init__(self, log, tag=""):
        self.log = log
        self.tag = tag

    def _snap(self, when, iteration, state, ode):
        ds = state.discretization_state
        order = by_name(ode)
        snap = {
            "when": when,
            "tag": self.tag,
            "iteration": int(iteration),
            "start_time": float(ds.start_time[0]),
            "final_time": float(ds.final_time[0]),
            "start_state": ds.start_state[order],
            "final_state": ds.final_state[order],
            "dt": float(state.step_size_history[0]),
            "suggestion": float(state.step_size_suggestion[0]),
            "err": float(state.error_history[0]),
        }
        self.log.append(snap)

    def before_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._snap("before", iteration, time_integration_state, ode)

    def after_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        self._snap("after", iteration, time_integration_state, ode)


class Setup:
    """One outer problem with one integrator (component 'rk', everything promoted)."""

    def __init__(
        self,
        ode,
        tableau,
        dt,
        *,
        n_steps=None,
        final_time=None,
        criterion=None,
        adaptive=None,
        checkpointing="none",
        checkpoint_options=None,
        mode="auto",
        fault=None,
        callbacks=None,
        fwd_callbacks=None,
        rev_callbacks=None,
        ivc=True,
        setup=True,
        stage_problem=None,
    ):
        self.ode = ode
        names, inames = vm.option_lists(ode)
        self.stage_problem = stage_problem or vm.build_stage_problem(ode, fault)
        if criterion is not None:
            term = criterion
        elif n_steps is not None:
            term = PredefinedNumberOfSteps(n_steps)
        else:
            term = PredefinedFinalTime(final_time)
        opts = {
            "time_stage_problem": self.stage_problem,
            "butcher_tableau": tableau,
            "integration_config": IntegrationConfig(adaptive is not None, term, dt),
            "time_integration_quantities": names,
            "checkpointing_type": CHECKPOINTERS[checkpointing],
            "compute_callbacks": [] if callbacks is None else callbacks,
            "compute_jacvec_product_fwd_callbacks": (
                [] if fwd_callbacks is None else fwd_callbacks
            ),
            "compute_jacvec_product_rev_callbacks": (
                [] if rev_callbacks is None else rev_callbacks
            ),
        }
        if inames:
            opts["time_independent_input_quantities"] = inames
        if checkpoint_options is not None:
            opts["checkpoint_options"] = checkpoint_options
        if adaptive is not None:
            opts["error_controller"] = [controller(c) for c in adaptive["controllers"]]
            opts["error_controller_options"] = {
                "config": ErrorControllerConfig(
                    tol=adaptive["tol"],
                    lower_bound=adaptive.get("lower", 0.0),
                    upper_bound=adaptive.get("upper", np.inf),
                    safety_factor=adaptive.get("safety", 0.95),
                    **(
                        {"max_iter": adaptive["max_iter"]}
                        if "max_iter" in adaptive
                        else {}
                    ),
                )
            }
            meas = adaptive.get("measurer", "simple")
            if meas == "simple":
                opts["error_measurer"] = SimpleErrorMeasurer()
            else:
                opts["error_measurer"] = ImprovedErrorMeasurer(
                    eta=meas[0], eps=meas[1]
                )
        self.options = opts
        self.mode = mode
        self.rk = RungeKuttaIntegrator(**opts)
        self.prob = om.Problem()
        if isinstance(ivc, om.IndepVarComp):
            self.prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        elif ivc:
            comp = om.IndepVarComp()
            comp.add_output("time_initial", val=0.0)
            for q in ode.quantities:
                comp.add_output(q["name"] + "_initial", val=np.zeros(q["shape"]))
            for q in ode.indep:
                comp.add_output(q["name"], val=np.zeros(q["shape"]))
            self.prob.model.add_subsystem("ivc", comp, promotes=["*"])
        self.prob.model.add_subsystem("rk", self.rk, promotes=["*"])
        if setup:
            self.setup()

    def setup(self):
        self.prob.setup(mode=self.mode)
        self.prob.final_setup()

    # ---- inputs / outputs by name
    @property
    def of(self):
        return [q["name"] + "_final" for q in self.ode.quantities]

    @property
    def wrt(self):
        return [q["name"] + "_initial" for q in self.ode.quantities] + [
            q["name"] for q in self.ode.indep
        ]

    def set_inputs(self, t0, x0, p):
        ode = self.ode
        self.prob.set_val("time_initial", t0)
        for q in ode.quantities:
            self.prob.set_val(
                q["name"] + "_initial",
                np.asarray(x0, float)[ode.slices[q["name"]]].reshape(q["shape"]),
            )
        for q in ode.indep:
            self.prob.set_val(
                q["name"],
                np.asarray(p, float)[ode.islices[q["name"]]].reshape(q["shape"]),
            )

    def run(self):
        self.prob.run_model()
        return self.outputs()

    def outputs(self):
        x = np.zeros(self.ode.n)
        for q in self.ode.quantities:
            val = self.prob.get_val(q["name"] + "_final")
            if tuple(val.shape) != tuple(q["shape"]):
                raise vm.Violation(
                    f"output of quantity {q['name']} has shape {val.shape}, "
                    f"declared {q['shape']}"
                )
            x[self.ode.slices[q["name"]]] = val.ravel()
        return float(self.prob.get_val("time_final")[0]), x

    def totals(self):
        """-> J (n+1, n+m+1): d(x_final, time_final)/d(x0, p, t0)"""
        ode = self.ode
        n, m = ode.n, ode.m
        tot = self.prob.compute_totals(
            of=self.of + ["time_final"], wrt=self.wrt + ["time_initial"]
        )
        J = np.full((n + 1, n + m + 1), np.nan)
        rows = [(q["name"] + "_final", ode.slices[q["name"]]) for q in ode.quantities]
        rows.append(("time_final", slice(n, n + 1)))
        cols = [(q["name"] + "_initial", ode.slices[q["name"]]) for q in ode.quantities]
        for q in ode.indep:
            s = ode.islices[q["name"]]
            cols.append((q["name"], slice(n + s.start, n + s.stop)))
        cols.append(("time_initial", slice(n + m, n + m + 1)))
        for rn, rs in rows:
            for cn, cs in cols:
                J[rs, cs] = tot[rn, cn]
        return J

    def jacvec(self, mode, seed):
        """fwd: seed (n+m+1) -> (n+1);  rev: seed (n+1) -> (n+m+1), through the public
        Problem API."""
        ode = self.ode
        n, m = ode.n, ode.m
        seed = np.asarray(seed, float)
        wrt = self.wrt + ["time_initial"]
        of = self.of + ["time_final"]
        sd = {}
        if mode == "fwd":
            for q in ode.quantities:
                sd[q["name"] + "_initial"] = seed[ode.slices[q["name"]]].reshape(
                    q["shape"]
                )
            for q in ode.indep:
                s = ode.islices[q["name"]]
                sd[q["name"]] = seed[n + s.start : n + s.stop].reshape(q["shape"])
            sd["time_initial"] = seed[n + m :]
            res = self.prob.compute_jacvec_product(of, wrt, mode, sd)
            out = np.zeros(n + 1)
            for q in ode.quantities:
                out[ode.slices[q["name"]]] = np.asarray(
                    res[q["name"] + "_final"]
                ).ravel()
            out[n] = np.asarray(res["time_final"]).ravel()[0]
            return out
        for q in ode.quantities:
            sd[q["name"] + "_final"] = seed[ode.slices[q["name"]]].reshape(q["shape"])
        sd["time_final"] = seed[n:]
        res = self.prob.compute_jacvec_product(of, wrt, mode, sd)
        out = np.zeros(n + m + 1)
        for q in ode.quantities:
            out[ode.slices[q["name"]]] = np.asarray(res[q["name"] + "_initial"]).ravel()
        for q in ode.indep:
            s = ode.islices[q["name"]]
            out[n + s.start : n + s.stop] = np.asarray(res[q["name"]]).ravel()
        out[n + m] = np.asarray(res["time_initial"]).ravel()[0]
        return out


def full_jac(ref_jac):
    """Reference Jacobian with the row of the final time appended."""
    n, c = ref_jac.shape
    row = np.zeros((1, c))
    row[0, -1] = 1.0
    return np.vstack([ref_jac, row])


def expand(seed, n, lo=-1.5, hi=1.5):
    """Deterministic vector of n values from an integer of the case."""
    return np.random.RandomState(seed % (2**31)).uniform(lo, hi, n)


UNITS = [1.0, 1.0, 1.0, 1e-12, 1e-6, 1e6]


def direction(seed, n):
    """Deterministic direction of a derivative: products are linear in it, whether it is
    tiny or large, and whether most of it is zero or not."""
    rng = np.random.RandomState((seed + 77) % (2**31))
    v = expand(seed, n)
    kind = rng.randint(4)
    if kind == 0:
        keep = rng.randint(n)
        v = np.where(np.arange(n) == keep, v, 0.0)
    elif kind == 1:
        v = np.where(rng.rand(n) < 0.5, v, 0.0)
    return UNITS[rng.randint(len(UNITS))] * v


def unit(v):
    """Magnitude of a direction, for the tolerance of its products."""
    return float(np.max(np.abs(v), initial=0.0)) or 1.0


@st.composite
def point(draw, spec, factors=(1.0,)):
    """t0, x0, p for an ode spec."""
    n = sum(vm.size(q["shape"]) for q in spec["quantities"])
    m = sum(vm.size(q["shape"]) for q in spec["indep"])
    factor = draw(st.sampled_from(factors))
    return {
        "t0": draw(start_time) * draw(st.sampled_from(factors)),
        "x0": [factor * v for v in draw(vm.vector(n))],
        "p": draw(vm.vector(m)),
    }


# magnitudes of start values and times
FACTORS = (1.0,) * 9 + (0.0, 1e-9, 1e3)
