"""One parallel run as seen by one rank; returns everything observable there."""

import numpy as np

from rkopenmdao.callback import Callback
from rkopenmdao.discretized_ode.discretized_ode import DiscretizedODEResultState
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.error_measurer import ImprovedErrorMeasurer, SimpleErrorMeasurer
from rkopenmdao.file_writer import OpenMDAOHDF5Callback

from . import distributed, integ, model as vm


class Log(Callback):
    def __init__(self):
        self.log = []
        self.metadata = {}

    def before_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        meta = ode.time_integration_metadata
        for q in (
            meta.time_integration_quantity_list
            + meta.time_independent_input_quantity_list
        ):
            a = q.array_metadata
            self.metadata[q.name] = [
                [int(i) for i in a.global_shape],
                bool(a.distributed),
                int(a.global_start_index),
                int(a.global_end_index),
            ]

    def after_iteration(
        self, iteration, time_integration_state, ode, discretization_scheme
    ):
        s = time_integration_state
        self.log.append(
            [
                float(s.discretization_state.final_time[0]),
                float(s.step_size_history[0]),
                float(s.error_history[0]),
            ]
        )


class Run:
    def __init__(self, case, comm):
        self.case, self.comm = case, comm
        self.ode = distributed.make_ode(case["ode"])
        obj, _ = vm.build_tableau(case["tab"])
        log = self.log = Log()
        callbacks = [log]
        if case.get("file"):
            callbacks.append(
                OpenMDAOHDF5Callback(case["file"], case["period"], comm=comm)
            )
        self.su = integ.Setup(
            self.ode,
            obj,
            case["dt"],
            n_steps=case["n"] if case.get("final_time") is None else None,
            final_time=case.get("final_time"),
            adaptive=case.get("adaptive"),
            checkpointing=case["checkpointing"],
            mode=case["mode"],
            callbacks=callbacks,
            ivc=distributed.outer_inputs(self.ode, comm),
            stage_problem=distributed.build(self.ode, comm),
        )
        self.prob = self.su.prob
        self.parts = {
            q["name"]: distributed.Part(q, comm)
            for q in self.ode.quantities + self.ode.indep
        }

    def set_inputs(self, t0, x0, p):
        self.prob.set_val("time_initial", t0)
        for q in self.ode.quantities:
            self.prob[q["name"] + "_initial"] = self.parts[q["name"]].local(
                np.asarray(x0, float)[self.ode.slices[q["name"]]]
            )
        for q in self.ode.indep:
            self.prob[q["name"]] = self.parts[q["name"]].local(
                np.asarray(p, float)[self.ode.islices[q["name"]]]
            )

    def outputs(self):
        out = {"time": float(self.prob.get_val("time_final")[0])}
        for q in self.ode.quantities:
            val = self.prob.get_val(q["name"] + "_final", get_remote=False)
            out[q["name"]] = [list(np.shape(val)), np.ravel(val).tolist()]
        return out

    def jacvec(self, mode, seed):
        """Products with the local parts of a global seed."""
        ode, parts = self.ode, self.parts
        n, m = ode.n, ode.m
        of = self.su.of + ["time_final"]
        wrt = self.su.wrt + ["time_initial"]
        self.prob.model.run_linearize()
        if mode == "fwd":
            v = integ.direction(seed, n + m + 1)
            sd = {
                q["name"] + "_initial": parts[q["name"]].local(v[ode.slices[q["name"]]])
                for q in ode.quantities
            }
            for q in ode.indep:
                sd[q["name"]] = parts[q["name"]].local(v[n : n + m][ode.islices[q["name"]]])
            sd["time_initial"] = v[n + m :]
        else:
            v = integ.direction(seed, n + 1)
            sd = {
                q["name"] + "_final": parts[q["name"]].local(v[ode.slices[q["name"]]])
                for q in ode.quantities
            }
            sd["time_final"] = v[n:]
        res = self.prob.compute_jacvec_product(of, wrt, mode, sd)
        return {k: np.ravel(x).tolist() for k, x in res.items()}


def norms(case, comm):
    """Norms and measures as every rank gets them."""
    ode = distributed.make_ode(case["ode"])
    prob = distributed.build(ode, comm)
    prob.setup()
    prob.final_setup()
    names, inames = vm.option_lists(ode)
    parts = {q["name"]: distributed.Part(q, comm) for q in ode.quantities}
    out = []
    for check in case["checks"]:
        real = OpenMDAOODE(
            prob,
            names,
            independent_input_quantities=inames,
            norm_order=float(check["order"]),
            norm_exclusions=check["exclude"],
        )
        metadata = real.time_integration_metadata.time_integration_quantity_list
        size = max(q.array_metadata.end_index for q in metadata)

        def local(values, metadata=metadata, size=size):
            vec = np.zeros(size)
            for q in metadata:
                a = q.array_metadata
                vec[a.start_index : a.end_index] = (
                    parts[q.name].local(np.asarray(values)[ode.slices[q.name]]).ravel()
                )
            return DiscretizedODEResultState(np.zeros(0), vec, np.zeros(0))

        state, error = local(check["x"]), local(check["err"])
        with np.errstate(all="ignore"):
            out.append(
                [
                    float(real.compute_state_norm(state)),
                    float(SimpleErrorMeasurer().get_measure(error, state, real)),
                    float(
                        ImprovedErrorMeasurer(
                            eta=check["eta"], eps=check["eps"]
                        ).get_measure(error, state, real)
                    ),
                ]
            )
    return out


def run(case, comm):
    if "checks" in case:
        return norms(case, comm)
    r = Run(case, comm)
    events = []
    for op in case["ops"]:
        if op["kind"] == "set":
            r.set_inputs(op["t0"], op["x0"], op["p"])
        elif op["kind"] == "run":
            r.log.log.clear()
            r.prob.run_model()
            events.append(
                {
                    "outputs": r.outputs(),
                    "steps": list(r.log.log),
                    "metadata": r.log.metadata,
                }
            )
        else:
            r.log.log.clear()
            events.append({"products": r.jacvec(op["kind"], op["seed"])})
    return events
