"""Stage problems whose quantities and inputs are distributed over ranks.

A quantity or input of a case may have an entry "dist": the number of rows (entries along
the first axis) each rank owns.  Without it every rank holds a copy.  The component gathers
what it needs, so the law is the same as in a serial run.
"""

from __future__ import annotations

import numpy as np
import openmdao.api as om

from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent

from . import model as vm


class Part:
    """Where the entries of one quantity or input live."""

    def __init__(self, spec, comm):
        self.name = spec["name"]
        self.shape = tuple(spec["shape"])
        self.dist = spec.get("dist")
        self.comm = comm
        row = vm.size(self.shape[1:]) if len(self.shape) > 1 else 1
        if self.dist and "part" in spec and not self.dist[comm.rank]:
            # belongs to a component which doesn't exist on this rank
            self.local_shape = (0,)
            self.slice = slice(0, 0)
        elif self.dist:
            off = sum(self.dist[: comm.rank])
            self.local_shape = (self.dist[comm.rank],) + self.shape[1:]
            self.slice = slice(off * row, (off + self.dist[comm.rank]) * row)
        else:
            self.local_shape = self.shape
            self.slice = slice(0, vm.size(self.shape))

    def gather(self, local):
        local = np.array(local, float).ravel()
        if not self.dist:
            return local
        return np.concatenate(self.comm.allgather(local))

    def local(self, flat):
        return np.asarray(flat, float).ravel()[self.slice].reshape(self.local_shape)


class _Mixin:
    def _declare(self):
        self.options.declare("ode", types=vm.ODE)

    def _layout(self):
        ode = self.options["ode"]
        self.parts = {}
        self.ins = []
        for q in ode.quantities:
            part = Part(q, self.comm)
            self.parts[q["name"]] = part
            if q["has_state"]:
                for end, tag in (
                    ("_old", "step_input_var"),
                    ("_acc", "accumulated_stage_var"),
                ):
                    self.ins.append((q["name"] + end, part, [q["name"], tag]))
        for q in ode.indep:
            part = Part(q, self.comm)
            self.parts[q["name"]] = part
            self.ins.append(
                (q["name"] + "_in", part, [q["name"], "time_independent_input_var"])
            )

    def _add_io(self):
        ode = self.options["ode"]
        self._layout()
        if ode.spec["use_time"]:
            self.add_input("time", shape=1, tags=["time_variable"])
        for name, part, tags in self.ins:
            self.add_input(
                name, shape=part.local_shape, distributed=bool(part.dist), tags=tags
            )
        for q in ode.quantities:
            part = self.parts[q["name"]]
            self.add_output(
                q["name"] + "_k",
                shape=part.local_shape,
                distributed=bool(part.dist),
                tags=[q["name"], "stage_output_var"],
            )

    def _da(self):
        return self.om_data_exchange.step_size * self.om_data_exchange.stage_factor

    def _gather(self, inputs):
        ode = self.options["ode"]
        t = inputs["time"][0] if ode.spec["use_time"] else 0.0
        base = np.zeros(ode.n)
        p = np.zeros(ode.m)
        for q in ode.quantities:
            if q["has_state"]:
                part = self.parts[q["name"]]
                base[ode.slices[q["name"]]] = part.gather(
                    inputs[q["name"] + "_old"]
                    + self.om_data_exchange.step_size * inputs[q["name"] + "_acc"]
                )
        for q in ode.indep:
            p[ode.islices[q["name"]]] = self.parts[q["name"]].gather(
                inputs[q["name"] + "_in"]
            )
        return t, base, p

    def _get_k(self, vec):
        ode = self.options["ode"]
        k = np.zeros(ode.n)
        for q in ode.quantities:
            k[ode.slices[q["name"]]] = self.parts[q["name"]].gather(
                vec[q["name"] + "_k"]
            )
        return k

    def _put_k(self, k, vec):
        ode = self.options["ode"]
        for q in ode.quantities:
            vec[q["name"] + "_k"] = self.parts[q["name"]].local(
                k[ode.slices[q["name"]]]
            )

    def _columns(self, Jx, Jp, Jt):
        """(input name, part or None, d f / d input)"""
        ode = self.options["ode"]
        dt = self.om_data_exchange.step_size
        if ode.spec["use_time"]:
            yield "time", None, Jt.reshape(-1, 1)
        for q in ode.quantities:
            if q["has_state"]:
                part = self.parts[q["name"]]
                yield q["name"] + "_old", part, Jx[:, ode.slices[q["name"]]]
                yield q["name"] + "_acc", part, dt * Jx[:, ode.slices[q["name"]]]
        for q in ode.indep:
            yield q["name"] + "_in", self.parts[q["name"]], Jp[:, ode.islices[q["name"]]]

    def _forward(self, d_inputs, Jx, Jp, Jt):
        out = np.zeros(self.options["ode"].n)
        for name, part, J in self._columns(Jx, Jp, Jt):
            if name in d_inputs:
                v = d_inputs[name] if part is None else part.gather(d_inputs[name])
                out += J @ v
        return out

    def _reverse(self, w, d_inputs, Jx, Jp, Jt, sign=1.0):
        for name, part, J in self._columns(Jx, Jp, Jt):
            if name in d_inputs:
                v = sign * (J.T @ w)
                d_inputs[name] += v if part is None else part.local(v)


class DistExplicit(_Mixin, ExplicitUnsteadyComponent):
    def initialize(self):
        self._declare()

    def setup(self):
        self._add_io()

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        t, base, p = self._gather(inputs)
        self._put_k(self.options["ode"].solve_stage(t, base, self._da(), p), outputs)

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        ode = self.options["ode"]
        t, base, p = self._gather(inputs)
        da = self._da()
        X = base + da * ode.solve_stage(t, base, da, p)
        Jx, Jp, Jt = ode.jx(t, X, p), ode.jp(t, X, p), ode.jt(t, X, p)
        M = np.eye(ode.n) - da * Jx
        if mode == "fwd":
            dk = np.linalg.solve(M, self._forward(d_inputs, Jx, Jp, Jt))
            for q in ode.quantities:
                d_outputs[q["name"] + "_k"] += self.parts[q["name"]].local(
                    dk[ode.slices[q["name"]]]
                )
        else:
            w = np.linalg.solve(M.T, self._get_k(d_outputs))
            self._reverse(w, d_inputs, Jx, Jp, Jt)


class DistImplicit(_Mixin, ImplicitUnsteadyComponent):
    def initialize(self):
        self._declare()

    def setup(self):
        self._add_io()

    def apply_nonlinear(
        self, inputs, outputs, residuals, discrete_inputs=None, discrete_outputs=None
    ):
        t, base, p = self._gather(inputs)
        k = self._get_k(outputs)
        self._put_k(
            k - self.options["ode"].f(t, base + self._da() * k, p), residuals
        )

    def solve_nonlinear(self, inputs, outputs):
        t, base, p = self._gather(inputs)
        self._put_k(self.options["ode"].solve_stage(t, base, self._da(), p), outputs)

    def _lin(self, inputs, outputs):
        ode = self.options["ode"]
        t, base, p = self._gather(inputs)
        X = base + self._da() * self._get_k(outputs)
        return ode.jx(t, X, p), ode.jp(t, X, p), ode.jt(t, X, p)

    def linearize(
        self, inputs, outputs, jacobian, discrete_inputs=None, discrete_outputs=None
    ):
        self._store = self._lin(inputs, outputs)

    def apply_linear(self, inputs, outputs, d_inputs, d_outputs, d_residuals, mode):
        ode = self.options["ode"]
        Jx, Jp, Jt = self._lin(inputs, outputs)
        M = np.eye(ode.n) - self._da() * Jx
        on = ode.quantities[0]["name"] + "_k"
        if mode == "fwd":
            acc = -self._forward(d_inputs, Jx, Jp, Jt)
            if on in d_outputs:
                acc += M @ self._get_k(d_outputs)
            for q in ode.quantities:
                d_residuals[q["name"] + "_k"] += self.parts[q["name"]].local(
                    acc[ode.slices[q["name"]]]
                )
        else:
            w = self._get_k(d_residuals)
            if on in d_outputs:
                v = M.T @ w
                for q in ode.quantities:
                    d_outputs[q["name"] + "_k"] += self.parts[q["name"]].local(
                        v[ode.slices[q["name"]]]
                    )
            self._reverse(w, d_inputs, Jx, Jp, Jt, -1.0)

    def solve_linear(self, d_outputs, d_residuals, mode):
        ode = self.options["ode"]
        M = np.eye(ode.n) - self._da() * self._store[0]
        if mode == "fwd":
            self._put_k(np.linalg.solve(M, self._get_k(d_residuals)), d_outputs)
        else:
            self._put_k(np.linalg.solve(M.T, self._get_k(d_outputs)), d_residuals)


class BlockODE(vm.ODE):
    """Every quantity and input belongs to a block, "all" or the number of a rank.  Blocks
    of ranks depend on themselves and the states of "all", which depends on itself only."""

    def __init__(self, spec):
        super().__init__(spec)
        part = np.concatenate(
            [np.full(vm.size(q["shape"]), q["part"]) for q in self.quantities]
        )
        ipart = np.concatenate(
            [np.full(vm.size(q["shape"]), q["part"]) for q in self.indep] + [[]]
        )
        self.part, self.ipart = part, ipart
        mask = (part[:, None] == part[None, :]) | (part[None, :] == ALL)
        imask = part[:, None] == ipart[None, :]
        self.A *= mask
        self.W *= mask
        self.B *= imask
        self.P *= imask
        self.v = self.v * (part == ALL)


ALL = -1


def make_ode(spec):
    return BlockODE(spec) if spec["arch"] == "group" else vm.ODE(spec)


class Block(ExplicitUnsteadyComponent):
    """One block of a BlockODE."""

    def initialize(self):
        self.options.declare("ode", types=vm.ODE)
        self.options.declare("part", types=int)

    def setup(self):
        ode, part = self.options["ode"], self.options["part"]
        self.qs = [q for q in ode.quantities if q["part"] == part]
        self.us = [q for q in ode.indep if q["part"] == part]
        self.rows = np.flatnonzero(ode.part == part)
        self.upper = np.flatnonzero(ode.part == ALL)
        if part == ALL and ode.spec["use_time"]:
            self.add_input("time", shape=1, tags=["time_variable"])
        for q in self.qs:
            if q["has_state"]:
                for end, tag in (
                    ("_old", "step_input_var"),
                    ("_acc", "accumulated_stage_var"),
                ):
                    self.add_input(
                        q["name"] + end, shape=q["shape"], tags=[q["name"], tag]
                    )
            self.add_output(
                q["name"] + "_k", shape=q["shape"], tags=[q["name"], "stage_output_var"]
            )
        for q in self.us:
            self.add_input(
                q["name"] + "_in",
                shape=q["shape"],
                tags=[q["name"], "time_independent_input_var"],
            )
        if part == ALL:
            self.add_output("state", shape=len(self.rows))
        elif len(self.upper):
            self.add_input("state", shape=len(self.upper))

    def _da(self):
        return self.om_data_exchange.step_size * self.om_data_exchange.stage_factor

    def _stage(self, inputs):
        ode, part = self.options["ode"], self.options["part"]
        t = inputs["time"][0] if part == ALL and ode.spec["use_time"] else 0.0
        dt, da = self.om_data_exchange.step_size, self._da()
        x, p = np.zeros(ode.n), np.zeros(ode.m)
        if part != ALL and len(self.upper):
            x[self.upper] = inputs["state"]
        for q in self.qs:
            if q["has_state"]:
                x[ode.slices[q["name"]]] = (
                    inputs[q["name"] + "_old"] + dt * inputs[q["name"] + "_acc"]
                ).ravel()
        for q in self.us:
            p[ode.islices[q["name"]]] = inputs[q["name"] + "_in"].ravel()
        rows = self.rows
        base = x[rows].copy()
        k = ode.f(t, x, p)[rows]
        for _ in range(60 if da != 0.0 else 0):
            x[rows] = base + da * k
            res = k - ode.f(t, x, p)[rows]
            M = np.eye(len(rows)) - da * ode.jx(t, x, p)[np.ix_(rows, rows)]
            dk = np.linalg.solve(M, -res)
            k = k + dk
            if np.max(np.abs(dk)) <= 1e-14 * (1.0 + np.max(np.abs(k))):
                break
        x[rows] = base + da * k
        return t, x, p, k

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        ode = self.options["ode"]
        _, x, _, k = self._stage(inputs)
        full = np.zeros(ode.n)
        full[self.rows] = k
        for q in self.qs:
            outputs[q["name"] + "_k"] = full[ode.slices[q["name"]]].reshape(q["shape"])
        if self.options["part"] == ALL:
            outputs["state"] = x[self.rows]

    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        ode, part, rows = self.options["ode"], self.options["part"], self.rows
        dt, da = self.om_data_exchange.step_size, self._da()
        t, x, p, _ = self._stage(inputs)
        Jx, Jp, Jt = ode.jx(t, x, p)[rows], ode.jp(t, x, p)[rows], ode.jt(t, x, p)[rows]
        M = np.eye(len(rows)) - da * Jx[:, rows]
        # columns: base of the own states, everything else
        cols = []
        if "time" in d_inputs:
            cols.append(("time", Jt.reshape(-1, 1), None))
        for q in self.qs:
            if q["has_state"]:
                sl = ode.slices[q["name"]]
                place = np.zeros((ode.n, sl.stop - sl.start))
                place[sl] = np.eye(sl.stop - sl.start)
                cols.append((q["name"] + "_old", Jx[:, sl], place[rows]))
                cols.append((q["name"] + "_acc", dt * Jx[:, sl], dt * place[rows]))
        for q in self.us:
            cols.append((q["name"] + "_in", Jp[:, ode.islices[q["name"]]], None))
        if part != ALL and len(self.upper):
            cols.append(("state", Jx[:, self.upper], None))
        if mode == "fwd":
            rhs, direct = np.zeros(len(rows)), np.zeros(len(rows))
            for name, J, place in cols:
                if name in d_inputs:
                    rhs += J @ d_inputs[name].ravel()
                    if place is not None:
                        direct += place @ d_inputs[name].ravel()
            full = np.zeros(ode.n)
            dk = np.linalg.solve(M, rhs)
            full[rows] = dk
            for q in self.qs:
                d_outputs[q["name"] + "_k"] += full[ode.slices[q["name"]]].reshape(
                    q["shape"]
                )
            if part == ALL and "state" in d_outputs:
                d_outputs["state"] += direct + da * dk
        else:
            full = np.zeros(ode.n)
            for q in self.qs:
                full[ode.slices[q["name"]]] = d_outputs[q["name"] + "_k"].ravel()
            w = full[rows]
            ws = np.zeros(len(rows))
            if part == ALL and "state" in d_outputs:
                ws = np.array(d_outputs["state"])
            z = np.linalg.solve(M.T, w + da * ws)
            for name, J, place in cols:
                if name in d_inputs:
                    v = J.T @ z
                    if place is not None:
                        v = v + place.T @ ws
                    d_inputs[name] += v.reshape(d_inputs[name].shape)


def build_group(ode, comm):
    """Blocks of ranks in a parallel group, after the block that all ranks have."""
    prob = om.Problem(comm=comm)

    def ivc(part):
        comp = om.IndepVarComp()
        empty = True
        for q in ode.quantities + ode.indep:
            if q["part"] != part or not q.get("has_state", True):
                continue
            for end in ["_in"] if q in ode.indep else ["_old", "_acc"]:
                comp.add_output(q["name"] + end, val=np.zeros(q["shape"]))
                empty = False
        if part == ALL and ode.spec["use_time"]:
            comp.add_output("time", val=0.0)
            empty = False
        return None if empty else comp

    upper = any(q["part"] == ALL for q in ode.quantities)
    if upper:
        if ivc(ALL) is not None:
            prob.model.add_subsystem("ivc", ivc(ALL), promotes=["*"])
        prob.model.add_subsystem("upper", Block(ode=ode, part=ALL), promotes=["*"])
    group = om.ParallelGroup()
    for part in range(comm.size):
        sub = om.Group()
        if ivc(part) is not None:
            sub.add_subsystem("ivc", ivc(part), promotes=["*"])
        sub.add_subsystem("block", Block(ode=ode, part=part), promotes=["*"])
        group.add_subsystem(f"part{part}", sub)
    prob.model.add_subsystem("parallel", group)
    if upper:
        for part in range(comm.size):
            prob.model.connect("state", f"parallel.part{part}.state")
    return prob


def build(ode, comm):
    """The inner problem of a case on a communicator."""
    if ode.spec["arch"] == "group":
        return build_group(ode, comm)
    prob = om.Problem(comm=comm)
    cls = {"explicit": DistExplicit, "implicit": DistImplicit}[ode.spec["arch"]]
    comp = cls(ode=ode)
    if ode.spec.get("ivc", True):
        ivc = om.IndepVarComp()
        for q in ode.quantities + ode.indep:
            part = Part(q, comm)
            ends = ["_in"] if q in ode.indep else ["_old", "_acc"]
            if not q.get("has_state", True):
                ends = []
            for end in ends:
                ivc.add_output(
                    q["name"] + end,
                    val=np.zeros(part.local_shape),
                    distributed=bool(part.dist),
                )
        if ode.spec["use_time"]:
            ivc.add_output("time", val=0.0)
        if ode.spec["use_time"] or ode.indep or any(
            q["has_state"] for q in ode.quantities
        ):
            prob.model.add_subsystem("ivc", ivc, promotes=["*"])
    prob.model.add_subsystem("comp", comp, promotes=["*"])
    return prob


def outer_inputs(ode, comm):
    ivc = om.IndepVarComp()
    ivc.add_output("time_initial", val=0.0)
    for q in ode.quantities:
        part = Part(q, comm)
        ivc.add_output(
            q["name"] + "_initial",
            val=np.zeros(part.local_shape),
            distributed=bool(part.dist),
        )
    for q in ode.indep:
        part = Part(q, comm)
        ivc.add_output(
            q["name"], val=np.zeros(part.local_shape), distributed=bool(part.dist)
        )
    return ivc
