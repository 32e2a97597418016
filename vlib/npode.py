"""Direct implementation of the ODE interface for generated right hand sides."""

from __future__ import annotations

import numpy as np

from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODE,
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)

from .driver import Violation


class NpODE(DiscretizedODE):
    """k = f(t, x + h (s + a k), p) with outputs o = C X + d t.  Linearization points
    hold (t, X, p).  Everything passed in is checked to be used consistently."""

    def __init__(self, ode, n_out=0, seed=0):
        self.ode = ode
        rng = np.random.RandomState(seed)
        self.C = rng.uniform(-1, 1, (n_out, ode.n))
        self.d = rng.uniform(-1, 1, n_out)
        self.n_out = n_out
        self.calls = []

    def compute_update(self, ode_input, step_size, stage_factor):
        ode = self.ode
        t = float(ode_input.time)
        x, s, p = (
            np.array(ode_input.step_input, float),
            np.array(ode_input.stage_input, float),
            np.array(ode_input.independent_input, float),
        )
        if x.shape != (ode.n,) or s.shape != (ode.n,) or p.shape != (ode.m,):
            raise Violation(f"ODE called with shapes {x.shape}, {s.shape}, {p.shape}")
        base = x + step_size * s
        da = step_size * stage_factor
        k = ode.solve_stage(t, base, da, p)
        X = base + da * k
        self.calls.append(("update", t, float(step_size), float(stage_factor)))
        return DiscretizedODEResultState(
            k, X, self.C @ X + self.d * t, np.concatenate([[t], X, p])
        )

    def _point(self, lin):
        n = self.ode.n
        if lin is None or lin.shape != (1 + n + self.ode.m,):
            raise Violation("derivative requested without valid linearization point")
        return float(lin[0]), np.array(lin[1 : 1 + n]), np.array(lin[1 + n :])

    def compute_update_derivative(self, ode_input_perturbation, step_size, stage_factor):
        i = ode_input_perturbation
        t, X, p = self._point(i.linearization_point)
        ode = self.ode
        da = step_size * stage_factor
        Jx = ode.jx(t, X, p)
        dbase = i.step_input + step_size * i.stage_input
        rhs = Jx @ dbase + ode.jp(t, X, p) @ i.independent_input
        rhs = rhs + ode.jt(t, X, p) * i.time
        dk = np.linalg.solve(np.eye(ode.n) - da * Jx, rhs)
        dX = dbase + da * dk
        self.calls.append(("fwd", t, float(step_size), float(stage_factor)))
        return DiscretizedODEResultState(dk, dX, self.C @ dX + self.d * i.time)

    def compute_update_adjoint_derivative(
        self, ode_result_perturbation, step_size, stage_factor
    ):
        r = ode_result_perturbation
        t, X, p = self._point(r.linearization_point)
        ode = self.ode
        da = step_size * stage_factor
        Jx = ode.jx(t, X, p)
        mu = np.array(r.stage_state, float) + self.C.T @ r.independent_output
        lam = np.array(r.stage_update, float)
        w = np.linalg.solve(np.eye(ode.n) - da * Jx.T, lam + da * mu)
        step_in = Jx.T @ w + mu
        self.calls.append(("rev", t, float(step_size), float(stage_factor)))
        return DiscretizedODEInputState(
            step_in,
            step_size * step_in,
            ode.jp(t, X, p).T @ w,
            float(ode.jt(t, X, p) @ w + self.d @ r.independent_output),
        )

    def compute_state_norm(self, state):
        return float(np.linalg.norm(state.stage_state))

    def get_state_size(self):
        return self.ode.n

    def get_independent_input_size(self):
        return self.ode.m

    def get_independent_output_size(self):
        return self.n_out

    def get_linearization_point_size(self):
        return 1 + self.ode.n + self.ode.m
