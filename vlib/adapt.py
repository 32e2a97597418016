"""Reference model of adaptive time stepping: controller formulas, fallback chain, loop.

The exponents are those of the literature the repository cites (Kennedy & Carpenter,
"Diagonally implicit Runge-Kutta methods ... A review", controllers of Soederlind):
    dt_new = safety dt (tol/e)^alpha (e1/tol)^beta (tol/e2)^gamma (dt/dt1)^a (dt1/dt2)^b
"""

from __future__ import annotations

import numpy as np

TABLE = {
    "pseudo": lambda p: (0.0, 0.0, 0.0, 0.0, 0.0),
    "integral": lambda p: (1 / (p + 1), 0.0, 0.0, 0.0, 0.0),
    "h0_110": lambda p: (1 / (p + 1), 0.0, 0.0, 0.0, 0.0),
    "h_211": lambda p: (1 / 4 / p, -1 / 4 / p, 0.0, -1 / 4, 0.0),
    "h0_211": lambda p: (1 / 2 / p, -1 / 2 / p, 0.0, -1 / 2, 0.0),
    "pc": lambda p: (2 / p, 1 / p, 0.0, 1.0, 0.0),
    "h0_220": lambda p: (2 / p, 1 / p, 0.0, 1.0, 0.0),
    "pid": lambda p: (1 / 18 / p, -1 / 9 / p, 1 / 18 / p, 0.0, 0.0),
    "h_312": lambda p: (1 / 8 / p, -1 / 4 / p, 1 / 8 / p, -3 / 8, -1 / 8),
    "h0_312": lambda p: (1 / 4 / p, -1 / 2 / p, 1 / 4 / p, -3 / 4, -1 / 4),
    "ppid": lambda p: (6 / 20 / p, -1 / 20 / p, -5 / 20 / p, 1.0, 0.0),
    "h_321": lambda p: (1 / 3 / p, -1 / 18 / p, -5 / 18 / p, 5 / 6, 1 / 6),
    "h0_321": lambda p: (5 / 4 / p, -1 / 2 / p, -3 / 4 / p, 1 / 4, 3 / 4),
    "h0_330": lambda p: (3 / p, 3 / p, 1 / p, 2.0, -1.0),
}

# families of controllers with the order conditions of their names, three free parameters
GENERAL = {
    "h_312_general": lambda p, k, a, b: (k / p, -2 * k / p, k / p, a, b),
    "h_321_general": lambda p, k, l, a: (k / p, l / p, -(k + l) / p, a, 1 - a),
    "h_330_general": lambda p, k, l, m: (k / p, l / p, m / p, 2.0, -1.0),
}


class ControllerError(Exception):
    """No controller of the chain could make a rejected step smaller."""


class Ambiguous(Exception):
    """A decision hangs on rounding noise; the case is not judged."""


def estimate(exps, tol, safety, e, dt, eh, dth):
    al, be, ga, a, b = exps
    if eh[0] == 0 or eh[1] == 0:
        raise Ambiguous  # the formula isn't defined for these
    new = safety * dt * (tol / e) ** al * (eh[0] / tol) ** be * (tol / eh[1]) ** ga
    if dth[0] != 0.0:
        new *= (dt / dth[0]) ** a
        if dth[1] != 0.0:
            new *= (dth[0] / dth[1]) ** b
    return new


class Chain:
    """controllers[0] decides; each further one takes over when the ones before it can't
    reduce a rejected step, until the step is accepted."""

    def __init__(self, exps, tol, lower, upper, safety, max_iter, noise=1e-6):
        self.exps = exps
        self.tol, self.lower, self.upper, self.safety = tol, lower, upper, safety
        self.max_iter = max_iter
        self.noise = noise
        self.reset()

    def reset(self):
        self.active = [False] * len(self.exps)  # fallback i holds the current step
        self.fell_back = False
        self.count = [0] * len(self.exps)

    def _single(self, i, e, dt, remaining, eh, dth):
        if self.tol > 0 and abs(e - self.tol) < self.noise * self.tol:
            raise Ambiguous
        if abs(dt - self.lower - 1e-10) < 1e-12 + self.noise * self.lower:
            raise Ambiguous
        ok = e <= self.tol or dt < self.lower + 1e-10
        if e != 0:
            new = estimate(self.exps[i], self.tol, self.safety, e, dt, eh, dth)
        else:
            new = dt
        new = max(self.lower, min(self.upper, new))
        new = min(remaining if ok else remaining + dt, new)
        return new, ok

    def _level(self, i, *args):
        e, dt, remaining, eh, dth = args
        if i == 0:
            return self._single(0, *args)
        if not self.active[i]:
            new, ok = self._level(i - 1, *args)
            if ok:
                self.count[i] = 0
                return new, ok
            self.count[i] += 1
            self._noise(new, dt)
            if new < dt and self.count[i] <= self.max_iter:
                return new, ok
            self.count[i] = 0
            self.fell_back = True
        new, ok = self._single(i, *args)
        if ok:
            # an accepted step ends the responsibility of all fallbacks
            self.active = [False] * len(self.exps)
            self.count = [0] * len(self.exps)
        else:
            self.active[i] = True
        return new, ok

    def _noise(self, new, dt):
        if abs(new - dt) < self.noise * dt and new != dt:
            raise Ambiguous

    def __call__(self, e, dt, remaining, eh, dth):
        new, ok = self._level(len(self.exps) - 1, e, dt, remaining, eh, dth)
        if not ok:
            self._noise(new, dt)
            if new >= dt:
                self.reset()
                raise ControllerError
        return new, ok


def exponents(spec, p):
    """Exponents of a shipped controller (by name), of a general one (by name and free
    parameters), or of a user defined one."""
    if isinstance(spec, str):
        return TABLE[spec](p)
    if isinstance(spec, dict):
        return GENERAL[spec["general"]](p, *spec["args"])
    return tuple(spec)


def one_step(ref, t, x, p, dt, chain, measure, eh, dth, final_time=None, limit=120):
    """Tries step sizes from dt on until one is accepted.
    -> accepted dt, error, next suggestion, number of rejected tries, result"""
    rejected = 0
    while True:
        if rejected > limit:
            raise Ambiguous
        if dt * np.max(np.abs(np.diag(ref.tab.A))) * ref.ode.lipschitz > 0.9:
            raise Ambiguous  # the stage equations may have several solutions
        res = ref.step(t, x, p, dt)
        e = measure(res["x"] - res["emb"], res["x"])
        # differences of states carry rounding noise of their own
        noise = 1e-9 * max(1.0, np.max(np.abs(x), initial=0.0)) * measure.unit
        if not np.isfinite(e) or e < noise:
            raise Ambiguous
        remaining = np.inf if final_time is None else final_time - (t + dt)
        new, ok = chain(e, dt, remaining, eh, dth)
        if ok:
            return dt, e, new, rejected, res
        rejected += 1
        dt = new


class Measure:
    """Reference of the error measures: norm of the estimate, maybe relative."""

    def __init__(self, spec, x0):
        self.spec = spec
        self.unit = self.factor(np.asarray(x0, float))

    def factor(self, x):
        if self.spec == "simple":
            return 1.0
        eta, eps = self.spec
        return 1.0 / (np.linalg.norm(x) + eta / eps)

    def __call__(self, est, x):
        return np.linalg.norm(est) * self.factor(x)
