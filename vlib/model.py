"""Generated stage models, tableaux and the reference Runge-Kutta model (the oracle).

Everything is built from plain-data cases.  The ODE family is

    f(t, x, p) = A x + B p + s * sin(W x + P p + v t + phi) + r

over the concatenation x of all time-integrated quantities and the concatenation p of
all time-independent inputs.  It is nonlinear, time dependent, couples all quantities and
has closed form Jacobians; the coefficients are expanded deterministically from an integer
of the case.
"""

from __future__ import annotations

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from rkopenmdao import butcher_tableaux as _bt
from rkopenmdao.butcher_tableau import ButcherTableau, EmbeddedButcherTableau
from rkopenmdao.components import ExplicitUnsteadyComponent, ImplicitUnsteadyComponent
from rkopenmdao.utils.utility_components import StageValueComponent

from .driver import Violation

SHIPPED = sorted(n for n in dir(_bt) if isinstance(getattr(_bt, n), ButcherTableau))
SHIPPED_EMBEDDED = [n for n in SHIPPED if getattr(_bt, n).is_embedded]


# --------------------------------------------------------------------------- tableaux
class Tab:
    """Plain-number tableau for the reference model."""

    def __init__(self, A, b, c, bhat=None):
        self.A = np.array(A, float)
        self.b = np.array(b, float)
        self.c = np.array(c, float)
        self.bhat = None if bhat is None else np.array(bhat, float)
        self.s = len(self.b)


def coef(lo, hi, den=16):
    return st.integers(int(lo * den), int(hi * den)).map(lambda k: k / den)


@st.composite
def random_tableau(draw, embedded=None, max_stages=4, kinds=None):
    s = draw(st.integers(1, max_stages))
    sparse = draw(st.sampled_from([False, False, True]))
    if max_stages >= 4 and draw(st.integers(0, 24)) == 11:
        s, sparse = draw(st.sampled_from([9, 10, 11, 12])), True
    entry = coef(-0.75, 1.0)
    weight = coef(-0.75, 1.25)
    if sparse:
        entry = st.one_of(st.just(0.0), entry)
        weight = st.one_of(st.just(0.0), weight)
    kind = draw(
        st.sampled_from(kinds or ["explicit", "sdirk", "esdirk", "dirk", "mixed"])
    )
    A = [[0.0] * s for _ in range(s)]
    gamma = draw(coef(0.1, 1.0))
    for i in range(s):
        for j in range(i):
            A[i][j] = draw(entry)
        if kind == "sdirk" or (kind == "esdirk" and i > 0):
            A[i][i] = gamma
        elif kind == "dirk":
            A[i][i] = draw(coef(0.1, 1.0))
        elif kind == "mixed":
            A[i][i] = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, -0.25]))
    b = [draw(weight) for _ in range(s)]
    c = draw(st.one_of(st.none(), st.lists(coef(-0.5, 1.5), min_size=s, max_size=s)))
    emb = draw(st.booleans()) if embedded is None else embedded
    bhat = [draw(weight) for _ in range(s)] if emb else None
    return {
        "kind": "random",
        "A": A,
        "b": b,
        "c": c,
        "bhat": bhat,
        "p": draw(st.integers(1, 5)),
        "phat": draw(st.integers(1, 5)),
    }


def shipped_tableau(embedded=None):
    names = SHIPPED if embedded is None else SHIPPED_EMBEDDED
    return st.sampled_from(names).map(lambda n: {"kind": "shipped", "name": n})


def tableau(embedded=None, **kw):
    return st.one_of(random_tableau(embedded=embedded, **kw), shipped_tableau(embedded))


def build_tableau(spec):
    """-> (repo tableau object, Tab)"""
    if spec["kind"] == "shipped":
        obj = getattr(_bt, spec["name"])
        bh = obj.butcher_adaptive_weights if obj.is_embedded else None
        return obj, Tab(
            obj.butcher_matrix, obj.butcher_weight_vector, obj.butcher_time_stages, bh
        )
    A = np.array(spec["A"])
    b = np.array(spec["b"])
    c = None if spec["c"] is None else np.array(spec["c"])
    if spec.get("bhat") is not None:
        obj = EmbeddedButcherTableau(
            butcher_matrix=A,
            butcher_weight_vector=b,
            butcher_adaptive_weights=np.array(spec["bhat"]),
            butcher_time_stages=c,
            p=spec["p"],
            phat=spec["phat"],
            name="generated",
        )
    else:
        obj = ButcherTableau(
            butcher_matrix=A,
            butcher_weight_vector=b,
            butcher_time_stages=c,
            p=spec["p"],
            name="generated",
        )
    return obj, Tab(
        spec["A"],
        spec["b"],
        np.sum(np.array(spec["A"]), axis=1) if spec["c"] is None else spec["c"],
        spec.get("bhat"),
    )


# ---------------------------------------------------------------------------- ODE spec
SHAPES = [[1], [2], [3], [1, 2], [2, 2], [3, 1], [1, 1, 2], [2, 1, 2]]
ARCHS = [
    "explicit_mf",
    "explicit_partials",
    "implicit_solve",
    "implicit_newton",
    "split",
    "split_nested",
]


@st.composite
def ode_spec(
    draw,
    archs=None,
    max_quantities=3,
    max_state=6,
    max_indep=2,
    shapes=None,
    wide=False,
):
    shapes = shapes or SHAPES
    if wide and draw(st.integers(0, 11)) == 7:
        # now and then a lot of everything
        max_quantities, max_state, max_indep = 6, 40, 4
        shapes = shapes + [[5], [12], [3, 4], [2, 3, 2]]
    nq = draw(st.integers(1, max_quantities))
    quantities = []
    nested = draw(st.sampled_from([False, False, True]))  # names starting alike
    left = max_state
    for i in range(nq):
        cand = [s for s in shapes if int(np.prod(s)) <= left - (nq - 1 - i)]
        shape = draw(st.sampled_from(cand))
        left -= int(np.prod(shape))
        quantities.append(
            {
                "name": "q" + "x" * i if nested else f"q{i}",
                "shape": shape,
                "has_state": draw(st.sampled_from([True, True, True, False])),
            }
        )
    ni = draw(st.integers(0, max_indep))
    indep = [
        {"name": "u" + "x" * i if nested else f"u{i}", "shape": draw(st.sampled_from([[1], [2], [1, 2]]))}
        for i in range(ni)
    ]
    return {
        "quantities": quantities,
        "indep": indep,
        "use_time": draw(st.booleans()),
        "coef": draw(st.integers(0, 100000)),
        "arch": draw(st.sampled_from(archs or ARCHS)),
        "ivc": draw(st.booleans()),
        "scaled": draw(st.sampled_from([False, False, False, True])),
        "q_order": list(draw(st.permutations(range(nq)))),
        "i_order": list(draw(st.permutations(range(ni)))),
    }


def size(shape):
    return int(np.prod(shape))


class ODE:
    """The concrete right hand side of a case, with Jacobians.  Reference side."""

    def __init__(self, spec):
        self.spec = spec
        self.quantities = spec["quantities"]
        self.indep = spec["indep"]
        self.n = sum(size(q["shape"]) for q in self.quantities)
        self.m = sum(size(q["shape"]) for q in self.indep)
        rng = np.random.RandomState(spec["coef"])
        n, m = self.n, self.m
        self.A = rng.uniform(-1, 1, (n, n)) / np.sqrt(n)
        self.W = rng.uniform(-1, 1, (n, n)) / np.sqrt(n)
        self.B = rng.uniform(-1, 1, (n, m))
        self.P = rng.uniform(-1, 1, (n, m))
        self.s = rng.uniform(-1, 1, n)
        self.v = rng.uniform(-2, 2, n) * (1.0 if spec["use_time"] else 0.0)
        self.phi = rng.uniform(-2, 2, n)
        self.r = rng.uniform(-0.5, 0.5, n)
        gain = spec.get("gain", 1.0)
        self.A *= gain
        self.slices = {}
        off = 0
        for q in self.quantities:
            k = size(q["shape"])
            self.slices[q["name"]] = slice(off, off + k)
            if not q["has_state"]:
                self.A[:, off : off + k] = 0.0
                self.W[:, off : off + k] = 0.0
            off += k
        self.islices = {}
        off = 0
        for q in self.indep:
            k = size(q["shape"])
            self.islices[q["name"]] = slice(off, off + k)
            off += k

    def _z(self, t, x, p):
        return self.W @ x + self.P @ p + self.v * t + self.phi

    def f(self, t, x, p):
        return self.A @ x + self.B @ p + self.s * np.sin(self._z(t, x, p)) + self.r

    @property
    def lipschitz(self):
        """Bound for the Lipschitz constant of f in x."""
        return np.linalg.norm(self.A, np.inf) + np.max(np.abs(self.s)) * np.linalg.norm(
            self.W, np.inf
        )

    def jx(self, t, x, p):
        return self.A + (self.s * np.cos(self._z(t, x, p)))[:, None] * self.W

    def jp(self, t, x, p):
        return self.B + (self.s * np.cos(self._z(t, x, p)))[:, None] * self.P

    def jt(self, t, x, p):
        return self.s * np.cos(self._z(t, x, p)) * self.v

    def solve_stage(self, t, base, da, p):
        """k = f(t, base + da*k, p)"""
        k = self.f(t, base, p)
        if da == 0.0:
            return k
        for _ in range(60):
            x = base + da * k
            res = k - self.f(t, x, p)
            M = np.eye(self.n) - da * self.jx(t, x, p)
            dk = np.linalg.solve(M, -res)
            k = k + dk
            if np.max(np.abs(dk)) <= 1e-14 * (1.0 + np.max(np.abs(k))):
                return k
        return k

    # names <-> flat
    def flat(self, values):
        return np.concatenate(
            [np.asarray(values[q["name"]], float).ravel() for q in self.quantities]
        )

    def flat_p(self, values):
        if not self.indep:
            return np.zeros(0)
        return np.concatenate(
            [np.asarray(values[q["name"]], float).ravel() for q in self.indep]
        )


class Ref:
    """Reference Runge-Kutta recursion, with exact Jacobians of the discrete map."""

    def __init__(self, ode, tab):
        self.ode = ode
        self.tab = tab

    def step(self, t, x, p, dt, jac=None):
        """One step.  jac: None or (dX, dP?) matrix of d x / d(x0,p,t0); returns
        (x_new, stages k, X_stages, jac_new, err)."""
        ode, tab = self.ode, self.tab
        ks, xs, ts = [], [], []
        dks = []
        n, m = ode.n, ode.m
        for i in range(tab.s):
            base = x + dt * sum(
                (tab.A[i, j] * ks[j] for j in range(i)), np.zeros(n)
            )
            ti = t + tab.c[i] * dt
            da = dt * tab.A[i, i]
            k = ode.solve_stage(ti, base, da, p)
            X = base + da * k
            ks.append(k)
            xs.append(X)
            ts.append(ti)
            if jac is not None:
                dbase = jac + dt * sum(
                    (tab.A[i, j] * dks[j] for j in range(i)), np.zeros_like(jac)
                )
                Jx = ode.jx(ti, X, p)
                rhs = Jx @ dbase
                rhs[:, n : n + m] += ode.jp(ti, X, p)
                rhs[:, n + m] += ode.jt(ti, X, p)
                dks.append(np.linalg.solve(np.eye(n) - da * Jx, rhs))
        x_new = x + dt * sum((tab.b[i] * ks[i] for i in range(tab.s)), np.zeros(n))
        jac_new = None
        if jac is not None:
            jac_new = jac + dt * sum(
                (tab.b[i] * dks[i] for i in range(tab.s)), np.zeros_like(jac)
            )
        emb = None
        if tab.bhat is not None:
            emb = x + dt * sum((tab.bhat[i] * ks[i] for i in range(tab.s)), np.zeros(n))
        return {
            "x": x_new,
            "k": np.array(ks),
            "X": np.array(xs),
            "ts": np.array(ts),
            "jac": jac_new,
            "emb": emb,
            "t": t + dt,
        }

    def run(self, t0, x0, p, dts, with_jac=False):
        """-> dict(t, x, J) ; J: d x_final / d(x0, p, t0) with step sizes frozen."""
        n, m = self.ode.n, self.ode.m
        jac = np.zeros((n, n + m + 1)) if with_jac else None
        if with_jac:
            jac[:, :n] = np.eye(n)
        t, x = float(t0), np.array(x0, float)
        traj = [(t, x.copy())]
        steps = []
        for dt in dts:
            res = self.step(t, x, p, dt, jac)
            t, x, jac = res["t"], res["x"], res["jac"]
            traj.append((t, x.copy()))
            steps.append(res)
        return {"t": t, "x": x, "J": jac, "traj": traj, "steps": steps}


# ------------------------------------------------------------- OpenMDAO implementations
class FaultInjected(Exception):
    """Raised by a generated stage model on purpose."""


class Fault:
    """Arms a failure of the stage model at the n-th following evaluation."""

    def __init__(self):
        self.countdown = None

    def tick(self):
        if self.countdown is not None:
            self.countdown -= 1
            if self.countdown < 0:
                self.countdown = None
                raise FaultInjected("injected failure of the stage model")


class _MonoMixin:
    def _declare(self):
        self.options.declare("ode", types=ODE)
        self.options.declare("fault", default=None, allow_none=True)

    def _add_io(self):
        ode = self.options["ode"]
        if ode.spec["use_time"]:
            self.add_input("time", shape=1, tags=["time_variable"])
        for q in ode.quantities:
            shape = tuple(q["shape"])
            if q["has_state"]:
                self.add_input(
                    q["name"] + "_old",
                    val=default_value(q["name"], shape),
                    shape=shape,
                    tags=[q["name"], "step_input_var"],
                )
                self.add_input(
                    q["name"] + "_acc",
                    val=0.0,
                    shape=shape,
                    tags=[q["name"], "accumulated_stage_var"],
                )
            self.add_output(
                q["name"] + "_k",
                shape=shape,
                tags=[q["name"], "stage_output_var"],
                **scaling(ode, q),
            )
        for q in ode.indep:
            shape = tuple(q["shape"])
            self.add_input(
                q["name"] + "_in",
                val=default_value(q["name"], shape),
                shape=shape,
                tags=[q["name"], "time_independent_input_var"],
            )

    def _in_names(self):
        ode = self.options["ode"]
        names = []
        if ode.spec["use_time"]:
            names.append("time")
        for q in ode.quantities:
            if q["has_state"]:
                names += [q["name"] + "_old", q["name"] + "_acc"]
        for q in ode.indep:
            names.append(q["name"] + "_in")
        return names

    def _gather(self, inputs):
        ode = self.options["ode"]
        dt = self.om_data_exchange.step_size
        t = inputs["time"][0] if ode.spec["use_time"] else 0.0
        base = np.zeros(ode.n)
        for q in ode.quantities:
            if q["has_state"]:
                base[ode.slices[q["name"]]] = (
                    inputs[q["name"] + "_old"].ravel()
                    + dt * inputs[q["name"] + "_acc"].ravel()
                )
        p = np.zeros(ode.m)
        for q in ode.indep:
            p[ode.islices[q["name"]]] = inputs[q["name"] + "_in"].ravel()
        return t, base, p

    def _da(self):
        return self.om_data_exchange.step_size * self.om_data_exchange.stage_factor

    def _get_k(self, outputs):
        ode = self.options["ode"]
        k = np.zeros(ode.n)
        for q in ode.quantities:
            k[ode.slices[q["name"]]] = outputs[q["name"] + "_k"].ravel()
        return k

    def _put_k(self, k, outputs):
        ode = self.options["ode"]
        for q in ode.quantities:
            outputs[q["name"] + "_k"] = k[ode.slices[q["name"]]].reshape(
                tuple(q["shape"])
            )

    def _input_jac(self, name, Jx, Jp, Jt, ode, dt):
        """d f / d input(name) at fixed k"""
        if name == "time":
            return Jt.reshape(-1, 1)
        if name.endswith("_old"):
            return Jx[:, ode.slices[name[:-4]]]
        if name.endswith("_acc"):
            return dt * Jx[:, ode.slices[name[:-4]]]
        return Jp[:, ode.islices[name[:-3]]]


def scaling(ode, q):
    """Solver scaling of a stage output (must not influence any result)."""
    # OpenMDAO's DirectSolver(assemble_jac=False), which the split architectures need for
    # the matrix free StageValueComponent, is itself wrong for scaled outputs in rev mode
    if not ode.spec.get("scaled") or ode.spec["arch"].startswith("split"):
        return {}
    return {"ref": 2.0 + len(q["shape"]), "ref0": 0.25, "res_ref": 3.0}


def default_value(name, shape):
    h = sum(ord(ch) * (i + 3) for i, ch in enumerate(name)) % 17
    return (0.1 * (h - 8) + 0.05 * np.arange(size(shape))).reshape(shape)


class MonoExplicit(_MonoMixin, ExplicitUnsteadyComponent):
    """All quantities in one explicit component, solved by its own Newton iteration."""

    def initialize(self):
        self._declare()
        self.options.declare("matrix_free", types=bool, default=True)

    def setup(self):
        self._add_io()
        if not self.options["matrix_free"] and self._in_names():
            self.declare_partials("*", "*")

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        t, base, p = self._gather(inputs)
        self._put_k(
            self.options["ode"].solve_stage(t, base, self._da(), p), outputs
        )

    def _lin(self, inputs):
        ode = self.options["ode"]
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        t, base, p = self._gather(inputs)
        da = self._da()
        k = ode.solve_stage(t, base, da, p)
        X = base + da * k
        Jx, Jp, Jt = ode.jx(t, X, p), ode.jp(t, X, p), ode.jt(t, X, p)
        M = np.linalg.inv(np.eye(ode.n) - da * Jx)
        return M, Jx, Jp, Jt

    def _full(self, inputs):
        ode = self.options["ode"]
        dt = self.om_data_exchange.step_size
        M, Jx, Jp, Jt = self._lin(inputs)
        return {
            nm: M @ self._input_jac(nm, Jx, Jp, Jt, ode, dt) for nm in self._in_names()
        }


class MonoExplicitMF(MonoExplicit):
    def compute_jacvec_product(
        self, inputs, d_inputs, d_outputs, mode, discrete_inputs=None
    ):
        ode = self.options["ode"]
        full = self._full(inputs)
        for nm, J in full.items():
            if nm not in d_inputs:
                continue
            for q in ode.quantities:
                on = q["name"] + "_k"
                if on not in d_outputs:
                    continue
                blk = J[ode.slices[q["name"]], :]
                if mode == "fwd":
                    d_outputs[on] += (blk @ d_inputs[nm].ravel()).reshape(
                        d_outputs[on].shape
                    )
                else:
                    d_inputs[nm] += (blk.T @ d_outputs[on].ravel()).reshape(
                        d_inputs[nm].shape
                    )


class MonoExplicitPartials(MonoExplicit):
    def compute_partials(self, inputs, partials, discrete_inputs=None):
        ode = self.options["ode"]
        full = self._full(inputs)
        for nm, J in full.items():
            for q in ode.quantities:
                partials[q["name"] + "_k", nm] = J[ode.slices[q["name"]], :]


class MonoImplicit(_MonoMixin, ImplicitUnsteadyComponent):
    """All quantities in one implicit component: residual k - f(t, base + da k, p)."""

    def initialize(self):
        self._declare()

    def setup(self):
        self._add_io()

    def apply_nonlinear(
        self, inputs, outputs, residuals, discrete_inputs=None, discrete_outputs=None
    ):
        ode = self.options["ode"]
        t, base, p = self._gather(inputs)
        k = self._get_k(outputs)
        self._put_k(k - ode.f(t, base + self._da() * k, p), residuals)

    def _lin(self, inputs, outputs):
        ode = self.options["ode"]
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        t, base, p = self._gather(inputs)
        da = self._da()
        X = base + da * self._get_k(outputs)
        return ode.jx(t, X, p), ode.jp(t, X, p), ode.jt(t, X, p), da


class MonoImplicitSolve(MonoImplicit):
    """Provides its own nonlinear and linear solves; matrix free."""

    def solve_nonlinear(self, inputs, outputs):
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        t, base, p = self._gather(inputs)
        self._put_k(self.options["ode"].solve_stage(t, base, self._da(), p), outputs)

    def linearize(
        self, inputs, outputs, jacobian, discrete_inputs=None, discrete_outputs=None
    ):
        self._store = self._lin(inputs, outputs)

    def apply_linear(self, inputs, outputs, d_inputs, d_outputs, d_residuals, mode):
        ode = self.options["ode"]
        Jx, Jp, Jt, da = self._lin(inputs, outputs)
        dt = self.om_data_exchange.step_size
        M = np.eye(ode.n) - da * Jx
        if mode == "fwd":
            acc = np.zeros(ode.n)
            for q in ode.quantities:
                on = q["name"] + "_k"
                if on in d_outputs:
                    acc += M[:, ode.slices[q["name"]]] @ d_outputs[on].ravel()
            for nm in self._in_names():
                if nm in d_inputs:
                    acc -= (
                        self._input_jac(nm, Jx, Jp, Jt, ode, dt) @ d_inputs[nm].ravel()
                    )
            for q in ode.quantities:
                on = q["name"] + "_k"
                if on in d_residuals:
                    d_residuals[on] += acc[ode.slices[q["name"]]].reshape(
                        d_residuals[on].shape
                    )
        else:
            res = np.zeros(ode.n)
            for q in ode.quantities:
                on = q["name"] + "_k"
                if on in d_residuals:
                    res[ode.slices[q["name"]]] = d_residuals[on].ravel()
            for q in ode.quantities:
                on = q["name"] + "_k"
                if on in d_outputs:
                    d_outputs[on] += (M[:, ode.slices[q["name"]]].T @ res).reshape(
                        d_outputs[on].shape
                    )
            for nm in self._in_names():
                if nm in d_inputs:
                    d_inputs[nm] -= (
                        self._input_jac(nm, Jx, Jp, Jt, ode, dt).T @ res
                    ).reshape(d_inputs[nm].shape)

    def solve_linear(self, d_outputs, d_residuals, mode):
        ode = self.options["ode"]
        Jx, _, _, da = self._store
        M = np.eye(ode.n) - da * Jx
        if mode == "fwd":
            self._put_k(np.linalg.solve(M, self._get_k(d_residuals)), d_outputs)
        else:
            self._put_k(np.linalg.solve(M.T, self._get_k(d_outputs)), d_residuals)


class MonoImplicitNewton(MonoImplicit):
    """Left to OpenMDAO's Newton and direct solvers."""

    def setup(self):
        self._add_io()
        self.declare_partials("*", "*")
        self.nonlinear_solver = om.NewtonSolver(
            solve_subsystems=False, atol=1e-14, rtol=1e-30, maxiter=8, iprint=-1
        )
        self.linear_solver = om.DirectSolver()

    def linearize(
        self, inputs, outputs, jacobian, discrete_inputs=None, discrete_outputs=None
    ):
        ode = self.options["ode"]
        Jx, Jp, Jt, da = self._lin(inputs, outputs)
        dt = self.om_data_exchange.step_size
        M = np.eye(ode.n) - da * Jx
        for q in ode.quantities:
            on = q["name"] + "_k"
            rows = ode.slices[q["name"]]
            for q2 in ode.quantities:
                jacobian[on, q2["name"] + "_k"] = M[rows, ode.slices[q2["name"]]]
            for nm in self._in_names():
                jacobian[on, nm] = -self._input_jac(nm, Jx, Jp, Jt, ode, dt)[rows, :]


class Discipline(om.ExplicitComponent):
    """Slope of one quantity from the stage values of all quantities (plain OpenMDAO
    component, no knowledge of the time integration)."""

    def initialize(self):
        self.options.declare("ode", types=ODE)
        self.options.declare("index", types=int)
        self.options.declare("fault", default=None, allow_none=True)

    def setup(self):
        ode = self.options["ode"]
        q = ode.quantities[self.options["index"]]
        self._q = q
        if ode.spec["use_time"]:
            self.add_input(
                "time",
                shape=1,
                tags=["time_variable"] if self.options["index"] == 0 else [],
            )
        for o in ode.quantities:
            if o["has_state"]:
                self.add_input(o["name"] + "_stage", shape=tuple(o["shape"]))
        for o in ode.indep:
            self.add_input(
                o["name"] + "_in",
                val=default_value(o["name"], tuple(o["shape"])),
                shape=tuple(o["shape"]),
                tags=(
                    [o["name"], "time_independent_input_var"]
                    if self.options["index"] == 0
                    else []
                ),
            )
        self.add_output(
            q["name"] + "_k",
            shape=tuple(q["shape"]),
            tags=[q["name"], "stage_output_var"],
            **scaling(ode, q),
        )
        if (
            ode.spec["use_time"]
            or ode.indep
            or any(o["has_state"] for o in ode.quantities)
        ):
            self.declare_partials("*", "*")

    def _gather(self, inputs):
        ode = self.options["ode"]
        t = inputs["time"][0] if ode.spec["use_time"] else 0.0
        x = np.zeros(ode.n)
        for o in ode.quantities:
            if o["has_state"]:
                x[ode.slices[o["name"]]] = inputs[o["name"] + "_stage"].ravel()
        p = np.zeros(ode.m)
        for o in ode.indep:
            p[ode.islices[o["name"]]] = inputs[o["name"] + "_in"].ravel()
        return t, x, p

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        ode, q = self.options["ode"], self._q
        t, x, p = self._gather(inputs)
        outputs[q["name"] + "_k"] = ode.f(t, x, p)[ode.slices[q["name"]]].reshape(
            tuple(q["shape"])
        )

    def compute_partials(self, inputs, partials, discrete_inputs=None):
        if self.options["fault"] is not None:
            self.options["fault"].tick()
        ode, q = self.options["ode"], self._q
        t, x, p = self._gather(inputs)
        rows = ode.slices[q["name"]]
        on = q["name"] + "_k"
        Jx, Jp, Jt = ode.jx(t, x, p), ode.jp(t, x, p), ode.jt(t, x, p)
        if ode.spec["use_time"]:
            partials[on, "time"] = Jt[rows].reshape(-1, 1)
        for o in ode.quantities:
            if o["has_state"]:
                partials[on, o["name"] + "_stage"] = Jx[rows, ode.slices[o["name"]]]
        for o in ode.indep:
            partials[on, o["name"] + "_in"] = Jp[rows, ode.islices[o["name"]]]


def build_stage_problem(ode, fault=None, comm=None):
    """The inner OpenMDAO problem of a case (not set up)."""
    spec = ode.spec
    prob = om.Problem() if comm is None else om.Problem(comm=comm)
    arch = spec["arch"]
    if arch.startswith("split"):
        _build_split(prob, ode, fault, nested=arch == "split_nested")
        return prob
    cls = {
        "explicit_mf": MonoExplicitMF,
        "explicit_partials": MonoExplicitPartials,
        "implicit_solve": MonoImplicitSolve,
        "implicit_newton": MonoImplicitNewton,
    }[arch]
    kw = {"ode": ode, "fault": fault}
    if arch == "explicit_partials":
        kw["matrix_free"] = False
    comp = cls(**kw)
    if spec["ivc"] and (ode.indep or any(q["has_state"] for q in ode.quantities)):
        ivc = om.IndepVarComp()
        for q in ode.quantities:
            if q["has_state"]:
                shape = tuple(q["shape"])
                ivc.add_output(q["name"] + "_old", val=default_value(q["name"], shape))
                ivc.add_output(q["name"] + "_acc", val=np.zeros(shape))
        for q in ode.indep:
            ivc.add_output(
                q["name"] + "_in", val=default_value(q["name"], tuple(q["shape"]))
            )
        prob.model.add_subsystem("ivc", ivc, promotes=["*"])
        prob.model.add_subsystem("comp", comp, promotes=["*"])
    else:
        prob.model.add_subsystem("comp", comp)
    return prob


def _build_split(prob, ode, fault, nested):
    spec = ode.spec
    model = prob.model
    group = model
    if nested:
        group = model.add_subsystem("cycle", om.Group(), promotes=["*"])
    order = spec["q_order"]
    for i in order:
        q = ode.quantities[i]
        group.add_subsystem(
            "disc_" + q["name"],
            Discipline(ode=ode, index=i, fault=fault),
            promotes=["*"],
        )
        if q["has_state"]:
            group.add_subsystem(
                "val_" + q["name"],
                StageValueComponent(tag=q["name"]),
                promotes_inputs=[("stage_slope", q["name"] + "_k")],
                promotes_outputs=[("stage_value", q["name"] + "_stage")],
            )
    for q in ode.indep:
        group.set_input_defaults(
            q["name"] + "_in", val=default_value(q["name"], tuple(q["shape"]))
        )
    group.nonlinear_solver = om.NewtonSolver(
        solve_subsystems=False, atol=1e-14, rtol=1e-30, maxiter=8, iprint=-1
    )
    group.linear_solver = om.DirectSolver(assemble_jac=False)


def option_lists(ode):
    spec = ode.spec
    return (
        [ode.quantities[i]["name"] for i in spec["q_order"]],
        [ode.indep[i]["name"] for i in spec["i_order"]],
    )


# --------------------------------------------------------------------------- comparing
def close(got, want, tol=1e-8, what="", unit=1.0):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    if not np.all(np.isfinite(want)):
        return
    scale = unit + np.max(np.abs(want), initial=0.0)
    err = np.abs(got - want)
    if not np.all(err <= tol * scale):
        raise Violation(
            f"{what}: got {got.ravel().tolist()}, expected {want.ravel().tolist()} "
            f"(max deviation {np.nanmax(err) if err.size else 0:.3e}, allowed {tol * scale:.3e})"
        )


value = st.one_of(
    st.integers(-16, 16).map(lambda k: k / 8),
    st.floats(-2, 2, allow_nan=False).map(lambda v: round(v, 6)),
)


def vector(n):
    return st.lists(value, min_size=n, max_size=n)
