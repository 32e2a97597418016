"""C13: the ODE view of an OpenMDAO problem."""

import numpy as np
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation
from rkopenmdao.discretized_ode.discretized_ode import (
    DiscretizedODEInputState,
    DiscretizedODEResultState,
)
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE

PROPERTY = "C13"


@st.composite
def case_strategy(draw):
    spec = draw(vm.ode_spec(max_quantities=4))
    n_ops = draw(st.sampled_from([2, 3, 4, 5, 6, 8]))
    ops = []
    for i in range(n_ops):
        kind = draw(
            st.sampled_from(["eval", "fwd", "rev", "eval", "fwd", "rev", "overflow", "norm"])
        )
        if i == 0:
            kind = "eval"
        op = {"kind": kind, "seed": draw(st.integers(0, 10**6))}
        if kind == "eval":
            op["t"] = draw(integ.start_time)
            op["dt"] = draw(integ.step_size)
            op["factor"] = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0.435, -0.25]))
            op["ints"] = draw(st.sampled_from(["no", "no", "no", "repeat", "zero", "origin"]))
        else:
            op["which"] = draw(st.integers(0, 7))
            # zero parts of a seed, so that a single block of the Jacobian acts
            op["part"] = draw(
                st.sampled_from(["all", "all", "step", "stage", "indep", "time", "zero"])
            )
        if kind == "overflow":
            op["mode"] = draw(st.sampled_from(["fwd", "rev"]))
        ops.append(op)
    return {
        "ode": spec,
        "ops": ops,
        "mode": draw(st.sampled_from(["auto", "rev"])),
        "excluded": draw(st.integers(0, 15)),
        "order": draw(st.sampled_from([1.0, 2.0, 3.0, "inf", "-inf", 0.0])),
        "two": draw(st.booleans()),
    }


def index_of(quantities):
    quantities = sorted(quantities, key=lambda q: (len(q.name), q.name))
    index = [
        np.arange(q.array_metadata.start_index, q.array_metadata.end_index)
        for q in quantities
    ]
    return np.concatenate(index + [np.zeros(0, int)]).astype(int)


class View:
    """An ODE view together with the law behind it."""

    def __init__(self, case, spec):
        self.law = vm.ODE(spec)
        self.prob = vm.build_stage_problem(self.law)
        self.prob.setup(mode=case["mode"])
        self.prob.final_setup()
        names, inames = vm.option_lists(self.law)
        self.excluded = [
            q["name"]
            for i, q in enumerate(self.law.quantities)
            if case["excluded"] >> i & 1
        ]
        self.order = {"inf": np.inf, "-inf": -np.inf}.get(case["order"], case["order"])
        self.ode = OpenMDAOODE(
            self.prob,
            names,
            inames,
            norm_exclusions=self.excluded,
            norm_order=self.order,
        )
        meta = self.ode.time_integration_metadata
        self.xi = index_of(meta.time_integration_quantity_list)
        self.pi = index_of(meta.time_independent_input_quantity_list)
        n, m = self.law.n, self.law.m
        if sorted(self.xi) != list(range(n)) or sorted(self.pi) != list(range(m)):
            raise Violation(f"layout of states {self.xi}, of inputs {self.pi}")
        sizes = (self.ode.get_state_size(), self.ode.get_independent_input_size())
        if sizes != (n, m):
            raise Violation(f"sizes {sizes}, expected {(n, m)}")
        self.stateful = np.concatenate(
            [
                np.full(vm.size(q["shape"]), q["has_state"])
                for q in self.law.quantities
            ]
        )
        self.saved = []
        self.results = []

    def out(self, x):
        """Law order -> order of the view."""
        y = np.zeros(self.law.n)
        y[self.xi] = x
        return y

    def out_p(self, p):
        y = np.zeros(self.law.m)
        y[self.pi] = p
        return y


def frozen(state):
    return {
        k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(state).items()
    }


def same(state, snap, what):
    for k, v in snap.items():
        if not np.array_equal(getattr(state, k), v):
            raise Violation(f"{what}: {k} was {v}, is {getattr(state, k)}")


def evaluate(view, op, last):
    law = view.law
    v = integ.expand(op["seed"] + 1, 2 * law.n + law.m)
    x, s, p = v[: law.n], v[law.n : 2 * law.n], v[2 * law.n :]
    t, dt, factor = op["t"], op["dt"], op["factor"]
    if op["ints"] == "repeat" and last is not None:
        x, s, p = last
    elif op["ints"] == "zero":
        s = np.zeros(law.n)
    elif op["ints"] == "origin":
        x, s, p, t = np.zeros(law.n), np.zeros(law.n), np.zeros(law.m), 0.0
    if abs(dt * factor) * law.lipschitz > 0.45:
        raise Skip("stage equation may have several solutions")
    arg = DiscretizedODEInputState(view.out(x), view.out(s), view.out_p(p), t)
    snap = frozen(arg)
    res = view.ode.compute_update(arg, dt, factor)
    same(arg, snap, "compute_update changes its argument")
    base = x + dt * s
    k = law.solve_stage(t, base, dt * factor, p)
    got = np.asarray(res.stage_update)
    if got.shape != (law.n,):
        raise Violation(f"stage update has shape {got.shape}, state has size {law.n}")
    vm.close(got[view.xi], k, 1e-11, "stage update")
    size = view.ode.get_linearization_point_size()
    if np.shape(res.linearization_point) != (size,):
        raise Violation(
            f"linearization point of shape {np.shape(res.linearization_point)}, "
            f"announced {size}"
        )
    X = base + dt * factor * k
    M = np.linalg.inv(np.eye(law.n) - dt * factor * law.jx(t, X, p))
    Jx, Jp, Jt = law.jx(t, X, p), law.jp(t, X, p), law.jt(t, X, p)
    view.saved.append(
        {
            "result": res,
            "lin": res.linearization_point.copy(),
            "dt": dt,
            "factor": factor,
            "J": np.hstack([M @ Jx, dt * (M @ Jx), M @ Jp, (M @ Jt)[:, None]]),
        }
    )
    view.results.append((res, frozen(res), f"result of evaluation {len(view.saved)}"))
    return x, s, p


def parts(law, part, v):
    n, m = law.n, law.m
    keep = {
        "all": slice(0, 2 * n + m + 1),
        "step": slice(0, n),
        "stage": slice(n, 2 * n),
        "indep": slice(2 * n, 2 * n + m),
        "time": slice(2 * n + m, 2 * n + m + 1),
        "zero": slice(0, 0),
    }[part]
    out = np.zeros_like(v)
    out[keep] = v[keep]
    return out


def forward(view, ev, v):
    n, m = view.law.n, view.law.m
    arg = DiscretizedODEInputState(
        view.out(v[:n]),
        view.out(v[n : 2 * n]),
        view.out_p(v[2 * n : 2 * n + m]),
        float(v[2 * n + m]),
        ev["lin"].copy(),
    )
    snap = frozen(arg)
    with np.errstate(all="ignore"):
        res = view.ode.compute_update_derivative(arg, ev["dt"], ev["factor"])
    for k, val in snap.items():
        if not np.array_equal(getattr(arg, k), val, equal_nan=True):
            raise Violation(f"compute_update_derivative changes {k} of its argument")
    return res


def reverse(view, ev, w):
    n = view.law.n
    arg = DiscretizedODEResultState(
        view.out(w), np.zeros(n), np.zeros(0), ev["lin"].copy()
    )
    snap = frozen(arg)
    with np.errstate(all="ignore"):
        res = view.ode.compute_update_adjoint_derivative(arg, ev["dt"], ev["factor"])
    for k, val in snap.items():
        if not np.array_equal(getattr(arg, k), val, equal_nan=True):
            raise Violation(
                f"compute_update_adjoint_derivative changes {k} of its argument"
            )
    return res


def norm(view, op):
    law = view.law
    x = integ.expand(op["seed"] + 1, law.n)
    x[np.arange(law.n) % 3 == 2] = 0.0
    state = DiscretizedODEResultState(np.zeros(law.n), view.out(x), np.zeros(0))
    snap = frozen(state)
    got = view.ode.compute_state_norm(state)
    same(state, snap, "compute_state_norm changes its argument")
    kept = np.concatenate(
        [
            x[law.slices[q["name"]]]
            for q in law.quantities
            if q["name"] not in view.excluded
        ]
        + [np.zeros(0)]
    )
    if kept.size == 0:
        return
    vm.close(
        np.ravel(got),
        [np.linalg.norm(kept, view.order)],
        1e-12,
        f"norm of order {view.order} without {view.excluded}",
    )


def run(case, rec):
    spec = case["ode"]
    views = [View(case, spec)]
    if case["two"]:
        views.append(View(case, dict(spec, coef=spec["coef"] + 1)))
    last = None
    for step, op in enumerate(case["ops"]):
        view = views[step % len(views)] if op["kind"] == "eval" else views[
            op["which"] % len(views)
        ]
        law = view.law
        n, m = law.n, law.m
        what = f"operation {step + 1} ({op['kind']})"
        if op["kind"] == "eval":
            last = evaluate(view, op, last)
        elif op["kind"] == "norm":
            norm(view, op)
        elif view.saved:
            ev = view.saved[op["which"] % len(view.saved)]
            # the linearisation is with respect to what the problem depends on
            if op["kind"] == "fwd":
                v = parts(law, op["part"], integ.direction(op["seed"] + 3, 2 * n + m + 1))
                res = forward(view, ev, v)
                vm.close(
                    np.asarray(res.stage_update)[view.xi],
                    ev["J"] @ v,
                    1e-10,
                    what,
                    integ.unit(v),
                )
                view.results.append((res, frozen(res), f"result of {what}"))
            elif op["kind"] == "rev":
                w = integ.direction(op["seed"] + 3, n)
                if op["part"] == "zero":
                    w[:] = 0.0
                res = reverse(view, ev, w)
                want = ev["J"].T @ w
                got = np.concatenate(
                    [
                        np.asarray(res.step_input)[view.xi],
                        np.asarray(res.stage_input)[view.xi],
                        np.asarray(res.independent_input)[view.pi],
                        np.ravel(res.time),
                    ]
                )
                vm.close(got, want, 1e-10, what, integ.unit(w))
                view.results.append((res, frozen(res), f"result of {what}"))
            else:
                # values beyond the range of floats must not reach later products
                try:
                    if op["mode"] == "fwd":
                        forward(view, ev, np.full(2 * n + m + 1, np.inf))
                    else:
                        reverse(view, ev, np.full(n, np.inf))
                except ValueError:  # some of OpenMDAO's solvers refuse them
                    pass
        # whatever was returned before stays as it was
        for vw in views:
            for state, snap, name in vw.results:
                same(state, snap, f"{what} changes the {name}")
    kinds = [op["kind"] for op in case["ops"]]
    rec.label(spec["arch"])
    rec.label(f"{len(views)} views")
    rec.label("with time" if spec["use_time"] else "without time")
    for k in sorted(set(kinds)):
        rec.label(k)
    rec.nontrivial(
        ("fwd" in kinds or "rev" in kinds)
        and kinds.count("eval") >= 1
        and law.n > 1
        and any(q["has_state"] for q in law.quantities)
    )


SUBS = [Sub("histories", case_strategy(), run, 8000, 200000)]
