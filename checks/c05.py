"""C05: results depend on the current inputs only, not on what was computed before."""

import numpy as np
from hypothesis import strategies as st

from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation
from rkopenmdao.errors import ErrorControllerError

PROPERTY = "C05"


@st.composite
def neighbour(draw, point, other, fixed_end):
    """A point with only one kind of input taken from another point or changed a bit."""
    kind = draw(st.sampled_from([k for k in ("t0", "x0", "p") if point[k] != []]))
    new = dict(point)
    change = draw(
        st.sampled_from([None, 1e-3, 5e-6, 5e-6, "rearranged", "shifted", "mirrored"])
    )
    if change is None:
        new[kind] = other[kind]
    elif change == "mirrored":
        if kind != "t0":
            new[kind] = [-v for v in point[kind]]
        elif not fixed_end:  # as that would mean a much longer run
            new[kind] = -point[kind]
    elif isinstance(change, str):  # same values or same sum, in other places
        kind = draw(st.sampled_from([k for k in ("x0", "p") if point[k] != []]))
        new[kind] = point[kind][::-1]
        if change == "shifted" and len(new[kind]) > 1:
            new[kind] = [point[kind][0] + 0.25, point[kind][1] - 0.25] + point[kind][2:]
    elif kind == "t0":
        new[kind] = point[kind] + change * max(abs(point[kind]), 0.01)
    else:
        new[kind] = [v + change * max(abs(v), 0.01) for v in point[kind]]
    return new


@st.composite
def history_case(draw):
    adaptive = draw(st.booleans())
    spec = draw(vm.ode_spec(max_state=3, max_quantities=2))
    n = draw(st.integers(1, 5))
    n_int = draw(st.integers(1, 2))
    cp = draw(
        st.sampled_from(["all", "pyrevolve"] if not adaptive else ["all", "pyrevolve"])
    )
    until = "steps" if cp == "pyrevolve" else draw(st.sampled_from(["steps", "time"]))
    op = st.one_of(
        st.tuples(st.just("set"), st.integers(0, 2)).map(list),
        st.just(["run"]),
        st.just(["run"]),
        st.tuples(st.just("fwd"), st.integers(0, 11)).map(list),
        st.tuples(st.just("rev"), st.integers(0, 11)).map(list),
        st.tuples(st.just("rev"), st.integers(0, 11)).map(list),
        st.just(["totals"]),
        st.just(["resetup"]),
        st.tuples(st.just("poke"), st.integers(0, 2)).map(list),
        st.tuples(
            st.just("fault"), st.sampled_from(["run", "fwd", "rev"]), st.integers(0, 12)
        ).map(list),
    )
    size = draw(st.integers(3, 12))
    ops = []
    for _ in range(size):
        who = draw(st.integers(0, n_int - 1))
        ops.append([who, draw(op)])
        if ops[-1][1][0] in ("fault", "poke") and draw(st.booleans()):
            # what went before must not show in what follows directly
            ops.append([who, [draw(st.sampled_from(["rev", "fwd"])), draw(st.integers(0, 3))]])
    if draw(st.booleans()):
        ops.insert(0, [0, ["run"]])
    if draw(st.integers(0, 2)) == 0:
        # checkpoints of other inputs, and inputs of which there are none
        who, at = draw(st.integers(0, n_int - 1)), draw(st.integers(0, len(ops)))
        ops[at:at] = [
            [who, ["set", draw(st.integers(0, 2))]],
            [who, ["run"]],
            [who, ["poke", draw(st.integers(0, 2))]],
            [who, ["rev", draw(st.integers(0, 3))]],
        ]
    dt = draw(st.sampled_from([1 / 16, 1 / 8, 0.25, 0.5]))
    points = [draw(integ.point(spec)) for _ in range(3)]
    if until == "time":
        # bounds the number of steps
        for pt in points:
            pt["t0"] = 2.0 - dt * draw(st.integers(0, 3))
    for k in (1, 2):
        # points that differ from another one only in one kind of input, maybe slightly
        if draw(st.integers(0, 2)) > 0:
            points[k] = draw(neighbour(points[draw(st.integers(0, k - 1))], points[k], until == "time"))
    return {
        "ode": spec,
        "tab": draw(
            vm.shipped_tableau(embedded=True)
            if adaptive
            else vm.tableau(max_stages=3)
        ),
        "adaptive": (
            {
                "controllers": draw(
                    st.lists(
                        st.sampled_from(
                            ["pc", "integral", "h0_330", "h_312", "ppid", "pseudo"]
                        ),
                        min_size=1,
                        max_size=3,
                    )
                ),
                "tol": draw(st.sampled_from([1e-3, 1e-5, 1e-7])),
            }
            if adaptive
            else None
        ),
        "dt": dt,
        "n": n,
        "until": until,
        "checkpointing": cp,
        "c": draw(st.one_of(st.none(), st.integers(1, 3))) if cp != "all" else None,
        "share": draw(st.booleans()),
        "points": points,
        "ops": ops,
    }


class Oracle:
    """What a fresh computation from the same inputs gives."""

    def __init__(self, case, ode, obj, tab, make):
        self.case, self.ode, self.obj, self.tab, self.make = case, ode, obj, tab, make
        self.cache = {}
        self.noise = 0.0

    def _run(self, key, point):
        case = self.case
        p = np.array(point["p"])
        if case["adaptive"] is None:
            if case["until"] == "steps":
                dts = [case["dt"]] * case["n"]
            else:
                dts = []
                t = point["t0"]
                while t < self.final_time() - 1e-9:
                    dts.append(case["dt"])
                    t += case["dt"]
                if not dts:
                    raise Skip
        else:
            log = []
            su = self.make(None, [integ.Recording(log)])
            su.set_inputs(point["t0"], point["x0"], point["p"])
            try:
                su.run()
            except ErrorControllerError:
                return None
            steps = [s for s in log if s["when"] == "after"]
            dts = [s["dt"] for s in steps]
            # Errors of the stage solver show in the error estimate and so in the steps.
            low = min([s["err"] for s in steps] or [1.0])
            if low < 1e-8:
                raise Skip
            self.noise = max(self.noise, 1e-11 / low)
        return vm.Ref(self.ode, self.tab).run(point["t0"], point["x0"], p, dts, True)

    def final_time(self):
        return 2.0 + self.case["n"] * self.case["dt"]

    def __call__(self, point):
        key = repr(point)
        if key not in self.cache:
            self.cache[key] = self._run(key, point)
        return self.cache[key]


def run_history(case, rec):
    ode = vm.ODE(case["ode"])
    obj, tab = vm.build_tableau(case["tab"])
    faults = [vm.Fault(), vm.Fault()]
    shared_options = {}

    def make(fault, callbacks):
        opts = None
        if case["checkpointing"] == "pyrevolve":
            ro = {} if case["c"] is None else {"n_checkpoints": case["c"]}
            opts = {"revolver_options": ro}
            if case["share"] and fault is not None:
                opts = shared_options.setdefault("o", opts)
        adaptive = None
        if case["adaptive"] is not None:
            adaptive = {**case["adaptive"], "lower": case["dt"] / 16, "upper": 1.0}
        kw = (
            {"n_steps": case["n"]}
            if case["until"] == "steps"
            else {"final_time": 2.0 + case["n"] * case["dt"]}
        )
        return integ.Setup(
            ode,
            obj,
            case["dt"],
            adaptive=adaptive,
            checkpointing=case["checkpointing"],
            checkpoint_options=opts,
            mode="rev",
            fault=fault,
            callbacks=callbacks,
            **kw,
        )

    oracle = Oracle(case, ode, obj, tab, make)
    n_int = 1 + max(o[0] for o in case["ops"])
    setups = [make(faults[i], []) for i in range(n_int)]
    pending = [dict(case["points"][0]) for _ in range(n_int)]
    current = [None] * n_int  # inputs the component holds
    for i, su in enumerate(setups):
        su.set_inputs(**{k: pending[i][k] for k in ("t0", "x0", "p")})
    interesting = 0
    ran = 0

    def bounded(ref):
        return np.all(np.isfinite(ref["J"])) and np.max(np.abs(ref["J"])) < 1e6

    for i, op in case["ops"]:
        su = setups[i]
        if op[0] == "set":
            pending[i] = case["points"][op[1]]
            su.set_inputs(**{k: pending[i][k] for k in ("t0", "x0", "p")})
        elif op[0] == "poke":
            # new inputs arrive at the component, but it isn't run before derivatives
            # are computed (e.g. because a component before it fails)
            pt = case["points"][op[1]]
            vec = su.rk._inputs  # pylint: disable=protected-access
            vec["time_initial"] = pt["t0"]
            for q in ode.quantities:
                vec[q["name"] + "_initial"] = np.asarray(pt["x0"], float)[
                    ode.slices[q["name"]]
                ].reshape(q["shape"])
            for q in ode.indep:
                vec[q["name"]] = np.asarray(pt["p"], float)[
                    ode.islices[q["name"]]
                ].reshape(q["shape"])
            current[i] = pt
            interesting += 1
        elif op[0] == "resetup":
            su.setup()
            su.set_inputs(**{k: pending[i][k] for k in ("t0", "x0", "p")})
            current[i] = None
            interesting += 1
        elif op[0] == "run":
            current[i] = pending[i]
            ref = oracle(pending[i])
            ran += 1
            try:
                t, x = su.run()
            except ErrorControllerError:
                if ref is not None:
                    raise Violation(
                        "run failed although the same run succeeds on a fresh integrator"
                    ) from None
                interesting += 1
                continue
            if ref is None:
                raise Violation("run succeeded although it fails on a fresh integrator")
            vm.close(x, ref["x"], 1e-8 + 10 * oracle.noise, f"{op}: final values")
            vm.close([t], [ref["t"]], 1e-10 + 10 * oracle.noise, f"{op}: final time")
        elif op[0] == "fault":
            if op[1] != "run" and (current[i] is None or oracle(current[i]) is None):
                continue
            faults[i].countdown = op[2]
            try:
                if op[1] == "run":
                    current[i] = pending[i]
                    su.run()
                else:
                    v = integ.expand(1, ode.n + (ode.m + 1 if op[1] == "fwd" else 1))
                    su.jacvec(op[1], v)
            except vm.FaultInjected:
                interesting += 1
                rec.label(f"fault in {op[1]}")
            except ErrorControllerError:
                pass
            faults[i].countdown = None
        else:
            if current[i] is None:
                continue
            ref = oracle(current[i])
            if ref is None or not bounded(ref):
                continue
            J = integ.full_jac(ref["J"])
            interesting += 1
            if op[0] == "totals":
                vm.close(su.totals(), J, 2e-9 + 10 * oracle.noise, f"{op}: totals")
            else:
                v = integ.direction(op[1], J.shape[1] if op[0] == "fwd" else J.shape[0])
                want = J @ v if op[0] == "fwd" else J.T @ v
                vm.close(
                    su.jacvec(op[0], v),
                    want,
                    2e-9 + 10 * oracle.noise,
                    f"{op}: product",
                    integ.unit(v),
                )
    rec.label("adaptive" if case["adaptive"] else "fixed step")
    rec.label(f"checkpointing={case['checkpointing']}")
    rec.label(f"integrators={n_int}")
    if any(
        sum(a[k] != b[k] for k in ("t0", "x0", "p")) == 1
        for a in case["points"]
        for b in case["points"]
    ):
        rec.label("points with only one kind of input different")
    if any(o[1][0] == "resetup" for o in case["ops"]):
        rec.label("set up again")
    rec.nontrivial(interesting >= 1 and ran >= 1 and len(case["ops"]) >= 4)


SUBS = [Sub("history", history_case(), run_history, 1600, 20000)]
