"""C14: state containers copy and round-trip losslessly without sharing memory."""

import copy

import numpy as np
from hypothesis import strategies as st

from vlib.driver import Sub, Violation
from rkopenmdao.checkpoint_interface.runge_kutta_integrator_pyrevolve_classes import (
    RungeKuttaCheckpoint,
)
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState,
    RungeKuttaDiscretizationState,
)
from rkopenmdao.time_integration_state import TimeIntegrationState

PROPERTY = "C14"
SPECIAL = [0.0, -1.0, 1e-300, 1e300, np.inf, -np.inf, np.nan, 1 / 3, 2.0**60]
PLAIN = [
    "start_state", "stage_states", "stage_updates", "final_state",
    "independent_inputs", "stage_independent_outputs", "final_independent_outputs",
    "start_time", "stage_times", "final_time", "step_size", "linearization_points",
]
EMBEDDED = ["embedded_state", "error_estimate"]
INTEGRATION = ["step_size_suggestion", "step_size_history", "error_history"]
KINDS = {
    "plain": RungeKuttaDiscretizationState,
    "embedded": EmbeddedRungeKuttaDiscretizationState,
}


class Slot:
    """A real state, its kind, and a model: independent copies of what it has to hold."""

    def __init__(self, obj, case):
        self.obj = obj
        self.case = case
        self.model = {}
        self.ids = {}
        # exports and checkpoints are views which stay valid
        self.old_export = obj.to_dict()
        self.old_checkpoint = RungeKuttaCheckpoint(a_int(self))

    def export(self, seed):
        return self.old_export if seed % 2 else self.obj.to_dict()

    def checkpoint(self, seed):
        return self.old_checkpoint if seed % 2 else RungeKuttaCheckpoint(a_int(self))

    def parts(self):
        """name -> array"""
        disc = self.obj.discretization_state if self.case["integration"] else self.obj
        names = PLAIN + (EMBEDDED if self.case["kind"] == "embedded" else [])
        out = {n: getattr(disc, n) for n in names}
        if self.case["integration"]:
            out.update({n: getattr(self.obj, n) for n in INTEGRATION})
        return out

    def remember(self):
        """Takes over arrays and contents as they are."""
        self.model = {n: np.array(a) for n, a in self.parts().items()}
        self.ids = {n: a for n, a in self.parts().items()}

    def verify(self, what):
        parts = self.parts()
        for n, want in self.model.items():
            got = parts[n]
            if not isinstance(got, np.ndarray):
                raise Violation(f"{what}: {n} is no array but {type(got).__name__}")
            if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True):
                raise Violation(
                    f"{what}: {n} holds {got.tolist()} {got.shape}, expected "
                    f"{want.tolist()} {want.shape}"
                )
            if self.ids[n] is not got:
                raise Violation(f"{what}: array of {n} was exchanged")


def shapes(case):
    n, m, o = case["n"], case["m"], case["o"]
    s, lin = case["s"], case["lin"]
    out = {
        "start_state": (n,), "stage_states": (s, n), "stage_updates": (s, n),
        "final_state": (n,), "independent_inputs": (m,),
        "stage_independent_outputs": (s, o), "final_independent_outputs": (o,),
        "start_time": (1,), "stage_times": (s,), "final_time": (1,),
        "step_size": (1,), "linearization_points": (s, lin),
    }
    if case["kind"] == "embedded":
        out.update({"embedded_state": (n,), "error_estimate": (n,)})
    if case["integration"]:
        out.update(
            {
                "step_size_suggestion": (case["hist"][0],),
                "step_size_history": (case["hist"][1],),
                "error_history": (case["hist"][1],),
            }
        )
    return out


def create(case):
    disc = KINDS[case["kind"]](
        ode_state_size=case["n"],
        independent_input_size=case["m"],
        independent_output_size=case["o"],
        number_of_stages=case["s"],
        linearization_point_size=case["lin"],
    )
    if case["integration"]:
        return TimeIntegrationState(
            disc,
            np.zeros(case["hist"][0]),
            np.zeros(case["hist"][1]),
            np.zeros(case["hist"][1]),
        )
    return disc


def fill(slot, seed):
    rng = np.random.RandomState(seed)
    for n, a in slot.parts().items():
        if a.shape != shapes(slot.case)[n]:
            raise Violation(f"{n} has shape {a.shape}, expected {shapes(slot.case)[n]}")
        a[...] = rng.uniform(-5, 5, a.shape)
        kind = rng.randint(8)
        if kind == 0:
            a[...] = 0.0
        elif kind == 1:
            a[rng.uniform(size=a.shape) < 0.5] = rng.choice(SPECIAL)


def leaves(d, prefix=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from leaves(v, prefix + str(k) + "/")
        else:
            yield prefix + str(k), v


def no_sharing(a, b, what):
    for na, x in a.parts().items():
        for nb, y in b.parts().items():
            if x.size and y.size and np.shares_memory(x, y):
                raise Violation(f"{what}: {na} shares memory with {nb} of another state")


def self_sharing(a, what):
    items = list(a.parts().items())
    for i, (na, x) in enumerate(items):
        for nb, y in items[:i]:
            if x.size and y.size and np.shares_memory(x, y):
                raise Violation(f"{what}: {na} shares memory with {nb}")


@st.composite
def case_strategy(draw):
    nslots = draw(st.sampled_from([1, 2, 2, 3]))
    return {
        "kind": draw(st.sampled_from(["plain", "embedded"])),
        "integration": draw(st.booleans()),
        "n": draw(st.sampled_from([0, 1, 2, 3, 4])),
        "m": draw(st.sampled_from([0, 1, 2, 3])),
        "o": draw(st.sampled_from([0, 1, 2])),
        "s": draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 10, 12])),
        "lin": draw(st.sampled_from([0, 1, 3])),
        "hist": [draw(st.integers(0, 1)), draw(st.integers(0, 3))],
        "slots": nslots,
        "ops": [
            [
                draw(
                    st.sampled_from(
                        ["set", "set", "modify", "deepcopy", "dict", "dict",
                         "export_write", "transfer", "checkpoint"]
                    )
                ),
                draw(st.integers(0, 5)),
                draw(st.integers(0, 5)),
                draw(st.integers(0, 10**6)),
            ]
            for _ in range(draw(st.sampled_from([1, 2, 3, 4, 6, 8])))
        ],
    }


def run(case, rec):
    slots = []
    for i in range(case["slots"]):
        s = Slot(create(case), case)
        s.remember()
        for n, a in s.parts().items():
            if np.any(a):
                raise Violation(f"new state holds nonzero {n}")
        fill(s, 17 * i + 1)
        s.remember()
        slots.append(s)
    rec.label(case["kind"] + (" integration" if case["integration"] else ""))
    for k, (op, i, j, seed) in enumerate(case["ops"]):
        what = f"operation {k + 1} ({op})"
        a, b = slots[i % len(slots)], slots[j % len(slots)]
        rec.label(op)
        if op == "set":
            a.obj.set(b.obj)
            a.model = {n: v.copy() for n, v in b.model.items()}
        elif op == "modify":
            names = [n for n, v in a.parts().items() if v.size]
            n = names[seed % len(names)]
            a.parts()[n].flat[seed % a.parts()[n].size] = seed / 7
            a.model[n].flat[seed % a.parts()[n].size] = seed / 7
        elif op in ("deepcopy", "dict"):
            if op == "deepcopy":
                new = copy.deepcopy(a.obj)
            else:
                new = type(a.obj).from_dict(a.obj.to_dict())
            if type(new) is not type(a.obj):
                raise Violation(f"{what} gives {type(new).__name__}")
            if case["integration"] and type(new.discretization_state) is not type(
                a.obj.discretization_state
            ):
                raise Violation(
                    f"{what} gives discretization state of type "
                    f"{type(new.discretization_state).__name__}"
                )
            c = Slot(new, case)
            c.ids = dict(c.parts())
            c.model = {n: v.copy() for n, v in a.model.items()}
            slots.append(c)
        elif op == "export_write":
            # everything written through the export arrives, in every part of the state
            rng = np.random.RandomState(seed)
            total = 0
            for _, leaf in leaves(a.export(seed)):
                leaf[...] = rng.uniform(10, 20, leaf.shape)
                total += leaf.size
            if total != sum(v.size for v in a.model.values()):
                raise Violation(
                    f"{what}: {total} numbers exported of a state holding "
                    f"{sum(v.size for v in a.model.values())}"
                )
            for n, v in a.parts().items():
                if not np.all(v >= 10):
                    raise Violation(
                        f"{what}: {n} doesn't see what is written through the export"
                    )
            a.model = {n: np.array(v) for n, v in a.parts().items()}
        elif op == "transfer":
            # all data of b carried over through the exports
            da, db = dict(leaves(a.export(seed))), dict(leaves(b.export(seed // 2)))
            if set(da) != set(db):
                raise Violation(f"{what}: exports have different entries")
            for n in da:
                da[n][...] = np.array(db[n])
            a.model = {n: v.copy() for n, v in b.model.items()}
        else:
            ca, cb = a.checkpoint(seed), b.checkpoint(seed // 2)
            data = cb.get_data(0)
            loc = ca.get_data_location(0)
            if sum(d.size for d in data) != cb.size:
                raise Violation(
                    f"{what}: checkpoint has size {cb.size}, but holds "
                    f"{sum(d.size for d in data)} numbers"
                )
            for d in data:
                for v in b.parts().values():
                    if np.shares_memory(d, v):
                        raise Violation(f"{what}: checkpoint data is no copy")
            if len(data) != len(loc):
                raise Violation(f"{what}: {len(data)} arrays for {len(loc)} locations")
            for d, l in zip(data, loc):
                l[...] = d
            a.model = {n: v.copy() for n, v in b.model.items()}
        for x, s in enumerate(slots):
            s.verify(f"{what}, state {x}")
        for x, s in enumerate(slots):
            self_sharing(s, what)
            for t in slots[:x]:
                no_sharing(s, t, what)
    rec.nontrivial(len(case["ops"]) > 1 and case["n"] > 0)


def a_int(slot):
    """Checkpoints hold integration states."""
    if slot.case["integration"]:
        return slot.obj
    return TimeIntegrationState(slot.obj, np.zeros(0), np.zeros(0), np.zeros(0))


SUBS = [Sub("histories", case_strategy(), run, 3000, 60000)]
