"""C12: tags map every variable to its quantity, and wrong tagging is refused."""

import numpy as np
import openmdao.api as om
from hypothesis import strategies as st

from vlib import model as vm
from vlib.driver import Sub, Violation
from rkopenmdao.butcher_tableaux import explicit_euler
from rkopenmdao.discretized_ode.openmdao_ode import OpenMDAOODE
from rkopenmdao.integration_config import IntegrationConfig
from rkopenmdao.runge_kutta_integrator import RungeKuttaIntegrator
from rkopenmdao.termination_criterion import PredefinedNumberOfSteps

PROPERTY = "C12"
SHAPES = [[1], [2], [3], [1, 2], [2, 2], [3, 1], [1, 1, 2]]
MISTAKES = [
    "drop_role_output", "drop_role_step", "drop_role_acc", "drop_role_indep",
    "drop_name_output", "drop_name_step", "drop_name_acc", "drop_name_indep",
    "duplicate_output", "duplicate_step", "duplicate_acc", "duplicate_indep",
    "second_name_output", "second_name_step", "second_name_acc", "second_name_indep",
    "missing_output", "missing_step", "missing_acc", "missing_indep",
    "two_times", "vector_time", "unknown_quantity", "unknown_indep",
    "role_as_quantity", "role_as_indep", "step_tagged_output", "acc_tagged_step",
    "step_tagged_acc", "size_step", "size_acc",
]


class Comp(om.ExplicitComponent):
    """Records what it sees and returns constants."""

    def initialize(self):
        self.options.declare("vars", types=list)
        self.options.declare("seen", types=dict)

    def setup(self):
        self.add_output("unrelated", val=0.0)
        for v in self.options["vars"]:
            if v["io"] == "in":
                self.add_input(v["var"], val=np.array(v["val"]), tags=v["tags"])
            else:
                self.add_output(v["var"], val=np.array(v["val"]), tags=v["tags"])

    def compute(self, inputs, outputs, discrete_inputs=None, discrete_outputs=None):
        for v in self.options["vars"]:
            if v["io"] == "in":
                self.options["seen"][v["var"]] = inputs[v["var"]].copy()
            else:
                outputs[v["var"]] = np.array(v["val"])


@st.composite
def case_strategy(draw, mistakes):
    nq = draw(st.sampled_from([1, 2, 3, 4]))
    ni = draw(st.sampled_from([0, 1, 2, 3]))
    ncomp = draw(st.sampled_from([1, 2, 3, 4]))
    place = st.integers(0, ncomp - 1)
    foreign = st.lists(
        st.sampled_from(["foo", "advanced:prev", "output", "q", "initial"]),
        max_size=2, unique=True,
    )
    quantities = []
    for i in range(nq):
        quantities.append(
            {
                # names one of which is part of the other
                "name": draw(st.sampled_from(["q", "temp", "a"])) + f"{i}",
                "shape": draw(st.sampled_from(SHAPES)),
                "has_state": draw(st.sampled_from([True, True, False])),
                "place": [draw(place), draw(place), draw(place)],
                "foreign": draw(foreign),
                "requested": draw(st.sampled_from([True, True, True, True, False])),
            }
        )
    quantities[0]["requested"] = True
    indep = [
        {
            "name": draw(st.sampled_from(["u", "par"])) + f"{i}",
            "shape": draw(st.sampled_from(SHAPES)),
            "place": draw(place),
            "foreign": draw(foreign),
            "requested": draw(st.sampled_from([True, True, True, False])),
        }
        for i in range(ni)
    ]
    return {
        "quantities": quantities,
        "indep": indep,
        "time": draw(st.one_of(st.none(), place)),
        "groups": [
            draw(st.sampled_from([[], ["g1"], ["g2"], ["g1", "sub"], ["g2", "s", "t"]]))
            for _ in range(ncomp)
        ],
        "promote": [draw(st.booleans()) for _ in range(ncomp)],
        "extra": [
            [draw(st.sampled_from(["in", "out"])), draw(place), draw(foreign)]
            for _ in range(draw(st.integers(0, 3)))
        ],
        # inputs which only carry the name of a quantity take no part
        "nameonly": draw(st.sampled_from([False, False, True])),
        "order": draw(st.integers(0, 1000)),
        "mistake": draw(st.sampled_from(mistakes)) if mistakes else None,
        "seed": draw(st.integers(0, 10**5)),
    }


def variables(case):
    """All variables of a correct problem."""
    rng = np.random.RandomState(case["seed"])
    out = []
    for q in case["quantities"]:
        val = lambda: rng.uniform(-2, 2, q["shape"]).tolist()  # noqa: E731
        out.append(
            {"var": q["name"] + "_k", "io": "out", "comp": q["place"][0], "val": val(),
             "tags": [q["name"], "stage_output_var"] + q["foreign"], "of": q["name"],
             "role": "output"}
        )
        if q["has_state"]:
            out.append(
                {"var": q["name"] + "_old", "io": "in", "comp": q["place"][1],
                 "val": val(), "tags": ["step_input_var", q["name"]] + q["foreign"],
                 "of": q["name"], "role": "step"}
            )
            out.append(
                {"var": q["name"] + "_acc", "io": "in", "comp": q["place"][2],
                 "val": val(),
                 "tags": q["foreign"] + [q["name"], "accumulated_stage_var"],
                 "of": q["name"], "role": "acc"}
            )
    for q in case["indep"]:
        out.append(
            {"var": q["name"] + "_in", "io": "in", "comp": q["place"],
             "val": rng.uniform(-2, 2, q["shape"]).tolist(),
             "tags": q["foreign"] + [q["name"], "time_independent_input_var"],
             "of": q["name"], "role": "indep"}
        )
    if case["time"] is not None:
        out.append(
            {"var": "time", "io": "in", "comp": case["time"], "val": [0.0],
             "tags": ["time_variable"], "of": None, "role": "time"}
        )
    for i, (io, place, tags) in enumerate(case["extra"]):
        out.append(
            {"var": f"x{i}", "io": io, "comp": place, "val": [1.5, 2.5],
             "tags": tags, "of": None, "role": None}
        )
    if case["nameonly"]:
        q = case["quantities"][0]
        out.append(
            {"var": "named", "io": "in", "comp": 0, "val": [1.0],
             "tags": [q["name"]] + q["foreign"], "of": None, "role": None}
        )
    return out


def role_tag(role):
    return {
        "output": "stage_output_var", "step": "step_input_var",
        "acc": "accumulated_stage_var", "indep": "time_independent_input_var",
    }[role]


def make_mistake(case, allvars, names, inames):
    """Applies the mistake to the variables or requests; False if not applicable."""
    m = case["mistake"]
    kind, _, role = m.rpartition("_")
    ncomp = len(case["groups"])
    requested = set(names) | set(inames)

    def pick(r):
        found = [v for v in allvars if v["role"] == r and v["of"] in requested]
        return found[case["order"] % len(found)] if found else None

    if m == "two_times":
        if not any(v["role"] == "time" for v in allvars):
            return False
        allvars.append(
            {"var": "time_2", "io": "in", "comp": case["order"] % ncomp, "val": [0.0],
             "tags": ["time_variable"], "of": None, "role": "time"}
        )
        return True
    if m == "vector_time":
        t = [v for v in allvars if v["role"] == "time"]
        if not t:
            return False
        t[0]["val"] = [0.0, 1.0]
        return True
    if m == "unknown_quantity":
        names.insert(case["order"] % (len(names) + 1), "unknown")
        return True
    if m == "unknown_indep":
        inames.insert(case["order"] % (len(inames) + 1), "unknown")
        return True
    if m == "role_as_quantity":
        names.append("stage_output_var")
        return True
    if m == "role_as_indep":
        if not inames:
            return False
        inames.append("time_independent_input_var")
        return True
    if m in ("step_tagged_output", "acc_tagged_step", "step_tagged_acc"):
        first, _, second = m.partition("_tagged_")
        v = pick(first)
        if v is None:
            return False
        v["tags"] = [t for t in v["tags"] if t != role_tag(first)] + [role_tag(second)]
        return True
    if kind == "size":
        v = pick(role)
        if v is None:
            return False
        v["val"] = [0.5] * (vm.size(np.shape(v["val"])) + 1 + case["order"] % 2)
        return True
    v = pick(role)
    if v is None:
        return False
    if kind == "drop_role":
        v["tags"] = [t for t in v["tags"] if t != role_tag(role)]
    elif kind == "drop_name":
        v["tags"] = [t for t in v["tags"] if t != v["of"]]
    elif kind == "missing":
        allvars.remove(v)
    elif kind == "duplicate":
        allvars.append({**v, "var": v["var"] + "_2", "comp": case["order"] % ncomp})
    elif kind == "second_name":
        pool = inames if role == "indep" else names
        others = [n for n in pool if n != v["of"]]
        if not others:
            return False
        v["tags"] = v["tags"] + [others[case["order"] % len(others)]]
    else:
        raise AssertionError(m)
    return True


def build(case, allvars, seen):
    prob = om.Problem()
    for c, path in enumerate(case["groups"]):
        group = prob.model
        for part in path:
            sub = group._subsystems_allprocs.get(part) if hasattr(
                group, "_subsystems_allprocs"
            ) else None
            sub = getattr(group, part, None) if sub is None else sub.system
            group = group.add_subsystem(part, om.Group()) if sub is None else sub
        mine = [v for v in allvars if v["comp"] == c]
        prom = [v["var"] for v in mine] if case["promote"][c] else None
        group.add_subsystem(
            f"c{c}", Comp(vars=mine, seen=seen), **({"promotes": prom} if prom else {})
        )
    return prob


def full_name(case, v):
    return ".".join(case["groups"][v["comp"]] + [f"c{v['comp']}", v["var"]])


def requests(case):
    names = [q["name"] for q in case["quantities"] if q["requested"]]
    inames = [q["name"] for q in case["indep"] if q["requested"]]
    rng = np.random.RandomState(case["order"])
    rng.shuffle(names)
    rng.shuffle(inames)
    return names, inames


def integrator(prob, names, inames):
    kw = {"time_independent_input_quantities": inames} if inames else {}
    return RungeKuttaIntegrator(
        time_stage_problem=prob,
        butcher_tableau=explicit_euler,
        integration_config=IntegrationConfig(False, PredefinedNumberOfSteps(1), 0.25),
        time_integration_quantities=names,
        compute_callbacks=[],
        **kw,
    )


def extraction(case, rec):
    allvars = variables(case)
    names, inames = requests(case)
    seen = {}
    stage = build(case, allvars, seen)
    stage.setup()
    stage.final_setup()
    rec.nontrivial(len(names) > 1 or len(inames) > 0)
    rec.label(f"{len(names)} quantities, {len(inames)} inputs")
    ode = OpenMDAOODE(stage, list(names), independent_input_quantities=list(inames))
    meta = ode.time_integration_metadata
    by = {(v["of"], v["role"]): v for v in allvars if v["of"]}

    def same_var(got, key, what):
        want = full_name(case, by[key]) if key in by else None
        if got != want:
            raise Violation(f"{what}: variable {got}, expected {want}")

    for kind, got, req, size in [
        ("quantities", meta.time_integration_quantity_list, names,
         meta.time_integration_array_size),
        ("independent inputs", meta.time_independent_input_quantity_list, inames,
         meta.time_independent_input_size),
    ]:
        if sorted(q.name for q in got) != sorted(req):
            raise Violation(f"{kind} {[q.name for q in got]}, requested {req}")
        covered = np.zeros(size, int)
        for q in got:
            a, t = q.array_metadata, q.translation_metadata
            role = "output" if kind == "quantities" else "indep"
            shape = np.shape(by[q.name, role]["val"])
            if tuple(a.shape) != shape or tuple(a.global_shape) != shape:
                raise Violation(
                    f"{q.name}: shapes {a.shape}, {a.global_shape}, declared {shape}"
                )
            if a.distributed or not a.local:
                raise Violation(f"{q.name}: wrong distribution information {a}")
            if a.end_index - a.start_index != vm.size(shape) or not (
                0 <= a.start_index < a.end_index <= size
            ):
                raise Violation(f"{q.name}: range {a.start_index}:{a.end_index}")
            if (a.global_start_index, a.global_end_index) != (0, vm.size(shape)):
                raise Violation(
                    f"{q.name}: global range {a.global_start_index}:"
                    f"{a.global_end_index} in serial"
                )
            covered[a.start_index : a.end_index] += 1
            if kind == "quantities":
                same_var(t.stage_output_var, (q.name, "output"), q.name)
                same_var(t.step_input_var, (q.name, "step"), q.name)
                same_var(t.accumulated_stage_var, (q.name, "acc"), q.name)
            else:
                same_var(t.time_independent_input_var, (q.name, "indep"), q.name)
        if not np.all(covered == 1):
            raise Violation(f"{kind} don't partition their vector: {covered.tolist()}")
    tv = [v for v in allvars if v["role"] == "time"]
    want = full_name(case, tv[0]) if tv else None
    if meta.time_variable != want:
        raise Violation(f"time variable {meta.time_variable}, expected {want}")
    sizes = (ode.get_state_size(), ode.get_independent_input_size())
    if sizes != (meta.time_integration_array_size, meta.time_independent_input_size):
        raise Violation(f"ODE reports sizes {sizes}")

    # the same problem inside of an integrator: every component sees the right values
    seen.clear()
    stage = build(case, allvars, seen)
    prob = om.Problem()
    rk = integrator(stage, list(names), list(inames))
    prob.model.add_subsystem("rk", rk)
    prob.setup()
    prob.final_setup()
    rng = np.random.RandomState(case["seed"] + 1)
    inputs = {}
    for n in names + inames:
        key = (n, "step") if n in names else (n, "indep")
        var = "rk." + (n + "_initial" if n in names else n)
        shape = np.shape(by[n, "output" if n in names else "indep"]["val"])
        default = np.array(by[key]["val"]) if key in by else np.zeros(shape)
        got = prob.get_val(var)
        if got.shape != shape or not np.array_equal(got, default):
            raise Violation(
                f"input {var} has default {got.tolist()}, stage problem "
                f"{default.tolist()}"
            )
        inputs[n] = rng.uniform(-2, 2, shape)
        prob.set_val(var, inputs[n])
    prob.set_val("rk.time_initial", 0.75)
    prob.run_model()
    for n in names:
        k = np.array(by[n, "output"]["val"])
        vm.close(
            prob.get_val(f"rk.{n}_final"), inputs[n] + 0.25 * k, 1e-13, f"final {n}"
        )
        if (n, "step") in by:
            vm.close(seen[n + "_old"], inputs[n], 1e-14, f"step input of {n}")
            vm.close(seen[n + "_acc"], 0 * inputs[n], 1e-14, f"accumulated {n}")
    for n in inames:
        vm.close(seen[n + "_in"], inputs[n], 1e-14, f"independent input {n}")
    if tv:
        vm.close(seen["time"], [0.75], 1e-14, "time")
    # everything else keeps its value
    used = {v["var"] for v in allvars if v["of"] in set(names + inames)} | {"time"}
    for v in allvars:
        if v["io"] == "in" and v["var"] not in used:
            vm.close(seen[v["var"]], v["val"], 1e-14, f"unrelated input {v['var']}")


def refusal(case, rec):
    allvars = variables(case)
    names, inames = requests(case)
    if not make_mistake(case, allvars, names, inames):
        rec.label("not applicable")
        return
    rec.label(case["mistake"])
    rec.nontrivial()
    stage = build(case, allvars, {})
    stage.setup()
    stage.final_setup()  # nothing but the tags is wrong
    prob = om.Problem()
    prob.model.add_subsystem("rk", integrator(stage, list(names), list(inames)))
    try:
        prob.setup()
        prob.final_setup()
    except Exception:  # pylint: disable=broad-except
        return
    raise Violation(
        f"mistake '{case['mistake']}' is not refused at setup; tags "
        f"{[(v['var'], v['tags']) for v in allvars]}, requested {names}, {inames}"
    )


SUBS = [
    Sub("extraction", case_strategy(None), extraction, 800, 15000),
    Sub("refusal", case_strategy(MISTAKES), refusal, 1600, 30000),
]
