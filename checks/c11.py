"""C11: result files contain exactly the computed history, reading returns it."""

import os

import h5py
import numpy as np
from hypothesis import strategies as st

from rkopenmdao.errors import ErrorControllerError
from rkopenmdao.file_writer import (
    OpenMDAOHDF5Callback,
    read_hdf5_file,
    read_last_local_error,
)
from vlib import integ, model as vm
from vlib.driver import Skip, Sub, Violation

PROPERTY = "C11"
FILES = ["result.h5", "other.h5"]


@st.composite
def integration(draw):
    spec = draw(vm.ode_spec(max_state=8, max_quantities=4))
    embedded = draw(st.booleans())
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12]))
    adaptive = embedded and draw(st.booleans())
    until = draw(st.sampled_from(["steps", "time"]))
    cps = ["none", "all"] + (["pyrevolve"] if until == "steps" else [])
    return {
        "ode": spec,
        "tab": draw(vm.tableau(embedded=embedded, max_stages=3)),
        "dt": draw(st.sampled_from([1 / 32, 1 / 16, 0.1])),
        "n": n,
        "until": until,
        "adaptive": (
            {
                "controllers": [draw(st.sampled_from(sorted(integ.CONTROLLERS)))],
                "tol": draw(st.sampled_from([1e-2, 1e-3, 1e-4])),
                "lower": 1 / 64,
                "upper": 1.0,
            }
            if adaptive
            else None
        ),
        "measurer": draw(st.sampled_from(["simple", [0.5, 1e-2]])),
        "checkpointing": draw(st.sampled_from(cps)),
        "period": draw(st.sampled_from([1, 1, 2, 3, 4, n, n + 1])),
        "file": draw(st.sampled_from([0, 0, 1])),
        "points": [draw(integ.point(spec)) for _ in range(2)],
    }


@st.composite
def file_case(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    return {
        "integrations": [draw(integration()) for _ in range(k)],
        # (operation, integration, point)
        "ops": draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["run", "run", "fwd", "rev"]),
                    st.integers(0, k - 1),
                    st.integers(0, 1),
                ).map(list),
                min_size=0,
                max_size=4,
            )
        ),
        "read": draw(st.permutations(range(4))),
        "count": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 10**6)),
    }


def make(case):
    ode = vm.ODE(case["ode"])
    obj, _ = vm.build_tableau(case["tab"])
    log = []
    kw = {"n_steps": case["n"]}
    if case["until"] == "time":
        # from the last of both starts
        end = max(p["t0"] for p in case["points"]) + (case["n"] - 0.5) * case["dt"]
        kw = {"final_time": end}
        low = min(p["t0"] for p in case["points"])
        for p in case["points"]:  # don't let one of them run for ages
            p["t0"] = end - (case["n"] - 0.5) * case["dt"] if p["t0"] == low else p["t0"]
    adaptive = case["adaptive"]
    su = integ.Setup(
        ode,
        obj,
        case["dt"],
        adaptive=None if adaptive is None else {**adaptive, "measurer": case["measurer"]},
        checkpointing=case["checkpointing"],
        callbacks=[
            OpenMDAOHDF5Callback(FILES[case["file"]], write_out_period=case["period"]),
            integ.Recording(log),
        ],
        **kw,
    )
    return ode, obj, su, log


def snapshot(path):
    """The whole content of a file as plain data."""
    out = {}
    with h5py.File(path, mode="r") as f:
        for key, group in f.items():
            if not isinstance(group, h5py.Group):
                raise Violation(f"{path}: entry {key} isn't a time step")
            out[key] = {name: np.array(data) for name, data in group.items()}
    return out


def expected(case, ode, obj, log):
    steps = [s for s in log if s["when"] == "after"]

    def entry(time, state, err):
        e = {"time": np.array([time])}
        for q in ode.quantities:
            e[q["name"]] = state[ode.slices[q["name"]]].reshape(q["shape"])
        if obj.is_embedded:
            e["error_measure"] = np.array([err])
        return e

    out = {"0": entry(steps[0]["start_time"], steps[0]["start_state"], 0.0)}
    for k, s in enumerate(steps, 1):
        if k % case["period"] == 0:
            out[str(k)] = entry(s["final_time"], s["final_state"], s["err"])
    return out


def compare(path, got, want):
    if set(got) != set(want):
        raise Violation(f"{path} holds steps {sorted(got)}, expected {sorted(want)}")
    for key, entry in want.items():
        if set(got[key]) != set(entry):
            raise Violation(f"{path}: step {key} holds {sorted(got[key])}")
        for name, val in entry.items():
            have = got[key][name]
            if have.shape != val.shape:
                raise Violation(
                    f"{path}: {name} of step {key} has shape {have.shape}, not {val.shape}"
                )
            if have.dtype != np.float64 or not np.array_equal(have, val):
                raise Violation(
                    f"{path}: {name} of step {key} is {have.tolist()}, not {val.tolist()}"
                )


def run_files(case, rec):
    for name in FILES:
        if os.path.exists(name):
            os.remove(name)
    made = [make(c) for c in case["integrations"]]
    content = {}
    owner = {}
    written = 0
    started = set()
    try:
        for op, i, j in [["run", 0, 0]] + case["ops"]:
            c = case["integrations"][i]
            ode, obj, su, log = made[i]
            path = FILES[c["file"]]
            point = c["points"][j]
            if op == "rev" and c["checkpointing"] == "none":
                continue
            log.clear()
            if op == "run" or i not in started:
                su.set_inputs(point["t0"], point["x0"], point["p"])
                su.run()
                started.add(i)
                p = np.array(point["p"])
                ref = vm.Ref(ode, vm.build_tableau(c["tab"])[1])
                for s in log:
                    if s["when"] == "before" or not c["adaptive"] and not obj.is_embedded:
                        continue
                    res = ref.step(s["start_time"], s["start_state"], p, s["dt"])
                    e = np.linalg.norm(res["x"] - res["emb"])
                    if c["adaptive"] and c["measurer"] != "simple":
                        eta, eps = c["measurer"]
                        e = e / (np.linalg.norm(res["x"]) + eta / eps)
                    vm.close([s["err"]], [e], 1e-9, "error measure of a step")
            else:
                su.jacvec(
                    op, integ.expand(case["seed"], ode.n + 1 + (ode.m if op == "fwd" else 0))
                )
            if log:  # reverse mode may have to run compute again
                content[path] = expected(c, ode, obj, log)
                owner[path] = i
                written += 1
                if c["period"] > 1:
                    rec.label("period > 1")
            for name in FILES:
                if name in content:
                    compare(name, snapshot(name), content[name])
                elif os.path.exists(name):
                    raise Violation(f"{name} was created by an integration not using it")
    except ErrorControllerError as err:
        raise Skip("no controller could reduce the step") from err
    rec.label(f"integrations={len(made)}")
    rec.label(f"files written {'once' if written == 1 else 'repeatedly'}")
    rec.nontrivial(any(len(c) > 2 for c in content.values()))
    for path, data in content.items():
        ode, obj, _, _ = made[owner[path]]
        read_back(case, path, data, ode, obj, rec)
        os.remove(path)


def read_back(case, path, data, ode, obj, rec):
    names = [q["name"] for q in ode.quantities]
    names = [names[i] for i in case["read"] if i < len(names)][: case["count"]]
    calls = []

    def flow(name, time, initial, t0):
        # quantities of a system depend on the initial values of all of them
        i = names.index(name)
        mixed = sum((j + 1.0) * np.sum(np.asarray(v)) for j, v in enumerate(initial))
        k = 1.0 + i
        return np.array(initial[i]) * np.cos(k * (time - t0)) + k * t0 + mixed * time

    def solution(time, initial, t0):
        calls.append((time, initial, t0))
        if len(names) == 1:
            return flow(names[0], time, [initial], t0)
        return [flow(nm, time, initial, t0) for nm in names]

    time, error, result = read_hdf5_file(path, list(names), solution)
    keys = {int(k) for k in data}
    if set(time) != keys or set(error) != set(names) or set(result) != set(names):
        raise Violation(f"read_hdf5_file returned data of {sorted(time)}, {sorted(result)}")
    start = data["0"]["time"][0]
    for k in keys:
        if time[k] != data[str(k)]["time"][0]:
            raise Violation(f"read_hdf5_file returned time {time[k]} for step {k}")
    for nm in names:
        if set(error[nm]) != keys or set(result[nm]) != keys:
            raise Violation(f"read_hdf5_file lacks steps of {nm}")
        for k in keys:
            val = data[str(k)][nm]
            if np.shape(result[nm][k]) != val.shape or not np.array_equal(
                result[nm][k], val
            ):
                raise Violation(f"read_hdf5_file returned {result[nm][k]} for {nm}, step {k}")
            first = [data["0"][name] for name in names]
            want = np.abs(flow(nm, time[k], first, start) - val)
            vm.close(error[nm][k], want, 1e-14, f"read_hdf5_file: error of {nm}, step {k}")
    rec.label("read one quantity" if len(names) == 1 else "read several quantities")
    if obj.is_embedded:
        last = str(max(keys))
        if read_last_local_error(path) != data[last]["error_measure"][0]:
            raise Violation(
                f"read_last_local_error: {read_last_local_error(path)}, last written "
                f"step {last} has {data[last]['error_measure'][0]}"
            )
        if len(keys) > 10:
            rec.label("more than ten groups")


@st.composite
def long_case(draw):
    case = draw(file_case())
    one = case["integrations"][0]
    one["ode"] = draw(vm.ode_spec(max_state=2, max_quantities=2, archs=["explicit_mf"]))
    one["tab"] = {"kind": "shipped",
                  "name": draw(st.sampled_from(["explicit_euler", "embedded_heun_euler"]))}
    one["adaptive"] = None
    one["checkpointing"] = "none"
    one["points"] = [draw(integ.point(one["ode"])) for _ in range(2)]
    one["n"], one["period"] = draw(
        st.sampled_from([[60, 1], [99, 1], [120, 1], [260, 2], [1010, 8], [1024, 256]])
    )
    one["dt"] = 1 / 256
    case["integrations"] = [one]
    case["ops"] = []
    return case


SUBS = [
    Sub("long", long_case(), run_files, 32, 320),
    Sub("files", file_case(), run_files, 1200, 9000),
]
