"""C16: parallel runs with distributed data against the serial model."""

import atexit
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile

import h5py
import numpy as np
from hypothesis import strategies as st

from checks import c15
from vlib import adapt, distributed, integ, model as vm
from vlib.driver import Skip, Sub, Violation

PROPERTY = "C16"
HANG_S = 75
START_S = 300


# ------------------------------------------------------------------------ pools of ranks
class Pool:
    """A running mpirun that takes cases one after another."""

    def __init__(self, ranks):
        self.ranks = ranks
        self.scratch = tempfile.mkdtemp(prefix="ranks-", dir=os.getcwd())
        env = {
            k: v
            for k, v in os.environ.items()
            if not k.startswith(("PMIX_", "ORTE_", "OMPI_COMM", "OMPI_MCA_ess"))
        }
        env["VERIF_MPI_SCRATCH"] = self.scratch
        env["TMPDIR"] = self.scratch
        env["OMPI_MCA_btl"] = "self,vader"
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.err = open(os.path.join(self.scratch, "stderr"), "wb")
        self.proc = subprocess.Popen(
            [
                "mpirun", "-n", str(ranks), "--oversubscribe", "--bind-to", "none",
                sys.executable, "-W", "ignore",
                os.path.join(here, "vlib", "mpi_worker.py"),
            ],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=self.err,
            env=env,
            cwd=self.scratch,
            start_new_session=True,
        )
        # starting isn't part of the case
        left = signal.setitimer(signal.ITIMER_REAL, 0.0)[0]
        if not self.wait(START_S) or self.proc.stdout.readline() != b"ready\n":
            raise RuntimeError("mpirun doesn't start: " + "\n".join(self.errors()))
        signal.setitimer(signal.ITIMER_REAL, left)

    def wait(self, seconds):
        return bool(select.select([self.proc.stdout], [], [], seconds)[0])

    def ask(self, case):
        self.proc.stdin.write((json.dumps(case) + "\n").encode())
        self.proc.stdin.flush()
        if not self.wait(HANG_S):
            self.close()
            raise Violation(
                f"{case['ranks']} ranks didn't come to an end within {HANG_S} s"
            )
        line = self.proc.stdout.readline()
        if not line:
            texts = self.errors()
            self.close()
            raise RankError(texts)
        return json.loads(line)

    def errors(self):
        try:
            self.proc.wait(20)
        except subprocess.TimeoutExpired:
            pass
        texts = []
        for r in range(self.ranks):
            path = os.path.join(self.scratch, f"error.{r}")
            if os.path.exists(path):
                with open(path, encoding="utf-8") as f:
                    texts.append(f"rank {r}: " + f.read())
        if not texts:
            with open(os.path.join(self.scratch, "stderr"), errors="replace") as f:
                texts.append("no rank left a traceback; " + f.read()[-3000:])
        return texts

    def close(self):
        POOLS.pop(self.ranks, None)
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        self.err.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


class RankError(Exception):
    def __init__(self, texts):
        super().__init__("\n".join(texts))
        self.texts = texts


POOLS = {}


@atexit.register
def finish():
    for pool in list(POOLS.values()):
        pool.close()


def ask(case):
    if case["ranks"] not in POOLS:
        POOLS[case["ranks"]] = Pool(case["ranks"])
    pool = POOLS[case["ranks"]]
    try:
        return pool, pool.ask(case)
    except (RankError, BrokenPipeError) as err:
        repo = os.path.join(
            os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "src"
        )
        texts = getattr(err, "texts", [str(err)])
        mine = [t for t in texts if f'File "{repo}' in t]
        # errors of libraries are caused by what they were given (see driver)
        if not mine and any(
            f"\n{name}" in t for t in texts
            for name in ("MemoryError", "ImportError", "ModuleNotFoundError", "NameError")
        ):
            raise
        raise Violation("a rank failed: " + (mine or texts)[0][-2500:]) from None


# ------------------------------------------------------------------------------- cases
@st.composite
def layout(draw, ranks, rows):
    """How many of the rows each rank owns."""
    kind = draw(st.sampled_from(["any", "any", "one rank", "even"]))
    if kind == "one rank":
        owner = draw(st.integers(0, ranks - 1))
        return [rows if r == owner else 0 for r in range(ranks)]
    if kind == "even":
        return [rows // ranks + (1 if r < rows % ranks else 0) for r in range(ranks)]
    owners = [draw(st.integers(0, ranks - 1)) for _ in range(rows)]
    return [owners.count(r) for r in range(ranks)]


@st.composite
def dist_ode(draw, ranks):
    def part(name, shapes):
        shape = draw(st.sampled_from(shapes))
        out = {"name": name, "shape": shape}
        if name == "q0" or draw(st.sampled_from([True, True, False])):
            out["dist"] = draw(layout(ranks, shape[0]))
        return out

    nq = draw(st.sampled_from([1, 2, 2, 3]))
    ni = draw(st.sampled_from([0, 1, 1, 2]))
    return {
        "quantities": [
            dict(
                part(f"q{i}", [[1], [2], [3], [4], [5], [2, 2], [3, 1], [4, 2], [2, 1, 2]]),
                has_state=draw(st.sampled_from([True, True, True, False])),
            )
            for i in range(nq)
        ],
        "indep": [part(f"u{i}", [[1], [2], [3], [2, 2]]) for i in range(ni)],
        "use_time": draw(st.booleans()),
        "coef": draw(st.integers(0, 100000)),
        "arch": draw(st.sampled_from(["explicit", "implicit"])),
        "q_order": list(draw(st.permutations(range(nq)))),
        "i_order": list(draw(st.permutations(range(ni)))),
    }


@st.composite
def group_ode(draw, ranks):
    """Components of a parallel group, one for every rank."""

    def part(name, where, shapes):
        shape = draw(st.sampled_from(shapes))
        out = {"name": name, "shape": shape, "part": where}
        if where != distributed.ALL:
            out["dist"] = [shape[0] if r == where else 0 for r in range(ranks)]
        return out

    upper = draw(st.booleans())
    wheres = list(range(ranks)) + ([distributed.ALL] if upper else [])
    qs, us = [], []
    for where in wheres + [draw(st.sampled_from(wheres))]:
        qs.append(
            dict(
                part(f"q{len(qs)}", where, GROUP_SHAPES),
                has_state=draw(st.sampled_from([True, True, True, False])),
            )
        )
    for _ in range(draw(st.sampled_from([0, 1, 2]))):
        us.append(part(f"u{len(us)}", draw(st.sampled_from(wheres)), GROUP_SHAPES))
    return {
        "quantities": qs,
        "indep": us,
        "use_time": upper and draw(st.booleans()),
        "coef": draw(st.integers(0, 100000)),
        "arch": "group",
        "q_order": list(draw(st.permutations(range(len(qs))))),
        "i_order": list(draw(st.permutations(range(len(us))))),
    }


GROUP_SHAPES = [[1], [2], [3], [2, 2]]


@st.composite
def case_strategy(draw, ode=dist_ode):
    ranks = draw(st.sampled_from([2, 2, 3, 4]))
    spec = draw(ode(ranks))
    n = sum(vm.size(q["shape"]) for q in spec["quantities"])
    m = sum(vm.size(q["shape"]) for q in spec["indep"])
    adaptive = draw(st.sampled_from([False, False, True]))
    points = [
        {
            "t0": draw(integ.start_time),
            "x0": draw(vm.vector(n)),
            "p": draw(vm.vector(m)),
        }
        for _ in range(2)
    ]
    # a second point that differs in a single entry only, which one rank may own alone
    if draw(st.booleans()):
        points[1] = json.loads(json.dumps(points[0]))
        i = draw(st.integers(0, n + m - 1))
        key, i = ("x0", i) if i < n else ("p", i - n)
        points[1][key][i] += 0.25
    ops = [{"kind": "set", **points[0]}, {"kind": "run"}]
    at = 0
    checkpointing = "none" if adaptive and draw(st.booleans()) else draw(
        st.sampled_from(["all", "pyrevolve"])
    )
    kinds = ["fwd", "fwd", "run", "set"]
    if checkpointing != "none":
        kinds += ["rev", "rev", "rev"]
    if adaptive and checkpointing == "pyrevolve":
        checkpointing = "all"
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        kind = draw(st.sampled_from(kinds))
        if kind == "set":
            at = 1 - at
            ops.append({"kind": "set", **points[at]})
        elif kind == "run":
            ops.append({"kind": "run"})
        else:
            ops.append({"kind": kind, "seed": draw(st.integers(0, 10**6))})
    case = {
        "ranks": ranks,
        "ode": spec,
        "tab": draw(
            vm.shipped_tableau(embedded=True)
            if adaptive
            else vm.tableau(max_stages=3)
        ),
        "dt": draw(st.sampled_from([1 / 32, 1 / 16, 0.1, 1 / 8])),
        "n": draw(st.sampled_from([1, 2, 3])),
        "checkpointing": checkpointing,
        "mode": "rev",
        "file": "run.h5" if draw(st.sampled_from([True, True, False])) else None,
        "period": draw(st.sampled_from([1, 1, 2])),
        "ops": ops,
    }
    if adaptive:
        case["adaptive"] = {
            "controllers": [draw(st.sampled_from(["integral", "h_211", "pid"]))],
            "tol": 10.0 ** -draw(st.integers(3, 7)),
            "measurer": draw(
                st.sampled_from(["simple", [1e-3, 1e-2], [0.5, 1.0]])
            ),
        }
    return case


@st.composite
def norm_case(draw):
    ranks = draw(st.sampled_from([2, 2, 3, 4]))
    spec = draw(draw(st.sampled_from([dist_ode, dist_ode, group_ode]))(ranks))
    n = sum(vm.size(q["shape"]) for q in spec["quantities"])
    names = [q["name"] for q in spec["quantities"]]
    checks = []
    for _ in range(draw(st.integers(1, 4))):
        exclude = [x for x in names if draw(st.sampled_from([False, False, True]))]
        checks.append(
            {
                "order": draw(st.sampled_from(c15.ORDERS)),
                "exclude": exclude if len(exclude) < len(names) else exclude[1:],
                "x": draw(st.lists(c15.entry(), min_size=n, max_size=n)),
                "err": draw(st.lists(c15.entry(), min_size=n, max_size=n)),
                "eta": draw(st.sampled_from([1e-6, 0.5, 1.0])),
                "eps": draw(st.sampled_from([1e-6, 0.5, 1.0])),
            }
        )
    return {"ranks": ranks, "ode": spec, "checks": checks}


def run_norms(case, rec):
    ode = distributed.make_ode(case["ode"])
    _, results = ask(case)
    for i, c in enumerate(case["checks"]):
        order = float(c["order"])
        keep = np.concatenate(
            [
                np.arange(ode.n)[ode.slices[q["name"]]]
                for q in ode.quantities
                if q["name"] not in c["exclude"]
            ]
        )
        size = c15.norm(np.array(c["x"])[keep], order)
        err = c15.norm(np.array(c["err"])[keep], order)
        for r, res in enumerate(results):
            what = f"rank {r}, order {order}, without {c['exclude']}"
            c15.check(res[i][0], size, f"norm, {what}")
            c15.check(res[i][1], err, f"measure, {what}")
            c15.check(res[i][2], err / (size + c["eta"] / c["eps"]), f"rel. measure, {what}")
        rec.label(f"order {order}")
    rec.label(f"{case['ranks']} ranks")
    rec.label(case["ode"]["arch"])
    parts = case["ode"]["quantities"]
    if any(0 in q.get("dist", []) for q in parts):
        rec.label("a rank without data")
    rec.nontrivial(len(parts) > 1)


# ------------------------------------------------------------------------------- oracle
def assemble(ode, spec, per_rank, name, what, tol, unit=1.0):
    """Global values of a quantity from the parts of all ranks."""
    vals = []
    for r, (shape, flat) in enumerate(per_rank):
        want = list(spec["shape"])
        if spec.get("dist"):
            want[0] = spec["dist"][r]
        if int(np.prod(want)) != len(flat):
            raise Violation(
                f"{what}: {name} has {len(flat)} entries on rank {r}, expected {want}"
            )
        vals.append(np.array(flat))
    if spec.get("dist"):
        return np.concatenate(vals)
    for r, v in enumerate(vals):
        vm.close(v, vals[0], tol, f"{what}: {name} on rank {r} and rank 0", unit)
    return vals[0]


class Oracle:
    def __init__(self, case):
        self.case = case
        self.ode = distributed.make_ode(case["ode"])
        self.obj, self.tab = vm.build_tableau(case["tab"])
        self.ref = vm.Ref(self.ode, self.tab)
        self.cache = {}

    def run(self, point):
        key = json.dumps(point)
        if key not in self.cache:
            self.cache[key] = self._run(point)
        return self.cache[key]

    def _run(self, point):
        case = self.case
        t0, x0, p = point["t0"], np.array(point["x0"]), np.array(point["p"])
        if case.get("adaptive"):
            dts, errs = self._steps(t0, x0, p)
        else:
            dts, errs = [case["dt"]] * case["n"], None
        out = self.ref.run(t0, x0, p, dts, True)
        out["dts"] = dts
        out["errs"] = errs
        if errs is None and self.tab.bhat is not None:
            out["errs"] = [
                np.linalg.norm(r["x"] - r["emb"]) for r in out["steps"]
            ]
        big = max(np.max(np.abs(out["x"])), np.max(np.abs(out["J"])))
        if not np.isfinite(big) or big > 1e5:
            raise Skip("large values")
        return out

    def _steps(self, t0, x0, p):
        a = self.case["adaptive"]
        porder = self.obj.min_p_order()
        exps = [adapt.exponents(c, porder) for c in a["controllers"]]
        measure = adapt.Measure(a["measurer"], x0)
        chain = adapt.Chain(exps, a["tol"], 0.0, np.inf, 0.95, 5, noise=1e-6)
        eh, dth = [a["tol"]] * 2, [0.0, 0.0]
        t, x, dt = t0, x0, self.case["dt"]
        dts, errs = [], []
        for _ in range(self.case["n"]):
            chain.reset()
            try:
                used, e, dt, _, res = adapt.one_step(
                    self.ref, t, x, p, dt, chain, measure, eh, dth
                )
            except (adapt.Ambiguous, adapt.ControllerError):
                raise Skip("decided by rounding") from None
            dts.append(used)
            errs.append(e)
            eh, dth = [e, eh[0]], [used, dth[0]]
            t, x = res["t"], res["x"]
        return dts, errs


def run(case, rec):
    oracle = Oracle(case)
    ode = oracle.ode
    n, m = ode.n, ode.m
    # judge only what the model can; before any rank starts
    point = None
    for op in case["ops"]:
        if op["kind"] == "set":
            point = {k: op[k] for k in ("t0", "x0", "p")}
            oracle.run(point)
    pool, results = ask(case)
    tol = 1e-10 if not case.get("adaptive") else 1e-6
    # entries of results: per rank a list of events
    k = 0
    last_run = None
    for i, op in enumerate(case["ops"]):
        if op["kind"] == "set":
            point = {key: op[key] for key in ("t0", "x0", "p")}
            continue
        # values reach the integrator when the model runs
        want = oracle.run(point) if op["kind"] == "run" else last_run
        events = [res[k] for res in results]
        k += 1
        what = f"operation {i + 1} ({op['kind']})"
        if op["kind"] == "run":
            last_run = want
            check_run(ode, events, want, what, tol)
            check_metadata(ode, events, what)
        else:
            check_products(ode, op, events, want, what, 10 * tol)
    if case["file"]:
        check_file(case, ode, pool, last_run, tol)
    dist = [q for q in case["ode"]["quantities"] + case["ode"]["indep"] if q.get("dist")]
    rec.label(f"{case['ranks']} ranks")
    rec.label(case["ode"]["arch"])
    rec.label("adaptive" if case.get("adaptive") else "fixed steps")
    if any(0 in q["dist"] for q in dist):
        rec.label("a rank without data")
    if dist and len(dist) < len(case["ode"]["quantities"] + case["ode"]["indep"]):
        rec.label("mixed with local data")
    for op in case["ops"]:
        rec.label(op["kind"])
    rec.nontrivial(bool(dist))


def check_run(ode, events, want, what, tol):
    for q in ode.quantities:
        got = assemble(
            ode, q, [e["outputs"][q["name"]] for e in events], q["name"], what, tol
        )
        vm.close(got, want["x"][ode.slices[q["name"]]], tol, f"{what}: {q['name']}")
    for r, e in enumerate(events):
        vm.close([e["outputs"]["time"]], [want["t"]], tol, f"{what}: time on rank {r}")
        if len(e["steps"]) != len(want["dts"]):
            raise Violation(
                f"{what}: {len(e['steps'])} steps on rank {r}, expected {len(want['dts'])}"
            )
        dts = np.array([s[1] for s in e["steps"]])
        vm.close(dts, want["dts"], tol, f"{what}: step sizes on rank {r}")
        # Ranks compute what isn't distributed on their own, up to rounding.
        vm.close(
            dts,
            [s[1] for s in events[0]["steps"]],
            1e-9,
            f"{what}: step sizes on rank {r} and rank 0",
        )
        if want["errs"] is not None:
            for k, (s, err) in enumerate(zip(e["steps"], want["errs"])):
                if not abs(s[2] - err) <= 1e-13 + 1e3 * tol * err:
                    raise Violation(
                        f"{what}: error measure {s[2]} of step {k + 1} on rank {r}, "
                        f"expected {err}"
                    )


def check_metadata(ode, events, what):
    """Where the parts of the ranks belong, as told to callbacks."""
    for q in ode.quantities + ode.indep:
        row = vm.size(q["shape"][1:]) if len(q["shape"]) > 1 else 1
        dist, start = q.get("dist"), 0
        # as a quantity of one rank only may be held as distributed or not
        lonely = dist and sum(1 for k in dist if k) == 1
        for r, e in enumerate(events):
            shape, isdist, gs, ge = e["metadata"][q["name"]]
            if shape != list(q["shape"]):
                raise Violation(f"{what}: {q['name']}: global shape {shape}, rank {r}")
            if isdist != bool(dist) and not lonely:
                raise Violation(f"{what}: {q['name']}: distributed={isdist}, rank {r}")
            size = dist[r] * row if dist else vm.size(q["shape"])
            if size and (gs, ge) != (start, start + size):
                raise Violation(
                    f"{what}: {q['name']}: entries {gs} to {ge} on rank {r}, "
                    f"expected {start} to {start + size}"
                )
            start += size if dist else 0


def check_products(ode, op, events, want, what, tol):
    n, m = ode.n, ode.m
    J = integ.full_jac(want["J"])
    if op["kind"] == "fwd":
        v = integ.direction(op["seed"], n + m + 1)
        res = J @ v
        names = [(q["name"] + "_final", q, res[ode.slices[q["name"]]]) for q in ode.quantities]
        names.append(("time_final", {"shape": [1]}, res[n:]))
    else:
        v = integ.direction(op["seed"], n + 1)
        res = J.T @ v
        names = [
            (q["name"] + "_initial", q, res[ode.slices[q["name"]]])
            for q in ode.quantities
        ]
        names += [
            (q["name"], q, res[n : n + m][ode.islices[q["name"]]]) for q in ode.indep
        ]
        names.append(("time_initial", {"shape": [1]}, res[n + m :]))
    for name, spec, vals in names:
        got = assemble(
            ode,
            spec,
            [[None, e["products"][name]] for e in events],
            name,
            what,
            tol,
            integ.unit(v),
        )
        vm.close(got, vals, tol, f"{what}: {name}", integ.unit(v))


def check_file(case, ode, pool, want, tol):
    path = os.path.join(pool.scratch, case["file"])
    with h5py.File(path, "r") as f:
        keys = sorted(int(k) for k in f)
        steps = [0] + [
            i for i in range(1, len(want["dts"]) + 1) if i % case["period"] == 0
        ]
        if keys != steps:
            raise Violation(f"file contains steps {keys}, expected {steps}")
        for i in steps:
            t, x = want["traj"][i]
            g = f[str(i)]
            vm.close(g["time"][...], [t], tol, f"file, step {i}: time")
            for q in ode.quantities:
                vm.close(
                    g[q["name"]][...],
                    x[ode.slices[q["name"]]].reshape(q["shape"]),
                    tol,
                    f"file, step {i}: {q['name']}",
                )
            if want["errs"] is not None and i > 0:
                vm.close(
                    g["error_measure"][...], [want["errs"][i - 1]], tol, f"file, step {i}"
                )
    os.remove(path)


SUBS = [
    Sub("distributed", case_strategy(), run, 640, 8000, workers=4),
    Sub("norms", norm_case(), run_norms, 400, 6000, workers=2),
    Sub("parallel_group", case_strategy(group_ode), run, 280, 4000, workers=4),
]
