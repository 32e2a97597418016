"""Runs the generated-input checks of one property.

A check module (checks/<id>.py) has
    PROPERTY   id
    RULE       how cases are made and what makes one non-trivial
    SUBS       list of Sub

A Sub couples a Hypothesis strategy, which generates a *case* (plain JSON data), with
a plain function fn(case, rec) that runs the real code on that case against the oracle
and raises Violation if the property is broken.  Because the case is plain data, a
shrunk failure is written as JSON and replayed without Hypothesis.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line, and
any other exit code: error of the harness.
"""

from __future__ import annotations

import hashlib
import errno
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
from dataclasses import dataclass
from typing import Any, Callable


class Violation(Exception):
    """The property is broken on this case."""


class CaseTimeout(BaseException):
    """A single case did not come to an end."""


CASE_TIMEOUT_S = 120  # the slowest case takes about 2 s


class Skip(Exception):
    """The case lies outside the property's preconditions (counted, not an error)."""


@dataclass
class Sub:
    name: str
    strategy: Any
    fn: Callable
    quick: int  # examples per quick run, over all workers
    thorough: int
    shrink_s: float = 60.0
    workers: int | None = None  # restrict the number of workers used for this sub


class Recorder:
    """Counts what the generated cases look like."""

    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.labels = {}
        self.nontrivial_hashes = set()
        self.samples = []
        self._is_nontrivial = False
        self.slowest = 0.0

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, flag=True):
        if flag:
            self._is_nontrivial = True

    def begin(self):
        self._is_nontrivial = False

    def end(self, sub, case):
        if self._is_nontrivial:
            text = json.dumps(case, sort_keys=True)
            h = hashlib.sha1((sub + text).encode()).hexdigest()[:16]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 2 and len(text) < 4000:
                    self.samples.append({"sub": sub, "case": case})


def load_check(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def _harness_fault(exc, repo):
    """Whether an exception says something about this machinery or the machine instead of
    the code under test.  On code for which the property holds no case raises anything; so
    what is raised by the code under test, by a library it calls, or while a result it
    returned is taken apart is its doing."""
    src = os.path.join(os.path.realpath(repo), "src") + os.sep
    seen = set()
    stack = [exc]
    while stack:
        e = stack.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(src):
                return False
        stack += [e.__cause__, e.__context__]
    if isinstance(exc, (ImportError, NameError, AssertionError)):
        return True
    if isinstance(exc, AttributeError) and isinstance(exc.obj, (type, types.ModuleType)):
        return True
    return isinstance(exc, OSError) and exc.errno in (
        errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN
    )


CONFIRMED = {"files": False, "pid": None}


def _file_system_trouble(exc, sub, case):
    """Opening files through MPI needs things outside of the case (e.g. a directory of the
    MPI library).  Such a failure counts only if it happens in a process of its own, too."""
    if not isinstance(exc, OSError) or "MPI_File_open" not in str(exc):
        return False
    if CONFIRMED["files"] or CONFIRMED["pid"] is None:
        return False
    signal.setitimer(signal.ITIMER_REAL, 0.0)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "case.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"sub": sub.name, "case": case}, f)
        try:
            rc = subprocess.run(
                [sys.executable, os.path.join(here, "check.py"), CONFIRMED["pid"],
                 "--replay", path],
                env={**os.environ, "TMPDIR": tmp},
                stdout=subprocess.DEVNULL,
                stderr=subprocess.DEVNULL,
                timeout=2 * CASE_TIMEOUT_S,
                check=False,
            ).returncode
        except subprocess.TimeoutExpired:
            rc = 1
    CONFIRMED["files"] = rc != 0
    return rc == 0


def run_case(sub, case, rec, repo):
    """Runs one case.  Returns None (held), or the text of the violation.  Errors of the
    harness itself propagate."""
    rec.begin()
    _note_current(sub, case)
    try:
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT_S)
        sub.fn(case, rec)
        return None
    except Violation as err:
        return str(err)
    except CaseTimeout:
        return f"the case did not come to an end within {CASE_TIMEOUT_S} s"
    except Skip:
        rec.skipped += 1
        return None
    except (KeyboardInterrupt, MemoryError):
        raise
    except (Exception, SystemExit) as err:  # pylint: disable=broad-except
        if not _harness_fault(err, repo):
            if _file_system_trouble(err, sub, case):
                rec.skipped += 1
                return None
            tail = "".join(
                traceback.format_exception(type(err), err, err.__traceback__)[-6:]
            )
            return f"code under test raised {type(err).__name__}: {err}\n{tail}"
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0.0)
        _note_current(sub, None)
        rec.end(sub.name, case)


CURRENT = {"path": None}


def _note_current(sub, case):
    """Leaves the case that is being run on disk, for the parent to find if the code
    under test takes the whole process down."""
    path = CURRENT["path"]
    if path is None:
        return
    with open(path, "w", encoding="utf-8") as f:
        if case is not None:
            json.dump({"sub": sub.name, "case": case}, f)


def _on_alarm(_signum, _frame):
    raise CaseTimeout()


def _make_body(sub, rec, fail, truncated, t_start, budget, repo):
    def body(case):
        now = time.monotonic()
        if fail["t"] is None and now - t_start > budget:
            truncated["n"] += 1
            return
        if fail["t"] is not None and now - fail["t"] > sub.shrink_s:
            return
        rec.evaluations += 1
        msg = run_case(sub, case, rec, repo)
        rec.slowest = max(rec.slowest, time.monotonic() - now)
        if msg is not None:
            size = len(json.dumps(case))
            if fail["t"] is None:
                fail["t"] = now
                fail["first"] = (case, msg)
            if fail["size"] is None or size <= fail["size"]:
                fail.update(case=case, msg=msg, size=size)
            raise Violation(msg)

    return body


def worker_main(pid, index, count, tier, seed, out, repo, budget):
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    from hypothesis.errors import Flaky

    check = load_check(pid)
    t_start = time.monotonic()
    result = {"subs": {}, "violations": [], "error": None}
    active = 0
    for sub in check.SUBS:
        total = sub.quick if tier == "quick" else sub.thorough
        nw = min(count, sub.workers or count, max(1, total))
        # rotate so that subs restricted to few workers do not all land on worker 0
        first = active % count
        if sub.workers:
            active += sub.workers
        pos = (index - first) % count
        if pos >= nw:
            continue
        n = total // nw + (1 if pos < total % nw else 0)
        if n == 0:
            continue
        rec = Recorder()
        fail = {"case": None, "msg": None, "size": None, "t": None, "first": None}
        truncated = {"n": 0}

        body = _make_body(sub, rec, fail, truncated, t_start, budget, repo)

        digest = hashlib.sha256(f"{seed}/{pid}/{sub.name}/{pos}".encode()).digest()
        hseed = int.from_bytes(digest[:6], "big")
        test = hypothesis.given(case=sub.strategy)(body)
        test = hypothesis.seed(hseed)(test)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
        )(test)
        t0 = time.monotonic()
        try:
            test()
        except (Violation, Flaky):
            if fail["case"] is None:
                raise
        except BaseExceptionGroup:  # noqa: F821
            if fail["case"] is None:
                raise
        if fail["case"] is not None:
            chosen = None
            for case, msg in ((fail["case"], fail["msg"]), fail["first"]):
                again = run_case(sub, case, Recorder(), repo)
                if again is not None:
                    chosen = (case, again, True)
                    break
            if chosen is None:
                chosen = (fail["case"], fail["msg"], False)
            result["violations"].append(
                {
                    "sub": sub.name,
                    "case": chosen[0],
                    "message": chosen[1],
                    "reproduced_in_isolation": chosen[2],
                }
            )
        result["subs"][sub.name] = {
            "evaluations": rec.evaluations,
            "skipped": rec.skipped,
            "truncated": truncated["n"],
            "labels": rec.labels,
            "hashes": sorted(rec.nontrivial_hashes),
            "samples": rec.samples,
            "wall_s": time.monotonic() - t0,
            "slowest": rec.slowest,
        }
        if fail["case"] is not None:
            break
    finish = getattr(check, "finish", None)
    if finish is not None:
        finish()
    with open(out, "w", encoding="utf-8") as f:
        json.dump(result, f)


def main(argv, here, repo):
    pid = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    tier = opts.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opts.get("--seed", os.environ.get("VERIF_SEED", "1")))
    jobs = int(opts.get("--jobs", "8"))
    budget = float(opts.get("--budget", "420" if tier == "quick" else "780"))

    if "--worker" in opts:
        _worker_entry(pid, opts, tier, seed, jobs, budget, repo)
        return
    if "--replay" in opts:
        sys.exit(_replay(pid, opts["--replay"], repo))
    sys.exit(_parent(pid, tier, seed, jobs, budget, here, repo))


def _quiet():
    """Silence everything the code under test prints (fd level); keeps the real stderr
    for harness errors."""
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    return os.fdopen(err, "w")


def _serial_env(env):
    env["OMPI_MCA_ess_singleton_isolated"] = "1"
    env["OMPI_MCA_btl"] = "self"
    return env


def _import_guard(repo):
    import warnings

    warnings.simplefilter("ignore")
    import rkopenmdao

    got = os.path.realpath(rkopenmdao.__file__)
    want = os.path.realpath(os.path.join(repo, "src"))
    if not got.startswith(want + os.sep):
        raise RuntimeError(f"rkopenmdao imported from {got}, not from {want}")


def _worker_entry(pid, opts, tier, seed, jobs, budget, repo):
    err = _quiet()
    import faulthandler

    faulthandler.enable(err)
    try:
        _import_guard(repo)
        import petsc4py

        petsc4py.init(["-no_signal_handler"])
        signal.signal(signal.SIGALRM, _on_alarm)
        CURRENT["path"] = opts["--out"] + ".current"
        CONFIRMED["pid"] = pid
        worker_main(
            pid, int(opts["--worker"]), jobs, tier, seed, opts["--out"], repo, budget
        )
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc(file=err)
        err.flush()
        os._exit(3)
    err.flush()
    os._exit(0)


def _replay(pid, path, repo):
    os.environ.update(_serial_env({}))
    with open(path, encoding="utf-8") as f:
        rep = json.load(f)
    real_out = os.fdopen(os.dup(1), "w")
    err = _quiet()
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    old = os.getcwd()
    os.chdir(scratch)
    try:
        _import_guard(repo)
        signal.signal(signal.SIGALRM, _on_alarm)
        check = load_check(pid)
        sub = {s.name: s for s in check.SUBS}[rep["sub"]]
        msg = run_case(sub, rep["case"], Recorder(), repo)
        finish = getattr(check, "finish", None)
        if finish is not None:
            finish()
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc(file=err)
        err.flush()
        return 3
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)
    if msg is None:
        print(f"replay {path}: property {pid} holds on this case", file=real_out)
        real_out.flush()
        return 0
    print(msg, file=real_out)
    print(f"VIOLATION property={pid} replay={os.path.abspath(path)}", file=real_out)
    real_out.flush()
    return 1


def _known_findings(here, pid):
    path = os.path.join(here, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.strip():
                    entry = json.loads(line)
                    if entry["property"] == pid and entry["status"] == "known":
                        out.append(entry)
    return out


def _parent(pid, tier, seed, jobs, budget, here, repo):
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    procs = []
    try:
        for i in range(jobs):
            wdir = os.path.join(scratch, f"w{i}")
            os.makedirs(wdir)
            # Processes that share the session directory of MPI may remove it while
            # others still use it.
            tmp = os.path.join(scratch, f"t{i}")
            os.makedirs(tmp)
            out = os.path.join(scratch, f"out{i}.json")
            cmd = [
                sys.executable,
                os.path.join(here, "check.py"),
                pid,
                "--worker",
                str(i),
                "--out",
                out,
                "--tier",
                tier,
                "--seed",
                str(seed),
                "--jobs",
                str(jobs),
                "--budget",
                str(budget),
            ]
            errf = open(os.path.join(scratch, f"err{i}"), "w", encoding="utf-8")
            procs.append(
                (
                    subprocess.Popen(
                        cmd,
                        cwd=wdir,
                        env=_serial_env({**os.environ, "TMPDIR": tmp}),
                        stdin=subprocess.DEVNULL,
                        stderr=errf,
                        start_new_session=True,
                    ),
                    out,
                    errf,
                )
            )
        hard = t0 + (budget + 300 if tier == "quick" else budget + 600)
        errors = []
        results = []
        for i, (proc, out, errf) in enumerate(procs):
            try:
                rc = proc.wait(timeout=max(1.0, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                _kill(proc)
                rc = "timeout"
            errf.close()
            crashed = _crash(rc, out)
            if rc == 0 and os.path.exists(out):
                with open(out, encoding="utf-8") as f:
                    results.append(json.load(f))
            elif crashed is not None:
                results.append({"subs": {}, "violations": [crashed]})
            else:
                with open(errf.name, encoding="utf-8") as f:
                    errors.append(f"worker {i}: rc={rc}\n{f.read()[-6000:]}")
        return _report(
            pid, tier, seed, results, errors, here, time.monotonic() - t0, jobs
        )
    finally:
        for proc, _, errf in procs:
            if proc.poll() is None:
                _kill(proc)
            errf.close()
        shutil.rmtree(scratch, ignore_errors=True)


def _crash(rc, out):
    """A worker that died of a signal, or hung for minutes, in the middle of a case: the
    code under test did that (cases never do on their own)."""
    if rc == 0 or rc == 3:
        return None
    path = out + ".current"
    if not os.path.exists(path):
        return None
    with open(path, encoding="utf-8") as f:
        text = f.read()
    if not text:
        return None
    if rc == "timeout":
        if time.time() - os.path.getmtime(path) < CASE_TIMEOUT_S:
            return None
        what = "the process hung in the middle of this case"
    elif isinstance(rc, int) and -rc in (
        signal.SIGSEGV,
        signal.SIGABRT,
        signal.SIGFPE,
        signal.SIGBUS,
        signal.SIGILL,
    ):
        what = f"the process was killed by signal {-rc} in the middle of this case"
    else:
        return None
    cur = json.loads(text)
    return {
        "sub": cur["sub"],
        "case": cur["case"],
        "message": what,
        "reproduced_in_isolation": None,
    }


def _kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    proc.wait()


def _report(pid, tier, seed, results, errors, here, wall, jobs):
    subs = {}
    violations = []
    for res in results:
        violations += res["violations"]
        for name, s in res["subs"].items():
            agg = subs.setdefault(
                name,
                {
                    "evaluations": 0,
                    "skipped": 0,
                    "truncated": 0,
                    "labels": {},
                    "hashes": set(),
                    "samples": [],
                    "slowest": 0.0,
                },
            )
            agg["slowest"] = max(agg["slowest"], s["slowest"])
            for key in ("evaluations", "skipped", "truncated"):
                agg[key] += s[key]
            for k, v in s["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["hashes"].update(s["hashes"])
            agg["samples"] += s["samples"]
    evid_dir = os.path.join(here, "evidence")
    os.makedirs(evid_dir, exist_ok=True)
    known = _known_findings(here, pid)
    rule = ""
    meta_path = os.path.join(here, "checks", "rules.json")
    if os.path.exists(meta_path):
        with open(meta_path, encoding="utf-8") as f:
            rule = json.load(f).get(pid, "")
    samples = []
    for name, agg in subs.items():
        samples += agg["samples"][:2]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in subs.values()),
            "distinct_nontrivial": sum(len(a["hashes"]) for a in subs.values()),
            "rule": rule,
            "samples": samples[:12],
            "outside_precondition": sum(a["skipped"] for a in subs.values()),
            "not_run_time_budget": sum(a["truncated"] for a in subs.values()),
            "per_subcheck": {
                n: {
                    "evaluations": a["evaluations"],
                    "distinct_nontrivial": len(a["hashes"]),
                    "outside_precondition": a["skipped"],
                    "classes": dict(sorted(a["labels"].items())),
                }
                for n, a in sorted(subs.items())
            },
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evid_dir, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    print(
        f"{pid} tier={tier} seed={seed}: {evidence['coverage']['evaluations']} cases, "
        f"{evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
        f"{wall:.1f} s"
    )
    for name, a in sorted(subs.items()):
        print(
            f"  {name}: {a['evaluations']} cases, {len(a['hashes'])} non-trivial, "
            f"{a['skipped']} outside precondition, {a['truncated']} not run, "
            f"slowest {a['slowest']:.1f} s"
        )
    for entry in known:
        print(f"KNOWN-FINDING: property={pid} {entry['what']}")
    code = 0
    if violations:
        rdir = os.path.join(evid_dir, "replays")
        os.makedirs(rdir, exist_ok=True)
        best = {}
        for v in violations:
            size = len(json.dumps(v["case"]))
            if v["sub"] not in best or size < best[v["sub"]][0]:
                best[v["sub"]] = (size, v)
        for name, (_, v) in sorted(best.items()):
            h = hashlib.sha1(json.dumps(v["case"]).encode()).hexdigest()[:10]
            path = os.path.join(rdir, f"{pid}-{name}-{h}.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": pid, **v}, f, indent=1)
            print(f"--- {pid}/{name}: {v['message']}")
            print(f"    case: {json.dumps(v['case'])[:3000]}")
            print(f"VIOLATION property={pid} replay={path}")
        code = 1
    if errors:
        print(f"{len(errors)} worker(s) failed; first:", file=sys.stderr)
        print(errors[0][-4000:], file=sys.stderr)
        if code == 0:
            code = 3
    sys.stdout.flush()
    return code
