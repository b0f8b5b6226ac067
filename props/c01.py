"""C01: a parallel test run accounts for every requested test exactly once."""

import os

from sim import core, kernel

from . import e2e

RUNS = {"quick": 4000, "thorough": 120000}
SECONDS = {"quick": 200, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is one whole run_tests() call on a simulated pool of worker processes: 1-14 tests with seeded "
    "names, durations and behaviours, CPU count, concurrency variable, sequential flag, scheduling delays and "
    "process deaths. Non-trivial: at least one injected fault actually fired (death, exit, exception, start-up "
    "failure); distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (worker count, chunk order and outcome of each worker's tasks, exit path)"
REAL = [
    "torch_mlir_e2e_test.framework (run_tests, compile_and_run_test, timeout, tracing, cloning)",
    "dill pickling of tests, results and exceptions",
    "torch",
]
STUB = ["multiprocess.Pool and worker processes", "clock, sleep, SIGALRM", "backend and programs (workload)"]
ASSUMPTIONS = [
    "A worker process either finishes each call or terminates; one blocked for ever in native code is outside the property.",
    "The simulated pool models chunking, repopulation after a death and lost tasks as multiprocess.Pool does.",
]


def setup():
    e2e.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 2), (2, 3), (3, 3), (5, 3), (8, 2), (14, 1)])
    names = e2e.gen_names(rng, n)
    p_fault = rng.pick([0.0, 0.1, 0.3, 0.6])
    # what is known to break this property (known_findings.json) is kept rare,
    # so that most runs go past it
    known = rng.chance(0.06)
    zero = [0] if known else []
    sequential = rng.chance(0.1)
    kinds = rng.subset(["raise", "crash", "kbd", "slow", "timeout"] + (["exit"] if known or not sequential else [])
                       + (["weird"] if known else []), 0.5)
    specs = []
    for i, name in enumerate(names):
        s = {"name": name, "uid": i + 1, "timeout": rng.pick([5, 30, 120]), "calls": e2e.gen_calls(rng, rng.randint(1, 2)),
             "behave": {}}
        if rng.chance(0.5):
            s["behave"]["run"] = {"burn": rng.pick([0.01, 0.5, 2.0, 4.0])}
        if kinds and rng.chance(p_fault):
            ph = rng.pick(e2e.PHASES)
            k = rng.pick(kinds)
            b = {"burn": rng.pick([0, 0.3, 1.0])}
            if k == "raise":
                b.update(do="raise", exc=rng.pick(sorted(e2e.EXC)))
            elif k == "exit":
                b.update(do="exit", code=rng.pick(zero * 3 + [1, 2, 255]))
            elif k == "crash":
                b.update(do="crash", code=rng.pick(zero * 3 + [1, 3, -6, -9, -11, -15]))
            elif k == "kbd":
                b.update(do="kbd")
            elif k == "timeout":
                b.update(burn=s["timeout"] + 3.5)
            elif k == "slow":
                b.update(burn=rng.pick([2.5, 4.5]))
            elif k == "weird":
                s["damage"] = [{"kind": "none_value", "a": 0, "b": 0}]
            if k != "weird":
                s["behave"][ph] = b
        specs.append(s)
    rng.shuffle(specs)
    sc = {
        "tests": specs,
        "ncpu": rng.pick([1, 2, 3, 4, 8, 16]),
        "env": rng.pick([None, None, None, "0", "1", "2", "3", "50"]),
        "sequential": sequential,
        "verbose": rng.chance(0.2),
        "jitter": [round(rng.random(), 4) for _ in range(rng.randint(1, 40))],
        "boot_fail": {},
        "die_after_result": {},
        "spawn_fail_at": None,
    }
    if rng.chance(0.06):
        sc["boot_fail"][str(rng.randint(0, 3))] = rng.pick(zero + [1, -9])
    if rng.chance(0.06):
        sc["die_after_result"][f"w{rng.randint(0, 3)}"] = rng.pick(zero + [1, -9, -11])
    if rng.chance(0.02):
        sc["spawn_fail_at"] = rng.randint(0, 3)
    return sc


SHRINK_NULL = ("spawn_fail_at",)


def does(sc, what):
    return any((b or {}).get("do") == what for s in sc["tests"] for b in s["behave"].values())


def cause(sc, v, run):
    """The recorded defect behind a violation, if it is one (known_findings.json)."""
    if v.kind == "run-never-ends" and run.deaths[:1] == [0]:
        return "worker-exit-0"
    if v.kind in ("run-aborted", "lost-tests-exit-0") and not run.deaths:
        if v.detail.get("exit") is not None and does(sc, "exit"):
            return "sys-exit-in-test"
        if v.detail.get("raised") == "AssertionError" and any(s.get("damage") for s in sc["tests"]):
            return "unsupported-value"
    return None


def run_world(sc, run, transport=None):
    """One run_tests() in a fresh simulated machine -> (outcome, results or code, kernel)."""
    tests = sc["tests"]
    if not tests:
        raise core.InvalidScenario("no tests")
    k = kernel.Kernel(
        run,
        {
            "ncpu": max(1, sc["ncpu"]),
            "jitter": sc.get("jitter", []),
            "boot_fail": sc.get("boot_fail") or {},
            "die_after_result": sc.get("die_after_result") or {},
            "spawn_fail_at": sc.get("spawn_fail_at"),
            "entropy": sc.get("entropy", 0),
        },
    )
    F = e2e.fw()
    with kernel.use(k), e2e.captured() as cap:
        if sc.get("env") is not None:
            os.environ["TORCH_MLIR_TEST_CONCURRENCY"] = str(sc["env"])
        try:
            res = F.run_tests(
                e2e.make_tests(tests), e2e.Backend(), bool(sc.get("sequential")), bool(sc.get("verbose"))
            )
            out = ("returned", res)
        except SystemExit as e:
            code = e.code
            out = ("exit", 0 if code is None else code if isinstance(code, int) else 1)
        except kernel.Hang as e:
            out = ("hang", str(e))
        except kernel.SimCrash as e:
            out = ("crash", e.code)
        except core.SimUnsupported:
            raise
        except Exception as e:
            out = ("raised", e)
    run.simtime += max(k.now, k.parent.clock)
    return out, k, cap


def execute(sc, run):
    specs = sc["tests"]
    out, k, cap = run_world(sc, run)
    by = {s["name"]: s for s in specs}
    if len(by) != len(specs):
        raise core.InvalidScenario("names")
    for f in k.fire_log:
        run.fault("deadline expires")
    died = any(
        x in run.faults
        for x in (
            "worker process ends mid-task",
            "worker dies while starting",
            "worker dies after sending a result",
            "worker spawn fails",
        )
    )
    kind, val = out
    run.log("outcome", kind, val if kind in ("exit", "hang", "crash") else type(val).__name__)
    run.state(kind, len(specs), died, tuple(sorted(run.faults)))
    if died:
        run.probe("a worker process died during the run")
    if kind == "hang":
        raise core.Violation("run-never-ends", f"run_tests() waits for ever: {val}")
    if kind == "crash":
        raise core.Violation("run-killed", f"the run's own process is killed by signal {val}")
    if kind == "exit":
        if not died:
            raise core.Violation("run-aborted", f"no worker died, yet the run exits with status {val}", exit=val)
        if val == 0:
            raise core.Violation("lost-tests-exit-0", "a worker died and the run exits with status 0 without results")
        run.probe("run ended loudly after a death")
        return
    if kind == "raised":
        if not died:
            raise core.Violation(
                "run-aborted", f"no worker died, yet run_tests() raises {type(val).__name__}: {str(val)[:300]}",
                raised=type(val).__name__,
            )
        run.probe("run ended loudly after a death")
        return
    names = [r.unique_name for r in val]
    run.log("results", [(r.unique_name, e2e.describe(r)) for r in val])
    if len(set(names)) != len(names):
        raise core.Violation("duplicate-result", f"some test is reported more than once: {names}")
    missing = sorted(set(by) - set(names))
    if missing:
        raise core.Violation("missing-result", f"no result for {missing}")
    extra = sorted(set(names) - set(by))
    if extra:
        raise core.Violation("invented-result", f"results for tests never requested: {extra}")
    if names != sorted(names):
        raise core.Violation("unsorted-results", f"{names}")
    bound = sum(e2e.duration(s) for s in specs) * 2 + 10.0 * len(specs) + 400
    if max(k.now, k.parent.clock) > bound:
        raise core.Violation("run-too-late", f"ended at virtual {k.now:.1f}s, bound {bound:.1f}s")
    for r in val:
        s = by[r.unique_name]
        exp = e2e.expect(s)
        failed = r.compilation_error is not None or r.runtime_error is not None
        if exp[0] in ("death", "exit"):
            if not failed:
                raise core.Violation("dead-test-passes", f"{r.unique_name!r} never completed, result {e2e.describe(r)}")
            continue
        if died and failed and exp[0] == "ok":
            continue  # lost with the worker
        if died and exp[0] != "ok" and failed:
            continue
        if s.get("damage"):
            if failed:
                continue
            raise core.Violation("unusable-value-passes", f"{r.unique_name!r}: {e2e.describe(r)}")
        e2e.check_own(s, r)
