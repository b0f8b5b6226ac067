"""C03: what a test comes to does not depend on its neighbours, order or worker."""

import torch

from sim import core, kernel

from . import c01, e2e

RUNS = {"quick": 2500, "thorough": 80000}
SECONDS = {"quick": 200, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case runs one seeded set of tests in 2-4 simulated worlds which differ in worker count, CPU count, order of "
    "the request, subset, sequential flag, scheduling and process entropy; some tests consume or reseed the random "
    "generator, raise, or time out half-way. Every result must equal, exactly, a reference computed apart from the "
    "framework, in every world. Non-trivial: worlds really differ in which tests shared a process, or a fault fired; "
    "distinct: by event-log digest."
)
STATE_MEASURE = "hash of (which tests ran in the same process before this one, verdict)"
REAL = [
    "torch_mlir_e2e_test.framework (run_tests, compile_and_run_test, TestUtils, tracing, cloning)",
    "dill transport", "torch and its random generator",
]
STUB = ["multiprocess.Pool and worker processes", "clock, SIGALRM", "backend and programs (workload)"]
ASSUMPTIONS = [
    "Tests draw randomness only from the utilities they are handed or after seeding torch themselves.",
    "Tests do not change process-wide torch settings other than the random generator's state.",
]


def setup():
    e2e.setup()


def gen(rng, tier):
    n = rng.weighted([(2, 4), (3, 4), (5, 3), (9, 1)])
    names = e2e.gen_names(rng, n)
    specs = []
    for i, name in enumerate(names):
        s = {"name": name, "uid": i + 1, "timeout": 30, "behave": {},
             "calls": e2e.gen_calls(rng, rng.randint(1, 5)), "seeded_param": rng.chance(0.3)}
        s["pollute"] = {
            rng.pick(["factory1", "invoke", "invoke_end", "factory2", "compile", "run", "run_end"]): rng.pick(
                [["draw", rng.randint(1, 50)], ["seed", rng.randint(0, 5)], ["nonone", 0]]
            )
            for _ in range(rng.randint(0, 3))
        }
        if rng.chance(0.25):
            ph = rng.pick(e2e.PHASES)
            s["behave"][ph] = rng.pick(
                [{"do": "raise", "exc": "value"}, {"burn": 31.5}, {"burn": 2.0}, {"do": "raise", "exc": "assert", "burn": 1.0}]
            )
        specs.append(s)
    worlds = []
    for _ in range(rng.randint(2, 4)):
        order = list(range(n))
        rng.shuffle(order)
        if rng.chance(0.3):
            order = order[: max(1, n - rng.randint(0, n - 1))]
        worlds.append(
            {
                "order": order,
                "ncpu": rng.pick([1, 2, 4, 8]),
                "env": rng.pick([None, "1", "2", "3"]),
                "sequential": rng.chance(0.25),
                "verbose": rng.chance(0.2),
                "jitter": [round(rng.random(), 4) for _ in range(rng.randint(1, 12))],
                "entropy": rng.randint(0, 10**6),
            }
        )
    return {"tests": specs, "worlds": worlds}


def pollute(spec, phase):
    p = (spec.get("pollute") or {}).get(phase)
    if not p:
        return
    k = kernel.cur()
    if p[0] == "draw":
        torch.rand(p[1])
        k.run.fault("test consumes random numbers")
    elif p[0] == "seed":
        torch.manual_seed(p[1])
        k.run.fault("test reseeds the generator")


_act = e2e.act


def act(spec, phase):
    k = kernel.cur()
    if phase == "invoke":
        # drawing before the inputs are made changes them, in a way the test
        # determines itself: not a neighbour's influence, so not done here
        pass
    elif phase == "factory1" or phase in ("compile", "run", "run_end", "invoke_end", "factory2"):
        pollute(spec, phase)
    hist = k.current.__dict__.setdefault("history", [])
    if phase == "factory1":
        hist.append(spec["name"])
        k.seen.setdefault(spec["name"], []).append(tuple(hist[-4:-1]))
    _act(spec, phase)


def execute(sc, run):
    if not sc["tests"] or not sc["worlds"]:
        raise core.InvalidScenario("empty")
    by = {s["name"]: s for s in sc["tests"]}
    if len(by) != len(sc["tests"]):
        raise core.InvalidScenario("names")
    companions = {}
    e2e.act = act
    try:
        for wi, w in enumerate(sc["worlds"]):
            order = [i for i in dict.fromkeys(w["order"]) if i < len(sc["tests"])]
            if not order:
                continue
            specs = [sc["tests"][i] for i in order]
            world = dict(w, tests=specs)
            kernel.Kernel.seen = {}
            out, k, cap = c01.run_world(world, run)
            for _ in k.fire_log:
                run.fault("deadline expires")
            if out[0] != "returned":
                raise core.Violation("run-failed", f"world {wi}: run_tests() ended with {out[0]} {str(out[1])[:300]}")
            res = {r.unique_name: r for r in out[1]}
            if sorted(res) != sorted(s["name"] for s in specs):
                raise core.Violation("wrong-results", f"world {wi}: results for {sorted(res)}")
            for s in specs:
                r = res[s["name"]]
                seen = k.seen.get(s["name"], [])
                companions.setdefault(s["name"], set()).update(seen)
                run.log(wi, s["name"], e2e.describe(r), seen[-1:] if seen else "")
                run.state(s["name"], tuple(seen[-1:]), e2e.describe(r)[:20])
                e2e.check_own(s, r, where=f"world {wi} (after {seen[-1:]}): ")
    finally:
        e2e.act = _act
    if any(len(c) > 1 for c in companions.values()):
        run.nontrivial = True
        run.probe("a test ran with different predecessors in its process")
