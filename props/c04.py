"""C04: a wrong answer is never reported as a pass, a faithful one never as a failure."""

import dill
import torch

from sim import core, kernel

from . import c01, e2e

RUNS = {"quick": 9000, "thorough": 250000}
SECONDS = {"quick": 200, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case compiles and runs 1-3 seeded tests (1-6 calls each, every kind of value) on a backend whose answers pass "
    "through a faulty transport: answers lost, duplicated, reordered, cut short, relabelled, values flipped, zeroed, "
    "negated, retyped, reshaped, dropped from or added to containers. The result is pickled, unpickled and reported. "
    "Non-trivial: at least one fault really changed the answer; distinct: by event-log digest."
)
STATE_MEASURE = "hash of (fault kinds that fired, kinds of value hit, verdict)"
REAL = ["torch_mlir_e2e_test.framework and .reporting", "dill transport", "torch"]
STUB = ["backend, its transport and the programs (workload)", "worker pool in part of the runs", "clock, SIGALRM"]
ASSUMPTIONS = [
    "Numbers closer than 1% (and 1e-5) but not equal are not judged: how close is close enough is the framework's choice.",
    "A 1-tuple and its element count as the same value, as documented in the comparison code.",
]


def setup():
    e2e.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 5), (2, 2), (3, 1)])
    names = e2e.gen_names(rng, n)
    specs = []
    # what is known to break this property is kept rare (known_findings.json)
    known = rng.chance(0.06)
    pool = e2e.TRACE_DAMAGE + e2e.VALUE_DAMAGE
    if not known:
        pool = [d for d in pool if d not in ("truncate", "lose", "duplicate", "none_value")]
    methods = e2e.METHODS if known else e2e.SAFE_METHODS
    kinds = rng.subset(pool, 0.5) or ["perturb"]
    for i, name in enumerate(names):
        s = {"name": name, "uid": rng.randint(1, 30), "timeout": 30, "behave": {}, "damage": [],
             "calls": e2e.gen_calls(rng, rng.weighted([(1, 4), (2, 3), (3, 3), (4, 2), (6, 1)]), methods),
             "seeded_param": rng.chance(0.3)}
        if rng.chance(0.75):
            for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
                s["damage"].append({"kind": rng.pick(kinds), "a": rng.randint(0, 6), "b": rng.randint(0, 8), "c": rng.randint(0, 9)})
        specs.append(s)
    rng.shuffle(specs)
    return {
        "tests": specs,
        "pool": rng.chance(0.15),
        "ncpu": rng.pick([1, 3, 4, 8]),
        "env": None,
        "jitter": [round(rng.random(), 4) for _ in range(rng.randint(1, 6))],
        "xfail": rng.chance(0.2),
    }


def cause(sc, v, run):
    by = {s["name"]: s for s in sc["tests"]}
    ds = set()
    for s in sc["tests"]:
        if v.detail.get("test") in (None, s["name"]):
            ds |= e2e.recorded_defects(s)
    if v.kind == "wrong-answer-passes":
        return "call-count" if "call-count" in ds else "float-compare" if "float-compare" in ds else None
    if v.kind == "unexpected-exception" and v.message.startswith("ZeroDivisionError") and "float-compare" in ds:
        return "float-compare"
    if v.kind in ("unexpected-exception", "run-failed") and "unhandled cloning" in v.message and "unsupported-value" in ds:
        return "unsupported-value"
    return None


def unwrap(v):
    while isinstance(v, tuple) and len(v) == 1:
        v = v[0]
    return v


def compare(a, g):
    """'same', 'different', or 'close' (not judged)"""
    a, g = unwrap(a), unwrap(g)
    if isinstance(g, torch.Tensor):
        if not isinstance(a, torch.Tensor) or a.shape != g.shape or a.dtype != g.dtype:
            return "different"
        if e2e.same(a, g):
            return "same"
        x, y = a.double(), g.double()
        nan = torch.isnan(x) != torch.isnan(y)
        far = (x - y).abs() > 0.01 * torch.maximum(x.abs(), y.abs()) + 1e-5
        return "different" if bool((nan | far).any()) else "close"
    if isinstance(g, bool):
        return "same" if a is g else "different" if isinstance(a, bool) else "different"
    if isinstance(g, int):
        if isinstance(a, bool):
            return "close"
        return "same" if type(a) is int and a == g else "different"
    if isinstance(g, float):
        if type(a) is not float:
            return "different"
        if a != a and g != g or a == g:
            return "same"
        if a != a or g != g:
            return "different"
        return "different" if abs(a - g) > 0.01 * max(abs(a), abs(g)) + 1e-5 else "close"
    if isinstance(g, str):
        return "same" if a == g else "different"
    if isinstance(g, (list, tuple)):
        if type(a) is not type(g) or len(a) != len(g):
            return "different"
        return worst([compare(x, y) for x, y in zip(a, g)])
    if isinstance(g, dict):
        if not isinstance(a, dict) or sorted(a) != sorted(g):
            return "different"
        return worst([compare(a[k], g[k]) for k in g])
    return "same" if a == g else "different"


def worst(rs):
    for r in ("different", "close"):
        if r in rs:
            return r
    return "same"


def compare_traces(t, g):
    if len(t) != len(g):
        return "different"
    rs = []
    for x, y in zip(t, g):
        if x.symbol != y.symbol:
            return "different"
        rs.append(compare(x.output, y.output))
    return worst(rs)


def lines_of(text):
    import re

    return re.findall(r'^(PASS|FAIL|XFAIL|XPASS) - "(.*)"$', text, re.M)


def execute(sc, run):
    if not sc["tests"]:
        raise core.InvalidScenario("no tests")
    specs = sc["tests"]
    if len({s["name"] for s in specs}) != len(specs):
        raise core.InvalidScenario("names")
    for s in specs:
        if s["timeout"] < 1:
            raise core.InvalidScenario("timeout")
    F, R = e2e.fw(), e2e.reporting()
    if sc["pool"]:
        out, k, cap = c01.run_world(sc, run)
        if out[0] != "returned":
            raise core.Violation("run-failed", f"{out[0]} {str(out[1])[:200]}")
        results = out[1]
    else:
        k = kernel.Kernel(run, {"ncpu": 4})
        results = []
        with kernel.use(k), e2e.captured():
            for s in specs:
                r = F.compile_and_run_test(e2e.make_tests([s])[0], e2e.Backend())
                results.append(dill.loads(dill.dumps(r)))
    by = {s["name"]: s for s in specs}
    truth = {}
    for s in specs:
        ref = e2e.reference_trace(s)
        hit = []
        k2 = kernel.Kernel(core.Run(), {})
        with kernel.use(k2):
            got = e2e.damage(e2e.reference_trace(s), s.get("damage") or [])
        if k2.run.faults:
            run.fault("answer damaged", 0)
        truth[s["name"]] = compare_traces(got, ref)
        if len(k2.run.faults) > 1:
            run.probe("several faults in one answer")
    xf = {s["name"] for s in specs} if sc.get("xfail") else set()
    with e2e.captured() as cap:
        had = R.report_results(list(results), xf, True, "sim")
    printed = dict((n, o) for o, n in lines_of(cap.out.getvalue()))
    any_unexpected = False
    for r in results:
        s = by[r.unique_name]
        want = truth[s["name"]]
        rep = R.SingleTestReport(r, R.ErrorContext.empty())
        run.log(s["name"], [d["kind"] for d in s.get("damage") or []], want, "failed" if rep.failed else "passed", printed.get(s["name"]))
        run.state(tuple(d["kind"] for d in s.get("damage") or []), tuple(c["m"] for c in s["calls"])[:2], rep.failed)
        what = [d["kind"] for d in s.get("damage") or []]
        outcome = printed.get(s["name"])
        if outcome is None:
            raise core.Violation("not-reported", f"{s['name']!r} has no line in the report")
        passed = outcome in ("PASS", "XPASS")
        if passed != (not rep.failed):
            raise core.Violation("report-disagrees", f"{s['name']!r}: printed {outcome}, failed={rep.failed}")
        if want == "different" and passed:
            raise core.Violation(
                "wrong-answer-passes", f"{s['name']!r}: faults {what} changed its answer, yet it is reported {outcome}",
                test=s["name"],
            )
        if want == "same" and not passed:
            raise core.Violation(
                "right-answer-fails", f"{s['name']!r}: its answer is exact, yet it is reported {outcome}: {rep.error_str()[:400]}"
            )
        any_unexpected |= outcome in ("FAIL", "XPASS")
    if bool(had) != any_unexpected:
        raise core.Violation("verdict-disagrees", f"report_results() returned {had}, printed {printed}")
