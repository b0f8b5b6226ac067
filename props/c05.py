"""C05: the command line's report, counts and exit status tell the truth."""

import importlib
import os
import re
import sys
import types

from sim import core, kernel, overlay

from . import c01, c04, e2e

RUNS = {"quick": 3000, "thorough": 90000}
SECONDS = {"quick": 200, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is one invocation of the test runner's main() with seeded command line (configuration, filter, exclusions, "
    "sequential, verbose, ignore-failures), registry of 1-10 tests, expectation tables for every configuration, and "
    "seeded faults: tests that raise, time out, return wrong or incomparable answers, and worker deaths. Non-trivial: a "
    "fault fired or an expectation was not met; distinct: by event-log digest."
)
STATE_MEASURE = "hash of (configuration, flags, multiset of outcomes, exit status)"
REAL = [
    "e2e_testing.main", "torch_mlir_e2e_test.framework, .reporting and .registry", "dill", "torch",
]
STUB = [
    "backends and the configurations' compile/run (workload)", "expectation tables (generated)",
    "multiprocess.Pool and worker processes", "clock, SIGALRM",
]
ASSUMPTIONS = [
    "Numbers closer than 1% but not equal are not judged.",
    "A run in which a worker process died may end without results, if its status is not zero.",
]
SHRINK_KEEP = ("config",)

CONFIGS = {
    # config: (expectation table, how, exclusion table)
    "linalg": ("LINALG_XFAIL_SET", "x", "LINALG_CRASHING_SET"),
    "stablehlo": ("STABLEHLO_PASS_SET", "p", "STABLEHLO_CRASHING_SET"),
    "tosa": ("TOSA_PASS_SET", "p", "TOSA_CRASHING_SET"),
    "native_torch": (None, "x", None),
    "torchscript": (None, "x", None),
    "lazy_tensor_core": ("LTC_XFAIL_SET", "x", "LTC_CRASHING_SET"),
    "torchdynamo": ("TORCHDYNAMO_XFAIL_SET", "x", "TORCHDYNAMO_CRASHING_SET"),
    "onnx": ("ONNX_XFAIL_SET", "x", "ONNX_CRASHING_SET"),
    "onnx_tosa": ("ONNX_TOSA_XFAIL_SET", "x", "ONNX_TOSA_CRASHING_SET"),
    "fx_importer": ("FX_IMPORTER_XFAIL_SET", "x", "FX_IMPORTER_CRASHING_SET"),
    "fx_importer_stablehlo": ("FX_IMPORTER_STABLEHLO_XFAIL_SET", "x", "FX_IMPORTER_STABLEHLO_CRASHING_SET"),
    "fx_importer_tosa": ("FX_IMPORTER_TOSA_XFAIL_SET", "x", "FX_IMPORTER_TOSA_CRASHING_SET"),
}

TABLES = {}


class Tables(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return TABLES.setdefault(name, set())


class Backends(types.ModuleType):
    """Every configuration and backend class is the workload's backend."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def make(*a, **kw):
            return e2e.Backend()

        return make


class Suite(types.ModuleType):
    COMMON_TORCH_MLIR_LOWERING_XFAILS = set()

    @staticmethod
    def register_all_tests():
        pass


def setup():
    overlay.FAKES["e2e_testing.xfail_sets"] = Tables
    overlay.FAKES["torch_mlir_e2e_test.configs"] = Backends
    overlay.FAKES["torch_mlir_e2e_test.linalg_on_tensors_backends.refbackend"] = Backends
    overlay.FAKES["torch_mlir_e2e_test.tosa_backends.linalg_on_tensors"] = Backends
    overlay.FAKES["torch_mlir_e2e_test.stablehlo_backends.linalg_on_tensors"] = Backends
    overlay.FAKES["torch_mlir_e2e_test.test_suite"] = Suite
    e2e.setup()
    with e2e.captured():
        importlib.import_module("e2e_testing.main")


def gen(rng, tier):
    n = rng.weighted([(1, 2), (2, 3), (4, 4), (7, 2), (10, 1)])
    names = e2e.gen_names(rng, n)
    specs = []
    p = rng.pick([0.0, 0.2, 0.5])
    crash = rng.chance(0.2)
    # what is known to break this property is kept rare (known_findings.json)
    known = rng.chance(0.06)
    zero = [0] if known else []
    pool = e2e.TRACE_DAMAGE + e2e.VALUE_DAMAGE
    if not known:
        pool = [d for d in pool if d not in ("truncate", "lose", "duplicate", "none_value")]
    methods = e2e.METHODS if known else e2e.SAFE_METHODS
    for i, name in enumerate(names):
        s = {"name": name, "uid": i + 1, "timeout": rng.pick([5, 30]), "calls": e2e.gen_calls(rng, rng.randint(1, 3), methods),
             "behave": {}, "damage": []}
        r = rng.random()
        if r < p:
            kind = rng.pick(["raise", "raise", "timeout", "damage", "damage"] + (["awkward", "exit"] if known else [])
                            + (["crash"] if crash else []))
            ph = rng.pick(e2e.PHASES)
            if kind == "raise":
                s["behave"][ph] = {"do": "raise", "exc": rng.pick(sorted(e2e.EXC))}
            elif kind == "timeout":
                s["behave"][ph] = {"burn": s["timeout"] + 2.5}
            elif kind == "exit":
                s["behave"][ph] = {"do": "exit", "code": rng.pick([0, 1, 3])}
            elif kind == "crash":
                s["behave"][ph] = {"do": "crash", "code": rng.pick(zero + [1, -9, -11])}
            elif kind == "damage":
                s["damage"] = [{"kind": rng.pick(pool), "a": rng.randint(0, 4),
                                "b": rng.randint(0, 4), "c": rng.randint(0, 9)}]
            else:
                if rng.chance(0.5):
                    s["calls"] += e2e.gen_calls(rng, 1, e2e.AWKWARD_METHODS)
                else:
                    s["calls"] = e2e.gen_calls(rng, 2, ["forward", "dct", "param", "mixed"])
                    s["damage"] = [{"kind": rng.pick(e2e.AWKWARD_DAMAGE), "a": rng.randint(0, 4), "b": rng.randint(0, 4), "c": 0}]
        specs.append(s)
    rng.shuffle(specs)
    config = rng.pick(sorted(CONFIGS))
    tables = {}
    for c, (x, how, cr) in sorted(CONFIGS.items()):
        for t in (x, cr):
            if t:
                q = rng.pick([0.0, 0.2, 0.5]) if t == x else rng.pick([0, 0, 0.2])
                tables[t] = sorted(rng.subset(names, q)) + (["GoneModule_basic"] if rng.chance(0.2) else [])
    stem = rng.pick(names)
    return {
        "tests": specs,
        "config": config,
        "tables": tables,
        "filter": rng.weighted([(None, 5), (".*", 1), (re.escape(stem), 1), (stem[: rng.randint(1, len(stem))], 2), ("A.*", 1),
                                (".*_basic$", 1), ("nothing_like_this", 1), ("(add|Add).*[0-9]", 1)]),
        "exclude": rng.weighted([(None, 6), ([rng.pick(names)], 2), ([rng.pick(names), rng.pick(names)], 1), (["NoSuchTest"], 1)]),
        "sequential": rng.chance(0.15),
        "verbose": rng.chance(0.4),
        "ignore": rng.chance(0.15),
        "ncpu": rng.pick([1, 2, 4, 8]),
        "env": rng.pick([None, None, "1", "3"]),
        "jitter": [round(rng.random(), 4) for _ in range(rng.randint(1, 20))],
        "boot_fail": {"0": rng.pick(zero + [1])} if rng.chance(0.02) else {},
        "reuse_name": rng.chance(0.05),
    }


SHRINK_NULL = ("filter", "exclude")


def cause(sc, v, run):
    ds = set()
    for s in sc["tests"]:
        if v.detail.get("test") in (None, s["name"]):
            ds |= e2e.recorded_defects(s)
    if v.kind == "run-never-ends" and run.deaths[:1] == [0]:
        return "worker-exit-0"
    if v.kind == "report-incomplete" and "outcome lines for []" in v.message and not run.deaths and c01.does(sc, "exit"):
        return "sys-exit-in-test"
    if v.kind == "main-raises":
        if v.message.startswith("ZeroDivisionError") and "float-compare" in ds:
            return "float-compare"
        if "unhandled cloning" in v.message and "unsupported-value" in ds:
            return "unsupported-value"
        if "incomparable-value" in ds:
            return "incomparable-value"
    if v.kind == "outcome-wrong" and ("reported PASS" in v.message or "reported XPASS" in v.message):
        return "call-count" if "call-count" in ds else "float-compare" if "float-compare" in ds else None
    return None


def argv(sc):
    a = ["main.py", "-c", sc["config"]]
    if sc.get("filter"):
        a += ["-f", sc["filter"]]
    if sc.get("sequential"):
        a += ["-s"]
    if sc.get("verbose"):
        a += ["-v"]
    if sc.get("ignore"):
        a += ["--ignore_failures"]
    if sc.get("exclude"):
        a += ["--crashing_tests_to_not_attempt_to_run_and_a_bug_is_filed"] + sc["exclude"]
    return a


def register(sc):
    reg = sys.modules["torch_mlir_e2e_test.registry"]
    del reg.GLOBAL_TEST_REGISTRY[:]
    for v in vars(reg).values():
        if isinstance(v, (set, dict)) and v is not vars(reg).get("__builtins__"):
            v.clear()
    for s in sc["tests"]:
        f = e2e.Invoker(s)
        reg.register_test_case(e2e.Factory(s), timeout_seconds=s["timeout"])(f)
    if sc.get("reuse_name"):
        s = dict(sc["tests"][0], uid=99)
        try:
            reg.register_test_case(e2e.Factory(s), timeout_seconds=s["timeout"])(e2e.Invoker(s))
        except Exception:
            return
        raise core.Violation("duplicate-name-accepted", f"two tests named {s['name']!r} were registered")


def truth(s):
    """'ok' 'failed' 'either' for this test by itself"""
    e = e2e.expect(s)
    if e[0] != "ok":
        return "failed"
    if any(c["m"] in e2e.AWKWARD_METHODS for c in s["calls"]):
        return "either"
    k = kernel.Kernel(core.Run(), {})
    with kernel.use(k):
        ref = e2e.reference_trace(s)
        got = e2e.damage(e2e.reference_trace(s), s.get("damage") or [])
    if not k.run.faults:
        return "ok"
    if any(d["kind"] in e2e.AWKWARD_DAMAGE for d in s["damage"]):
        return "failed"
    return {"same": "ok", "different": "failed", "close": "either"}[c04.compare_traces(got, ref)]


def execute(sc, run):
    specs = sc["tests"]
    by = {s["name"]: s for s in specs}
    if not specs or len(by) != len(specs) or any(s["timeout"] < 1 for s in specs):
        raise core.InvalidScenario("tests")
    for t in TABLES.values():
        t.clear()
    for t, v in sc["tables"].items():
        TABLES.setdefault(t, set()).update(v)
    xt, how, ct = CONFIGS[sc["config"]]
    crashing = set(sc["tables"].get(ct, [])) if ct else set()
    if how == "p":
        expected = set(by) - set(sc["tables"].get(xt, []))
    else:
        expected = set(sc["tables"].get(xt, [])) if xt else set()
    excluded = crashing | set(sc.get("exclude") or [])
    pat = re.compile(sc["filter"] or ".*")
    selected = [n for n in by if n not in excluded and pat.match(n)]
    bad_args = [n for n in sc.get("exclude") or [] if n not in by]

    k = kernel.Kernel(run, {"ncpu": max(1, sc["ncpu"]), "jitter": sc["jitter"], "boot_fail": sc.get("boot_fail") or {}})
    k.touched = set()
    mainmod = sys.modules["e2e_testing.main"]
    old_argv = sys.argv
    sys.argv = argv(sc)
    with kernel.use(k), e2e.captured() as cap:
        if sc.get("env") is not None:
            os.environ["TORCH_MLIR_TEST_CONCURRENCY"] = sc["env"]
        try:
            register(sc)
            mainmod.main()
            out = ("status", 0)
        except SystemExit as e:
            c = e.code
            out = ("status", 0 if c is None else (c & 0xFF) if isinstance(c, int) else 1)
        except kernel.Hang as e:
            out = ("hang", str(e))
        except kernel.SimCrash as e:
            out = ("status", 128 - e.code if e.code < 0 else e.code)
        except Exception as e:
            out = ("raised", e)
        finally:
            sys.argv = old_argv
    run.simtime += max(k.now, k.parent.clock)
    for f in k.fire_log:
        run.fault("deadline expires")
    text = cap.out.getvalue()
    lines = c04.lines_of(text)
    died = any("worker" in f for f in run.faults)
    run.log("outcome", out[0], out[1] if out[0] != "raised" else type(out[1]).__name__, lines)
    run.state(sc["config"], how, bool(sc["ignore"]), tuple(sorted(o for o, _ in lines)), str(out[1])[:20], died)

    ran_excluded = sorted(k.touched - set(selected))
    if ran_excluded:
        raise core.Violation("excluded-test-ran", f"{ran_excluded} ran, selected are {sorted(selected)}")
    if out[0] == "hang":
        raise core.Violation("run-never-ends", out[1])
    if bad_args or not selected:
        if k.touched:
            raise core.Violation("bad-command-line-ran", f"{sorted(k.touched)} ran")
        if out == ("status", 0):
            raise core.Violation("bad-command-line-succeeds", f"nothing ran, status 0: {sys_tail(text)}")
        if out[0] == "raised":
            raise core.Violation("main-raises", f"{type(out[1]).__name__}: {str(out[1])[:300]}")
        run.probe("refused command line")
        return
    if died:
        if lines or out == ("status", 0):
            # results were reported after all: then they must be complete
            pass
        else:
            return
        if out == ("status", 0) and not sc["ignore"] and not lines:
            raise core.Violation("lost-tests-exit-0", "workers died, nothing reported, status 0")
        if out == ("status", 0) and sc["ignore"] and not lines:
            return
    if out[0] == "raised":
        raise core.Violation("main-raises", f"{type(out[1]).__name__}: {str(out[1])[:300]}")
    names = [n for _, n in lines]
    if sorted(names) != sorted(selected):
        raise core.Violation(
            "report-incomplete", f"outcome lines for {sorted(names)}, selected are {sorted(selected)}, status {out[1]}"
        )
    unexpected = []
    for o, n in lines:
        t = truth(by[n])
        if died and t == "ok" and o in ("FAIL", "XFAIL"):
            t = "either"
        failed = o in ("FAIL", "XFAIL")
        if (o in ("XFAIL", "XPASS")) != (n in expected):
            raise core.Violation(
                "expectation-misread", f"{n!r} is {'' if n in expected else 'not '}expected to fail with {sc['config']}, reported {o}"
            )
        if t != "either" and failed != (t == "failed"):
            raise core.Violation("outcome-wrong", f"{n!r} by itself is {t}, reported {o}", test=n)
        if o in ("FAIL", "XPASS"):
            unexpected.append(n)
            run.nontrivial = True
        if o == "FAIL" and sc["verbose"]:
            e = e2e.expect(by[n])
            if e[0] == "error" and not died and e[2] not in text:
                raise core.Violation("failure-text-lost", f"{n!r}: the raised message is not in the verbose report")
    counts = dict(re.findall(r"^ +(Passed|Failed|Expectedly Failed|Unexpectedly Passed): (\d+)$", text, re.M))
    for o, label in (("PASS", "Passed"), ("FAIL", "Failed"), ("XFAIL", "Expectedly Failed"), ("XPASS", "Unexpectedly Passed")):
        want = sum(1 for x, _ in lines if x == o)
        if int(counts.get(label, 0)) != want:
            raise core.Violation("summary-wrong", f"summary says {label}: {counts.get(label)}, there are {want}")
    listed = sorted(n for _, n in re.findall(r'^ +(FAIL|XPASS) - "(.*)"$', text, re.M))
    if not sc["verbose"] and listed != sorted(unexpected):
        raise core.Violation("unexpected-list-wrong", f"listed {listed}, unexpected {sorted(unexpected)}")
    want = 1 if unexpected and not sc["ignore"] else 0
    if (out[1] != 0) != bool(want):
        raise core.Violation(
            "status-wrong", f"exit status {out[1]} with unexpected outcomes {unexpected}, ignore_failures={sc['ignore']}"
        )


def sys_tail(t):
    return t[-200:]
