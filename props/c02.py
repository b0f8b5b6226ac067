"""C02: a test that exceeds its time limit gets a timeout verdict, and only that."""

import re

from sim import core, kernel

from . import e2e

RUNS = {"quick": 6000, "thorough": 200000}
SECONDS = {"quick": 200, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case runs 1-4 tests one after another in one simulated worker process, with a virtual clock. A deadline "
    "expires during the work of a seeded phase, or at a seeded bytecode of the framework itself while the alarm is "
    "pending, or not at all; tests also raise, exit or are interrupted. Non-trivial: a deadline expired or a fault "
    "fired; distinct: by event-log digest."
)
STATE_MEASURE = "hash of (function and line at which the alarm was delivered, verdict it led to)"
REAL = ["torch_mlir_e2e_test.framework (timeout, compile_and_run_test, generate_golden_trace, cloning)", "torch"]
STUB = ["SIGALRM, signal.alarm/setitimer, clock", "backend and programs (workload)"]
ASSUMPTIONS = [
    "Signals are delivered between two bytecodes of the main thread, as CPython does.",
    "Code of the test that itself swallows TimeoutError, or raises one, is outside the property.",
]


def setup():
    e2e.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 4), (2, 3), (3, 2), (4, 1)])
    names = e2e.gen_names(rng, n)
    specs = []
    for i, name in enumerate(names):
        T = rng.pick([1, 2, 5, 30, 120])
        s = {"name": name, "uid": rng.randint(1, 40), "timeout": T, "calls": e2e.gen_calls(rng, rng.randint(1, 3)), "behave": {}}
        plan = rng.weighted([("quick", 3), ("work", 3), ("slow", 4), ("sum", 4), ("raise", 2), ("exit", 1), ("kbd", 1)])
        if plan == "work":
            for ph in rng.subset(e2e.PHASES, 0.5):
                s["behave"][ph] = {"burn": round(T * 0.1 * rng.random(), 3)}
        elif plan == "slow":
            s["behave"][rng.pick(e2e.PHASES)] = {"burn": T + rng.pick([0.5, 1.5, 100.5])}
        elif plan == "sum":
            # no phase alone exceeds the limit; together they may
            phs = e2e.PHASES
            k = rng.randint(2, len(phs))
            for ph in rng.sample(phs, k):
                s["behave"][ph] = {"burn": round(T * rng.pick([0.3, 0.45, 0.6, 0.8, 0.97]) + 0.0007, 4)}
        elif plan in ("raise", "exit", "kbd"):
            ph = rng.pick(e2e.PHASES)
            b = {"burn": round(T * rng.pick([0, 0, 0.5]), 3), "do": plan, "anywhere": True}
            if plan == "raise":
                b["exc"] = rng.pick(sorted(e2e.EXC))
            if plan == "exit":
                b["code"] = rng.pick([0, 1])
            s["behave"][ph] = b
        # an expiry inside the framework's own code
        if rng.chance(0.45):
            s["fire"] = {"frac": round(rng.random(), 5), "depth": rng.pick([1, 1, 1, 2, 3, 99])}
        else:
            s["fire"] = None
        specs.append(s)
    return {
        "tests": specs,
        "verbose": rng.chance(0.2),
        "worker": rng.chance(0.7),
        "idle": [round(rng.pick([0.0, 0.5, 50.0, 1000.0]), 2) for _ in specs],
    }


SHRINK_NULL = ("fire",)


def cause(sc, v, run):
    if v.kind == "timeout-escapes" and v.detail.get("inside"):
        return "between-guarded-regions"
    if v.kind == "exception-escapes" and v.detail.get("raised") == "SystemExit":
        return "sys-exit-in-test"
    if v.kind == "limit-not-named" and "{test.timeout}" in v.detail.get("text", ""):
        return "run-phase-format-string"
    return None


class Fire(kernel.FireAt):
    """Counts bytecodes of the framework while an alarm is pending."""

    def __init__(self, k, n, depth):
        super().__init__(k, None, n)
        self.depth = depth

    def local_trace(self, frame, event, arg):
        if event not in ("opcode", "return"):
            return self.local_trace
        d, f = 0, frame
        while f is not None:
            if self._want(f.f_code):
                d += 1
            f = f.f_back
        if d > self.depth + 1:
            return self.local_trace
        return super().local_trace(frame, event, arg)


def one(k, spec, verbose, fire_n):
    """(outcome, value, Fire or None)"""
    F = e2e.fw()
    test = e2e.make_tests([spec])[0]
    tracer = None
    try:
        if spec.get("fire"):
            tracer = Fire(k, fire_n, max(1, spec["fire"]["depth"]))
            with tracer:
                r = F.compile_and_run_test(test, e2e.Backend(), verbose)
        else:
            r = F.compile_and_run_test(test, e2e.Backend(), verbose)
        return "returned", r, tracer
    except (kernel.Hang, core.SimUnsupported):
        raise
    except kernel.SimCrash as e:
        return "killed", e.code, tracer
    except BaseException as e:
        return "raised", e, tracer


def execute(sc, run):
    if not sc["tests"]:
        raise core.InvalidScenario("no tests")
    k = kernel.Kernel(run, {"ncpu": 4})
    with kernel.use(k), e2e.captured():
        proc = k.spawn_worker("w0") if sc["worker"] else k.parent
        back = k.enter(proc)
        try:
            sequence(sc, run, k, proc)
        finally:
            back()
    run.simtime += proc.clock


def sequence(sc, run, k, proc):
    late = None
    for i, spec in enumerate(sc["tests"]):
        name, T = spec["name"], spec["timeout"]
        if T < 1:
            raise core.InvalidScenario("timeout")
        n = 0
        if spec.get("fire"):
            # count the instants first, in a throw-away world
            k2 = kernel.Kernel(core.Run(), {"ncpu": 4})
            with kernel.use(k2):
                _, _, tr = one(k2, spec, sc["verbose"], -1)
            n = 1 + int(min(0.999999, max(0.0, spec["fire"]["frac"])) * max(1, tr.count))
            if tr.count == 0:
                n = -1
        start = proc.clock
        if proc.is_parent:
            start = max(start, k.now)
        nf = len(proc.fired)
        out, val, tr = one(k, spec, sc["verbose"], n)
        end = proc.clock
        fired = proc.fired[nf:]
        inside = tr.fired_at if tr is not None else None
        run.log(name, "T", T, out, e2e.describe(val) if out == "returned" else val.__class__.__name__,
                "fired", [round(t - start, 3) for t in fired], inside[0] if inside else None)
        if fired:
            run.fault("deadline expires inside the framework" if inside else "deadline expires during test work")
            run.state(inside, e2e.describe(val)[:30] if out == "returned" else out)
        exp = e2e.expect(spec)
        where = f"at {inside[0]}" if inside else "during work"
        if out == "killed":
            raise core.Violation("killed-by-alarm", f"{name!r}: the deadline kills the worker process ({where})")
        if out == "raised":
            if isinstance(val, KeyboardInterrupt) and exp[0] == "death":
                pass
            elif isinstance(val, TimeoutError):
                raise core.Violation(
                    "timeout-escapes", f"{name!r}: TimeoutError leaves the test runner (deadline expired {where})",
                    inside=inside,
                )
            else:
                raise core.Violation(
                    "exception-escapes", f"{name!r}: {type(val).__name__}: {str(val)[:200]} leaves the test runner",
                    raised=type(val).__name__,
                )
        else:
            if val.unique_name != name:
                raise core.Violation("wrong-name", f"{val.unique_name!r} for {name!r}")
            verdict = e2e.is_timeout(val)
            if fired:
                if len(fired) > 1:
                    raise core.Violation("deadline-twice", f"{name!r}: {len(fired)} expiries in one test")
                if not inside and abs((fired[0] - start) - T) > 1e-6:
                    raise core.Violation(
                        "deadline-at-wrong-time",
                        f"{name!r}: limit {T}s, interrupted after {fired[0] - start:.3f}s",
                    )
                if verdict is None:
                    raise core.Violation(
                        "deadline-ignored", f"{name!r}: its deadline expired {where}, yet its result is {e2e.describe(val)}"
                    )
                text = val.compilation_error or val.runtime_error
                if not re.search(rf"(?<!\d){T}(?!\d)", text):
                    late = core.Violation(
                        "limit-not-named", f"{name!r}: timed out after {T}s, message: {text[:200]!r}", text=text
                    )
                if not inside:
                    e2e.check_own(spec, val)
                if (val.trace is not None) or (val.golden_trace is not None):
                    raise core.Violation("failed-result-has-trace", f"{name!r}")
            else:
                if exp[0] == "timeout":
                    raise core.Violation(
                        "no-deadline",
                        f"{name!r} works for {e2e.duration(spec):.2f}s or more, limit {T}s, and is never interrupted: "
                        f"{e2e.describe(val)}",
                    )
                if verdict is not None:
                    raise core.Violation("timeout-invented", f"{name!r}: {e2e.describe(val)} and no deadline expired")
                if exp[0] != "exit":
                    e2e.check_own(spec, val)
        # whatever happened, nothing is left ticking
        if proc.alarm_at is not None:
            run.probe("alarm left pending")
            raise core.Violation(
                "alarm-leaks", f"after {name!r} ({out}) its alarm is still pending, due in {proc.alarm_at - proc.clock:.1f}s"
            )
        idle = sc["idle"][i] if i < len(sc["idle"]) else 0
        try:
            k.burn(idle)
        except TimeoutError:
            raise core.Violation("alarm-leaks", f"an alarm of {name!r} interrupts what follows it")
    if late is not None:
        raise late
