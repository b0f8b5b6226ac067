"""C19: the lazy backend's generated sources are those of the inputs as they are."""

import logging

from sim import core

RUNS = {"quick": 320, "thorough": 20000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of 3-12 edits of the generator's inputs (operator list, configuration, shape functions, kernels, "
    "PyTorch's operator declarations, headers, templates and generator, the script itself), edits taken back, generated files "
    "removed, and runs, some of which crash, are interrupted, meet disk errors or a failing search tool. Non-trivial: two runs "
    "completed or a fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of the state of all inputs at a completed run"
REAL = ["build_tools/autogen_ltc_backend.py (as the main program)", "torchgen", "grep"]
STUB = [
    "PyTorch's declarations (those of about 200 of its operators), a shorter list of operators, ripgrep (grep -E)",
    "file operations, the order of sets",
]
ASSUMPTIONS = [
    "A process that dies loses what is in its own buffers; what it wrote to a file stays.",
    "Inputs are not edited while a run is going on, and one run goes on at a time (the build system starts it).",
    "What a first run in an empty build directory makes is the reference.",
]


def setup():
    logging.disable(logging.CRITICAL)
    from sim import ltcworld

    ltcworld.known()
    ltcworld.definitions()


def gen_edit(rng, past):
    if past and rng.chance(0.45):
        return ["edit"] + list(rng.pick(past))
    what = rng.pick([
        "ops", "ops", "blacklist", "supported", "symint", "whitelist", "changed", "changed", "gone", "defs", "defs", "kernels",
        "upstream", "script", "gen_lazy", "lazy_ir", "model", "template", "tags",
    ])
    if what in ("ops",):
        v = sorted(rng.sample(range(80), rng.randint(25, 60)))
    elif what in ("blacklist", "whitelist", "gone"):
        v = [rng.randrange(80) for _ in range(rng.randint(0, 3))]
    elif what == "changed":
        v = [rng.randrange(6) for _ in range(rng.randint(0, 2))]
    elif what == "defs":
        v = rng.sample(range(56), rng.randint(0, 8))
    elif what == "upstream":
        v = [rng.randrange(100) for _ in range(rng.randint(0, 2))]
    else:
        v = rng.randrange(4)
    return ["edit", what, v]


def gen_fault(rng):
    kind = rng.weighted([("crash", 4), ("torn", 3), ("ENOSPC", 2), ("EIO", 1), ("EACCES", 1), ("interrupt", 2), ("short", 1), ("half", 1), ("none", 1)])
    return {"kind": kind, "at": rng.pick([rng.randint(1, 40), rng.randint(20, 90), rng.randint(1, 150)]), "stays": kind == "ENOSPC"}


def gen(rng, tier):
    ops = []
    past = [("ops", list(range(0, 75, 2))), ("blacklist", []), ("changed", []), ("defs", [0, 1, 2]), ("kernels", 0), ("template", 0), ("script", 0)]
    if rng.chance(0.3):
        ops.append(gen_edit(rng, []))
    if rng.chance(0.2):  # two states of the list that are alike in length
        from sim.ltcworld import POOL, TWINS

        a, b = (POOL.index(x) for x in rng.pick(TWINS)[:: rng.pick([1, -1])])
        rest = set(range(0, 75, 2)) - {a, b}
        past += [("ops", sorted(rest | {x})) for x in (a, b)]
        ops.append(["edit", *past[-2]])
        ops.append(["run", False, rng.randrange(100), "grep", None])
        ops.append(["edit", *past[-1]])
    ops.append(["run", False, rng.randrange(100), "grep", None])
    for _ in range(rng.randint(1, 4)):
        e = None
        for _ in range(rng.weighted([(0, 2), (1, 6), (2, 2)])):
            e = gen_edit(rng, past)
            past.append((e[1], e[2]))
            ops.append(e)
        if rng.chance(0.12):
            ops.append(["remove", rng.randrange(10)])
        fault = gen_fault(rng) if rng.chance(0.5) else None
        ops.append(["run", rng.chance(0.15), rng.randrange(100), rng.pick(["grep", "rg"]), fault])
        if fault and rng.chance(0.6):  # the user takes the edit back
            for what in {e[1]} if e else set():
                back = [v for w, v in past[:-1] if w == what] or [core_start(what)]
                ops.append(["edit", what, back[-1]])
            ops.append(["run", False, rng.randrange(100), rng.pick(["grep", "rg"]), None])
    ops.append(["run", False, rng.randrange(100), "grep", None])
    return {"chunk": rng.pick([512, 4096, 4096, 65536]), "ops": ops}


def core_start(what):
    from sim import ltcworld

    return ltcworld.start()[what]


def execute(sc, run):
    from sim import ltcworld

    if not sc.get("ops"):
        raise core.InvalidScenario("empty")
    ltcworld.World(sc, run).play()
