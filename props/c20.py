"""C20: the dialect's generated sources are whole and those of the registered operators."""

from sim import core

RUNS = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 120, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of 2-10 changes to what is registered (operators gone, moved to extension modules, in another order, with "
    "other aliases, names and types; modules missing), of edits of the library's functions, and runs of both generators, some of which "
    "crash, are interrupted, or meet disk or native errors. Non-trivial: two runs completed or a fault fired; distinct: by the digest "
    "of the run's event log."
)
STATE_MEASURE = "hash of the generator and the state of registry and functions at a completed run"
REAL = ["torch_ods_gen.py and abstract_interp_lib_gen.py (as the main program)", "registry.py, library_generator.py, testing_framework.py, utils.py", "TorchScript's compiler, PyTorch's operators"]
STUB = [
    "the native operator registry (PyTorch's own schemas, a part of them), the native TorchScript importer (prints what it was given), MLIR's passes",
    "torchvision and extension modules, file operations",
]
ASSUMPTIONS = [
    "A process that dies loses what is in its own buffers; what it wrote to a file stays.",
    "Which operators are asked for, and their folders, canonicalizers and verifiers, are those of the committed GeneratedTorchOps.td.",
    "One run goes on at a time; a library has a sample of the functions, and all helpers.",
]


def setup():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    from sim import genworld

    genworld.setup()


N = 800


def gen_edit(rng, past):
    if past and rng.chance(0.4):
        return ["edit"] + list(rng.pick(past))
    what = rng.pick(["order", "order", "gone", "ext", "ext", "alias", "alias", "alias", "argname", "retname", "type", "type", "extra", "funcs", "funcs", "added", "added", "added", "vision", "badext"])
    n = rng.randint(0, 3)
    if what == "order":
        v = rng.randrange(10)
    elif what == "gone":
        v = [rng.randrange(N) for _ in range(rng.pick([0, 0, 1]))]
    elif what == "ext":
        v = [[rng.pick([-1, rng.randrange(N), rng.randint(780, 830)]) for _ in range(rng.randint(0, 3))] for _ in range(2)]
    elif what == "alias":
        v = [[rng.randrange(N), rng.randrange(4), rng.pick(["", "read", "write"])] for _ in range(rng.randint(1, 12))]
    elif what in ("argname", "retname"):
        v = [[rng.randrange(N), rng.randrange(4), rng.pick(["other", "from", "x1", "="])] for _ in range(n)]
    elif what == "type":
        v = [[rng.randrange(N), rng.randrange(4), rng.pick(["bool", "str", "str?", "SimType"])] for _ in range(rng.pick([0, 1, 1, 2]))]
    elif what == "extra":
        v = rng.randrange(400)
    elif what == "funcs":
        v = [rng.randrange(939) for _ in range(rng.randint(1, 8))]
    elif what == "added":
        good = ["quote", "quote2", "lines", "backslash", "calls", "kind", "long"]
        bad = ["bad:signature", "bad:unknown", "bad:wrong", "bad:throws", "bad:dtype", "bad:script"]
        v = rng.subset(good, 0.4) + ([rng.pick(bad)] if rng.chance(0.3) else [])
    elif what == "vision":
        v = rng.chance(0.6)
    else:
        v = rng.pick([None, None, "simext_a", "simext_b"])
    return ["edit", what, v]


def gen_fault(rng, which):
    kind = rng.weighted([("crash", 4), ("torn", 3), ("ENOSPC", 2), ("EIO", 1), ("EACCES", 1), ("interrupt", 2), ("short", 1), ("native", 2)])
    f = {"kind": kind, "at": rng.randint(1, 14), "stays": kind == "ENOSPC"}
    if kind == "native":
        f["point"] = rng.pick(["ModuleBuilder.import_function", "PassManager.run", "get_asm", "PassManager.parse"])
    return f


def gen(rng, tier):
    past = [("gone", []), ("ext", [[], []]), ("alias", []), ("type", []), ("added", []), ("vision", True), ("badext", None), ("order", 0)]
    ops = []
    if rng.chance(0.2):  # two generations of the same length
        which = rng.pick(["ods", "lib"])
        twins = [("argname", []), ("argname", [[rng.randrange(N), rng.randrange(4), "="]])] if which == "ods" else [("added", ["quote"]), ("added", ["quote2"])]
        for what, v in twins:
            ops += [["edit", what, v], ["run", which, False, None]]
        past += twins
    if rng.chance(0.15):
        v = [[-1], [-1, rng.randint(780, 830)]][:: rng.pick([1, -1])]
        ops += [["edit", "ext", v], ["edit", "badext", rng.pick(["simext_a", "simext_b"])], ["run", rng.pick(["ods", "lib"]), False, None], ["edit", "badext", None]]
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.weighted([(0, 2), (1, 6), (2, 3)])):
            e = gen_edit(rng, past)
            past.append((e[1], e[2]))
            ops.append(e)
        which = rng.pick(["ods", "lib"])
        ops.append(["run", which, rng.chance(0.25), gen_fault(rng, which) if rng.chance(0.4) else None])
        if rng.chance(0.3):
            ops.append(["run", which, False, None])
    return {"chunk": rng.pick([16384, 65536, 65536, 262144]), "ops": ops}


def execute(sc, run):
    from sim import genworld

    if not sc.get("ops"):
        raise core.InvalidScenario("empty")
    genworld.World(sc, run).play()
