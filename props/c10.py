"""C10: shape symbols, ranges and bindings are the program's own."""

from sim import fxprog

from . import fx

RUNS = {"quick": 650, "thorough": 40000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of 1-6 imports, with shape expressions, of programs with dynamic and static shapes in "
    "seeded order through 1-2 importers; each function is called at up to three sizes within the declared range, and "
    "every shape expression is evaluated against the tensor it is attached to. Non-trivial: at least two imports "
    "completed, an address was reused or a fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (entry point, set of operations in the imported function)"
REAL = [
    "torch_mlir.extras.fx_importer", "torch_mlir.extras.fx_decomp_util", "torch.export and eager PyTorch",
]
STUB = ["MLIR core, bindings and passes (in-memory IR, verifier, interpreter)", "object addresses, garbage collection times"]
ASSUMPTIONS = [
    "torch.export and eager PyTorch define what a program computes.",
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
    "Sizes are taken from inside the ranges which torch.export proved for the program.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    fx.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 3), (2, 4), (3, 2)])
    progs = [fxprog.gen_spec(rng, dyn=rng.chance(0.8), literals=rng.chance(0.2)) for _ in range(n)]
    ops = []
    handles = rng.pick([1, 1, 1, 2])
    for h in range(handles):
        ops.append(["new", h, 0 if h and rng.chance(0.6) else None, None, rng.chance(0.3)])
    for _ in range(rng.randint(1, 5)):
        fault = None
        if rng.chance(0.15):
            fault = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 9))}
        ops.append(["import", rng.randrange(handles), rng.randrange(n), rng.weighted([("program", 5), ("frozen", 1)]),
                    rng.pick([0, 0, 1]), {"symbolic": rng.chance(0.85), "keep": rng.chance(0.3), "again": rng.chance(0.5), **fx.gen_front(rng)}, fault])
        if rng.chance(0.2):
            ops.append(["gc"])
    return {"progs": progs, "mem": fx.gen_mem(rng), "share_tracker": rng.chance(0.5), "ops": ops}


def execute(sc, run):
    fx.play(sc, run)
