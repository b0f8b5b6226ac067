"""C06: importing a program yields that program's meaning, whatever came before."""

from sim import fxprog

from . import fx

RUNS = {"quick": 800, "thorough": 60000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of up to 7 imports through 1-3 importers of suite programs, generated programs and "
    "programs with loops, by every entry point, with colliding names, shared contexts, dropped programs, garbage "
    "collections and address reuse. Non-trivial: at least two imports completed or an address was reused; "
    "distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (entry point, set of operations in the imported function)"
REAL = [
    "torch_mlir.extras.fx_importer", "torch_mlir.extras.fx_decomp_util", "torch.export and eager PyTorch",
]
STUB = ["MLIR core, bindings and passes (in-memory IR, verifier, interpreter)", "object addresses, garbage collection times"]
ASSUMPTIONS = [
    "torch.export and eager PyTorch define what a program computes.",
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
    "Tensors are not modified in place between two imports that share a reference tracker.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    fx.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 1), (2, 3), (3, 3), (4, 2)])
    hops = rng.chance(0.3)
    progs = []
    for _ in range(n):
        if hops and rng.chance(0.6):
            progs.append(fxprog.gen_hop(rng))
        elif rng.chance(0.55):
            progs.append(fxprog.gen_suite(rng))
        else:
            progs.append(fxprog.gen_spec(rng, literals=rng.chance(0.2), sparse=rng.chance(0.15), dyn=rng.chance(0.1), formats=rng.chance(0.2)))
    ops = []
    handles = rng.weighted([(1, 4), (2, 2), (3, 1)])
    for h in range(handles):
        ops.append(["new", h, rng.randrange(h) if h and rng.chance(0.6) else None, None, rng.chance(0.3)])
    for _ in range(rng.randint(2, 6)):
        slot = rng.randrange(n)
        entry = rng.weighted([("program", 5), ("frozen", 2), ("gm", 2), ("graph", 1)])
        if "hop" in progs[slot] and entry == "graph":
            entry = "gm"
        keep = rng.chance(0.3)
        ops.append(
            ["import", rng.randrange(handles), slot, entry, rng.pick([0, 0, 0, 1, 1, rng.randrange(9)]),
             {"visibility": rng.pick([None, None, "private", "public"]), "symbolic": rng.chance(0.2), "keep": keep, "again": rng.chance(0.4), **fx.gen_front(rng)}, None]
        )
        if keep and rng.chance(0.6):
            ops.append(["drop", slot])
        elif rng.chance(0.4):
            ops.append(["gc"])
    return {"progs": progs, "mem": fx.gen_mem(rng), "share_tracker": rng.chance(0.5), "ops": ops}


def execute(sc, run):
    fx.play(sc, run)
