"""C09: imported programs change exactly the state the program changes."""

from sim import fxprog

from . import fx

RUNS = {"quick": 700, "thorough": 50000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case imports 1-4 functionalised programs that modify inputs and buffers (several targets, shared producers, "
    "constant and aliased outputs) with an integrator's load/store hooks or without, then calls each function 1-4 "
    "times so that state carries over. Non-trivial: at least two imports completed, an address was reused or a "
    "fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (entry point, set of operations in the imported function)"
REAL = [
    "torch_mlir.extras.fx_importer", "torch_mlir.extras.fx_decomp_util", "torch.export and eager PyTorch",
]
STUB = ["MLIR core, bindings and passes (in-memory IR, verifier, interpreter)", "object addresses, garbage collection times"]
ASSUMPTIONS = [
    "torch.export and eager PyTorch define what a program computes.",
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
    "State is loaded and stored by the name the importer hands to the hooks, in program order.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    fx.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 4), (2, 3), (3, 1)])
    progs = []
    for _ in range(n):
        if rng.chance(0.12):  # operators which change their arguments
            progs.append(fxprog.gen_hop(rng, "mutating"))
            continue
        p = fxprog.gen_spec(rng, mutate=not rng.chance(0.1), size=rng.pick([0, 1, 2, 3, 5]))
        p["call_ns"] = [p["n"]] * rng.pick([1, 2, 3, 4])
        if p.get("muts") is not None and rng.chance(0.3):
            p["how"] = "decomp"
        progs.append(p)
    ops = []
    handles = rng.pick([1, 1, 2])
    for h in range(handles):
        b = rng.weighted([({"load": "all"}, 4), ({"load": "mutable"}, 3), ({}, 1), ({"store": False}, 1), (None, 1),
                          ({"load": "all", "literal": True}, 1)])
        ops.append(["new", h, 0 if h and rng.chance(0.5) else None, b, rng.chance(0.3)])
    for _ in range(rng.randint(1, 4)):
        fault = None
        if rng.chance(0.08):
            fault = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 8))}
        ops.append(["import", rng.randrange(handles), rng.randrange(n), rng.weighted([("program", 8), ("gm", 1)]),
                    rng.pick([0, 0, 1]), {"visibility": rng.pick([None, "private"]), "keep": rng.chance(0.3), "again": rng.chance(0.5), **fx.gen_front(rng)}, fault])
        if rng.chance(0.2):
            ops.append(["gc"])
    return {"progs": progs, "mem": fx.gen_mem(rng), "share_tracker": rng.chance(0.5), "ops": ops}


def execute(sc, run):
    fx.play(sc, run)
