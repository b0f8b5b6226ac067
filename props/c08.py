"""C08: every constant in the IR is the bytes of its own tensor."""

from sim import fxprog

from . import fx

RUNS = {"quick": 700, "thorough": 60000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of 2-7 imports of programs with many look-alike constants (same shapes and types, all "
    "element types, strided and shared storage), with seeded address reuse, garbage collection, shared reference "
    "trackers and contexts, tensors overwritten and dropped by their owner after the import, failures in between and "
    "hooks that take the literals over. Non-trivial: an address was reused, a tensor was overwritten, or a fault "
    "fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (entry point, set of operations in the imported function)"
REAL = [
    "torch_mlir.extras.fx_importer", "torch_mlir.extras.fx_decomp_util", "torch.export and eager PyTorch",
]
STUB = ["MLIR core, bindings and passes (in-memory IR, verifier, interpreter)", "object addresses, garbage collection times"]
ASSUMPTIONS = [
    "torch.export and eager PyTorch define what a program computes.",
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
    "Tensors are not modified in place between two imports that share a reference tracker.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    fx.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 2), (2, 3), (3, 2), (4, 1)])
    progs = []
    for _ in range(n):
        if progs and rng.chance(0.35):  # a look-alike: other values only
            import copy

            p = copy.deepcopy(rng.pick(progs))
            for s in p["state"]:
                s["seed"] = rng.randrange(1000)
            progs.append(p)
        else:
            progs.append(fxprog.gen_spec(rng, literals=True, size=rng.pick([1, 2, 3])))
    behaviour = rng.pick([None, None, None, {"literal": True}, {"load": "all"}, {}])
    handles = rng.weighted([(1, 3), (2, 2), (3, 1)])
    ops = []
    for h in range(handles):
        ops.append(["new", h, rng.randrange(h) if h and rng.chance(0.8) else None, behaviour, rng.chance(0.3)])
    for _ in range(rng.randint(2, 7)):
        slot = rng.randrange(n)
        keep = rng.chance(0.5)
        fault = None
        if rng.chance(0.12):
            fault = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 9))}
        ops.append(["import", rng.randrange(handles), slot, rng.weighted([("program", 5), ("frozen", 4)]),
                    rng.pick([0, 0, 1]), {"keep": keep, "again": rng.chance(0.5), **fx.gen_front(rng, 0.15)}, fault])
        if fault and rng.chance(0.7):  # the caller tries again
            ops.append(["import", ops[-1][1], slot, "program", 0, {"keep": keep, "again": True}, None])
        if keep:
            ops.append([rng.pick(["scribble", "scribble", "drop", "gc"]), slot])
        elif rng.chance(0.4):
            ops.append(["gc"])
    return {"progs": progs, "mem": fx.gen_mem(rng), "share_tracker": rng.chance(0.6), "ops": ops}


def execute(sc, run):
    fx.play(sc, run)
    run.nontrivial = bool(run.faults)
