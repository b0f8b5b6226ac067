"""C18: what TorchDynamo runs through Torch-MLIR is the program, call after call."""

import gc
import json
import logging
import os
import warnings

from sim import core, fxprog

from . import fx

RUNS = {"quick": 900, "thorough": 60000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a session of 1-3 programs (generated ones in 15 calling conventions, operators that need decomposition, "
    "suite programs) called up to 8 times under TorchDynamo, with changing shapes, gradients, graph breaks, resets, "
    "recompilations, direct imports of exported graphs, and failures of the binding, back end and device. Non-trivial: "
    "two calls or imports completed or a fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of the set of operations in the imported graph"
REAL = [
    "torch_mlir.dynamo (decomposition table, calling convention, back end wrapper), torch_mlir._dynamo_fx_importer",
    "TorchDynamo, AOTAutograd, torch.export and eager PyTorch",
]
STUB = ["MLIR core and bindings (in-memory IR, verifier)", "the device (runs the imported module or the normalised graph)"]
ASSUMPTIONS = [
    "PyTorch's aot_autograd with the same operators decomposed and no back end is the reference for a call.",
    "A graph with results that are no tensors, symbolic sizes, unregistered operations or literals of other kinds is outside the importer's documented subset and may be refused.",
    "After a failed call every copy of the program starts over from the state before that call.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    os.environ.setdefault("TORCHINDUCTOR_FORCE_DISABLE_CACHES", "1")
    from sim import dynworld  # noqa: F401

    fxprog.suite()
    fxprog.pool()
    dynpool()
    gc.collect()
    gc.freeze()


_pool = None


def dynpool():
    global _pool
    if _pool is None:
        with open(os.path.join(core.VERIF, "data/dynpool.json")) as f:
            _pool = json.load(f)
    return _pool


EXTRAS = [
    "std", "var", "dot", "norm", "layer_norm", "group_norm", "batch_norm", "batch_norm_train", "pool", "resize", "mse",
    "sigmoid", "squeeze", "squeeze_all", "embed", "attention", "select", "split", "topk", "max", "index", "full", "ones",
    "gelu", "cat", "empty", "clamp", "to", "where", "conv", "pad", "bool", "scalar", "softmax", "std_mean", "roll", "inf", "complex", "complex_wide", "half", "small", "format", "format_3d",
]
RETS = ["asis", "one", "list1", "tuple1", "list", "dict", "nest", "none", "input", "dup", "num", "view", "inplace", "only", "shape"]


def gen_fault(rng, mode):
    if mode == "simple":
        where = rng.pick(["back end", "device", "device"])
    else:
        where = rng.pick(["binding", "binding", "device"])
    return {
        "where": where,
        "kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]),
        "at": rng.pick([1, 2, rng.randint(1, 60)]) if where == "binding" else rng.pick([1, 1, 2]),
    }


def gen_prog(rng):
    mode = rng.pick(["import", "import", "simple"])
    if rng.chance(0.35):
        return {"suite": rng.pick(dynpool()[mode]), "mode": mode}
    g = fxprog.gen_spec(rng, mutate=rng.chance(0.25), size=rng.pick([1, 2, 3]))
    return {
        "gen": g, "mode": mode, "ret": rng.pick(RETS), "break": rng.chance(0.15), "train": rng.chance(0.2),
        "grow": rng.chance(0.4), "extra": rng.pick(EXTRAS) if rng.chance(0.6) else None,
    }


def gen(rng, tier):
    progs = [gen_prog(rng) for _ in range(rng.weighted([(1, 2), (2, 3), (3, 1)]))]
    ops = []
    faults = rng.chance(0.4)
    for _ in range(rng.randint(2, 7)):
        x = rng.random()
        if x < 0.08:
            ops.append(["reset"])
        elif x < 0.16:
            ops.append(["again", rng.randrange(len(progs))])
        elif x < 0.32:
            spec = fxprog.gen_suite(rng) if rng.chance(0.4) else fxprog.gen_spec(rng, formats=rng.chance(0.3))
            tweaks = [[rng.randrange(12), rng.pick([0, 1, 1, 2, 3])] for _ in range(rng.pick([0, 1, 2, 3]))]
            spoil = [rng.pick(["meta", "target", "hop", "arg", "list", "dtype"]), rng.randrange(6)] if rng.chance(0.1) else None
            fault = gen_fault(rng, "import") if faults and rng.chance(0.3) else None
            if fault:
                fault["where"] = "binding"
            ops.append(["direct", spec, fx.NAMES[rng.randrange(9)], tweaks, spoil, fault])
        else:
            no = rng.randrange(len(progs))
            fault = gen_fault(rng, progs[no]["mode"]) if faults and rng.chance(0.35) else None
            ops.append(["call", no, rng.randrange(3), rng.chance(0.2), fault])
    return {"progs": progs, "dynamic": rng.pick([None, None, False, True]), "convention": rng.pick(["tuple", "tuple", "list"]), "ops": ops}


def execute(sc, run):
    from sim import dynworld

    if not sc.get("progs") or not sc.get("ops"):
        raise core.InvalidScenario("empty")
    dynworld.World(sc, run).play()
