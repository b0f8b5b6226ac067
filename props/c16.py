"""C16: a failed ONNX import is reported as such and leaves everything usable."""

from props import c15
from sim import onnxprog

RUNS = {"quick": 5000, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case imports 2-7 models (as for C15) into 1-2 modules sharing contexts and caches. Most imports fail: by an error, "
    "memory exhaustion or an interrupt at a seeded call into MLIR, or because the model is made one that cannot be imported, "
    "in one of 11 ways. Non-trivial: an import failed; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of the set of operators that the imported outputs depend on"
REAL = c15.REAL
STUB = c15.STUB
ASSUMPTIONS = [
    "A caller does not use an importer object again once its import has failed; caches are used again.",
    "Names are unique within each graph and not shadowed in subgraphs, as ONNX demands.",
]
SHRINK_KEEP = ("inputs",)

setup = c15.setup


def gen(rng, tier):
    from sim.onnxworld import SPOILS

    n = rng.weighted([(1, 2), (2, 3), (3, 1)])
    focus = rng.weighted([(None, 4), ("functions", 2)])
    models = [onnxprog.gen_spec(rng, focus) for _ in range(n)]
    ops = []
    handles = rng.pick([1, 1, 2])
    for h in range(handles):
        ops.append(["new", h, 0 if h and rng.chance(0.5) else None])
    total = rng.randint(2, 7)
    for i in range(total):
        opts = {"share": rng.pick(["both", "both", "cc", "none"]), "name": rng.pick(["main", "g", "h"])}
        if rng.chance(0.3):
            opts["expand"] = rng.pick(["known", "all", "none"])
        fault = None
        if i < total - 1 and rng.chance(0.75):
            if rng.chance(0.5):
                opts["spoil"] = [rng.randrange(len(SPOILS)), rng.randrange(60)]
            else:
                fault = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 8.5))}
        ops.append(["import", rng.randrange(handles), rng.randrange(n), opts, fault])
    return {"models": models, "ops": ops}


def execute(sc, run):
    from sim import onnxworld

    onnxworld.play(sc, run)
