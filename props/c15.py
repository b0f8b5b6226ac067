"""C15: an imported ONNX model is the model."""

from sim import onnxprog

RUNS = {"quick": 5000, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case imports 1-5 models (up to 14 steps each: elementwise, variadic and multi-output operators, omitted optional "
    "inputs and outputs, constants of 19 element types in both encodings, sequences, optionals, operators without schema "
    "with every kind of attribute, nested If/Loop/Scan with captured values and equal names in sibling graphs, function "
    "operators) into 1-2 modules sharing contexts and caches, some imports failing. Non-trivial: two imports completed or a "
    "fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of the set of operators that the imported outputs depend on"
REAL = ["torch_mlir.extras.onnx_importer", "onnx (shape inference, checker, function bodies, reference evaluator)"]
STUB = ["MLIR core and bindings (in-memory IR, type parser, verifier)"]
ASSUMPTIONS = [
    "The model passes onnx's checker; types are those of onnx's shape inference.",
    "Names are unique within each graph and not shadowed in subgraphs, as ONNX demands.",
    "The function expansion of an operator is compared by evaluation with onnx's reference evaluator on random inputs.",
]
SHRINK_KEEP = ("inputs",)


def setup():
    from sim import onnxworld  # noqa: F401


def gen(rng, tier):
    n = rng.weighted([(1, 3), (2, 3), (3, 1)])
    focus = rng.weighted([(None, 5), ("functions", 2)])
    models = [onnxprog.gen_spec(rng, focus) for _ in range(n)]
    ops = []
    handles = rng.pick([1, 1, 2])
    for h in range(handles):
        ops.append(["new", h, 0 if h and rng.chance(0.5) else None])
    for _ in range(rng.randint(1, 5)):
        opts = {"share": rng.pick(["both", "both", "cc", "none"]), "name": rng.pick(["main", "g", "torch-jit-export", "名", "a b", ""])}
        if focus == "functions" and rng.chance(0.8) or rng.chance(0.2):
            opts["expand"] = rng.pick(["known", "known", "all", "none"])
        if rng.chance(0.1):
            opts["keepinputs"] = True
        fault = None
        if rng.chance(0.1):
            fault = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 8))}
        ops.append(["import", rng.randrange(handles), rng.randrange(n), opts, fault])
    return {"models": models, "ops": ops}


def execute(sc, run):
    from sim import onnxworld

    onnxworld.play(sc, run)
