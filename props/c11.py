"""C11: a compile does what its options ask for, whatever else compiles meanwhile."""

from . import compile as cp

RUNS = {"quick": 2400, "thorough": 200000}
SECONDS = {"quick": 120, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is 1-3 threads in 1-2 processes which compile 1-3 programs each by any entry point with seeded options, some of them failing, under a seeded schedule. Non-trivial: a context switch happened inside a compile or a fault fired; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (kind of compile, output type, fault and where it struck, pipelines run, library read or not)"
REAL = [
    "torch_mlir.compiler_utils, torch_mlir.fx, torch_mlir.torchscript", "torch_mlir.extras.fx_importer",
    "jit_ir_importer.build_tools.library_generator and registry", "PyTorch (export, TorchScript)",
]
STUB = [
    "MLIR core, bindings, TorchScript importer and passes (scripted: they record, change the module, read files, write diagnostics, fail)",
    "thread scheduling, locks, process identity, the temporary directory's file operations",
]
ASSUMPTIONS = [
    "Native code writes diagnostics to whatever sys.stderr is at that time, as the bindings do.",
    "Switches between threads happen between statements (sometimes after single calls) of the compile path, at calls into the binding, at locks and at file operations.",
    "A process that dies loses what is in its own buffers; what it wrote to a file stays.",
]
SHRINK_NULL = ("fault", "fs")


def setup():
    cp.setup()


def gen(rng, tier):
    procs = rng.weighted([(1, 5), (2, 1)])
    models = list(range(6))
    rng.shuffle(models)
    tasks = []
    kinds = ["ts", "fx", "gm", "pipe", "lower"]
    focus = rng.pick([4, 5, None, None])
    if focus:
        kinds += ["ts"] * 3
    for i in range(rng.weighted([(1, 1), (2, 4), (3, 3)])):
        ops = [cp.gen_op(rng, kinds, models, fault=0.25) for _ in range(rng.randint(1, 3))]
        for op in ops:
            if focus and op["kind"] == "ts":
                op["model"] = focus
        tasks.append({"proc": rng.randrange(procs), "ops": ops})
    fine = rng.chance(0.3)
    span = rng.pick([100, 300, 800]) * (2 if fine else 1)
    return {"tasks": tasks, "fine": fine, "plan": cp.gen_plan(rng, span * len(tasks))}


def execute(sc, run):
    cp.play(sc, run)
