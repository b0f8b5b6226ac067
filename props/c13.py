"""C13: the file for reproducing a failure is whole at every moment and the right one."""

from . import compile as cp

RUNS = {"quick": 2400, "thorough": 200000}
SECONDS = {"quick": 120, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is 1-3 processes whose compiles fail at a seeded point under colliding names, with crashes, torn writes and disk errors at seeded file operations. Non-trivial: a switch or a fault happened; distinct: by the digest of the run's event log."
)
STATE_MEASURE = "hash of (kind of compile, output type, fault and where it struck, pipelines run, library read or not)"
REAL = [
    "torch_mlir.compiler_utils, torch_mlir.fx, torch_mlir.torchscript", "torch_mlir.extras.fx_importer",
    "jit_ir_importer.build_tools.library_generator and registry", "PyTorch (export, TorchScript)",
]
STUB = [
    "MLIR core, bindings, TorchScript importer and passes (scripted: they record, change the module, read files, write diagnostics, fail)",
    "thread scheduling, locks, process identity, the temporary directory's file operations",
]
ASSUMPTIONS = [
    "Native code writes diagnostics to whatever sys.stderr is at that time, as the bindings do.",
    "Switches between threads happen between statements (sometimes after single calls) of the compile path, at calls into the binding, at locks and at file operations.",
    "A process that dies loses what is in its own buffers; what it wrote to a file stays.",
]
SHRINK_NULL = ("fault", "fs")


def setup():
    cp.setup()


def gen(rng, tier):
    procs = rng.weighted([(1, 2), (2, 4), (3, 2)])
    models = list(range(6))
    rng.shuffle(models)
    tasks = []
    names = rng.randint(1, 3)
    for i in range(rng.weighted([(1, 1), (2, 4), (3, 2)])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            op = cp.gen_op(rng, ["ts", "fx", "pipe", "pipe", "lower"], models, fault=1.0, names=names)
            if op["fault"]["kind"] == "interrupt" and rng.chance(0.7):
                op["fault"]["kind"] = "error"
            ops.append(op)
        tasks.append({"proc": i % procs if rng.chance(0.8) else rng.randrange(procs), "ops": ops})
    faults = []
    if rng.chance(0.5):
        faults.append([rng.randint(1, rng.pick([6, 20, 60])), rng.weighted([("crash", 4), ("torn", 2), ("ENOSPC", 2), ("EIO", 1), ("EACCES", 1), ("short", 1)])])
    fine = rng.chance(0.3)
    span = rng.pick([100, 300, 800]) * (2 if fine else 1)
    return {"tasks": tasks, "fine": fine, "plan": cp.gen_plan(rng, span * len(tasks)),
            "fs": {"faults": faults, "chunk": rng.pick([16, 64, 256, 4096])}}


def execute(sc, run):
    cp.play(sc, run)
