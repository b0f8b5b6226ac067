"""C17: the ONNX import tool writes whole modules and touches nothing else."""

from props.compile import gen_plan
from sim import onnxprog

RUNS = {"quick": 1500, "thorough": 200000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a disk with 1-3 model files (some with data in other files, some torn or lacking data) and 1-3 phases of 1-3 "
    "processes running the tool at the same time, with seeded switches, crashes, torn writes, disk errors, interrupts and "
    "failing calls into MLIR; the last phase is without faults. Non-trivial: two runs succeeded or a fault fired; distinct: by the "
    "digest of the run's event log."
)
STATE_MEASURE = "hash of (success, importable or not, options, faults and where they struck, size limit)"
REAL = ["torch_mlir.tools.import_onnx", "torch_mlir.extras.onnx_importer", "onnx (loading, saving, external data, checker, shape inference)"]
STUB = [
    "MLIR core and bindings (in-memory IR, type parser, verifier, printer)",
    "file operations, process scheduling, onnx.shape_inference.infer_shapes_path (its file access is done in Python) and version_converter (sets the version), uuid1, onnx's size limit of 2 GB",
]
ASSUMPTIONS = [
    "A process that dies loses what is in its own buffers; what it wrote to a file stays; directory operations are atomic.",
    "Runs with --keep-temps at the same time have directories of their own for them.",
    "The output is a regular file or does not exist, in a directory that may be written.",
]
SHRINK_KEEP = ("inputs",)
SHRINK_NULL = ("fault",)


def setup():
    import logging

    logging.disable(logging.CRITICAL)
    from sim import toolworld  # noqa: F401


def gen(rng, tier):
    files = []
    for _ in range(rng.weighted([(1, 4), (2, 3), (3, 1)])):
        m = onnxprog.gen_spec(rng)
        m["ops"] = m["ops"][:5]
        f = {"model": m, "dir": rng.pick([0, 0, 0, 1]), "strip": rng.chance(0.6)}
        if rng.chance(0.5):
            f["external"] = rng.pick(["all", "some"])
            f["elsewhere"] = rng.chance(0.4)
        if rng.chance(0.4):
            f["big"] = rng.randint(1, 50)
        if rng.chance(0.12):
            f["bad"] = rng.pick(["torn", "nodata", "spoilt", "spoilt"])
            f["spoil"] = rng.randrange(60)
        files.append(f)
    limit = rng.weighted([(0, 5), (1 << 31, 4), (700, 2)])
    phases = []
    total = rng.weighted([(1, 2), (2, 4), (3, 2)])
    same = rng.chance(0.4)
    for i in range(total):
        runs = []
        for k in range(rng.weighted([(1, 3), (2, 4), (3, 1)])):
            r = {"file": rng.randrange(len(files)), "out": rng.weighted([(None, 1), (0 if same else k, 5), (rng.randrange(4), 1)])}
            for opt, p in (("noverify", 0.15), ("noprop", 0.15), ("clear", 0.25), ("expand", 0.1), ("relative", 0.3), ("dash", 0.5), ("datadir", 0.3)):
                if rng.chance(p):
                    r[opt] = True
            if rng.chance(0.12):
                r["opset"] = rng.pick([18, 20, 21])
            if rng.chance(0.35):
                r["temp"] = rng.randrange(2)
            if rng.chance(0.15):
                r["keep"] = True
                r["temp"] = 2
            if i < total - 1 and rng.chance(0.25):
                r["fault"] = {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": 1 + int(2 ** (rng.random() * 8))}
            runs.append(r)
        if sum(bool(r.get("keep")) for r in runs) > 1:
            for r in runs[1:]:
                r.pop("keep", None)
        faults = []
        if i < total - 1 and rng.chance(0.7):
            for _ in range(rng.weighted([(1, 4), (2, 1)])):
                kind = rng.weighted([("crash", 4), ("torn", 2), ("ENOSPC", 2), ("EIO", 2), ("EACCES", 1), ("short", 1), ("EINTR", 1), ("interrupt", 2)])
                faults.append([rng.randint(1, rng.pick([5, 12, 30, 80])), kind] + ([True] if kind == "ENOSPC" and rng.chance(0.5) else ["wait"] if kind == "torn" else []))
        p = {"runs": runs, "faults": faults}
        if len(runs) > 1:
            p["plan"] = gen_plan(rng, rng.pick([60, 150, 400]))
            p["fine"] = rng.chance(0.3)
        phases.append(p)
    return {"files": files, "phases": phases, "limit": limit, "chunk": rng.pick([256, 1024, 8192]), "old": [i for i in range(4) if rng.chance(0.5)]}


def execute(sc, run):
    from sim import toolworld

    toolworld.play(sc, run)
