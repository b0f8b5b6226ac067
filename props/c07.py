"""C07: a failed import leaves nothing half-made and the importer usable."""

from sim import fxprog

from . import fx

RUNS = {"quick": 800, "thorough": 60000}
SECONDS = {"quick": 150, "thorough": 3000}
LEVEL = "exploration"
RULE = (
    "Each case is a history of 2-7 imports, some of which fail: at a seeded call into the MLIR bindings or a hook "
    "(MLIR error, allocation failure, Ctrl-C) or because the program holds an unsupported construct; later imports, "
    "mostly of the same program, must succeed. Non-trivial: an injected failure fired; distinct: by the digest of "
    "the run's event log."
)
STATE_MEASURE = "hash of (entry point, set of operations in the imported function)"
REAL = [
    "torch_mlir.extras.fx_importer", "torch_mlir.extras.fx_decomp_util", "torch.export and eager PyTorch",
]
STUB = ["MLIR core, bindings and passes (in-memory IR, verifier, interpreter)", "object addresses, garbage collection times"]
ASSUMPTIONS = [
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
    "After a failure, complete private functions of the program's child modules may stay in the module.",
]
SHRINK_KEEP = ("inputs",)
SPOILS = ["meta", "target", "hop", "strided", "arg", "list", "dtype"]


def setup():
    fx.setup()


def gen(rng, tier):
    n = rng.weighted([(1, 3), (2, 3), (3, 1)])
    progs = []
    for _ in range(n):
        k = rng.weighted([("suite", 3), ("gen", 4), ("hop", 2), ("dyn", 1)])
        if k == "suite":
            progs.append(fxprog.gen_suite(rng))
        elif k == "gen":
            progs.append(fxprog.gen_spec(rng, literals=rng.chance(0.3)))
        elif k == "dyn":
            progs.append(fxprog.gen_spec(rng, dyn=True))
        else:
            progs.append(fxprog.gen_hop(rng))
    behaviour = rng.pick([None, None, {}, {"literal": True}, {"load": "all"}])
    ops = [["new", 0, None, behaviour, rng.chance(0.3)]]
    if rng.chance(0.2):
        ops.append(["new", 1, 0, behaviour, False])

    def imp(slot, fault=None, spoil=None):
        entry = rng.weighted([("program", 5), ("frozen", 2), ("gm", 2), ("graph", 1)])
        if "hop" in progs[slot] and entry == "graph":
            entry = "gm"
        opts = {"visibility": rng.pick([None, "private", "public"]), "symbolic": rng.chance(0.5), "keep": rng.chance(0.5), "again": rng.chance(0.6), **fx.gen_front(rng)}
        if spoil:
            opts["spoil"] = spoil
        h = rng.randrange(len([o for o in ops if o[0] == "new"]))
        ops.append(["import", h, slot, entry, rng.pick([0, 0, 0, 1, rng.randrange(9)]), opts, fault])

    if rng.chance(0.6):
        imp(rng.randrange(n))
    for _ in range(rng.pick([1, 1, 2, 3])):
        slot = rng.randrange(n)
        if rng.chance(0.25):
            imp(slot, spoil=[rng.pick(SPOILS), rng.randrange(20)])
        else:
            at = 1 + int(2 ** (rng.random() * rng.pick([6, 8, 10])))
            imp(slot, {"kind": rng.pick(["mlir-error", "out-of-memory", "interrupt"]), "at": at})
        if rng.chance(0.5):
            ops.append(["gc"])
        if rng.chance(0.8):
            imp(slot)
    return {"progs": progs, "mem": fx.gen_mem(rng), "share_tracker": rng.chance(0.5), "ops": ops}


def execute(sc, run):
    fx.play(sc, run)
    run.nontrivial = any(k in run.faults for k in ("mlir-error", "out-of-memory", "interrupt", "unsupported-construct"))
