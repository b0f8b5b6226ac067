"""Shared by C06-C10: histories of FX imports in one simulated process."""

import gc
import logging

from sim import core, fxprog
from sim.core import InvalidScenario, Violation

NAMES = ["main", "f", "main_0", "f_0", "while_loop_cond_graph_0", "while_loop_body_graph_0", "graph", "a.b", "x-1"]

REAL = [
    "torch_mlir.extras.fx_importer (FxImporter, GraphNodeImporter, ContextCache, RefTracker)",
    "torch_mlir.extras.fx_decomp_util, as_strided rewriting",
    "torch (torch.export, eager execution as the reference)",
]
STUB = [
    "MLIR C++ core and Python bindings (an in-memory IR with contexts, insertion points, symbol tables, a verifier)",
    "C++ passes and back ends (the IR is run by an interpreter instead)",
    "object addresses and garbage collection times",
]
ASSUMPTIONS = [
    "torch.export and eager PyTorch are the reference for what a program means.",
    "The simulated MLIR core follows MLIR's documented behaviour for the operations the importer uses.",
]


def setup():
    logging.disable(logging.CRITICAL)
    from sim import fxworld  # noqa: F401

    fxprog.suite()
    fxprog.pool()
    gc.collect()
    gc.freeze()


def world(sc, run):
    from sim import fxworld

    return fxworld.World(sc, run)


def play(sc, run):
    """Run one history.  sc["ops"] are the callers' actions in order."""
    from sim import fxworld

    if not sc.get("progs") or not sc.get("ops"):
        raise InvalidScenario("empty")
    w = fxworld.World(sc, run)
    try:
        with fxworld.simulated(w.memory):
            done = 0
            for op in sc["ops"]:
                done += bool(step(w, sc, op))
            w.final()
        run.probe("imports completed", done)
        if done > 1 or w.memory.reused or run.faults:
            run.nontrivial = True
    finally:
        gc.enable()
    return w


def step(w, sc, op):
    kind = op[0]
    if kind == "new":
        w.new(op[1], op[2], op[3] if len(op) > 3 else None, bool(op[4]) if len(op) > 4 else False)
    elif kind == "import":
        _, h, slot, entry, name, opts, fault = op
        if h not in w.handles:
            w.new(h)
        return w.import_op(w.handles[h], slot, entry, NAMES[name % len(NAMES)], opts or {}, fault)
    elif kind == "drop":
        w.drop(op[1])
    elif kind == "gc":
        from sim import fxworld

        fxworld.collect()
    elif kind == "scribble":
        w.scribble(op[1])
    else:
        raise InvalidScenario(kind)


def gen_front(rng, often=0.2):
    """Options for an import by torch_mlir.fx's own entry points, or nothing."""
    if not rng.chance(often):
        return {}
    return {"front": {
        "module": rng.chance(0.5), "table": rng.weighted([("empty", 3), ("default", 1), ("some", 1)]), "some": rng.randint(1, 60),
        "kwargs": rng.pick([0, 0, 1, 2]), "fresh": rng.chance(0.4), "type": rng.pick(["default", "raw", "RAW"]), "print": rng.chance(0.1),
    }}


def gen_mem(rng):
    return rng.pick([[0], [1], [2], [rng.randrange(3) for _ in range(5)]])
