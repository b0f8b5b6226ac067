"""Shared by C11-C14: compiles in simulated processes."""

from sim.core import InvalidScenario

OUTPUTS = ["raw", "torch", "linalg-on-tensors", "tosa", "stablehlo", "LINALG_ON_TENSORS", "Torch"]
LEGAL = ["aten.foo", "aten.bar", "aten.a.b"]


def setup():
    from sim import compileworld

    compileworld.setup()


def play(sc, run):
    from sim import compileworld

    w = compileworld.World(sc, run)
    try:
        w.go()
        w.final(sc)
        run.probe("compiles", len(w.recs))
        if w.sched.switches or run.faults:
            run.nontrivial = True
    finally:
        w.close()
    return w


def gen_op(rng, kinds, models, *, fault=0.0, lib=0.0, names=3):
    kind = rng.pick(kinds)
    op = {"kind": kind}
    if kind in ("fx", "gm"):
        op["model"] = models.pop() if models else 0
        op["output"] = rng.pick(OUTPUTS)
        if rng.chance(0.4):
            op["legal"] = rng.subset(LEGAL, 0.6)
        if rng.chance(0.4):
            op["nonfinites"] = rng.chance(0.5)
    elif kind == "ts":
        op["model"] = rng.randrange(6)
        op["output"] = rng.pick(OUTPUTS[1:] if lib else OUTPUTS)
        if rng.chance(0.4):
            op["legal"] = rng.subset(LEGAL, 0.6) + rng.subset(LEGAL, 0.3)
        if rng.chance(lib):
            op["lib"] = rng.sample(range(9), rng.randint(1, 3))
            if rng.chance(0.08):
                op["badlib"] = True
        if rng.chance(0.7):
            op["args"] = [
                [rng.pick([None, [], [1], [3, -1], [-1, -1, 2], [4, 5]]), rng.pick(["float32", "float64", "int64", "int32", "float16"]),
                 rng.pick(["ph", "ph", "tensor", "like"])]
                for _ in range(rng.randint(1, 3))
            ]
        if rng.chance(0.25):
            op["trace"] = True
            op["model"] = rng.pick([4, 5, 4, 5, 0, 1])
        if rng.chance(0.7 if "trace" in op else 0.04):
            op["ignore"] = True
        for k, c in (("single", 0.3), ("plain", 0.4), ("badmethod", 0.04)):
            if rng.chance(c):
                op[k] = True
    elif kind == "pipe":
        op["name"] = rng.pick([None, "M0", "M1", "A"][: names + 1])
        op["passes"] = rng.randint(1, 3)
        op["desc"] = rng.pick(["", "sim", "Lowering A -> B"])
    elif kind == "lower":
        op["name"] = rng.pick([None, "M0", "M1"][:names])
        op["output"] = rng.pick(OUTPUTS[1:])
        if rng.chance(0.6):
            op["nonfinites"] = rng.chance(0.5)
    if "output" in op and rng.chance(0.3):
        op["enum"] = True
    if rng.chance(0.04) and kind != "pipe":
        op["badoutput"] = rng.pick(["linalg", "torch_", "llvm", "tosa_"])
    if kind == "ts" and rng.chance(0.04):
        op["badarg"] = rng.pick(["none", "number", "list", "name"])
    if rng.chance(0.15):
        op["verbose"] = True
    if rng.chance(0.15):
        op["irprint"] = True
    if rng.chance(0.3):
        op["warn"] = rng.randint(1, 2)
    if rng.chance(fault):
        point = rng.weighted([("pass", 6), ("import", 3 if kind == "ts" else 0), ("PassManager.parse", 1), ("PassManager.run", 1),
                              ("get_asm", 0 if op.get("verbose") else 1), ("Operation.create", 1 if kind in ("fx", "gm") else 0)])
        f = {"point": point, "kind": rng.weighted([("error", 6), ("oom", 1), ("interrupt", 1)])}
        if point == "pass":
            f.update(stage=rng.pick([1, 1, 2]), at=rng.randrange(3), diags=rng.randrange(4))
        elif point == "import":
            f.update(diags=rng.randrange(4))
        elif point == "Operation.create":
            f.update(n=rng.randint(1, 20))
        elif point in ("PassManager.parse", "PassManager.run", "get_asm"):
            f.update(n=rng.pick([1, 1, 2]))
        op["fault"] = f
    return op


def gen_plan(rng, span):
    mode = rng.weighted([("few", 4), ("dense", 3), ("none", 1), ("burst", 2)])
    if mode == "none":
        return []
    if mode == "few":
        steps = [rng.randint(1, span) for _ in range(rng.randint(1, 8))]
    elif mode == "dense":
        gap = rng.pick([2, 3, 5, 9, 17])
        steps, s = [], 0
        while s < span and len(steps) < 150:
            s += rng.randint(1, gap)
            steps.append(s)
    else:
        at = rng.randint(1, span)
        steps = [at + i for i in range(rng.randint(5, 40))]
    return [[s, rng.randrange(6)] for s in sorted(set(steps))]
