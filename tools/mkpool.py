"""Writes data/fxpool.json: the e2e suite programs the FX checks can use.

A suite program is usable when it exports, is deterministic in eager mode, and
its exported graph runs in the interpreter of sim/interp.py with the same result.
Run by hand when the suite changes: python tools/mkpool.py
"""

import collections
import copy
import json
import logging
import multiprocessing
import os
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HOWS = ["export", "functional", "decomp"]


def shard(args):
    sh, n = args
    logging.disable(logging.CRITICAL)
    from sim import fxprog, interp
    from sim.fakes import mlir

    mlir.install()
    import torch

    torch.set_num_threads(1)
    from torch.export.graph_signature import OutputKind
    from torch_mlir import ir
    from torch_mlir.dialects import torch as torch_d
    from torch_mlir.extras import fx_importer

    res = {}

    def alarm(*a):
        raise TimeoutError("too slow")

    signal.signal(signal.SIGALRM, alarm)
    for i, name in enumerate(sorted(fxprog.suite())):
        if i % n != sh or "imeout" in name:
            continue
        for how in HOWS:
            stage = "build"
            signal.alarm(20)
            t0 = time.time()
            try:
                p = fxprog.build({"suite": name, "how": how})
                built = time.time() - t0
                stage = "reference"
                r1, r2 = p.reference(p.calls[0]), p.reference(p.calls[0])
                if not interp.same([v for _, v in r1], [v for _, v in r2]):
                    raise Exception("nondeterministic")
                if any(s.kind != OutputKind.USER_OUTPUT for s, _ in r1):
                    stage = "mutates"
                    raise Exception("mutates")
                stage = "import"
                ctx = ir.Context()
                torch_d.register_dialect(ctx)
                imp = fx_importer.FxImporter(context=ctx)
                imp.import_program(p.ep, import_symbolic_shape_expressions=True)
                stage = "verify"
                imp.module.operation.verify()
                stage = "interp"
                it = interp.Interp(imp.module)
                t1 = time.time()
                mine = copy.deepcopy(p.calls[0])
                got = it.call("main", mine)
                ran = time.time() - t1
                if not interp.same(list(mine), list(p.calls[0])):
                    stage = "mutates"
                    raise Exception("in place, not functional")
                if not interp.same(list(got), [v for _, v in r1]):
                    stage = "compare"
                    raise Exception("mismatch")
                res[name, how] = ["ok", round(built + ran, 3), sorted(it.used)]
            except BaseException as e:
                res[name, how] = [stage, f"{type(e).__name__}: {str(e)[:200]}"]
            finally:
                signal.alarm(0)
    return [(k, v) for k, v in res.items()]


def main():
    with multiprocessing.get_context("spawn").Pool(8, maxtasksperchild=4) as pool:
        rows = [r for part in pool.map(shard, [(i, 64) for i in range(64)], chunksize=1) for r in part]
    out = {h: [] for h in HOWS}
    ops = {h: {} for h in HOWS}
    bad = collections.Counter()
    for (name, how), v in sorted(rows):
        if v[0] == "ok" and v[1] < 1.0:
            out[how].append(name)
            ops[how][name] = [o for o in v[2]]
        else:
            bad[how, v[0] if v[0] != "ok" else "slow"] += 1
    with open("/tmp/mkpool_all.json", "w") as f:
        json.dump([[k, v] for k, v in sorted(rows)], f, indent=0)
    # by rarest operation: which programs cover an operation few others use
    count = collections.Counter(o for n in ops["export"].values() for o in n)
    rare = sorted(n for n, os_ in ops["export"].items() if any(count[o] <= 3 for o in os_))
    with open(os.path.join(os.path.dirname(__file__), "..", "data", "fxpool.json"), "w") as f:
        json.dump({**out, "rare": rare}, f, indent=0)
    print({h: len(v) for h, v in out.items()}, "rare", len(rare), bad)


if __name__ == "__main__":
    main()
