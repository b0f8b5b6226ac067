"""One shard: a process that runs simulated executions index by index."""

import argparse
import importlib
import json
import os
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=600)
    ap.add_argument("--shrink-seconds", type=float, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--progress", required=True)
    ap.add_argument("--known", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--digests", action="store_true")
    args = ap.parse_args()

    from . import core, overlay, pristine

    overlay.install()
    import torch

    torch.set_num_threads(1)
    prop = importlib.import_module(f"props.{args.prop.lower()}")
    known = set(args.known.split("\n")) if args.known else set()

    agg = {
        "runs": 0,
        "nontrivial": [],
        "faults": {},
        "probes": {},
        "states": [],
        "simtime": 0.0,
        "samples": [],
        "violations": [],
        "known_hits": {},
        "errors": [],
        "unsupported": 0,
        "unsupported_samples": [],
        "digests": {},
        "capped": False,
    }
    states = set()
    nontrivial = set()

    def mark(i, what="run"):
        with open(args.progress, "w") as f:
            f.write(f"{i} {what} {time.time()}")

    mark(-1, "setup")
    if hasattr(prop, "setup"):
        prop.setup()
    fresh = None if args.replay else pristine.Pristine(prop)

    def handle(idx, scenario):
        try:
            run, v = core.run_scenario(prop, scenario)
        except core.SimUnsupported as e:
            agg["unsupported"] += 1
            if len(agg["unsupported_samples"]) < 3:
                agg["unsupported_samples"].append(str(e)[:500])
            return True
        except Exception:
            agg["errors"].append({"index": idx, "trace": traceback.format_exc()[-4000:]})
            return len(agg["errors"]) < 3
        agg["runs"] += 1
        for k, n in run.faults.items():
            agg["faults"][k] = agg["faults"].get(k, 0) + n
        for k, n in run.probes.items():
            agg["probes"][k] = agg["probes"].get(k, 0) + n
        states.update(run.states)
        agg["simtime"] += run.simtime
        d = run.digest()
        if run.nontrivial:
            nontrivial.add(d)
        if args.digests:
            agg["digests"][idx] = d
        if len(agg["samples"]) < 2 and (run.nontrivial or idx > 50):
            agg["samples"].append(
                {
                    "index": idx,
                    "scenario": json.dumps(scenario, sort_keys=True)[:1500],
                    "log_head": run.log_lines[:12],
                    "log_digest": d,
                }
            )
        if v is None:
            return True
        if v.kind in known:
            agg["known_hits"][v.kind] = agg["known_hits"].get(v.kind, 0) + 1
            return True
        before, best, tries = [], scenario, 0
        seen = {
            "kind": v.kind,
            "message": v.message,
            "detail": {k: str(x)[:3000] for k, x in v.detail.items()},
            "log": run.log_lines[-200:],
            "log_digest": d,
        }
        if not args.replay:
            mark(idx, "shrink")
            history = [
                prop.gen(core.Rng.for_run(args.seed, args.prop, i), args.tier)
                for i in range(args.start, idx, args.stride)
            ]
            before, best, again, tries = pristine.reduce(
                core, prop, fresh, history, scenario, v.kind,
                args.shrink_seconds, lambda: mark(idx, "shrink"),
            )
            if again is not None:
                seen = again
            else:  # only the whole history may bring it back
                before = history
        agg["violations"].append(
            {
                **seen,
                "index": idx,
                "before": before,
                "scenario": best,
                "original_size": core.size(scenario),
                "minimised_size": core.size(best),
                "shrink_tries": tries,
            }
        )
        return False

    t0 = time.time()
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        mark(0, "replay")
        for sc in rp.get("before", []):
            try:
                core.run_scenario(prop, sc)
            except (core.SimUnsupported, Exception):
                pass
        handle(rp.get("index", 0), rp["scenario"])
    else:
        last_mark = 0
        for n in range(args.count):
            idx = args.start + n * args.stride
            now = time.time()
            if now - last_mark > 0.5:
                mark(idx)
                last_mark = now
                if now - t0 > args.seconds:
                    agg["capped"] = True
                    break
            rng = core.Rng.for_run(args.seed, args.prop, idx)
            scenario = prop.gen(rng, args.tier)
            if hasattr(prop, "dump_index"):
                mark(idx)
            with open(args.progress + ".cur", "w") as f:
                f.write(str(idx))
            if not handle(idx, scenario):
                break
    agg["states"] = sorted(states)
    agg["nontrivial"] = sorted(nontrivial)
    agg["wall"] = time.time() - t0
    if hasattr(prop, "evidence_extra"):
        agg["extra"] = prop.evidence_extra()
    tmp = args.out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(agg, f)
    os.replace(tmp, args.out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
