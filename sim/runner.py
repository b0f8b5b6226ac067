"""Parent process of a check: shards, merging, replay files, evidence, verdict.

  python -m sim.runner check C01            (VERIF_SEED, VERIF_TIER)
  python -m sim.runner replay FILE
  python -m sim.runner selfcheck C01 [N]    determinism: same digests everywhere
"""

import hashlib
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
HANG_SECONDS = 120  # real seconds without progress inside one simulated run


def load_spec(prop):
    """Constants of a property module, without importing torch."""
    import ast

    path = os.path.join(VERIF, "props", prop.lower() + ".py")
    tree = ast.parse(open(path).read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1:
            t = node.targets[0]
            if isinstance(t, ast.Name) and t.id.isupper():
                try:
                    out[t.id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
    return out


def child_env(hashseed="0"):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=VERIF,
        PYTHONHASHSEED=hashseed,
        PYTHONDONTWRITEBYTECODE="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        HF_HUB_OFFLINE="1",
        LANG="C.UTF-8",
        # memory nobody wrote to holds the same in every run
        MALLOC_PERTURB_="85",
        GLIBC_TUNABLES="glibc.malloc.tcache_count=0",
    )
    env.pop("TORCH_MLIR_TEST_CONCURRENCY", None)
    env.pop("TORCH_MLIR_TEST_VERBOSE", None)
    return env


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


class Shards:
    def __init__(self, prop, seed, tier, nshards, total, seconds, hashseed="0",
                 digests=False, known=(), shrink_seconds=60, start=0):
        self.dir = tempfile.mkdtemp(prefix="verif-shards-")
        self.procs = []
        self.results = []
        self.failures = []
        self.hangs = []
        per = [len(range(k, total, nshards)) for k in range(nshards)]
        for k in range(nshards):
            if per[k] == 0:
                continue
            out = os.path.join(self.dir, f"out{k}.json")
            prog = os.path.join(self.dir, f"prog{k}")
            cmd = [PY, "-W", "ignore", "-m", "sim.shard", "--prop", prop,
                   "--seed", str(seed), "--tier", tier, "--start", str(start + k),
                   "--stride", str(nshards), "--count", str(per[k]),
                   "--seconds", str(seconds), "--out", out, "--progress", prog,
                   "--shrink-seconds", str(shrink_seconds)]
            if known:
                cmd += ["--known", "\n".join(known)]
            if digests:
                cmd += ["--digests"]
            tmp = os.path.join(self.dir, f"tmp{k}")
            os.mkdir(tmp)
            env = child_env(hashseed)
            env["TMPDIR"] = tmp
            log = open(os.path.join(self.dir, f"log{k}"), "w")
            p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=log, stderr=log,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            self.procs.append((k, p, out, prog))

    def wait(self, hard_seconds, stop_on_violation=True):
        t0 = time.time()
        live = list(self.procs)
        while live:
            time.sleep(0.1)
            for item in list(live):
                k, p, out, prog = item
                rc = p.poll()
                if rc is not None:
                    live.remove(item)
                    self._collect(k, rc, out)
                    continue
                stale = self._stale(prog)
                if stale > HANG_SECONDS:
                    self._kill(p)
                    live.remove(item)
                    self.hangs.append((k, self._cur(prog), self._phase(prog)))
                elif time.time() - t0 > hard_seconds:
                    self._kill(p)
                    live.remove(item)
                    self.failures.append((k, "wall limit", self._log(k)))
            if stop_on_violation and any(r["violations"] for r in self.results):
                # let the others go on for a moment: more than one may be found
                if not hasattr(self, "_grace"):
                    self._grace = time.time() + 5
                if time.time() > self._grace:
                    for k, p, out, prog in live:
                        self._kill(p)
                    break
        return self

    def _phase(self, prog):
        try:
            return open(prog).read().split()[1]
        except Exception:
            return "setup"

    def _cur(self, prog):
        try:
            return int(open(prog + ".cur").read())
        except Exception:
            return None

    def _stale(self, prog):
        try:
            m = os.stat(prog).st_mtime
        except OSError:
            return 0
        try:
            m = max(m, os.stat(prog + ".cur").st_mtime)
        except OSError:
            pass
        return time.time() - m

    def _kill(self, p):
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()

    def _log(self, k):
        try:
            return open(os.path.join(self.dir, f"log{k}")).read()[-3000:]
        except OSError:
            return ""

    def _collect(self, k, rc, out):
        if rc == 0 and os.path.exists(out):
            with open(out) as f:
                self.results.append(json.load(f))
        else:
            self.failures.append((k, f"exit {rc}", self._log(k)))

    def close(self):
        for k, p, out, prog in self.procs:
            if p.poll() is None:
                self._kill(p)
        shutil.rmtree(self.dir, ignore_errors=True)


def merge(results):
    m = {"runs": 0, "faults": {}, "probes": {}, "states": set(), "nontrivial": set(),
         "simtime": 0.0, "samples": [], "violations": [], "errors": [],
         "known_hits": {}, "unsupported": 0, "unsupported_samples": [],
         "digests": {}, "capped": 0, "extra": None}
    for r in results:
        m["runs"] += r["runs"]
        m["simtime"] += r["simtime"]
        m["unsupported"] += r["unsupported"]
        m["capped"] += bool(r["capped"])
        for key in ("faults", "probes", "known_hits"):
            for k, n in r[key].items():
                m[key][k] = m[key].get(k, 0) + n
        m["states"].update(r["states"])
        m["nontrivial"].update(r["nontrivial"])
        m["samples"] += r["samples"]
        m["violations"] += r["violations"]
        m["errors"] += r["errors"]
        m["unsupported_samples"] += r["unsupported_samples"]
        m["digests"].update(r["digests"])
        m["extra"] = m["extra"] or r.get("extra")
    m["violations"].sort(key=lambda v: (v["kind"], v["minimised_size"], v["index"]))
    m["samples"].sort(key=lambda s: s["index"])
    m["samples"] = m["samples"][:4]
    return m


def write_replay(prop, seed, tier, v):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = {"property": prop, "seed": seed, "tier": tier, "index": v["index"],
            "kind": v["kind"], "message": v["message"], "detail": v["detail"],
            "scenario": v["scenario"], "before": v.get("before", []), "log": v["log"], "log_digest": v["log_digest"],
            "how": "python -m sim.runner replay <this file>  (cwd /verif)"}
    h = hashlib.sha256(json.dumps([body["before"], body["scenario"]], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(VERIF, "replays", f"{prop}-{re.sub('[^A-Za-z0-9]+', '-', v['kind'])[:40]}-{h}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def replay_once(path, hashseed="0", seconds=None):
    with open(path) as f:
        rp = json.load(f)
    d = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        out = os.path.join(d, "out.json")
        cmd = [PY, "-W", "ignore", "-m", "sim.shard", "--prop", rp["property"], "--seed",
               str(rp["seed"]), "--tier", rp["tier"], "--out", out,
               "--progress", os.path.join(d, "p"), "--replay", path]
        env = child_env(hashseed)
        env["TMPDIR"] = d
        try:
            p = subprocess.run(cmd, cwd=VERIF, env=env, capture_output=True, text=True,
                               timeout=seconds or HANG_SECONDS + 10 * len(rp.get("before", [])),
                               stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return {"violations": [{"kind": "no-progress", "message": "real-time hang",
                                    "log_digest": "", "detail": {}, "log": []}],
                    "errors": []}
        if not os.path.exists(out):
            return {"violations": [], "errors": [p.stderr[-2000:]]}
        with open(out) as f:
            return json.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = load_spec(prop)
    total = spec["RUNS"][tier]
    if os.environ.get("VERIF_RUNS"):
        total = int(os.environ["VERIF_RUNS"])
    seconds = spec.get("SECONDS", {}).get(tier, 240 if tier == "quick" else 6000)
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    findings = known_findings(prop)
    known = [k for e in findings for k in e.get("kinds", [])]

    if spec.get("SETUP"):
        # something the shards share, built once (e.g. a native module)
        subprocess.run(spec["SETUP"], shell=True, cwd=VERIF, env=child_env(), check=True,
                       stdout=subprocess.DEVNULL)
    shards = Shards(prop, seed, tier, nshards, total, seconds, known=known)
    try:
        shards.wait(seconds + 240)
        m = merge(shards.results)
        failures, hangs = list(shards.failures), list(shards.hangs)
    finally:
        shards.close()

    for k, cur, phase in hangs:
        if cur is None or phase == "setup":
            failures.append((k, "no progress during set-up", ""))
            continue
        sc = regenerate(prop, seed, tier, cur)
        m["violations"].append({
            "index": cur, "kind": "no-progress",
            "message": f"simulated run {cur} made no progress for {HANG_SECONDS} real seconds",
            "detail": {}, "scenario": sc, "log": [], "log_digest": "",
            "minimised_size": 0, "original_size": 0, "shrink_tries": 0})

    reported = []
    for v in m["violations"]:
        if v["kind"] in known:
            continue
        if v["kind"] in [r["kind"] for r, _ in reported]:
            continue
        path = write_replay(prop, seed, tier, v)
        reported.append((v, path))

    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": spec.get("LEVEL", "exploration"),
        "coverage": {
            "evaluations": m["runs"],
            "distinct_nontrivial": len(m["nontrivial"]),
            "rule": spec["RULE"],
            "samples": m["samples"],
            "simulated_runs_per_hour": int(m["runs"] / max(wall, 1e-6) * 3600),
            "seeds_per_hour": int(m["runs"] / max(wall, 1e-6) * 3600),
            "simulated_seconds_covered": round(m["simtime"], 3),
            "faults_injected_and_fired": dict(sorted(m["faults"].items())),
            "rare_conditions_hit": dict(sorted(m["probes"].items())),
            "distinct_states": len(m["states"]),
            "distinct_states_measure": spec.get("STATE_MEASURE", ""),
            "real_components": spec.get("REAL", []),
            "stubbed_components": spec.get("STUB", []),
            "planned_runs": total,
            "shards": nshards,
            "shards_stopped_by_time_cap": m["capped"],
            "runs_outside_the_model": m["unsupported"],
        },
        "assumptions": spec.get("ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if m["extra"]:
        evidence["coverage"]["extra"] = m["extra"]
    if m["known_hits"]:
        evidence["coverage"]["known_finding_hits"] = m["known_hits"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.replace(ev + ".tmp", ev)

    for e in findings:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    print(f"{prop}: seed={seed} tier={tier} runs={m['runs']}/{total} distinct={len(m['nontrivial'])} "
          f"states={len(m['states'])} faults={sum(m['faults'].values())} wall={wall:.1f}s")
    if reported:
        for v, path in reported:
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['kind']}: {v['message'][:1500]}")
            print(f"  index={v['index']} scenario={json.dumps(v['scenario'], sort_keys=True)[:1500]}")
        return 1
    bad = False
    for k, why, log in failures:
        bad = True
        print(f"HARNESS-ERROR shard {k}: {why}\n{log}", file=sys.stderr)
    for e in m["errors"][:3]:
        bad = True
        print(f"HARNESS-ERROR in run {e['index']}:\n{e['trace']}", file=sys.stderr)
    if m["unsupported"]:
        print(f"runs outside the model: {m['unsupported']} {m['unsupported_samples'][:3]}",
              file=sys.stderr)
        if m["unsupported"] > 0.5 * (m["runs"] + m["unsupported"]):
            bad = True
    if m["runs"] == 0:
        bad = True
    return 2 if bad else 0


def regenerate(prop, seed, tier, idx):
    code = ("import json,sys,importlib\n"
            "from sim import core,overlay\n"
            "overlay.install()\n"
            f"p=importlib.import_module('props.{prop.lower()}')\n"
            f"print('@@'+json.dumps(p.gen(core.Rng.for_run({seed},{prop!r},{idx}),{tier!r})))\n")
    r = subprocess.run([PY, "-W", "ignore", "-c", code], cwd=VERIF, env=child_env(),
                       capture_output=True, text=True, timeout=120)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    return None


def replay(path):
    r = replay_once(os.path.abspath(path))
    with open(path) as f:
        rp = json.load(f)
    for v in r["violations"]:
        print(f"VIOLATION property={rp['property']} replay={os.path.abspath(path)}")
        print(f"  {v['kind']}: {v['message'][:3000]}")
        for line in v["log"]:
            print("   |", line)
        same = v["log_digest"] == rp["log_digest"] and v["kind"] == rp["kind"]
        print("  reproduces the recorded run exactly" if same else "  differs from the recorded run")
        return 1
    for e in r["errors"]:
        print(e if isinstance(e, str) else e["trace"], file=sys.stderr)
    if r["errors"]:
        return 2
    print("no violation")
    return 0


def selfcheck(prop, n):
    """The same digests for 1 and 8 shards and under another PYTHONHASHSEED."""
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    runs = []
    for nsh, hs in ((8, "0"), (3, "0"), (8, "1234"), (5, "77")):
        s = Shards(prop, seed, "quick", nsh, n, 3000, hashseed=hs, digests=True)
        try:
            s.wait(3000, stop_on_violation=False)
            m = merge(s.results)
            for f in s.failures:
                print("failure", f)
            for e in m["errors"]:
                print(e["trace"])
            runs.append(m["digests"])
        finally:
            s.close()
    ok = True
    for r in runs[1:]:
        diff = [i for i in runs[0] if r.get(i) != runs[0][i]]
        if diff or len(r) != len(runs[0]):
            ok = False
            print(f"{prop}: NOT deterministic: {len(diff)} of {len(runs[0])} differ, e.g. {diff[:5]}")
    print(f"{prop}: {'deterministic' if ok else 'BROKEN'} over {len(runs[0])} runs x {len(runs)} configurations")
    return 0 if ok else 1


def main():
    cmd = sys.argv[1]
    if cmd == "check":
        try:
            rc = check(sys.argv[2].upper())
        except Exception:
            import traceback

            traceback.print_exc()
            rc = 2
        sys.exit(rc)
    if cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    if cmd == "selfcheck":
        sys.exit(selfcheck(sys.argv[2].upper(), int(sys.argv[3]) if len(sys.argv) > 3 else 400))
    sys.exit("unknown command")


if __name__ == "__main__":
    main()
