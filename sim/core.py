"""Core vocabulary of the simulator: runs, violations, random choices, shrinking.

One integer decides a run: ``Rng.for_run(seed, prop, index)`` yields the only
source of random choices of ``prop.gen``; ``gen`` writes every choice down in a
JSON scenario, and ``execute(scenario)`` is a pure function of that scenario and
of the code under test.  The scenario *is* the replay file.
"""

import copy
import hashlib
import json
import os
import random
import re
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message, **detail):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message
        self.detail = detail


class SimUnsupported(BaseException):
    """The code under test asked the simulator for something it does not model.

    Not a verdict.  A BaseException so that no handler of the code under test
    turns it into one.
    """


class InvalidScenario(Exception):
    """A (shrunk) scenario that means nothing."""


class Rng(random.Random):
    @classmethod
    def for_run(cls, seed, prop, index):
        h = hashlib.sha256(f"{seed}:{prop}:{index}".encode()).digest()
        return cls(int.from_bytes(h[:8], "big"))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.random() < p]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


class Run:
    """What one simulated run records about itself."""

    MAX_LOG = 4000

    def __init__(self):
        self.log_lines = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.nontrivial = False
        self.steps = 0
        self.deaths = []  # exit codes of simulated processes, in order

    def log(self, *parts):
        if len(self.log_lines) < self.MAX_LOG:
            self.log_lines.append(" ".join(str(p) for p in parts))

    def fault(self, kind, n=1):
        """A fault of this kind actually happened."""
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
        self.states.add(h)

    def digest(self):
        h = hashlib.blake2b(digest_size=12)
        for line in self.log_lines:
            h.update(line.encode("utf-8", "replace") + b"\n")
        return h.hexdigest()


def through_repo(tb):
    """Whether a traceback passes through the code under test."""
    repo = os.path.realpath(REPO) + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(repo):
            return True
    return False


def innermost_repo_frame(tb):
    repo = os.path.realpath(REPO) + os.sep
    last = None
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(repo):
            last = f"{os.path.basename(fr.filename)}:{fr.name}"
    return last


def unmangled(text):
    """Without the numbers PyTorch gives to classes as it first sees them."""
    return re.sub(r"___torch_mangle_\d+\.", "", text)


def run_scenario(prop, scenario):
    """Execute once.  Returns (run, violation or None).

    Raises only for errors of the harness itself (and SimUnsupported).
    """
    run = Run()
    scenario = json.loads(json.dumps(scenario))
    out, err = sys.stdout, sys.stderr
    violation = None
    try:
        prop.execute(scenario, run)
    except Violation as v:
        violation = v
    except (InvalidScenario, SimUnsupported):
        raise
    except Exception as e:
        if through_repo(e.__traceback__):
            where = innermost_repo_frame(e.__traceback__)
            violation = Violation(
                "unexpected-exception",
                f"{type(e).__name__} escaped from {where}: {unmangled(str(e))[:400]}",
                traceback=traceback.format_exc()[-3000:],
            )
        else:
            raise
    finally:
        sys.stdout, sys.stderr = out, err
        sys.settrace(None)
    if violation is not None:
        # Recorded defects of the code under test are identified by their cause
        # too, so that the same symptom from another cause is still reported.
        if hasattr(prop, "cause"):
            tag = prop.cause(scenario, violation, run)
            if tag:
                violation.kind += "/" + tag
        run.log("VIOLATION", violation.kind)
    return run, violation


# ---------------------------------------------------------------- shrinking


def _paths(node, path=()):
    """Every list inside the scenario, outermost first."""
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _paths(node[k], path + (k,))
    elif isinstance(node, list):
        yield path, node
        for i, v in enumerate(node):
            yield from _paths(v, path + (i,))


def _leaves(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _leaves(node[k], path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from _leaves(v, path + (i,))
    else:
        yield path, node


def _get(root, path):
    for p in path:
        root = root[p]
    return root


def _set(root, path, value):
    for p in path[:-1]:
        root = root[p]
    root[path[-1]] = value


def size(sc):
    return len(json.dumps(sc, sort_keys=True))


def shrink(still_fails, prop, scenario, budget):
    """Greedy delta debugging over the scenario: the same violation class stays."""
    tries = 0

    def fails(cand):
        nonlocal tries
        tries += 1
        return still_fails(cand)

    best = copy.deepcopy(scenario)
    keep = set(getattr(prop, "SHRINK_KEEP", ()))
    changed = True
    while changed and not budget():
        changed = False
        # 1. drop list elements (chunks first)
        for path, lst in list(_paths(best)):
            if any(p in keep for p in path if isinstance(p, str)):
                continue
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            n = max(1, len(cur) // 2)
            while n >= 1 and not budget():
                i = 0
                while i < len(cur) and not budget():
                    cand = copy.deepcopy(best)
                    del _get(cand, path)[i : i + n]
                    if fails(cand):
                        best = cand
                        cur = _get(best, path)
                        changed = True
                    else:
                        i += n
                n //= 2
        # 2. simplify leaves
        for path, val in list(_leaves(best)):
            if budget():
                break
            if any(p in keep for p in path if isinstance(p, str)):
                continue
            try:
                val = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(val, bool):
                cands = [False] if val else []
            elif isinstance(val, int):
                cands = [c for c in (0, 1, val // 2, val - 1) if 0 <= c < val]
            elif isinstance(val, float):
                cands = [c for c in (0.0, 1.0, float(int(val))) if c != val and c < val]
            elif val is not None and isinstance(val, dict):
                cands = [None]
            else:
                cands = []
            for c in cands:
                cand = copy.deepcopy(best)
                _set(cand, path, c)
                if fails(cand):
                    best = cand
                    changed = True
                    break
        # 3. null out optional sub-objects
        for key in getattr(prop, "SHRINK_NULL", ()):
            for path, _ in list(_paths({"r": best})):
                pass
            stack = [()]
            while stack:
                p = stack.pop()
                node = _get(best, p)
                if isinstance(node, dict):
                    if node.get(key) is not None:
                        cand = copy.deepcopy(best)
                        _get(cand, p)[key] = None
                        if fails(cand):
                            best = cand
                            changed = True
                    for k in list(_get(best, p)):
                        if isinstance(_get(best, p)[k], (dict, list)):
                            stack.append(p + (k,))
                elif isinstance(node, list):
                    for i in range(len(node)):
                        if isinstance(node[i], (dict, list)):
                            stack.append(p + (i,))
    return best, tries
