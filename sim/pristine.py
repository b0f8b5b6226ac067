"""Runs of scenarios in processes nothing has run in yet.

What the code under test keeps between runs (module-level caches, counters of
PyTorch) is part of a history.  A violation is therefore looked at again, made
smaller, and recorded, in children of a process forked before the first run;
one that needs earlier runs is recorded together with them.
"""

import json
import os
import select
import signal
import sys
import time


def outcome(core, prop, scenarios):
    """What the last of some scenarios, run in order in this process, does."""
    run = v = None
    for k, sc in enumerate(scenarios):
        last = k == len(scenarios) - 1
        try:
            run, v = core.run_scenario(prop, sc)
        except (core.SimUnsupported, Exception):
            if last:
                return None
    if v is None:
        return None
    return {
        "kind": v.kind,
        "message": v.message,
        "detail": {k: str(x)[:3000] for k, x in v.detail.items()},
        "log": run.log_lines[-200:],
        "log_digest": run.digest(),
    }


class Pristine:
    LIMIT = 100  # real seconds for one request

    def __init__(self, prop):
        rd, self._to = os.pipe()
        self._from, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self._to)
                os.close(self._from)
                self._serve(prop, rd, wr)
            finally:
                os._exit(0)
        os.close(rd)
        os.close(wr)

    @staticmethod
    def _read(fd, n):
        data = b""
        while len(data) < n:
            part = os.read(fd, n - len(data))
            if not part:
                return None
            data += part
        return data

    @classmethod
    def _recv(cls, fd):
        head = cls._read(fd, 8)
        if head is None:
            return None
        body = cls._read(fd, int.from_bytes(head, "big"))
        return None if body is None else json.loads(body)

    @staticmethod
    def _send(fd, obj):
        data = json.dumps(obj).encode()
        data = len(data).to_bytes(8, "big") + data
        while data:
            data = data[os.write(fd, data):]

    def _serve(self, prop, rd, wr):
        from . import core

        while True:
            req = self._recv(rd)
            if req is None:
                return
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    self._send(w, outcome(core, prop, req))
                finally:
                    os._exit(0)
            os.close(w)
            ans = None
            if select.select([r], [], [], self.LIMIT)[0]:
                ans = self._recv(r)
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            self._send(wr, ans)

    def run(self, scenarios):
        self._send(self._to, scenarios)
        return self._recv(self._from)


def reduce(core, prop, pristine, history, scenario, kind, seconds, tick):
    """(earlier scenarios, scenario, outcome, tries): smallest found.

    ``history`` lists what ran before the scenario in the process that saw it.
    None for the outcome when the violation never came back.
    """
    t_end = time.time() + seconds

    def over():
        tick()
        return time.time() > t_end

    def same(before, sc):
        tick()
        r = pristine.run(before + [sc])
        return r if r is not None and r["kind"] == kind else None

    tries = 1
    before = []
    r = same([], scenario)
    if r is None and history:
        # as few of the runs right before it as bring it back
        n = 1
        t_hist = time.time() + seconds
        while r is None and time.time() < t_hist:
            before = history[-n:]
            tries += 1
            r = same(before, scenario)
            if n >= len(history):
                break
            n *= 4
        if r is None:
            return [], scenario, None, tries
        k = max(1, len(before) // 2)
        t_hist = time.time() + seconds
        while time.time() < t_hist:
            i = 0
            while i < len(before) and time.time() < t_hist:
                cand = before[:i] + before[i + k:]
                tries += 1
                r2 = same(cand, scenario)
                if r2 is not None:
                    before, r = cand, r2
                else:
                    i += k
            if k == 1:
                break
            k //= 2
        t_end = time.time() + seconds
    if r is None:
        return [], scenario, None, tries
    best, n = core.shrink(scenario_fails(same, before), prop, scenario, over)
    r = same(before, best) or r
    return before, best, r, tries + n


def scenario_fails(same, before):
    return lambda cand: same(before, cand) is not None
