"""Reads op names and type constraints out of the repository's ODS files."""

import os
import re

_DEF = re.compile(r'^def Torch_(\w+)\s*:\s*Torch_Op<\s*"([^"]+)"', re.M)
_ARG = re.compile(r"([A-Za-z_][\w<>:, ]*?)\s*:\s*\$(\w+)")


def _section(body, what, marker):
    m = re.search(rf"let {what}\s*=\s*\({marker}(.*?)\);", body, re.S)
    if not m:
        return None
    out = []
    for line in m.group(1).split(",\n"):
        line = re.sub(r"//.*", "", line).strip().rstrip(",")
        if not line:
            continue
        mm = re.match(r"(.+?):\s*\$(\w+)$", line, re.S)
        if not mm:
            return "?"
        out.append((" ".join(mm.group(1).split()), mm.group(2)))
    return out


def classes(repo):
    """Names of the op classes the bindings generator makes."""
    d = os.path.join(repo, "include/torch-mlir/Dialect/Torch/IR")
    out = []
    for fn in ("TorchOps.td", "GeneratedTorchOps.td"):
        with open(os.path.join(d, fn)) as f:
            out += [m.group(1).replace("_", "") for m in _DEF.finditer(f.read())]
    return out


def load(repo):
    d = os.path.join(repo, "include/torch-mlir/Dialect/Torch/IR")
    reg = {}
    for fn in ("TorchOps.td", "GeneratedTorchOps.td"):
        with open(os.path.join(d, fn)) as f:
            text = f.read()
        hits = list(_DEF.finditer(text))
        for i, m in enumerate(hits):
            body = text[m.start() : hits[i + 1].start() if i + 1 < len(hits) else None]
            ins = _section(body, "arguments", "ins")
            outs = _section(body, "results", "outs")
            reg["torch." + m.group(2)] = (
                ins if ins is not None else [],
                outs if outs is not None else [],
                fn == "GeneratedTorchOps.td",
            )
    return reg
