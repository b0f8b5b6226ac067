"""Writes properties.jsonl and MANIFEST.json from the tables below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FW = "projects/pt1/python/torch_mlir_e2e_test/framework.py"
RP = "projects/pt1/python/torch_mlir_e2e_test/reporting.py"
RG = "projects/pt1/python/torch_mlir_e2e_test/registry.py"
MN = "projects/pt1/e2e_testing/main.py"
FX = "python/torch_mlir/extras/fx_importer.py"
FD = "python/torch_mlir/extras/fx_decomp_util.py"

CU = "python/torch_mlir/compiler_utils.py"
FE = "python/torch_mlir/fx.py"
TS = "projects/pt1/python/torch_mlir/torchscript.py"
LG = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py"
OX = "python/torch_mlir/extras/onnx_importer.py"
OT = "python/torch_mlir/tools/import_onnx/__main__.py"

P = []
CHECKS = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), check=None, na=None, hook=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]},
    }
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)
    if check:
        CHECKS.append({
            "property": id,
            "quick_cmd": f"./check {id}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {id}",
            "technique": check[0],
            "level": "exploration",
            "level_note": check[1],
        })
    else:
        NA.append({"property": id, "reason": na})


exec(open(os.path.join(HERE, "tools", "props_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": CHECKS,
    "not_applicable": NA,
    "notes": "Every check runs the simulator in /verif/sim on code imported straight from /repo's working tree; nothing is "
    "built and nothing in /repo is instrumented (no hooks).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
