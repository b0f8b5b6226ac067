"""The generator of the lazy backend's sources, run again and again.

The script is real and so is torchgen; a scratch directory has copies of the
script's inputs (a part of PyTorch's operators, so that a run takes a fraction
of a second), a build directory, and the disk under it is the simulator's.
Every run is a process of its own: modules, caches and the order of sets are
new each time.
"""

import builtins
import functools
import hashlib
import importlib.util
import logging
import os
import re
import shutil
import subprocess
import sys
import types
import warnings

import yaml

import torchgen
import torchgen.api.lazy
import torchgen.dest.lazy_ir
import torchgen.gen
import torchgen.gen_backend_stubs
import torchgen.gen_lazy_tensor

from . import core, fs as simfs
from .core import InvalidScenario, SimUnsupported, Violation

HERE = os.path.realpath(torchgen.__path__[0])
GREP = shutil.which("grep")
LTC = "projects/ltc/csrc/base_lazy_backend"
SCRIPT = "build_tools/autogen_ltc_backend.py"
CONFIG = "build_tools/autogen_ltc_backend.yaml"
OPS_FILE = "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td"

POOL = (
    "add.Tensor sub.Tensor mul.Tensor relu tanh sigmoid abs mm bmm addmm cat stack gather index_select cumsum "
    "sum.dim_IntList mean.dim amax max.dim _softmax native_layer_norm native_batch_norm convolution avg_pool2d "
    "max_pool2d_with_indices upsample_nearest2d embedding where.self masked_fill.Scalar fill.Scalar bernoulli dot topk "
    "sort flip roll logical_and bitwise_not eq.Tensor lt.Scalar pow.Tensor_Scalar triu constant_pad_nd "
    "as_strided_copy expand_copy view_copy permute_copy select_copy.int slice_copy.Tensor t_copy native_dropout "
    "norm.ScalarOpt_dim elu leaky_relu isinf fmod.Tensor remainder.Scalar hardtanh nan_to_num im2col "
    "max_pool3d_with_indices mse_loss_backward var.correction bucketize.Tensor copy_ fill_.Scalar uniform_ reshape "
    "new_zeros zeros_like rsub.Scalar item not_an_operator isnan logical_xor logical_or"
).split()
# Their declarations have the same length.
TWINS = [("isinf", "isnan"), ("logical_and", "logical_xor")]
# Operators nobody else refers to, whose declaration another PyTorch may change
CHANGING = ["dot", "roll", "bucketize.Tensor", "norm.ScalarOpt_dim", "embedding", "stack"]


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


@functools.cache
def operators():
    """name -> text of the entry in native_functions.yaml"""
    out = {}
    for e in re.split(r"(?m)^(?=- func: )", read(os.path.join(HERE, "packaged/ATen/native/native_functions.yaml")))[1:]:
        out[re.match(r"- func: ([\w.]+)\(", e).group(1)] = e
    return out


def base(name):
    name = name.split(".")[0]
    return name if name.startswith("__") else name.rstrip("_")


@functools.cache
def config():
    return yaml.safe_load(read(os.path.join(core.REPO, CONFIG)))


@functools.cache
def known():
    c = config()
    need = {base(x) for k in ("supported", "additional_ops", "symint") for x in c.get(k) or []} | {base(x) for x in POOL}
    return {n: e for n, e in operators().items() if base(n) in need}


@functools.cache
def definitions():
    """The shape functions written by hand, one by one."""
    text = read(os.path.join(core.REPO, LTC, "shape_inference.cpp"))
    return re.findall(r"(?ms)^std::vector<torch::lazy::Shape>\s+compute_shape_.*?^}\n", text)


# ------------------------------------------------------------------- inputs


def start():
    return {
        "ops": list(range(0, len(POOL), 2)), "blacklist": [], "supported": 0, "symint": 0, "whitelist": [], "changed": [],
        "gone": [], "defs": [0, 1, 2], "kernels": 0, "upstream": [], "script": 0, "gen_lazy": 0, "lazy_ir": 0, "model": 0,
        "template": 0, "tags": 0, "all_defined": 0,
    }


def texts(st):
    """path -> contents, for a state of the inputs."""
    c = dict(config())
    ops = [POOL[i % len(POOL)] for i in st["ops"]]
    out = {}
    out[OPS_FILE] = "".join(f'  let summary = "Generated op for `aten::{o} : (Tensor) -> (Tensor)`";\n' for o in ops)
    c["blacklist"] = list(c.get("blacklist") or []) + [POOL[i % len(POOL)] for i in st["blacklist"]]
    c["whitelist"] = [POOL[i % len(POOL)] for i in st["whitelist"]]
    sup = list(c["supported"])
    for _ in range(st["supported"] % 4):
        sup.pop()
    c["supported"] = sup
    c["symint"] = list(c["symint"])[: len(c["symint"]) - st["symint"] % 3]
    out[CONFIG] = yaml.dump(c, default_flow_style=False)
    changed = {CHANGING[i % len(CHANGING)] for i in st["changed"]}
    gone = {POOL[i % len(POOL)] for i in st["gone"]} & set(CHANGING)
    entries = []
    for n, e in known().items():
        if n in gone or n.replace(".", "_out.") in gone:
            continue
        if n in changed:
            e = re.sub(r"\) ->", ", int extra_size=1) ->" if "*" in e.split("\n")[0] else ", *, int extra_size=1) ->", e, count=1)
        entries.append(e)
    out["tg/packaged/ATen/native/native_functions.yaml"] = "".join(entries)
    out["tg/packaged/ATen/native/tags.yaml"] = read(os.path.join(HERE, "packaged/ATen/native/tags.yaml")) + "# more\n" * st["tags"]
    text = read(os.path.join(core.REPO, LTC, "shape_inference.cpp"))
    ds = definitions()
    head = text[: text.index(ds[0])] if ds else ""
    body = "\n".join(ds[i % len(ds)] for i in dict.fromkeys(st["defs"])) if ds else ""
    out[f"{LTC}/shape_inference.cpp"] = head + body + "\n} // namespace lazy\n} // namespace torch\n"
    k = read(os.path.join(core.REPO, LTC, "mlir_native_functions.cpp"))
    if st["kernels"] % 3 == 1:
        k = re.sub(r"LazyNativeFunctions::clone\b", "LazyNativeFunctions::clown", k)
    elif st["kernels"] % 3 == 2:
        k += "\n// nothing new\n"
    out[f"{LTC}/mlir_native_functions.cpp"] = k
    out[f"{LTC}/mlir_node.h"] = "#pragma once\n"
    inc = read(os.path.join(os.path.dirname(HERE), "torch/include/torch/csrc/lazy/core/shape_inference.h"))
    for i in st["upstream"]:
        # no longer, or only now, in PyTorch
        lines = [m for m in re.finditer(r"(?m)^TORCH_API std::vector<torch::lazy::Shape>\s+(\w+)\([^)]*\);\n", inc)]
        if lines:
            m = lines[i % len(lines)]
            inc = inc[: m.start()] + inc[m.end():]
    out["torch/include/torch/csrc/lazy/core/shape_inference.h"] = inc
    s = read(os.path.join(core.REPO, SCRIPT))
    if st["script"]:
        s = s.replace("PRINT_FUNCTION();", f"PRINT_FUNCTION(); /* {st['script']} */") + f"\n# version {st['script']}\n"
    out[SCRIPT] = s
    for key, f in (("gen_lazy", "gen_lazy_tensor.py"), ("lazy_ir", "dest/lazy_ir.py"), ("model", "model.py")):
        out[f"tg/{f}"] = read(os.path.join(HERE, f)) + f"# version {st[key]}\n" * bool(st[key])
    for f in ("api/lazy.py", "gen_backend_stubs.py", "gen.py"):
        out[f"tg/{f}"] = read(os.path.join(HERE, f))
    tdir = os.path.join(HERE, "packaged/ATen/templates")
    for f in ("LazyIr.h", "LazyNonNativeIr.h", "DispatchKeyNativeFunctions.h", "DispatchKeyNativeFunctions.cpp",
              "RegisterDispatchKey.cpp", "RegisterDispatchDefinitions.ini"):
        t = read(os.path.join(tdir, f))
        if st["template"] and f == "LazyIr.h":
            t += f"// version {st['template']}\n"
        out[f"tg/packaged/ATen/templates/{f}"] = t
    return out


class Mixed(set):
    """A set whose order is the process's own, as PYTHONHASHSEED makes it."""

    salt = 0

    def __iter__(self):
        return iter(sorted(super().__iter__(), key=lambda x: hashlib.md5(f"{Mixed.salt}{x!r}".encode()).digest()))

    def _op(name):
        def f(self, *a):
            r = getattr(set, name)(self, *a)
            return Mixed(r) if type(r) is set else r

        return f

    for _n in ("__and__", "__or__", "__sub__", "__xor__", "__rand__", "__ror__", "__rsub__", "copy", "union", "difference", "intersection"):
        locals()[_n] = _op(_n)
    del _n, _op


# -------------------------------------------------------------------- world


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.fs = simfs.SimFS(run, faults=(), chunk=sc.get("chunk", 4096), tmp=False)
        self.fs.observe = lambda: None
        self.root = self.fs.root
        self.build = os.path.join(self.root, "build")
        os.mkdir(self.build)
        self.bin = os.path.join(self.root, "bin")
        os.mkdir(self.bin)
        self.st = start()
        self.clean_cache = {}
        self.on_disk = {}
        self.completed = 0

    def sync(self):
        """Writes the inputs as they are now."""
        for path, text in texts(self.st).items():
            if self.on_disk.get(path) == text:
                continue
            self.on_disk[path] = text
            p = os.path.join(self.root, path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)

    def tools(self, how, broken=None):
        for exe in ("rg", "grep"):
            p = os.path.join(self.bin, exe)
            if os.path.exists(p):
                os.unlink(p)
        if how == "rg":
            self.tool(
                "rg",
                "p=; f=\nfor a; do case $a in -*) ;; *) if [ -z \"$p\" ]; then p=$a; else f=$a; fi;; esac; done\n",
                f'{GREP} -oE -- "$p" "$f"', broken,
            )
        else:
            self.tool("grep", "", f'{GREP} "$@"', broken)

    def tool(self, exe, before, command, broken):
        p = os.path.join(self.bin, exe)
        with open(p, "w") as f:
            f.write("#!/bin/sh\n" + before)
            if broken == "half":
                f.write(f"{command} | head -n 3\nkill -9 $$\n")
            elif broken == "none":
                f.write("echo out of memory >&2; exit 2\n")
            else:
                f.write(f"exec {command}\n")
        os.chmod(p, 0o755)

    def process(self, force, salt):
        """One run of the script.  Returns None or how it ended."""
        script = os.path.join(self.root, SCRIPT)
        mod = types.ModuleType("__main__")
        mod.__file__ = script
        Mixed.salt = salt
        mod.set = Mixed
        code = compile(read(script), script, "exec", dont_inherit=True)
        keep = {
            "main": sys.modules["__main__"], "argv": sys.argv, "path": list(torchgen.__path__), "env": dict(os.environ),
            "find": importlib.util.find_spec, "fallback": torchgen.dest.lazy_ir.gen_fallback_code,
            "value": torchgen.api.lazy._valueT, "out": (sys.stdout, sys.stderr), "helpers": torchgen.gen_lazy_tensor.get_ltc_helper_fns,
            "shape": torchgen.dest.lazy_ir.GenLazyShapeInferenceDefinition.__call__,
            "handlers": list(logging.root.handlers), "level": logging.root.level, "cwd": os.getcwd(),
        }

        def find_spec(name, package=None):
            if name == "torch":
                return types.SimpleNamespace(origin=os.path.join(self.root, "torch", "__init__.py"))
            return keep["find"](name, package)

        for m in [m for n, m in sys.modules.items() if n.partition(".")[0] == "torchgen"]:
            for f in list(vars(m).values()):
                if hasattr(f, "cache_clear"):
                    f.cache_clear()
        torchgen.gen._GLOBAL_PARSE_NATIVE_YAML_CACHE.clear()
        torchgen.gen._GLOBAL_PARSE_TAGS_YAML_CACHE.clear()
        torchgen.api.lazy._valueT = None
        if self.st["gen_lazy"]:
            torchgen.gen_lazy_tensor.get_ltc_helper_fns = lambda: keep["helpers"]() + f"// version {self.st['gen_lazy']}\n"
        if self.st["lazy_ir"]:
            v = self.st["lazy_ir"]
            torchgen.dest.lazy_ir.GenLazyShapeInferenceDefinition.__call__ = lambda s, f: [
                x + f" // version {v}" for x in keep["shape"](s, f)
            ]
        sink = open(os.devnull, "w")
        try:
            torchgen.__path__[:] = [os.path.join(self.root, "tg")] + keep["path"]
            importlib.util.find_spec = find_spec
            sys.modules["__main__"] = mod
            sys.argv = [script, "-b", self.build] + (["-f"] if force else [])
            os.environ["PATH"] = self.bin + os.pathsep + os.environ.get("PATH", "/usr/bin:/bin")
            os.environ.pop("TORCH_MLIR_BINARY_DIR", None)
            sys.stdout = sys.stderr = sink
            os.chdir(self.root)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.fs.ops = 0
                self.fs.crashed = False
                with self.fs:
                    try:
                        exec(code, mod.__dict__)
                    except SystemExit as e:
                        if e.code not in (None, 0):
                            return f"exit {e.code}"
                    except simfs.Crash:
                        return "died"
                    except (Exception, KeyboardInterrupt) as e:
                        if isinstance(e, (Violation, InvalidScenario)):
                            raise
                        return f"{type(e).__name__}: {str(e)[:200]}"
            return None
        finally:
            sys.stdout, sys.stderr = keep["out"]
            sink.close()
            torchgen.__path__[:] = keep["path"]
            importlib.util.find_spec = keep["find"]
            sys.modules["__main__"] = keep["main"]
            sys.argv = keep["argv"]
            os.environ.clear()
            os.environ.update(keep["env"])
            torchgen.dest.lazy_ir.gen_fallback_code = keep["fallback"]
            torchgen.api.lazy._valueT = keep["value"]
            torchgen.gen_lazy_tensor.get_ltc_helper_fns = keep["helpers"]
            torchgen.dest.lazy_ir.GenLazyShapeInferenceDefinition.__call__ = keep["shape"]
            logging.root.handlers[:] = keep["handlers"]
            logging.root.setLevel(keep["level"])
            os.chdir(keep["cwd"])

    def files(self):
        out = {}
        top = os.path.join(self.build, LTC, "generated")
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                out[os.path.relpath(p, self.build)] = read(p).replace(self.root, "<root>")
        y = os.path.join(self.build, "generated_native_functions.yaml")
        if os.path.exists(y):
            out["generated_native_functions.yaml"] = read(y)
        return out

    def clean(self):
        """What a first run in an empty build directory makes of the inputs."""
        key = repr(sorted(self.st.items()))
        if key not in self.clean_cache:
            keep, self.fs.faults = self.fs.faults, []
            aside = self.build + ".aside"
            os.rename(self.build, aside)
            link = os.path.join(self.root, LTC, "generated")
            had = os.readlink(link) if os.path.islink(link) else None
            os.mkdir(self.build)
            log, ops = list(self.run.log_lines), self.fs.ops
            try:
                self.tools("grep")
                err = self.process(True, 0)
                self.clean_cache[key] = (err, self.files())
            finally:
                self.run.log_lines[:] = log
                shutil.rmtree(self.build)
                os.rename(aside, self.build)
                self.fs.faults, self.fs.ops = keep, ops
                if os.path.islink(link):
                    os.unlink(link)
                if had is not None:
                    os.symlink(had, link)
        return self.clean_cache[key]

    # -- operations

    def edit(self, what, value):
        if what not in self.st or isinstance(self.st[what], list) != isinstance(value, list):
            raise InvalidScenario(what)
        self.st = dict(self.st, **{what: value})
        self.run.log("edit", what, value)

    def remove(self, which):
        names = sorted(self.files())
        if names:
            f = names[which % len(names)]
            os.unlink(os.path.join(self.build, f))
            self.run.log("removed", f)
            self.run.fault("generated file removed")

    def generate(self, force, salt, exe, fault):
        self.sync()
        want_err, want = self.clean()
        self.sync()
        broken = None
        self.fs.faults = []
        if fault:
            if fault["kind"] in ("half", "none"):
                broken = fault["kind"]
            else:
                self.fs.faults = [[fault["at"], fault["kind"]] + ([True] if fault.get("stays") else [])]
        self.tools(exe, broken)
        before = sum(self.run.faults.values())
        err = self.process(force, salt)
        fired = sum(self.run.faults.values()) > before
        if broken and err:
            self.run.fault("search tool fails")
            fired = True
        self.run.steps += self.fs.ops
        self.run.log("run", "forced" if force else "", exe, "->", err.split(":")[0] if err else "done", self.fs.ops)
        if err is not None:
            if fired:
                return
            if want_err is None:
                raise Violation("run-failed", f"the run failed with {err}; one from scratch succeeds")
            return
        if want_err is not None:
            raise Violation("stale-success", f"the run succeeded; one from scratch fails with {want_err}")
        got = self.files()
        for f in sorted(set(got) | set(want)):
            if got.get(f) != want.get(f):
                raise Violation(
                    "stale-output",
                    f"after a run that succeeded, {f} is not what a run from scratch makes: {difference(got.get(f), want.get(f))}",
                )
        link = os.path.join(self.root, LTC, "generated")
        if os.path.realpath(link) != os.path.realpath(os.path.join(self.build, LTC, "generated")):
            raise Violation("wrong-link", "the link in the source tree does not lead to the generated sources")
        if not os.path.exists(os.path.join(self.build, "generated_backend.hash")):
            raise Violation("stale-output", "the run left no generated_backend.hash for the build system")
        self.completed += 1
        if self.completed > 1:
            self.run.nontrivial = True
        self.run.probe("runs completed")
        self.run.state(sorted((k, str(v)) for k, v in self.st.items()))

    def play(self):
        try:
            for op in self.sc["ops"]:
                if op[0] == "edit":
                    self.edit(op[1], op[2])
                elif op[0] == "remove":
                    self.remove(op[1])
                elif op[0] == "run":
                    self.generate(*op[1:])
                else:
                    raise InvalidScenario(str(op))
        finally:
            self.fs.destroy()


def difference(a, b):
    if a is None or b is None:
        return "it is missing" if a is None else "it is left over"
    la, lb = a.splitlines(), b.splitlines()
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "<end>"
        y = lb[i] if i < len(lb) else "<end>"
        if x != y:
            return f"line {i + 1} is {x.strip()[:100]!r} instead of {y.strip()[:100]!r}"
    return "it ends differently"
