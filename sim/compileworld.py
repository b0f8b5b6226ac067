"""Simulated processes whose threads compile programs at the same time.

The Python of the compile path is real: torchscript.compile, fx.export_and_import,
fx.stateless_fx_import, run_pipeline_with_repro_report, lower_mlir_module, the
FX importer.  Native code (TorchScript importer, passes) is scripted: it records
what it is told, changes the module, reads the extra library, writes diagnostics
to sys.stderr piece by piece and fails where the scenario says.
"""

import gc
import os
import re
import sys
import types

import torch

from . import coop, core, extlib, fs as simfs, fxprog
from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir

mlir.install()
coop.overlay.TRANSFORM = coop.instrument
mlir.REGISTERED = frozenset(extlib.OPS)
torch.set_num_threads(1)

IMPORTS = ["torch_mlir.compiler_utils", "torch_mlir.fx", "torch_mlir.torchscript"]
DIAG = re.compile(r"diag<[^>]*>")
KINDS = ("ts", "fx", "gm", "pipe", "lower")


class Injected(Exception):
    """A failure the simulator caused."""


class InjectedError(mlir.MLIRError, Injected):
    pass


class InjectedOom(MemoryError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    sim_expected = True


# --------------------------------------------------------------------- models


class _Mul(torch.nn.Module):
    def forward(self, x):
        return x * 2


class _Two(torch.nn.Module):
    def forward(self, x, y):
        return x + y

    @torch.jit.export
    def other(self, x):
        return x - 1


class _Three(torch.nn.Module):
    def forward(self, x, y):
        return x + y

    def other(self, x):
        return x - 1


class Colliding:
    """Two models of one name."""

    class A(torch.nn.Module):
        def forward(self, x):
            return torch.tanh(x)

    class B(torch.nn.Module):
        def forward(self, x, y):
            return torch.relu(x) + y


Colliding.B.__name__ = "A"

_state = {}


def ts_models():
    if "ts" not in _state:
        _state["ts"] = [
            ("_Mul", torch.jit.script(_Mul()), {"forward": [[2, 3]]}),
            ("_Two", torch.jit.script(_Two()), {"forward": [[2, 3], [2, -1]], "other": [[4]]}),
            ("A", torch.jit.script(Colliding.A()), {"forward": [[-1, 3]]}),
            ("A", torch.jit.script(Colliding.B()), {"forward": [[3], [3]]}),
            # converted inside compile()
            ("_Mul", _Mul, {"forward": [[5]]}),
            ("_Three", _Three, {"forward": [[2], [2]], "other": [[1, 1]]}),
        ]
    return _state["ts"]


def own_model(proc, model):
    """The process's own instance of the model; its class is the process's own too."""
    if isinstance(model, torch.nn.Module):
        return model
    if model not in proc.models:
        d = {k: types.FunctionType(v.__code__, v.__globals__, k) if isinstance(v, types.FunctionType) else v
             for k, v in vars(model).items() if k not in ("__dict__", "__weakref__")}
        proc.models[model] = type(model.__name__, model.__bases__, d)()
    return proc.models[model]


N_TS = 6
N_FX = 6


def fx_programs():
    """Programs by slot, and the IR each one has when imported alone."""
    if "fx" not in _state:
        progs = []
        i = 0
        while len(progs) < N_FX:
            rng = core.Rng.for_run(7, "compile-pool", i)
            i += 1
            spec = fxprog.gen_spec(rng, size=rng.randint(2, 5))
            progs.append(fxprog.build(spec))
        _state["fx"] = progs
        p = coop.Proc(900, IMPORTS)
        saved = coop.overlay.detach_target_modules()
        coop.overlay.attach_target_modules(p.mods)
        try:
            _state["alone"] = {}
            for n, prog in enumerate(progs):
                _state["alone"]["fx", n] = body(p["torch_mlir.fx"].export_and_import(prog.ep, decomposition_table={}))
                _state["alone"]["gm", n] = body(p["torch_mlir.fx"].stateless_fx_import(prog.ep.graph_module))
        finally:
            coop.overlay.attach_target_modules(saved)
    return _state["fx"]


def body(module):
    """The module's contents, without what the passes left on it."""
    from .fxworld import func_digest

    op = module.operation
    return [func_digest(o) for o in op.regions[0].blocks[0].operations]


def setup():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    fx_programs()
    ts_models()
    mlir.get_registered_ops()
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------------ pipelines


def parse_pipeline(text):
    """'builtin.module(a, f(b{x=y}))' -> ('builtin.module', [...]) with options as dicts."""
    i = 0

    def fail():
        raise mlir.MLIRError(f"cannot parse pass pipeline {text!r} at {i}")

    def ws():
        nonlocal i
        while i < len(text) and text[i].isspace():
            i += 1

    def items():
        nonlocal i
        out = []
        while True:
            ws()
            j = i
            while i < len(text) and (text[i].isalnum() or text[i] in "-._"):
                i += 1
            name = text[j:i]
            if not name:
                fail()
            opts, sub = {}, None
            ws()
            if i < len(text) and text[i] == "{":
                j = text.find("}", i)
                if j < 0:
                    fail()
                for part in text[i + 1 : j].split():
                    k, eq, v = part.partition("=")
                    if k in opts or not k:
                        fail()
                    opts[k] = v
                i = j + 1
            elif i < len(text) and text[i] == "(":
                i += 1
                sub = items()
                if i >= len(text) or text[i] != ")":
                    fail()
                i += 1
            out.append((name, sub if sub is not None else options(name, opts)))
            ws()
            if i < len(text) and text[i] == ",":
                i += 1
                continue
            return out

    tree = items()
    if i != len(text) or len(tree) != 1 or not isinstance(tree[0][1], list):
        fail()
    return tree[0]


KNOWN_OPTIONS = {
    "torchscript-module-to-torch-backend-pipeline": {"backend-legal-ops", "extra-library"},
    "torchdynamo-export-to-torch-backend-pipeline": {"backend-legal-ops", "extra-library"},
    "torch-backend-to-linalg-on-tensors-backend-pipeline": {"allow-non-finites"},
    "torch-backend-to-stablehlo-backend-pipeline": {"allow-non-finites"},
    "torch-backend-to-tosa-backend-pipeline": set(),
    "torch-match-quantized-custom-ops": set(),
    "canonicalize": set(),
    "sim-pass": {"a"},
}


def options(name, opts):
    if name not in KNOWN_OPTIONS:
        raise mlir.MLIRError(f"'{name}' does not refer to a registered pass or pass pipeline")
    out = {}
    for k, v in opts.items():
        if k not in KNOWN_OPTIONS[name]:
            raise mlir.MLIRError(f"<Pass-Options-Parser>: no such option {k}")
        if k == "allow-non-finites":
            if v.lower() not in ("true", "false", "1", "0"):
                raise mlir.MLIRError(f"'{v}' is invalid value for boolean argument")
            v = v.lower() in ("true", "1")
            if v:
                continue  # the default
        elif k == "backend-legal-ops":
            v = tuple(sorted(set(x for x in v.split(",") if x)))
            if not v:
                continue
        elif v == "":
            continue
        out[k] = v
    return out


def passes(tree):
    for name, sub in tree[1]:
        if isinstance(sub, list):
            yield from passes((name, sub))
        else:
            yield name, sub


# ---------------------------------------------------------------------- world


class Record:
    """What one compile did and had done to it."""

    def __init__(self, task, n, op):
        self.task, self.n, self.op = task, n, op
        self.tag = f"{task.name}.{n}"
        self.fault = dict(op.get("fault") or {})
        self.count = {}
        self.fired = None  # (phase, exception)
        self.phase = "start"
        self.stages = []  # pipelines in the order they were run
        self.raw = []
        self.diags = []  # of the current phase
        self.asm = {}  # texts of the module, by state
        self.libs = []  # (path, content) read by the passes
        self.lib_texts = []
        self.result = None
        self.error = None
        self.module = None
        self.annotations = None
        self.started = self.ended = None
        self.libmod = None
        self.traced = None


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        tasks = sc.get("tasks") or []
        if not tasks:
            raise InvalidScenario("no tasks")
        self.sched = coop.Scheduler(run, sc.get("plan"), fine=bool(sc.get("fine")))
        f = sc.get("fs") or {}
        self.fs = simfs.SimFS(run, self.sched, f.get("faults") or (), f.get("chunk", 64))
        self.fs.match = lambda what, path: True
        self.procs = []
        self.recs = []
        self.now = {}  # task -> record
        self.active = {}
        self.clock = 0
        for i in range(max(t["proc"] for t in tasks) + 1):
            p = coop.Proc(4000 + i, IMPORTS)
            p.cu = []
            self.procs.append(p)
            self.active[p] = 0
        for i, t in enumerate(tasks):
            self.sched.spawn(self.procs[t["proc"]], f"T{i}", self.task(t))

    # -- running

    def go(self):
        mlir.hooks.reset()
        mlir.hooks.tick = self.tick
        mlir.hooks.run_pass = self.run_pass
        mlir.hooks.parse_pass = self.parse_pass
        mlir.hooks.asm = self.on_asm
        mlir.hooks.import_module = self.import_module
        saved = (torch.jit.script, torch.jit._state, torch.jit.trace_module)
        script, trace = torch.jit.script, torch.jit.trace_module
        world = self

        def jit_script(obj, *a, **kw):
            if callable(obj) and getattr(obj, "__module__", "") == extlib.__name__:
                cu = world.sched.cur.proc.cu
                for o in cu:
                    if o.fn is obj:
                        return o
                same = sum(o.name == obj.__name__ for o in cu)
                mangle = f"___torch_mangle_{same - 1}." if same else ""
                o = types.SimpleNamespace(name=obj.__name__, qualified_name="__torch__.sim.extlib." + mangle + obj.__name__, fn=obj)
                cu.append(o)
                return o
            return script(obj, *a, **kw)

        class Cu:
            def get_functions(self):
                return [types.SimpleNamespace(**vars(f)) for f in world.sched.cur.proc.cu]

        def trace_module(mod, inputs, *a, **kw):
            rec = world.rec()
            if rec is not None:
                rec.traced = {m: [(tuple(t.shape), str(t.dtype)) for t in (x if isinstance(x, (tuple, list)) else [x])] for m, x in inputs.items()}
            return trace(mod, inputs, *a, **kw)

        torch.jit.trace_module = trace_module
        # only Python's view of the module: native code reads sys.modules
        class State:
            _python_cu = Cu()

            def __getattr__(self, n):
                return getattr(saved[1], n)

        torch.jit.script = jit_script
        torch.jit._state = State()
        try:
            self.fs.install()
            self.sched.go()
            self.fs.observe()
        finally:
            torch.jit.script, torch.jit._state, torch.jit.trace_module = saved
            mlir.hooks.reset()
            self.fs.uninstall()

    def close(self):
        for p in self.procs:
            p.models.clear()
        self.fs.destroy()

    def task(self, t):
        def fn(task):
            for n, op in enumerate(t["ops"]):
                rec = Record(task, n, op)
                self.recs.append(rec)
                self.now[task] = rec
                self.active[task.proc] += 1
                self.clock += 1
                rec.started = self.clock
                self.run.log("begin", rec.tag, op["kind"], op.get("output"))
                if mlir.depth():
                    raise Violation("context-leak", f"{rec.tag}: an MLIR context is still entered")
                try:
                    rec.result = self.compile(rec)
                    self.run.log("end", rec.tag, "ok")
                except (Violation, SimUnsupported, InvalidScenario, coop.Killed):
                    raise
                except simfs.Crash:
                    self.run.log("end", rec.tag, "process died")
                    self.now.pop(task, None)
                    task.proc.dead = True
                    return
                except BaseException as e:
                    rec.error = e
                    self.run.log("end", rec.tag, type(e).__name__)
                self.clock += 1
                rec.ended = self.clock
                self.active[task.proc] -= 1
                self.now.pop(task, None)
                self.sched.atomic += 1
                try:
                    self.after(rec)
                finally:
                    self.sched.atomic -= 1
                if rec.error is not None:
                    rec.error.__traceback__ = None
                    rec.error = (type(rec.error), str(rec.error))
                self.sched.point("between")

        return fn

    def compile(self, rec):
        op, proc = rec.op, rec.task.proc
        cu, fx, ts = (proc[m] for m in IMPORTS)
        kind = op["kind"]
        output = op.get("output")
        if op.get("badoutput"):
            output = op["badoutput"]
        elif op.get("enum"):
            output = cu.OutputType[output.upper().replace("-", "_")]
        common = {}
        if kind in ("fx", "gm"):
            common = dict(
                output_type=output, verbose=bool(op.get("verbose")),
                enable_ir_printing=bool(op.get("irprint")), backend_legal_ops=op.get("legal"),
                allow_non_finites=op.get("nonfinites", True),
            )
        if kind == "fx":
            prog = fx_programs()[op["model"] % N_FX]
            return fx.export_and_import(prog.ep, decomposition_table={}, **common)
        if kind == "gm":
            prog = fx_programs()[op["model"] % N_FX]
            return fx.stateless_fx_import(prog.ep.graph_module, **common)
        if kind == "ts":
            name, model, shapes = ts_models()[op["model"] % N_TS]
            args = ts.ExampleArgs()
            for m, ss in self.shapes(op).items():
                ss = [self.example(cu, *x) for x in ss]
                args.add_method(m, ss[0] if len(ss) == 1 and op.get("single") else ss)
            if op.get("badmethod"):
                args.add_method("no_such_method", [torch.ones(1)])
            if list(self.shapes(op)) == ["forward"] and op.get("plain") and not op.get("badmethod"):
                args = [self.example(cu, *x) for x in self.shapes(op)["forward"]]
            if op.get("badarg"):
                args = {"none": None, "number": 3, "list": [torch.ones(1), 2.5], "name": "x"}[op["badarg"]]
            lib = self.library(op)
            if op.get("badlib"):
                lib.append(extlib.BAD)
            return ts.compile(
                own_model(proc, model), args, output_type=output, backend_legal_ops=op.get("legal"), extra_library=lib,
                verbose=bool(op.get("verbose")), enable_ir_printing=bool(op.get("irprint")),
                use_tracing=bool(op.get("trace")), ignore_traced_shapes=bool(op.get("ignore")),
            )
        module = self.make_module(rec, op.get("name"))
        if kind == "pipe":
            text = "builtin.module(" + ",".join(f"sim-pass{{a={i}}}" for i in range(op.get("passes", 2))) + ")"
            cu.run_pipeline_with_repro_report(module, text, op.get("desc", "sim"), enable_ir_printing=bool(op.get("irprint")))
            return module
        if kind == "lower":
            return cu.lower_mlir_module(
                bool(op.get("verbose")), cu.OutputType.get(output), module,
                cu.BackendLoweringOptions(allow_non_finites=op.get("nonfinites", True)) if "nonfinites" in op else None,
            )
        raise InvalidScenario(kind)

    @staticmethod
    def library(op):
        """The functions given; a later one of the same name replaces an earlier one."""
        return list({f.__name__: f for f in (extlib.GOOD[i % len(extlib.GOOD)] for i in op.get("lib") or [])}.values())

    def shapes(self, op):
        """method -> [(shape, dtype, how)] of the example arguments."""
        _, _, shapes = ts_models()[op["model"] % N_TS]
        out = {}
        k = 0
        for m, ss in shapes.items():
            row = []
            for s in ss:
                spec = (op.get("args") or [[None, "float32", "ph"]])[k % len(op.get("args") or [1])]
                k += 1
                if op.get("trace"):
                    first = (op.get("args") or [spec])[0][0]
                    spec = [ss[0] if first is None else first, spec[1], spec[2]]
                    if op.get("ignore") is None and spec[2] == "ph" and len(spec[0]) != 2:
                        spec[2] = "tensor"
                row.append((s if spec[0] is None else list(spec[0]), spec[1], spec[2]))
            out[m] = row
        return out

    @staticmethod
    def example(cu, shape, dtype, how):
        dt = getattr(torch, dtype)
        if how == "ph":
            return cu.TensorPlaceholder(shape, dt)
        t = torch.ones([7 if d == -1 else d for d in shape], dtype=dt)
        if how == "like":
            return cu.TensorPlaceholder.like(t, dynamic_axes=[i for i, d in enumerate(shape) if d == -1])
        return t

    @staticmethod
    def annotation(shape, dtype, how):
        if how == "tensor":
            shape = [7 if d == -1 else d for d in shape]
        return (tuple(shape), "torch." + dtype, True)

    def refused(self, op):
        """Why this call must be refused before anything is compiled."""
        return next(self.reasons(op), None)

    def reasons(self, op):
        if op.get("badoutput") and op["kind"] != "pipe":
            yield "output type"
        if op["kind"] != "ts":
            return
        if op.get("badarg"):
            yield "argument"
        if op.get("badlib"):
            yield "library"
        if op.get("ignore") and not op.get("trace"):
            yield "ignore_traced_shapes without tracing"
        if op.get("badmethod"):
            yield "unknown method"
        if op.get("trace") and not op.get("ignore") and not self.scripted(op):
            if any(h != "tensor" for r in self.shapes(op).values() for _, _, h in r):
                yield "placeholder for tracing"

    @staticmethod
    def scripted(op):
        return isinstance(ts_models()[op["model"] % N_TS][1], torch.jit.ScriptModule)

    def make_module(self, rec, name):
        self.sched.atomic += 1
        tick, mlir.hooks.tick = mlir.hooks.tick, None
        try:
            ctx = mlir.Context()
            mlir.register_dialect(ctx)
            m = mlir.Module.create(mlir.Location.unknown(ctx))
            if name:
                m.operation._attrs["torch.debug_module_name"] = mlir.StringAttr(ctx, name)
            m.operation._attrs["sim.origin"] = mlir.StringAttr(ctx, rec.tag)
            rec.module = m
            return m
        finally:
            self.sched.atomic -= 1
            mlir.hooks.tick = tick

    # -- what the native code does

    def rec(self):
        r = self.now.get(self.sched.cur)
        if r is None:
            raise SimUnsupported("native call outside a compile")
        return r

    def tick(self, point):
        if not self.sched.active():
            return
        self.sched.point(point)
        rec = self.now.get(self.sched.cur)
        if rec is None:
            return
        rec.count[point] = rec.count.get(point, 0) + 1
        f = rec.fault
        if f and f.get("point") == point and f.get("n", 1) == rec.count[point]:
            if point in ("PassManager.parse", "get_asm", "PassManager.run"):
                rec.diags = []
            if point in ("PassManager.parse", "PassManager.run"):
                rec.failed_state = getattr(rec, "last_state", None)
            self.fire(rec, point)

    def fire(self, rec, point):
        f = rec.fault
        rec.fault = {}
        kind = f.get("kind", "error")
        text = f"failure {rec.tag} in {point}"
        e = {"error": InjectedError, "oom": InjectedOom, "interrupt": InjectedInterrupt}[kind](text)
        rec.fired = (point, kind, text)
        self.run.fault(f"native {kind} at {point}")
        self.run.log("fault", rec.tag, point, kind)
        raise e

    def say(self, rec, n, ctx=None):
        """Emit n diagnostics the way the binding does: to whatever sys.stderr is."""
        for i in range(n):
            text = f"diag<{rec.tag}:{len(rec.diags)}>"
            rec.diags.append(text)
            half = len(text) // 2
            err = sys.stderr
            err.write("error: " + text + "\n")
            self.sched.point("diagnostic")

    def import_module(self, mb, obj, annotator, options):
        rec = self.rec()
        m = mb.module.operation
        if annotator is None:  # a library function
            rec.libmod = m
            self.sched.point("import_function")
            self.lib_func(mb, obj)
            return
        rec.module = mb.module
        rec.phase = "import"
        rec.diags = []
        name = re.sub(r"___torch_mangle_\d+\.", "", obj._type().qualified_name())
        ctx = m.context
        m._attrs["torch.debug_module_name"] = mlir.StringAttr(ctx, name.rpartition(".")[2])
        m._attrs["sim.model"] = mlir.StringAttr(ctx, name)
        rec.annotations = (list(annotator.log), bool(options.ignoreExistingTensorShapesAndDtypes), name)
        m._attrs["sim.annotations"] = mlir.StringAttr(ctx, repr(rec.annotations))
        f = rec.fault
        bad = f.get("point") == "import"
        self.say(rec, f.get("diags", 1) if bad else rec.op.get("warn", 0))
        if bad:
            self.fire(rec, "import")

    def lib_func(self, mb, obj):
        ctx = mb.module.operation.context
        op = mlir.Operation(ctx, "func.func", [], [], {"sym_name": mlir.StringAttr(ctx, obj.qualified_name)}, 1, mlir.Location.unknown(ctx))
        op._attrs["sim.source"] = mlir.StringAttr(ctx, "x" * 80 + f"edited={bool(getattr(obj.fn, 'edited', False))}")
        op.regions[0].blocks.append()
        mlir.InsertionPoint(mb.module.body).insert(op)

    def parse_pass(self, pm):
        pm.tree = parse_pipeline(pm.pipeline)
        rec = self.now.get(self.sched.cur)
        if rec is not None:
            rec.raw.append(pm.pipeline)

    def on_asm(self, op, text):
        rec = self.now.get(self.sched.cur) if self.sched.active() else None
        if rec is None:
            return
        if rec.libmod is op:
            rec.lib_texts.append(text)
        rec.last_state = self.state_of(op)
        rec.asm.setdefault(rec.last_state, set()).add(text)

    def state_of(self, op):
        return (id(op), tuple(sorted((k, v.value) for k, v in op._attrs.items() if k.startswith("sim.") and hasattr(v, "value"))))

    def run_pass(self, pm, op):
        rec = self.rec()
        if rec.libmod is op:
            self.sched.point("canonicalize")
            return
        ctx = op.context
        if not ctx.emit_error_diagnostics:
            rec.quiet = True
        rec.stages.append(pm.tree)
        stage = len(rec.stages)
        rec.phase = f"pipeline {stage}"
        rec.diags = []
        rec.failed_pipeline = pm.pipeline
        rec.failed_state = self.state_of(op)
        f = rec.fault
        bad = f.get("point") == "pass" and f.get("stage", 1) == stage
        todo = list(passes(pm.tree))
        for i, (name, opts) in enumerate(todo):
            self.sched.point("pass")
            if "extra-library" in opts:
                self.read_library(rec, opts["extra-library"])
            if bad and f.get("at", 0) % len(todo) == i:
                op._attrs[f"sim.half{stage}"] = mlir.StringAttr(ctx, name)
                self.say(rec, f.get("diags", 1))
                self.fire(rec, "pass")
            self.say(rec, rec.op.get("warn", 0))
            op._attrs[f"sim.pass{stage}.{i}"] = mlir.StringAttr(ctx, repr((name, sorted((k, v) for k, v in opts.items() if k != "extra-library"))))
        self.sched.point("passed")

    def read_library(self, rec, path):
        parts = []
        try:
            fd = simfs.R["open"](path, os.O_RDONLY)
        except OSError as e:
            raise Violation("library-missing", f"{rec.tag}: the passes cannot open {self.fs.show(path)}: {e.strerror}")
        try:
            while True:
                b = simfs.R["read"](fd, 200)
                if not b:
                    break
                parts.append(b)
                self.sched.point("library")
        finally:
            simfs.R["close"](fd)
        rec.libs.append((path, b"".join(parts).decode("utf-8", "replace")))

    # -- judgement

    def after(self, rec):
        """A compile has just ended; nothing else runs meanwhile."""
        proc = rec.task.proc
        if self.active[proc] == 0:
            if sys.stderr is not proc.terminal:
                raise Violation("stderr-lost", f"after {rec.tag} sys.stderr is not what it was: {type(sys.stderr).__name__}")
        if mlir.depth():
            raise Violation("context-leak", f"{rec.tag}: an MLIR context is still entered")
        self.judge(rec)

    def judge(self, rec):
        self.run.state(rec.op["kind"], rec.op.get("output"), rec.fired and rec.fired[:2], len(rec.stages), bool(rec.libs))
        if getattr(rec, "quiet", False):
            raise SimUnsupported("diagnostics are captured in another way")
        if rec.error is None:
            self.judge_success(rec)
        else:
            self.judge_failure(rec)

    def expected(self, rec):
        op = rec.op
        out = op.get("output", "raw").upper().replace("-", "_")
        legal = tuple(sorted(set(op.get("legal") or [])))
        back = {
            "LINALG_ON_TENSORS": "torch-backend-to-linalg-on-tensors-backend-pipeline",
            "TOSA": "torch-backend-to-tosa-backend-pipeline",
            "STABLEHLO": "torch-backend-to-stablehlo-backend-pipeline",
        }
        stages = []
        front = {}
        if legal:
            front["backend-legal-ops"] = legal
        kind = op["kind"]
        if kind == "pipe":
            return [("builtin.module", [("sim-pass", {"a": str(i)}) for i in range(op.get("passes", 2))])]
        if kind != "lower" and out != "RAW":
            if kind == "ts":
                if op.get("lib"):
                    front["extra-library"] = True
                stages.append(("builtin.module", [("torchscript-module-to-torch-backend-pipeline", front)]))
            else:
                stages.append((
                    "builtin.module",
                    [("func.func", [("torch-match-quantized-custom-ops", {})]),
                     ("torchdynamo-export-to-torch-backend-pipeline", front)],
                ))
        if out in back:
            opts = {}
            if out != "TOSA" and kind != "ts" and not op.get("nonfinites", True):
                opts["allow-non-finites"] = False
            stages.append(("builtin.module", [(back[out], opts)]))
        return stages

    @staticmethod
    def blur(tree):
        name, sub = tree
        if isinstance(sub, list):
            return (name, [World.blur(s) for s in sub])
        return (name, {k: (True if k == "extra-library" else v) for k, v in sub.items()})

    def judge_stages(self, rec, complete):
        want = self.expected(rec)
        got = [self.blur(t) for t in rec.stages]
        ok = got == want if complete else got == want[: len(got)]
        if not ok:
            raise Violation("wrong-passes", f"{rec.tag}: {rec.op['kind']} to {rec.op.get('output')} ran {got}, its options ask for {want}")

    def judge_success(self, rec):
        op = rec.op
        if self.refused(op):
            raise Violation("bad-call-accepted", f"{rec.tag}: {self.refused(op)} was accepted")
        if rec.fired is not None:
            raise Violation("failure-hidden", f"{rec.tag}: {rec.fired} was not reported")
        self.judge_stages(rec, True)
        self.judge_content(rec, rec.result)
        self.judge_library(rec)

    def judge_content(self, rec, module):
        kind = rec.op["kind"]
        if kind in ("fx", "gm"):
            want = _state["alone"][kind, rec.op["model"] % N_FX]
            if body(module) != want:
                raise Violation("wrong-program", f"{rec.tag}: the imported IR differs from what the program gives alone")
        elif kind == "ts":
            name, model, shapes = ts_models()[rec.op["model"] % N_TS]
            log, ignore, _ = rec.annotations
            if module is not rec.module:
                raise Violation("wrong-program", f"{rec.tag}: another module came back")
            want = [("exportNone",)]
            for m, ss in self.shapes(rec.op).items():
                want.append(("exportPath", (m,)))
                want.append(("annotateArgs", (m,), (None,) + tuple(self.annotation(*x) for x in ss)))
            if rec.op.get("trace") and not self.scripted(rec.op):
                seen = {m: [(tuple(7 if d == -1 else d for d in s), "torch." + dt) for s, dt, _ in ss] for m, ss in self.shapes(rec.op).items()}
                if rec.traced != seen:
                    raise Violation("wrong-program", f"{rec.tag}: traced with {rec.traced}, the example arguments are {seen}")
            if sorted(map(repr, log)) != sorted(map(repr, want)) or ignore != bool(rec.op.get("ignore")):
                raise Violation("wrong-program", f"{rec.tag}: annotations {log} ({ignore}), expected {want}")
        elif rec.module is not None and kind == "lower" and module is not rec.module:
            raise Violation("wrong-program", f"{rec.tag}: another module came back")
        # the passes were run on the module that came back
        n = sum(len(list(passes(t))) for t in rec.stages)
        left = [k for k in module.operation._attrs if k.startswith("sim.pass")]
        if len(left) != n:
            raise Violation("wrong-passes", f"{rec.tag}: the module that came back saw {len(left)} of {n} passes")

    def judge_library(self, rec):
        op = rec.op
        if op["kind"] != "ts" or not op.get("lib") or not rec.stages:
            return
        fns = self.library(op)
        want = {extlib.exported(f): bool(getattr(f, "edited", False)) for f in fns}
        for path, text in rec.libs:
            whole = [munge(t) for t in rec.lib_texts]
            defs = re.findall(r'func\.func @"?([^"(\s]*).*?edited=(True|False)', text, re.S)
            have = dict(defs)
            if text.strip() not in [w.strip() for w in whole]:
                missing = sorted(set(want) - set(have))
                raise Violation(
                    "wrong-library",
                    f"{rec.tag}: the passes read {len(text)} characters of {self.fs.show(path)} that are not this compile's library"
                    + (f"; missing {missing}" if missing else ""),
                )
            if len(have) != len(defs):
                raise Violation("wrong-library", f"{rec.tag}: {sorted(n for n in have if [d for d, _ in defs].count(n) > 1)} defined more than once")
            for n, edited in want.items():
                if have.get(n) != str(edited):
                    raise Violation("wrong-library", f"{rec.tag}: {n} is " + ("another process's or an earlier definition" if n in have else "not in the library"))

    def judge_failure(self, rec):
        e, op = rec.error, rec.op
        text = str(e)
        cu = rec.task.proc["torch_mlir.compiler_utils"]
        if rec.fired is None:
            if self.refused(op) and not rec.stages:
                self.run.probe("calls refused: " + self.refused(op))
                if list(self.reasons(op)) == ["output type"] and not isinstance(e, (ValueError, TypeError, OSError)):
                    raise Violation("failure-misreported", f"{rec.tag}: a wrong output type is reported as {type(e).__name__}: {text[:200]}")
                return
            if isinstance(e, OSError) and self.sc.get("fs", {}).get("faults") and op["kind"] == "ts" and op.get("lib") and not rec.stages:
                return  # the library could not be written
            raise e
        self.judge_stages(rec, False)
        point, kind, what = rec.fired
        if kind == "interrupt":
            if not isinstance(e, InjectedInterrupt):
                raise Violation("interrupt-lost", f"{rec.tag}: KeyboardInterrupt became {type(e).__name__}")
            return
        if point in ("import", "ModuleBuilder.import_module"):
            self.judge_report(rec, text, what)
            return
        if point in ("pass", "PassManager.parse", "PassManager.run", "get_asm"):
            if rec.libmod is not None and not rec.stages and point != "pass" and not isinstance(e, cu.TorchMlirCompilerError):
                return  # while the library was made
            if not isinstance(e, cu.TorchMlirCompilerError):
                raise Violation("failure-misreported", f"{rec.tag}: {rec.fired} was reported as {type(e).__name__}: {text[:300]}")
            self.judge_report(rec, text, what)
            if op["kind"] == "pipe" and op.get("desc") and op["desc"] not in text:
                raise Violation("report-incomplete", f"{rec.tag}: the description is not in the report")
            if point in ("pass", "PassManager.run") and rec.raw and rec.raw[-1] not in text:
                raise Violation("report-incomplete", f"{rec.tag}: the failed pipeline is not in the report")
            self.judge_repro(rec, text, point)
            return
        # elsewhere: the failure itself comes out
        if not isinstance(e, Injected):
            raise Violation("failure-misreported", f"{rec.tag}: {rec.fired} was reported as {type(e).__name__}: {text[:300]}")

    def judge_report(self, rec, text, what):
        own = set(rec.diags)
        said = set(DIAG.findall(text))
        if said - own:
            raise Violation("foreign-diagnostics", f"{rec.tag}: the report contains {sorted(said - own)}")
        if own - said:
            raise Violation("diagnostics-lost", f"{rec.tag}: the report lacks {sorted(own - said)}")
        if what not in text:
            raise Violation("report-incomplete", f"{rec.tag}: the report lacks the exception ({what})")

    def judge_repro(self, rec, text, point):
        for raw in rec.raw:
            text = text.replace(raw, "")
        libs = {munge(t).strip() for r in self.recs for t in r.lib_texts}
        paths = [p for p in self.named(text) if self.contents(p) not in libs]
        fault = any(k.startswith("file system") or "crash" in k for k in self.run.faults)
        if not paths:
            if point != "get_asm" and not fault:
                raise Violation("no-repro", f"{rec.tag}: the report names no file to reproduce the failure with")
            return
        rec.repro = paths
        if point == "get_asm":
            return
        own = self.own_asm(rec)
        for p in paths:
            cur = self.contents(p)
            if cur is None:
                raise Violation("repro-missing", f"{rec.tag}: the report names {self.fs.show(p)}, which is not there")
            if cur in own:
                continue
            rivals = set()
            for r in self.recs:
                if r is not rec and (r.ended is None or r.ended > rec.started):
                    rivals |= self.own_asm(r)
            if cur not in rivals:
                raise Violation("wrong-repro", f"{rec.tag}: {self.fs.show(p)} does not hold the module as it was before the failed pipeline: {cur[:200]!r}")

    def own_asm(self, rec):
        st = getattr(rec, "failed_state", None)
        if st is None:
            texts = set().union(*rec.asm.values()) if rec.asm else set()
        else:
            texts = rec.asm.get(st, set())
        return {t.strip() for t in texts}

    def contents(self, p):
        h = self.fs.history.get(p)
        return None if not h or h[-1] is None else h[-1].decode("utf-8", "replace").strip()

    def named(self, text):
        out = []
        for m in re.findall(re.escape(self.fs.tmp) + r"[^\s'\"{}()]*", text):
            out.append(m.rstrip(".,;:"))
        return sorted(set(out))

    def final(self, sc):
        """After everything: the history of every file that was promised to someone."""
        whole = set()
        libs = set()
        for r in self.recs:
            for ts in r.asm.values():
                whole |= {t.strip() for t in ts}
            libs |= {munge(t).strip() for t in r.lib_texts}
        promised = {p for r in self.recs for p in getattr(r, "repro", ())}
        promised |= {p for r in self.recs for p, _ in r.libs}
        for p in sorted(promised):
            for v in self.fs.history.get(p, ()):
                if v is None:
                    continue
                t = v.decode("utf-8", "replace").strip()
                if t not in whole and t not in libs:
                    raise Violation(
                        "torn-file",
                        f"at some moment {self.fs.show(p)} held {len(v)} bytes that are no complete module",
                    )
        if "process crash" not in self.run.faults and not self.undo_failed():
            for p, h in sorted(self.fs.history.items()):
                if h[-1] is not None and p not in promised:
                    t = h[-1].decode("utf-8", "replace").strip()
                    if t not in whole and t not in libs:
                        raise Violation("litter", f"{self.fs.show(p)} was left behind with {len(h[-1])} bytes")
        for proc in self.procs:
            if proc.err is not proc.terminal and not proc.dead:
                raise Violation("stderr-lost", f"at the end sys.stderr of process {proc.pid} is not what it was")

    def undo_failed(self):
        """Whether a fault hit the clean-up itself."""
        return any(l.startswith("fs unlink") and "->" in l.split(" ", 2)[-1] for l in self.run.log_lines)


def munge(asm):
    return extlib.munge(asm, mlir.escape)
