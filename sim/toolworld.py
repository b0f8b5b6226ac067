"""Simulated processes that run the ONNX import tool on a shared disk.

The tool, the importer and onnx's Python are real; the disk is the simulator's.
onnx's shape inference between files writes from native code; it is replaced by
the same inference with the reading and writing done in Python.
"""

import os
import shutil
import sys
import uuid
import warnings

import onnx
from onnx import external_data_helper as ext

from . import coop, fs as simfs, onnxprog
from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir
from .fxworld import FAULTS, InjectedInterrupt, injected

mlir.install()
coop.overlay.TRANSFORM = coop.instrument

TOOL = "torch_mlir.tools.import_onnx.__main__"
IMPORTS = [TOOL]
REAL_INFER = onnx.shape_inference.infer_shapes_path
REAL_CONVERT = onnx.version_converter.convert_version


def infer_shapes_path(model_path, output_path="", check_type=False, strict_mode=False, data_prop=False):
    with open(model_path, "rb") as f:
        data = f.read()
    out = onnx.shape_inference.infer_shapes(onnx.load_model_from_string(data), check_type, strict_mode, data_prop)
    with open(output_path or model_path, "wb") as f:
        f.write(out.SerializeToString())


def convert_version(model, target):
    """In place of onnx's converter, whose native code dies on some models."""
    if not isinstance(model, onnx.ModelProto):
        raise ValueError("not a model")
    out = onnx.ModelProto()
    out.CopyFrom(model)
    for o in out.opset_import:
        if o.domain == "":
            if o.version > target:
                raise RuntimeError(f"cannot convert from {o.version} to {target}")
            o.version = target
    out.producer_version += "converted"
    return out


def tensors(model):
    return list(ext._get_all_tensors(model))


def externalize(model, location, threshold, pos=None):
    """Moves the large tensors' data out of the model.  Returns the data file's content."""
    out = b""
    for t in tensors(model):
        if t.HasField("raw_data") and len(t.raw_data) >= threshold:
            data = bytes(t.raw_data)
            ext.set_external_data(t, location, offset=len(out), length=len(data))
            t.ClearField("raw_data")
            out += data
    return out


class File:
    """A model on the disk, and what it means."""

    def __init__(self, no, spec):
        self.no = no
        try:
            self.model = onnxprog.build(spec["model"])
            onnx.checker.check_model(self.model)
        except (InvalidScenario, onnx.checker.ValidationError, onnx.shape_inference.InferenceError):
            v = [onnx.helper.make_tensor_value_info(n, 1, [2]) for n in "xy"]
            node = onnx.helper.make_node("Relu", ["x"], ["y"])
            self.model = onnx.helper.make_model(onnx.helper.make_graph([node], "g", v[:1], v[1:]), opset_imports=[onnx.helper.make_opsetid("", 17)])
        if spec.get("strip"):
            del self.model.graph.value_info[:]
        big = spec.get("big")
        if big:
            # large enough for onnx to put it outside
            self.model.graph.initializer.append(
                onnx.numpy_helper.from_array(onnxprog.data(onnxprog.F, [300 + big], big), "big")
            )
        self.dir = spec.get("dir", 0) % 2
        self.path = os.path.join(f"in{self.dir}", f"m{no}.onnx")
        self.data_dir = None
        self.data_path = None
        self.external = None
        disk = onnx.ModelProto()
        disk.CopyFrom(self.model)
        how = spec.get("external") if spec.get("bad") not in ("torn", "spoilt") else None
        if how:
            self.external = externalize(disk, f"m{no}.data", 8 if how == "all" else 200)
            where = f"in{self.dir}"
            if spec.get("elsewhere") and self.external:
                where = self.data_dir = f"data{no % 2}"
            if self.external:
                self.data_path = os.path.join(where, f"m{no}.data")
        self.disk = disk
        self.bytes = disk.SerializeToString()
        self.bad = None
        if spec.get("bad") == "torn":
            self.bytes = self.bytes[: len(self.bytes) * 2 // 3]
            self.bad = "torn"
        elif spec.get("bad") == "nodata" and self.external:
            self.bad = "nodata"
        elif spec.get("bad") == "spoilt":
            from . import onnxworld

            kind = onnxworld.SPOILS[spec.get("spoil", 0) % len(onnxworld.SPOILS)]
            onnxworld.spoil(self.disk, kind, spec.get("spoil", 0))
            self.bad = "spoilt"
            self.bytes = self.disk.SerializeToString()


class Rec:
    def __init__(self, tag, spec):
        self.tag, self.spec = tag, spec
        self.error = None
        self.died = False
        self.faulted = []  # what was done to it
        self.ticks = 0
        self.done = False
        self.refs, self.must = (), None
        self.text = None


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.files = []
        for i, spec in enumerate(sc["files"]):
            f = File(i, spec)
            self.files.append(f)
        self.limit = sc.get("limit", 1 << 31)
        self.cwd = None
        self.now = {}
        self.recs = []
        self.refs = {}

    # -- what is right

    def reference(self, f, spec):
        """(texts any of which is right, whether it must succeed: True, False or None)."""
        key = (f.no, spec.get("opset"), bool(spec.get("clear")), bool(spec.get("noprop")), bool(spec.get("expand")), bool(spec.get("noverify")))
        if key not in self.refs:
            self.refs[key] = self._reference(f, spec)
        return self.refs[key]

    def _reference(self, f, spec):
        if f.bad == "nodata":
            return (), False
        texts, failed = [], 0
        try:
            if f.bad:
                raw = onnx.load_model_from_string(f.bytes)
            else:
                raw = onnx.ModelProto()
                raw.CopyFrom(f.model)
            if spec.get("opset"):
                raw = convert_version(raw, spec["opset"])
            if spec.get("clear"):
                for n in raw.graph.node:
                    n.ClearField("domain")
        except Exception as e:
            self.run.log("reference", f.no, type(e).__name__)
            return (), False
        checked = True
        try:
            onnx.checker.check_model(raw)
        except Exception:
            checked = False
        for part in (None, 8, 200, 1024):
            try:
                m = raw
                if part is not None:
                    # what inference makes of it when the data is not there
                    m = onnx.ModelProto()
                    m.CopyFrom(raw)
                    data = externalize(m, "x", part)
                    if not data:
                        continue
                m = onnx.shape_inference.infer_shapes(m, data_prop=not spec.get("noprop"))
                if part is not None:
                    for t in tensors(m):
                        if ext.uses_external_data(t):
                            info = ext.ExternalDataInfo(t)
                            t.raw_data = data[info.offset: info.offset + info.length]
                            del t.external_data[:]
                            t.data_location = onnx.TensorProto.DEFAULT
                texts.append(self.imported(m, spec))
            except Exception as e:
                self.run.log("reference", f.no, part, type(e).__name__, str(e)[:60])
                failed += 1
        if not texts:
            return (), False
        return tuple(texts), (True if checked and not failed and not f.bad else None)

    def imported(self, model, spec):
        mods = self.lib.mods
        imp = mods["torch_mlir.extras.onnx_importer"]
        saved = coop.overlay.detach_target_modules()
        coop.overlay.attach_target_modules(mods)
        try:
            config = imp.Config()
            if spec.get("expand"):
                config.function_expansion_allowlists_by_domain = None
            ctx = mlir.Context()
            mods["torch_mlir.dialects.torch"].register_dialect(ctx)
            info = imp.ModelInfo(model, config=config)
            m = info.create_module(context=ctx).operation
            imp.NodeImporter.define_function(info.main_graph, m).import_all()
            if not spec.get("noverify"):
                m.verify()
            return m.get_asm(assume_verified=not spec.get("noverify"))
        finally:
            coop.overlay.attach_target_modules(saved)

    # -- running

    def go(self):
        self.lib = coop.Proc(899, IMPORTS)
        limit, uuid1, cwd = onnx.checker.MAXIMUM_PROTOBUF, uuid.uuid1, os.getcwd()
        mlir.hooks.reset()
        self.fs = simfs.SimFS(self.run, None, (), self.sc.get("chunk", 4096))
        names = iter(range(10**9))
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self.lay_out()
                uuid.uuid1 = lambda *a: uuid.UUID(int=next(names) + 1)
                onnx.checker.MAXIMUM_PROTOBUF = self.limit
                onnx.shape_inference.infer_shapes_path = infer_shapes_path
                onnx.version_converter.convert_version = convert_version
                os.chdir(self.root)
                for n, phase in enumerate(self.sc["phases"]):
                    self.phase(n, phase)
        finally:
            os.chdir(cwd)
            onnx.checker.MAXIMUM_PROTOBUF, uuid.uuid1 = limit, uuid1
            onnx.shape_inference.infer_shapes_path = REAL_INFER
            onnx.version_converter.convert_version = REAL_CONVERT
            mlir.hooks.reset()
            self.fs.destroy()

    def lay_out(self):
        self.root = os.path.join(self.fs.root, "w")
        for d in ("in0", "in1", "out", "t0", "t1", "t2", "data0", "data1"):
            os.makedirs(os.path.join(self.root, d))
        self.user = {}
        for f in self.files:
            self.put(f.path, f.bytes)
            if f.data_path and f.bad != "nodata":
                self.put(f.data_path, f.external)
        self.put(os.path.join("in0", "notes.txt"), b"mine")
        self.put(os.path.join("t0", "raw.onnx"), b"mine too")
        self.outputs = {}
        for i in range(4):
            p = os.path.join(self.root, "out", f"o{i}.mlir")
            if i in (self.sc.get("old") or ()):
                with open(p, "wb") as fh:
                    fh.write(b"old output %d\n" % i)
            self.outputs[p] = set()

    def put(self, path, data):
        p = os.path.join(self.root, path)
        with open(p, "wb") as fh:
            fh.write(data)
        self.user[p] = data

    def phase(self, n, phase):
        fs = self.fs
        sched = coop.Scheduler(self.run, phase.get("plan"), fine=bool(phase.get("fine")))
        fs.sched, fs.ops, fs.crashed = sched, 0, False
        fs.faults = [list(f) for f in phase.get("faults") or ()]
        fs.on_fault = self.fault
        self.sched = sched
        fs.bypass = 1
        before = {p: self.read(p) for p in self.outputs}
        fs.bypass = 0
        fs.history, fs.seen = {}, {}
        recs = []
        for i, spec in enumerate(phase["runs"]):
            proc = coop.Proc(5000 + 10 * n + i, IMPORTS)
            rec = Rec(f"run {n}.{i}", spec)
            f = self.files[spec["file"] % len(self.files)]
            rec.file = f
            rec.refs, rec.must = self.reference(f, spec)
            rec.target = None if spec.get("out") is None else os.path.join(self.root, "out", f"o{spec['out'] % 4}.mlir")
            rec.proc = proc
            recs.append(rec)
            sched.spawn(proc, f"P{n}.{i}", self.task(rec))
        self.recs += recs
        mlir.hooks.reset()
        mlir.hooks.tick = self.tick
        # os.getcwd() of a process is the directory it was started in
        try:
            fs.install()
            sched.go()
            fs.observe()
        finally:
            mlir.hooks.tick = None
            fs.uninstall()
        for rec in recs:
            self.judge(rec)
        self.check_files(n, recs, before)

    def task(self, rec):
        def fn(task):
            spec, f = rec.spec, rec.file
            argv = [f.path if spec.get("relative") else os.path.join(self.root, f.path)]
            if rec.target is not None:
                argv += ["-o", os.path.relpath(rec.target, self.root) if spec.get("relative") else rec.target]
            elif spec.get("dash"):
                argv += ["-o", "-"]
            if spec.get("noverify"):
                argv += ["--no-verify"]
            if spec.get("noprop"):
                argv += ["--no-data-prop"]
            if spec.get("clear"):
                argv += ["--clear-domain"]
            if spec.get("keep"):
                argv += ["--keep-temps"]
            if spec.get("temp") is not None:
                d = f"t{spec['temp'] % 3}"
                argv += ["--temp-dir", d if spec.get("relative") else os.path.join(self.root, d)]
            if f.data_dir or spec.get("datadir") and f.data_path:
                d = f.data_dir or f"in{f.dir}"
                argv += ["--data-dir", d if spec.get("relative") else os.path.join(self.root, d)]
            if spec.get("opset"):
                argv += ["--opset-version", str(spec["opset"])]
            if spec.get("expand"):
                argv += ["--disable-function-expansion-allowlist"]
            self.now[task] = rec
            self.run.log("start", rec.tag, *[os.path.basename(a) for a in argv])
            tool = task.proc[TOOL]
            old = sys.argv
            sys.argv = ["torch-mlir-import-onnx"] + argv
            try:
                args = tool.parse_arguments(argv)
                status = tool.main(args)
                if status:
                    rec.error = SystemExit(status)
            except (Violation, SimUnsupported, InvalidScenario, coop.Killed):
                raise
            except simfs.Crash:
                rec.died = True
            except BaseException as e:
                if isinstance(e, SystemExit) and not e.code:
                    rec.error = None
                else:
                    rec.error = e
            finally:
                sys.argv = old
            rec.done = True
            self.now.pop(task, None)
            if rec.error is not None:
                rec.error.__traceback__ = None
            self.run.log("end", rec.tag, "died" if rec.died else type(rec.error).__name__)
            if rec.died:
                task.proc.dead = True

        return fn

    def rec(self):
        return self.now.get(self.sched.cur) if self.sched.active() else None

    def fault(self, kind, what, path):
        rec = self.rec()
        if rec is not None:
            rec.faulted.append((kind, what, path))

    def tick(self, name):
        if not self.sched.active():
            return
        self.sched.point(name)
        rec = self.rec()
        if rec is None:
            return
        rec.ticks += 1
        f = rec.spec.get("fault")
        if f and rec.ticks == f["at"]:
            self.run.fault(f["kind"])
            self.run.log("fault", rec.tag, f["kind"], name)
            rec.faulted.append((f["kind"], name, None))
            raise FAULTS[f["kind"]](name)

    # -- checks

    def read(self, path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None

    def right(self, rec, data):
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            return False
        return any(text.strip() == r.strip() for r in rec.refs)

    def judge(self, rec):
        ok = rec.done and not rec.died and rec.error is None
        hard = [f for f in rec.faulted if f[0] not in ("short", "EINTR")]
        if rec.died:
            return
        self.run.probe("tool succeeded" if ok else "tool failed")
        if ok:
            if not rec.refs:
                raise Violation("bad-input-accepted", f"{rec.tag} succeeded on {rec.file.path}, which cannot be imported ({rec.file.bad})")
            if hard and hard[0][1] in ("write", "replace", "open-w") and rec.target and str(self.path_of(hard[0])) == rec.target and hard[0][0] != "interrupt":
                data = self.fs.history.get(rec.target)
                if not data or not any(v is not None and self.right(rec, v) for v in data):
                    raise Violation("failure-hidden", f"{rec.tag} succeeded although {hard[0][0]} struck its output")
            if rec.target is None:
                if not self.right(rec, rec.proc.stdout.text().encode("utf-8", "surrogateescape")):
                    raise Violation("wrong-output", f"{rec.tag} succeeded and printed {rec.proc.stdout.text()[:200]!r}, which is not the module")
        else:
            if not hard and rec.must:
                raise Violation("tool-failed", f"{rec.tag} on {rec.file.path} failed: {type(rec.error).__name__}: {str(rec.error)[:400]}")
            if hard and rec.must and not self.explained(rec.error, hard):
                raise Violation("wrong-error", f"{rec.tag}: {hard[0][0]} in {hard[0][1]} surfaced as {type(rec.error).__name__}: {str(rec.error)[:300]}")
        self.run.state((ok, bool(rec.refs), rec.spec.get("keep"), rec.spec.get("opset"), sorted({f[:2] for f in rec.faulted}), rec.target is None, self.limit))

    def path_of(self, f):
        p = f[2]
        return self.fs.fds.get(p, p) if isinstance(p, int) else os.path.abspath(os.fsdecode(os.fspath(p))) if p is not None else ""

    def explained(self, e, hard):
        """The failure that was injected is what the tool reports, itself or as the cause."""
        seen = 0
        while e is not None and seen < 8:
            if injected(e) or isinstance(e, (OSError, simfs.Interrupted)):
                return True
            e, seen = e.__cause__ or e.__context__, seen + 1
        # onnx may word a failure to read a file in its own way
        return any(f[1] == "open" for f in hard)

    def check_files(self, n, recs, before):
        fs = self.fs
        for p, h in sorted(fs.history.items()):
            if p in self.user:
                for v in h:
                    if v != self.user[p]:
                        raise Violation("user-file-changed", f"phase {n}: {fs.show(p)} was {'removed' if v is None else 'changed'}")
            elif p in self.outputs:
                mine = [r for r in recs if r.target == p]
                for v in h:
                    if v == before[p] or v is None and before[p] is None:
                        continue
                    if v is None or not any(self.right(r, v) for r in mine):
                        raise Violation(
                            "partial-output",
                            f"phase {n}: at some moment {fs.show(p)} {'was gone' if v is None else f'held {len(v)} bytes'}: neither what it was before nor a whole module"
                            + f"; {[r.tag + (' died' if r.died else ' failed' if r.error is not None else ' succeeded') for r in mine]}",
                        )
                last = self.read(p)
                wins = [r for r in mine if not r.died and r.error is None]
                if wins and (last is None or not any(self.right(r, last) for r in mine)):
                    raise Violation("wrong-output", f"{wins[0].tag} succeeded and {fs.show(p)} holds {str(last)[:200]}")
        for p in self.user:
            if self.read(p) != self.user[p]:
                raise Violation("user-file-changed", f"phase {n}: {fs.show(p)} is not what it was")
        for r in recs:
            if r.target and not r.died and r.error is None and self.read(r.target) is None:
                raise Violation("wrong-output", f"{r.tag} succeeded and there is no {fs.show(r.target)}")
        for d in ("t0", "t1", "t2", "in0", "in1", "data0", "data1"):
            if not os.path.isdir(os.path.join(self.root, d)):
                raise Violation("user-file-changed", f"phase {n}: the directory {d} is gone")
        excused = any(
            r.died or any(f[1] in ("unlink", "rmdir", "open", "chmod") or f[0] in ("interrupt", "crash", "torn") for f in r.faulted) for r in self.recs
        )
        for r in recs:
            if r.spec.get("keep") and not r.died and r.error is None:
                self.kept(r)
        if not excused:
            self.litter(n)

    def kept(self, rec):
        if self.limit > 0:
            return  # perhaps no intermediate file was needed
        top = os.path.join(self.root, f"t{rec.spec['temp'] % 3}" if rec.spec.get("temp") is not None else f"in{rec.file.dir}")
        for d, _, names in os.walk(top):
            for name in names:
                p = os.path.join(d, name)
                if p not in self.user and name.endswith(".onnx"):
                    return
        raise Violation("temps-not-kept", f"{rec.tag}: --keep-temps kept nothing below {self.fs.show(top)}")

    def litter(self, n):
        keeping = [r for r in self.recs if r.spec.get("keep")]
        tops = set()
        for r in keeping:
            tops.add(os.path.join(self.root, f"t{r.spec['temp'] % 3}" if r.spec.get("temp") is not None else f"in{r.file.dir}"))
        for d, dirs, names in os.walk(self.fs.root):
            if any(d == t or d.startswith(t + os.sep) for t in tops):
                continue
            for x in names:
                p = os.path.join(d, x)
                if p not in self.user and p not in self.outputs:
                    raise Violation("litter", f"phase {n}: {self.fs.show(p)} was left behind")
            if not names and not dirs and os.path.dirname(d) not in (self.root, self.fs.root):
                raise Violation("litter", f"phase {n}: the directory {self.fs.show(d)} was left behind")


def play(sc, run):
    if not sc.get("files") or not sc.get("phases") or not all(p.get("runs") for p in sc["phases"]):
        raise InvalidScenario("empty")
    w = World(sc, run)
    w.go()
    n = sum(r.done and not r.died and r.error is None for r in w.recs)
    if n > 1 or run.faults:
        run.nontrivial = True
    return w
