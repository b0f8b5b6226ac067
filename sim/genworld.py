"""The generators of the dialect's sources, run again and again.

torch_ods_gen.py and abstract_interp_lib_gen.py are real, as are the registry's
model and TorchScript's compiler; the operator registry is PyTorch's own (a
part of it, changed as the scenario says), the native TorchScript importer a
stand-in that prints what it was given, and the disk the simulator's.  Every
run is a process of its own.
"""

import ast
import functools
import hashlib
import importlib
import inspect
import io
import linecache
import os
import re
import sys
import types
import warnings

import torch

from . import core, fs as simfs, overlay
from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir

PKG = "torch_mlir.jit_ir_importer.build_tools"
DIR = os.path.join(core.REPO, "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools")
TD = "GeneratedTorchOps.td"
CPP = "AbstractInterpLibrary.cpp"
COMMITTED = os.path.join(core.REPO, "include/torch-mlir/Dialect/Torch/IR", TD)
VISION = [
    "torchvision::deform_conv2d(Tensor input, Tensor weight, Tensor offset, Tensor mask, Tensor bias, int stride_h, int stride_w, "
    "int pad_h, int pad_w, int dilation_h, int dilation_w, int groups, int offset_groups, bool use_mask) -> Tensor",
    "torchvision::roi_align(Tensor input, Tensor rois, float spatial_scale, int pooled_height, int pooled_width, int sampling_ratio, "
    "bool aligned) -> Tensor",
    "torchvision::roi_pool(Tensor input, Tensor rois, float spatial_scale, int pooled_height, int pooled_width) -> (Tensor, Tensor)",
    "torchvision::nms(Tensor dets, Tensor scores, float iou_threshold) -> Tensor",
]
EXTENSIONS = ("simext_a", "simext_b")
EXTRA = [
    "simops::plain(Tensor self, int n=3) -> Tensor",
    "simops::write_(Tensor(a!) self) -> Tensor(a!)",
    "simops::view(Tensor(a) self, int[2] size=[1, 2]) -> Tensor(a)",
    "simops::over.load(Tensor? self, str mode=\"x\") -> (Tensor out, Tensor indices)",
    "simops::_hidden__name(float? x=None, bool y=True) -> ()",
]


def read(path):
    with open(path, encoding="utf-8") as f:
        return f.read()


# ----------------------------------------------------------------- registry


def key_of(op):
    ns_name, overload = op["name"]
    args = "..." if op["is_vararg"] else ", ".join(a["type"] for a in op["arguments"])
    rets = "..." if op["is_varret"] else ", ".join(a["type"] for a in op["returns"])
    return f"{ns_name}{'.' + overload if overload else ''} : ({args}) -> ({rets})"


def triple_of(op):
    ns, _, name = op["name"][0].partition("::")
    return ns, name, op["name"][1]


def duplicate(op):
    return {k: [dict(x) for x in v] if isinstance(v, list) else v for k, v in op.items()}


@functools.cache
def everything():
    """key -> operator, of PyTorch and torchvision."""
    get = torch._C._jit_get_all_schemas
    more = [torch._C.parse_schema(s) for s in VISION + EXTRA]
    keep, mlir.REGISTERED = mlir.REGISTERED, None
    ops = mlir._OPS.pop(None, None)
    torch._C._jit_get_all_schemas = lambda: get() + more
    try:
        return {key_of(o): o for o in mlir.get_registered_ops() if not o["name"][0].startswith(("sim::", "simlib::"))}
    finally:
        torch._C._jit_get_all_schemas = get
        mlir.REGISTERED = keep
        mlir._OPS.pop(None, None)
        if ops is not None:
            mlir._OPS[None] = ops


# ------------------------------------------------------------- definitions

DEF = re.compile(
    r'^def Torch_(\w+) : Torch_Op<"([^"]*)", \[\n(.*?)\n  \]> \{\n  let summary = "Generated op for `(.*?)`";\n'
    r"  let arguments = \(ins\n?(.*?)\n?  \);\n  let results = \(outs\n?(.*?)\n?  \);\n(.*?)^\}\n",
    re.S | re.M,
)


class Def:
    def __init__(self, m):
        self.cpp, self.name, traits, self.key, ins, outs, rest = m.groups()
        self.traits = [t.strip() for t in traits.split(",\n")]
        self.ins = [x.strip() for x in ins.split(",\n") if x.strip()]
        self.outs = [x.strip() for x in outs.split(",\n") if x.strip()]
        self.rest = [x.strip() for x in rest.splitlines() if x.strip()]

    def fields(self):
        return (self.cpp, self.name, sorted(self.traits), self.key, self.ins, self.outs, self.rest)


def parse(text):
    """(what is before the first definition, definitions); the definitions cover the rest."""
    defs, at, head = [], None, text
    for m in DEF.finditer(text):
        if at is None:
            head = text[: m.start()]
        elif text[at : m.start()].strip():
            return None
        at = m.end()
        defs.append(Def(m))
    if at is not None and text[at:].strip():
        return None
    return [x.strip() for x in head.splitlines() if x.strip()], defs


@functools.cache
def committed():
    head, defs = parse(read(COMMITTED))
    types_ = {}
    for d in defs:
        op = everything()[d.key]
        non_value = "IsTrailingUnderscoreInplaceVariant" in d.traits
        for xs, ys, res in ((op["arguments"], d.ins, False), (op["returns"], d.outs, True)):
            for x, y in zip(xs, ys):
                if not y.startswith("Variadic"):
                    types_[x["type"], non_value, res] = y.partition(":$")[0]
    wanted = []
    prev = None
    for d in defs:
        op = everything()[d.key]
        ns, name, overload = triple_of(op)
        extra = d.traits[: d.traits.index("AllowsTypeRefinement")]
        variant = None
        if prev and prev[0] == ns and prev[1] + "_" == name and (
            prev[2] == overload and extra == ["IsTrailingUnderscoreInplaceVariant"] or prev[2] == "functional" and overload == ""
        ):
            variant = (ns, name, overload)
        wanted.append((d.key, variant, extra, [x for x in d.rest if x.startswith(("let hasFolder", "let hasCanonicalizer", "let hasVerifier"))]))
        prev = (ns, name, overload)
    return head, defs, types_, wanted


class Unknown(Exception):
    """The registry does not have what is asked for."""


def expect(op, extra, flags):
    """The fields of the definition of an operator, from the rules."""
    types_ = committed()[2]
    ns, name, overload = triple_of(op)
    non_value = "IsTrailingUnderscoreInplaceVariant" in extra
    infos = [x["alias_info"] for x in op["arguments"] + op["returns"] if "alias_info" in x]
    readonly = not any(i["is_write"] for i in infos)
    key = key_of(op)
    values = (
        readonly and not infos and not op["is_vararg"] and not op["is_varret"]
        and key not in ("prim::unchecked_cast : (t) -> (t)", "aten::__is__ : (t1, t2) -> (bool)", "aten::__isnot__ : (t1, t2) -> (bool)")
    )
    traits = list(extra) + ["AllowsTypeRefinement"] + ["HasValueSemantics"] * values + ["ReadOnly"] * readonly
    atoms = [ns, name] + [overload] * bool(overload)
    cpp = "".join((s[:1].upper() + s[1:]) or "_" for a in atoms for s in a.split("_")).lstrip("_") + "Op"

    def ods(t, result):
        r = types_.get((t, non_value, result))
        if r is None:
            raise Unknown(f"type {t}")
        return r

    single = len(op["returns"]) == 1
    rets = [r["name"] or ("result" if single else f"result{i}") for i, r in enumerate(op["returns"])]
    args = [a["name"] for a in op["arguments"]]
    ins = ["Variadic<AnyTorchType>:$operands"] if op["is_vararg"] else [f"{ods(a['type'], False)}:${a['name']}" for a in op["arguments"]]
    outs = ["Variadic<AnyTorchType>:$results"] if op["is_varret"] else [f"{ods(r['type'], True)}:${n}" for r, n in zip(op["returns"], rets)]
    if op["is_vararg"] or op["is_varret"]:
        v = "`(` $operands `)`" if op["is_vararg"] else " `,` ".join("$" + a for a in args)
        vt = "qualified(type($operands))" if op["is_vararg"] else " `,` ".join(f"qualified(type(${a}))" for a in args)
        rt = "qualified(type($results))" if op["is_varret"] else " `,` ".join(f"qualified(type(${r}))" for r in rets)
        rest = [f'let assemblyFormat = "{v} attr-dict `:` {vt}{" `->` " if vt and rt else ""}{rt}";']
    else:
        n = f"{len(args)}, {len(rets)}"
        rest = [
            "let hasCustomAssemblyFormat = 1;", "let extraClassDefinition = [{",
            f"ParseResult {cpp}::parse(OpAsmParser &parser, OperationState &result) {{", f"return parseDefaultTorchOp(parser, result, {n});", "}",
            f"void {cpp}::print(OpAsmPrinter &printer) {{", f"printDefaultTorchOp(printer, *this, {n});", "}", "}];",
        ]
    return (cpp, ".".join(atoms), sorted(traits), key, ins, outs, rest + flags)


def expected_td(ops):
    """The definitions for these registered operators.  Raises Unknown, for all there is to say."""
    by_key = {key_of(o): o for o in ops}
    by_triple = {triple_of(o): o for o in ops}
    out, missing = [], []
    for key, variant, extra, flags in committed()[3]:
        op = by_triple.get(variant) if variant else by_key.get(key)
        if op is None:
            missing.append(key)
            continue
        try:
            out.append(expect(op, extra, flags))
        except Unknown as e:
            missing.append(str(e))
    if missing:
        raise Unknown("\n".join(missing))
    return out


# ---------------------------------------------------------- library functions


@functools.cache
def units():
    """The script's statements: (helpers before any function of an operator etc., functions of operators)."""
    path = os.path.join(DIR, "abstract_interp_lib_gen.py")
    text = read(path)
    lines = text.splitlines(keepends=True)
    out = []
    for n in ast.parse(text).body:
        first = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
        code = "".join(lines[first - 1 : n.end_lineno])
        out.append((n.name if isinstance(n, ast.FunctionDef) else None, code))
    return out


@functools.cache
def functions():
    return [n for n, _ in units() if n and "〇" in n]


@functools.cache
def uses():
    known = set(functions())
    return {n: sorted(known & set(re.findall(r"\w+", c)) - {n}) for n, c in units() if n in known}


# Functions a developer adds
ADDED = {
    "quote": '''@not_present_in_registry
def sim〇quote〡shape(a: List[int]) -> List[int]:
    assert len(a) == 2, 'expected "two" dimensions'
    return a
''',
    "quote2": '''@not_present_in_registry
def sim〇quote〡shape(a: List[int]) -> List[int]:
    assert len(a) == 2, 'expected "six" dimensions'
    return a
''',
    "lines": '''@not_present_in_registry
def sim〇lines〡shape(a: List[int]) -> List[int]:
    assert len(a) == 2, "first\\nsecond\\tthird"
    return a
''',
    "backslash": '''@not_present_in_registry
def sim〇backslash〇Tensor〡dtype(a_rank_dtype: Tuple[int, int]) -> int:
    assert a_rank_dtype[0] == 2, "a\\\\b"
    return a_rank_dtype[1]
''',
    "long": "@not_present_in_registry\ndef sim〇long〡shape(a: List[int]) -> List[int]:\n    assert len(a) == 2, '"
    + "".join(f"{i} \"is\" {'x' * (i % 7)}" for i in range(9000)) + "'\n    return a\n",
    "calls": '''@not_present_in_registry
def sim〇calls〡shape(a: List[int]) -> List[int]:
    return aten〇triu〡shape(_sim_helper(a), 0)

def _sim_helper(a: List[int]) -> List[int]:
    return [x + 1 for x in a]
''',
    "kind": '''@not_present_in_registry
def sim〇kind〡decomposition(a: Tensor) -> Tensor:
    return torch.tanh(a)

@not_present_in_registry
def sim〇kind〡has_value_semantics() -> None:
    return
''',
    # these must be refused
    "bad:signature": '''def aten〇tanh〡shape(x: List[int]) -> List[int]:
    return x
''',
    "bad:unknown": '''def aten〇no_such_operator〡shape(self: List[int]) -> List[int]:
    return self
''',
    "bad:wrong": '''@check_shape_function([Invocation(TensorOfShape(2, 3))])
def aten〇tril〡shape(self: List[int], diagonal: int = 0) -> List[int]:
    return [3, 2]
''',
    "bad:throws": '''@check_shape_function([ErrorInvocation(TensorOfShape(2, 3))])
def aten〇tril〡shape(self: List[int], diagonal: int = 0) -> List[int]:
    return self
''',
    "bad:dtype": '''@check_dtype_function([Invocation(NonZeroDTensorWithDtype(torch.float32))])
def aten〇tanh〡dtype(self_rank_dtype: Tuple[int, int]) -> int:
    return torch.int64
''',
    "bad:script": '''@not_present_in_registry
def sim〇script〡shape(a: List[int]) -> List[int]:
    yield a
''',
}
ALWAYS = ("aten〇triu〡shape",)


def script_text(st):
    chosen = set(ALWAYS)
    todo = [functions()[i % len(functions())] for i in st["funcs"]]
    while todo:
        n = todo.pop()
        if n not in chosen:
            chosen.add(n)
            todo += uses()[n]
    added = [k for k in st["added"] if k in ADDED]
    redefined = {m for k in added for m in re.findall(r"(?m)^def (\w+)\(", ADDED[k])}
    out, tail = [], []
    for name, code in units():
        if name and "〇" in name and (name not in chosen or name in redefined):
            continue
        (tail if name in ("_maybe_import_op_extensions", "main", "_create_argparse") or code.startswith("if __name__") else out).append(code)
    uses_tensor = any("Tensor)" in ADDED[k] for k in added)
    if uses_tensor:
        out.append("from torch import Tensor\n")
    out += [ADDED[k] for k in added]
    return "".join(out + tail), sorted(n for n in (chosen - redefined) | {m for m in redefined if "〇" in m})


def escape(s):
    """As MLIR prints a string: quotes, backslashes and what is not printable as bytes."""
    out = []
    for b in s.encode():
        c = chr(b)
        if c == "\\":
            out.append("\\\\")
        elif 32 <= b < 127 and c != '"':
            out.append(c)
        else:
            out.append(f"\\{b:02X}")
    return "".join(out)


def symbol(name):
    if re.fullmatch(r"[A-Za-z_][\w$.]*", name, re.A):
        return "@" + name
    return f'@"{escape(name)}"'


def unmangle(name):
    return re.sub(r"___torch_mangle_\d+\.", "", name)


_SCRIPTED = {}
_SCRIPT = torch.jit.script
_CU = torch.jit._state._python_cu


def strings(graph):
    for n in graph.nodes():
        if n.kind() == "prim::Constant" and n.output().type().kind() == "StringType":
            yield n.s("value")
        for b in n.blocks():
            yield from strings(b)


def describe(fn, rename):
    """name, lines of the body and callees of a TorchScript function."""
    g = fn.graph
    text = re.sub(r" # .*", "", str(g))
    text = re.sub(r"%[\w.]+", "%", unmangle(text))
    calls = sorted(unmangle(c) for c in callees(g))
    lines = [f"call {rename(c)}(%)" for c in calls]
    lines += [f'str "{escape(s)}"' for s in strings(g)]
    lines.append(f'code "{hashlib.sha1(text.encode()).hexdigest()[:12]}"')
    return lines


def callees(graph):
    out = set()
    for n in graph.nodes():
        if n.kind() == "prim::CallFunction":
            s = str(next(n.inputs()).type())
            if not s.startswith("__torch__"):
                raise SimUnsupported(f"callee {s} {next(n.inputs()).node()}")
            out.add(s)
        for b in n.blocks():
            out |= callees(b)
    return out


def exported(name):
    """The name the passes look for."""
    m = re.fullmatch(r"__torch__\.(?:[^.(]+\.)*([^.(]+)〡([^.(]+)", name)
    if m and "〇" in m.group(1):
        return f"__torch_mlir_{m.group(2)}_fn." + m.group(1).replace("〇", ".")
    return name


# -------------------------------------------------------------------- world


def start():
    return {
        "order": 0, "gone": [], "ext": [[], []], "alias": [], "argname": [], "retname": [], "type": [], "extra": 40, "funcs": [0, 1, 2, 3],
        "added": [], "vision": True, "badext": None,
    }


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.fs = simfs.SimFS(run, faults=(), chunk=sc.get("chunk", 65536), tmp=False)
        self.fs.watch = self.look
        self.fs.observe = lambda: None
        self.inc = os.path.join(self.fs.root, "inc")
        self.tr = os.path.join(self.fs.root, "tr")
        os.mkdir(self.inc)
        os.mkdir(self.tr)
        self.st = start()
        self.state = {}  # file name -> contents
        self.good = {}
        self.bad = None
        self.completed = 0

    # -- what is registered

    def registry(self):
        """(registered from the start, by importing torchvision, by each extension)"""
        st = self.st
        every = everything()
        wanted = [k for k, *_ in committed()[3]]
        names = set(wanted)
        others = [k for k in every if k not in names]
        mine = [k for k in others if k.startswith("simops::")]
        others = [k for k in others if not k.startswith("simops::")]
        keys = wanted + others[: st["extra"] % 400] + mine[: st["extra"] % 6]
        need = {self.triple(n) for n in script_text(st)[1]}
        keys += [k for k in others if k not in keys and triple_of(every[k]) in need]
        ops = {k: duplicate(every[k]) for k in dict.fromkeys(keys)}

        def at(i):
            return ops[keys[i % len(keys)]]

        for i, j, how in st["alias"]:
            o = at(i)
            for xs in (o["arguments"], o["returns"])[j % 2 :]:
                if xs:
                    x = xs[j % len(xs)]
                    x.pop("alias_info", None)
                    if how:
                        x["alias_info"] = {"is_write": how == "write", "before": ["alias::a"], "after": ["alias::a"]}
                    break
            o["is_mutable"] = any(x.get("alias_info", {}).get("is_write") for x in o["arguments"] + o["returns"])
        for what, field in (("argname", "arguments"), ("retname", "returns")):
            for i, j, name in st[what]:
                xs = at(i)[field]
                if xs and name == "=":  # another one of the same length
                    old = xs[j % len(xs)]["name"]
                    name = old[1:] + old[:1] if old[1:2].isalpha() else old
                if xs and name not in [x["name"] for x in xs]:
                    xs[j % len(xs)]["name"] = name
        for i, j, new in st["type"]:
            xs = at(i)["arguments"]
            if xs:
                x = xs[j % len(xs)]
                x["type"] = new
                x["pytype"] = {"Tensor?": "Optional[Tensor]", "int[]": "List[int]", "Scalar": "number"}.get(new, new)
                x.pop("default_debug", None)
        gone = {keys[i % len(keys)] for i in st["gone"]}
        vision = [o for k, o in ops.items() if k.startswith("torchvision::")]
        exts = []
        for part in st["ext"]:
            exts.append([ops[k] for k in dict.fromkeys(keys[i % len(keys)] for i in part if i >= 0) if k not in gone and not k.startswith("torchvision::")])
        away = {id(o) for p in exts for o in p} | {id(o) for o in vision}
        base = [o for k, o in ops.items() if k not in gone and id(o) not in away]
        vision = [o for o in vision if key_of(o) not in gone]
        base.sort(key=lambda o: hashlib.md5(f"{st['order']}{key_of(o)}".encode()).digest() if st["order"] else b"")
        return base, vision, exts

    @staticmethod
    def triple(function):
        atoms = function.split("〡")[0].split("〇")
        return tuple(atoms + [""] * (3 - len(atoms)))

    def extension_names(self):
        return [n for n, part in zip(EXTENSIONS, self.st["ext"]) if part]

    # -- files

    def path(self, name):
        return os.path.join(self.inc if name == TD else self.tr, name)

    def contents(self, name):
        keep, self.fs.bypass = self.fs.bypass, 1
        try:
            return read(self.path(name)) if os.path.exists(self.path(name)) else None
        except UnicodeDecodeError:
            return "<not text>"
        finally:
            self.fs.bypass = keep

    def look(self, what, path):
        if self.bad is not None:
            return
        for name in (TD, CPP):
            now = self.contents(name)
            if now != self.state.get(name) and not self.whole(name, now):
                self.bad = (name, f"after {what} of {self.fs.show(path)}: " + ("it is gone" if now is None else f"{len(now)} characters, " + str(wrong(name, now, self.want[name]) if self.want[name] else "none was to be made")))

    def whole(self, name, text):
        if text is None:
            return False
        key = (name, hashlib.sha1(text.encode()).digest())
        if key not in self.good:
            want = self.want[name]
            self.good[key] = want is not None and wrong(name, text, want) is None
        return self.good[key]

    # -- processes

    def process(self, script, argv, file, base, vision, exts):
        """One run of a script as the main program.  Returns (how it ended or None, output)."""
        now = list(base)
        mod = types.ModuleType("__main__")
        mod.__file__ = file
        mod.__package__ = PKG
        world = self
        cu = [entry(f) for f in at_import()]

        def registered():
            return [duplicate(o) for o in now]

        def get(name, ops):
            m = types.ModuleType(name)
            if name == "torchvision" and not self.st["vision"] or name == self.st["badext"]:
                return None

            def load():
                now.extend(ops)

            return m, load

        loadable = {"torchvision": vision, **dict(zip(EXTENSIONS, exts))}

        class Finder:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name not in loadable:
                    return None
                got = get(name, loadable[name])
                if got is None:
                    raise ModuleNotFoundError(f"No module named {name!r}", name=name)

                class Loader:
                    @staticmethod
                    def create_module(spec):
                        return got[0]

                    @staticmethod
                    def exec_module(m):
                        got[1]()

                return importlib.machinery.ModuleSpec(name, Loader)

        def script_fn(obj, *a, **kw):
            if not isinstance(obj, types.FunctionType):
                return _SCRIPT(obj, *a, **kw)
            for o in cu:
                if o.fn is obj:
                    return o
            return world.script(obj, cu)

        class Cu:
            def get_functions(self):
                return list(cu)

        class State:
            _python_cu = Cu()

            def __getattr__(self, n):
                return getattr(keep["state"], n)

        importlib.import_module("torch_mlir.jit_ir_importer")
        importlib.import_module("torch_mlir.passmanager")
        native = sys.modules["torch_mlir._mlir_libs._jit_ir_importer"]
        keep = {
            "main": sys.modules["__main__"], "argv": sys.argv, "state": torch.jit._state, "get": native.get_registered_ops,
            "mods": {n: m for n, m in sys.modules.items() if n.startswith(PKG + ".")}, "meta": list(sys.meta_path), "cwd": os.getcwd(),
            "out": (sys.stdout, sys.stderr),
        }
        import logging

        handlers, level = list(logging.root.handlers), logging.root.level
        sink = io.StringIO()
        mlir.hooks.reset()
        mlir.hooks.import_module = self.import_function
        mlir.hooks.run_pass = self.run_pass
        mlir.hooks.tick = self.tick
        asm, mlir.Operation.get_asm = mlir.Operation.get_asm, lambda op, *a, **kw: world.asm(op)
        self.builders = {}
        try:
            for n in keep["mods"]:
                del sys.modules[n]
            for n in loadable:
                sys.modules.pop(n, None)
            sys.meta_path.insert(0, Finder)
            native.get_registered_ops = registered
            sys.modules["__main__"] = mod
            sys.argv = [file] + argv
            torch.jit.script = script_fn
            torch.jit._state = State()
            sys.stdout = sys.stderr = sink
            self.fs.ops = 0
            self.fs.crashed = False
            code = compiled(script, file)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with self.fs:
                    try:
                        exec(code, mod.__dict__)
                    except SystemExit as e:
                        if e.code not in (None, 0):
                            return f"exit {e.code}", sink.getvalue()
                    except simfs.Crash:
                        return "died", sink.getvalue()
                    except (Exception, KeyboardInterrupt) as e:
                        if isinstance(e, (Violation, InvalidScenario)):
                            raise
                        return f"{type(e).__name__}: {str(e)[:300]}", sink.getvalue()
            return None, sink.getvalue()
        finally:
            sys.stdout, sys.stderr = keep["out"]
            torch.jit.script, torch.jit._state = _SCRIPT, keep["state"]
            mlir.Operation.get_asm = asm
            mlir.hooks.reset()
            native.get_registered_ops = keep["get"]
            sys.meta_path[:] = keep["meta"]
            for n in [n for n in sys.modules if n.startswith(PKG + ".") or n in loadable]:
                del sys.modules[n]
            sys.modules.update(keep["mods"])
            sys.modules["__main__"] = keep["main"]
            sys.argv = keep["argv"]
            logging.root.handlers[:] = handlers
            logging.root.setLevel(level)

    # -- TorchScript and the native importer

    def script(self, obj, cu):
        """Compiles a function into the process's compilation unit, callees first."""
        real = scripted(obj)
        for f in closure(real):
            if f.qualified_name not in [o.real for o in cu]:
                cu.append(entry(f))
        e = next(o for o in cu if o.real == real.qualified_name)
        e.fn = obj
        return e

    def import_function(self, mb, fn, annotator, options):
        fs_ = self.builders.setdefault(id(mb.module.operation), (mb.module.operation, {}))[1]
        if fn.qualified_name in fs_:
            raise mlir.MLIRError(f"redefinition of symbol {fn.qualified_name}")
        fs_[fn.qualified_name] = [fn, False]

    def run_pass(self, pm, op):
        if re.sub(r"\s", "", pm.pipeline) != "builtin.module(canonicalize)":
            raise SimUnsupported(pm.pipeline)
        for v in self.builders.get(id(getattr(op, "operation", op)), (None, {}))[1].values():
            v[1] = True

    def tick(self, point):
        f = self.native
        if f and f["point"] == point:
            f["n"] -= 1
            if f["n"] == 0:
                self.run.fault(f"native failure at {point}")
                self.run.log("native failure", point)
                raise RuntimeError(f"failure in {point}")

    def asm(self, op):
        self.tick("get_asm")
        fs_ = self.builders.get(id(op), (None, {}))[1]
        out = ["module {"]
        for name, (fn, canonical) in fs_.items():
            out.append(f"  func.func {symbol(name)}() {{")
            out += ["    " + x for x in describe(fn, symbol)]
            if not canonical:
                out.append("    not canonical")
            out.append("  }")
        return "\n".join(out + ["}", ""])

    # -- what is to come out

    def expected_lib(self, ops):
        """(symbols that must be there, symbols that may), both with their bodies.  Raises Unknown."""
        text, names = script_text(self.st)
        bad = [k for k in self.st["added"] if k.startswith("bad:")]
        if bad:
            raise Unknown(bad[0])
        by = {triple_of(o): o for o in ops}
        orig = originals()
        free = not_present(text)
        for n in names:
            if n in free:
                continue
            t = self.triple(n)
            if t not in by:
                raise Unknown(n)
            if not n.endswith("〡has_value_semantics"):
                for field in ("arguments", "returns"):
                    if [visible(a, field) for a in by[t][field]] != [visible(a, field) for a in orig[t][field]]:
                        raise Unknown(n + " with this signature")
        return reference(text, names)

    # -- operations

    def edit(self, what, value):
        if what not in self.st or isinstance(self.st[what], list) != isinstance(value, list):
            raise InvalidScenario(what)
        if what == "ext" and (len(value) != 2 or not all(isinstance(x, list) for x in value)):
            raise InvalidScenario(what)
        if what in ("alias", "argname", "retname", "type") and not all(isinstance(x, list) and len(x) == 3 for x in value):
            raise InvalidScenario(what)
        self.st = dict(self.st, **{what: value})
        self.run.log("edit", what, value)

    def generate(self, which, dump, fault):
        argv = []
        exts = self.extension_names()
        self.want = {TD: None, CPP: None}
        self.good = {}
        reason = None
        base, vision, extops = self.registry()
        ops = base + vision + [o for p in extops for o in p]
        try:
            if not self.st["vision"] or self.st["badext"] in exts:
                raise Unknown("module cannot be imported")
            if which == "ods":
                self.want[TD] = expected_td(ops)
            else:
                self.want[CPP] = self.expected_lib(ops)
        except Unknown as e:
            reason = str(e)
        for name in (TD, CPP):
            self.state[name] = self.contents(name)
        name = TD if which == "ods" else CPP
        if exts:
            argv.append("--pytorch_op_extensions=" + ",".join(exts) + " " * (len(exts) % 2))
        dump_path = os.path.join(self.fs.root, "dump.txt")
        if which == "ods":
            argv.append(f"--torch_ir_include_dir={self.inc}")
            if dump:
                argv.append(f"--debug_registry_dump={dump_path}")
            file = os.path.join(DIR, "torch_ods_gen.py")
            script = read(file)
        else:
            argv.append(f"--torch_transforms_cpp_dir={self.tr}")
            script, _ = script_text(self.st)
            file = f"/sim/generator/{hashlib.sha1(script.encode()).hexdigest()[:12]}.py"
            linecache.cache[file] = (len(script), None, script.splitlines(keepends=True), file)
        self.fs.faults = []
        self.native = None
        if fault:
            if fault["kind"] == "native":
                self.native = {"point": fault["point"], "n": max(1, fault["at"] % 8)}
            else:
                self.fs.faults = [[fault["at"], fault["kind"]] + ([True] if fault.get("stays") else [])]
        before = sum(self.run.faults.values())
        self.bad = None
        err, output = self.process(script, argv, file, base, vision, extops)
        fired = sum(self.run.faults.values()) > before
        self.run.steps += self.fs.ops
        self.run.log("run", which, "dump" if dump else "", exts, "->", err.split(":")[0] if err else "done", self.fs.ops)
        if self.bad is not None:
            raise Violation("torn-output", f"{which}: {self.bad[0]} is neither what it was nor a whole generation, {self.bad[1]} ({'the run ended with ' + err if err else 'the run succeeded'})")
        now = self.contents(name)
        other = CPP if which == "ods" else TD
        if self.contents(other) != self.state[other]:
            raise Violation("other-file", f"{which}: the run changed {other}")
        if err is not None:
            if now != self.state[name] and not self.whole(name, now):
                raise Violation("torn-output", f"{which}: the run failed with {err} and left {name} changed")
            if not fired and reason is None:
                raise Violation("run-failed", f"{which}: the run failed with {err}, though all it needs is registered; {output[-200:]}")
            if reason is not None:
                self.run.probe("refused")
                names = [unqualified(x) for x in reason.split("\n")]
                if which == "ods" and "module" not in reason and not fired and not any(x in output + err for x in names):
                    raise Violation("unnamed-operator", f"ods: the run failed with {err} and does not name {reason}")
            return
        if reason is not None:
            raise Violation("false-success", f"{which}: the run succeeded, though there is no {reason[:200]}")
        if now is None:
            raise Violation("wrong-output", f"{which}: the run succeeded and there is no {name}")
        why = wrong(name, now, self.want[name])
        if why:
            raise Violation("wrong-output", f"{which}: {why}")
        if dump and which == "ods":
            check_dump(read(dump_path), ops)
        self.completed += 1
        self.run.probe(f"{which} completed")
        if self.completed > 1:
            self.run.nontrivial = True
        self.run.state([which] + sorted((k, str(v)) for k, v in self.st.items()))

    def play(self):
        why = check_committed()
        if why:
            self.fs.destroy()
            raise Violation("committed", "the committed file is not what the generator makes of PyTorch's operators: " + why)
        try:
            for op in self.sc["ops"]:
                if op[0] == "edit":
                    self.edit(op[1], op[2])
                elif op[0] == "run":
                    self.generate(*op[1:])
                else:
                    raise InvalidScenario(str(op))
        finally:
            self.fs.destroy()


def unqualified(key):
    if key.startswith("type "):
        return key[5:]
    return key.split(" ")[0].partition("::")[2].partition(".")[0]


_COMPILED = {}


def compiled(script, file):
    key = (file, hashlib.sha1(script.encode()).digest())
    if key not in _COMPILED:
        _COMPILED[key] = compile(script, file, "exec", dont_inherit=True)
    return _COMPILED[key]


class Entry:
    """A function of the process's compilation unit."""

    def __init__(self, f):
        self.name, self.qualified_name, self.real = f.name, unmangle(f.qualified_name), f.qualified_name
        self.graph, self.fn, self.call = f.graph, None, f

    def __call__(self, *a, **kw):
        return self.call(*a, **kw)


entry = Entry


@functools.cache
def at_import():
    """What PyTorch itself has compiled once it is imported."""
    importlib.import_module("torch.jit._shape_functions")
    return [f for f in _CU.get_functions() if f.qualified_name.startswith("__torch__.torch.jit.")]


def scripted(obj):
    source = inspect.getsource(obj)
    key = source[source.index(f"def {obj.__name__}") :]
    if key not in _SCRIPTED:
        keep, torch.jit.script = torch.jit.script, _SCRIPT
        st, torch.jit._state = torch.jit._state, sys.modules["torch.jit._state"]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _SCRIPTED[key] = _SCRIPT(obj)
        finally:
            torch.jit.script, torch.jit._state = keep, st
    return _SCRIPTED[key]


def closure(fn):
    """The functions a function calls, callees first, and the function."""
    seen = {}

    def visit(f):
        for c in sorted(callees(f.graph)):
            if c not in seen:
                seen[c] = None
                g = _CU.find_function(c)
                if g is None:
                    raise SimUnsupported(f"callee {c}")
                visit(g)
                seen[c] = g

    visit(fn)
    return [f for f in seen.values() if f is not None and f.qualified_name != fn.qualified_name] + [fn]


@functools.cache
def originals():
    return {triple_of(o): o for o in everything().values()}


def visible(a, field):
    """What of an argument shows in a function's signature."""
    return a["pytype"] if field == "returns" else (a["name"], a["pytype"], a.get("default_debug"))


@functools.cache
def not_present(text):
    return {
        n.name for n in ast.parse(text).body
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "not_present_in_registry" for d in n.decorator_list)
    }


@functools.cache
def reference_module(text):
    """The script's functions without what checks them."""
    tree = ast.parse(text)
    keep = []
    for n in tree.body:
        if isinstance(n, ast.If) or isinstance(n, ast.FunctionDef) and n.name in ("main", "_create_argparse", "_maybe_import_op_extensions"):
            continue
        if isinstance(n, ast.FunctionDef):
            n.decorator_list = [d for d in n.decorator_list if not ast.unparse(d).startswith(("check_", "not_present"))]
        keep.append(n)
    tree.body = keep
    source = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
    file = f"/sim/reference/{hashlib.sha1(source.encode()).hexdigest()[:12]}.py"
    linecache.cache[file] = (len(source), None, source.splitlines(keepends=True), file)
    m = types.ModuleType("__main__")
    m.__file__, m.__package__ = file, PKG
    keep = sys.modules["__main__"]
    sys.modules["__main__"] = m
    try:
        exec(compile(source, file, "exec", dont_inherit=True), m.__dict__)
    finally:
        sys.modules["__main__"] = keep
    return m


_REFERENCE = {}


def reference(text, names):
    key = hashlib.sha1(text.encode()).digest()
    if key not in _REFERENCE:
        m = reference_module(text)
        keep = sys.modules["__main__"]
        sys.modules["__main__"] = m
        try:
            must = {}
            for n in names:
                real = _SCRIPTED_REF.get(reference_key(m, n))
                if real is None:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        real = _SCRIPTED_REF[reference_key(m, n)] = _SCRIPT(getattr(m, n))
                for f in closure(real):
                    if f.name != "__torch_mlir_internal_promote_dtypes":
                        must[final(f)] = sorted(describe(f, exported))
        finally:
            sys.modules["__main__"] = keep
        may = {final(f): sorted(describe(f, exported)) for f in at_import()}
        _REFERENCE[key] = must, {**may, **must}
    return _REFERENCE[key]


_SCRIPTED_REF = {}


def reference_key(m, n):
    return inspect.getsource(getattr(m, n))


def final(f):
    return exported(unmangle(f.qualified_name))


# ------------------------------------------------------------------- checks


def unescape(s):
    """What a C++ compiler makes of the inside of a string literal."""
    simple = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", '"': '"', "'": "'", "\\": "\\", "?": "?"}

    def one(m):
        c = m.group(1)
        if c in simple:
            return simple[c]
        if c[0] == "x":
            return chr(int(c[1:], 16) & 255)
        if c[0] in "01234567":
            return chr(int(c, 8) & 255)
        return c

    return re.sub(r"\\([0-7]{1,3}|x[0-9a-fA-F]+|.)", one, s, flags=re.S)


LITERAL = re.compile(r'"((?:[^"\\\n]|\\.)*)"')


@functools.cache
def frame():
    head, body, tail = split(read(os.path.join(core.REPO, "lib/Dialect/Torch/Transforms", CPP)))
    return head, tail


def split(text):
    a = text.find("return ")
    b = text.find(";\n", a)
    lits = []
    i = a + len("return ")
    while a >= 0:
        m = re.compile(r"\s*").match(text, i)
        i = m.end()
        m = LITERAL.match(text, i)
        if not m:
            b = i
            break
        lits.append(m.group(1))
        i = m.end()
    return tidy(text[:a]), "".join(unescape(x) for x in lits), tidy(text[b:])


def tidy(text):
    return [x.strip() for x in text.splitlines() if x.strip()]


def wrong(name, text, want):
    """How a file differs from what it is to be, or None."""
    if name == TD:
        got = parse(text)
        if got is None:
            return "the file has something that is not a definition"
        head, defs = got
        if head != committed()[0]:
            return "the banner is another one"
        got = [d.fields() for d in defs]
        for g, w in zip(got, want):
            if g != w:
                return f"{w[3]}: " + next(f"{x!r} instead of {y!r}" for x, y in zip(g, w) if x != y)[:300]
        if len(got) != len(want):
            return f"{len(got)} definitions instead of {len(want)}"
        return None
    head, asm, tail = split(text)
    if (head, tail) != frame():
        return "what is around the library is not as it was"
    lines = [x.strip() for x in asm.split("\n")]
    if lines[0] != "module {" or lines[-2:] != ["}", ""]:
        return f"the library is not a module: {asm[:60]!r} ... {asm[-60:]!r}"
    got = {}
    cur = None
    for x in lines[1:-2]:
        m = re.fullmatch(r'func\.func @("?)(.*?)\1\(\) \{', x)
        if m and cur is None:
            cur = []
            if m.group(2) in got:
                return f"{m.group(2)} is defined twice"
            got[m.group(2)] = cur
        elif x == "}" and cur is not None:
            cur = None
        elif cur is not None:
            m = re.fullmatch(r'call @("?)(.*)\1\(%\)', x)
            cur.append(f"call {m.group(2)}(%)" if m else x)
        else:
            return f"unexpected line {x!r}"
    must, may = want
    for n in must:
        if n not in got:
            return f"{n} is missing"
    for n, body in got.items():
        if n not in may and not n.startswith("__torch_mlir_") and "〇" not in n and "\\" not in n:
            continue  # what the script's modules compile for themselves
        if n not in may:
            return f"{n} is there and should not be"
        if sorted(body) != may[n]:
            x = [b for b in body if b not in may[n]] or [b for b in may[n] if b not in body]
            return f"{n} is another function: {x[:2]}"
    return None


def check_dump(text, ops):
    blocks = re.split(r"(?m)^(?=JitOperator ')", text)
    if blocks[0].strip():
        raise Violation("wrong-dump", f"the dump starts with {blocks[0][:80]!r}")
    by = {key_of(o): o for o in ops}
    got = [b[len("JitOperator '") : b.index("':\n")] for b in blocks[1:]]
    if got != sorted(by):
        miss = sorted(set(by) ^ set(got))
        raise Violation("wrong-dump", f"the dump has not every operator once and in order: {miss[:3]}")
    for k, b in zip(got, blocks[1:]):
        o = by[k]
        lines = [x.strip() for x in b.splitlines()]
        ns, name, overload = triple_of(o)
        want = [f"namespace = {ns}", f"unqualified_name = {name}", f"overload_name = {overload}".strip(), f"is_mutable = {o['is_mutable']}"]
        want += [f"is_vararg = {o['is_vararg']}", f"is_varret = {o['is_varret']}", f"MLIR op name = torch.{'.'.join([ns, name] + [overload] * bool(overload))}"]
        want += [f"arg: {a}" for a in o["arguments"]] + [f"ret: {a}" for a in o["returns"]]
        for w in want:
            if w not in lines:
                raise Violation("wrong-dump", f"{k}: the dump does not say {w!r}")
        orig = originals().get(triple_of(o))
        if orig is None or key_of(orig) != k or [visible(a, "arguments") for a in o["arguments"]] != [visible(a, "arguments") for a in orig["arguments"]]:
            continue
        for kind in ("shape", "dtype"):
            d = declared().get((triple_of(o), kind))
            got_sig = [x.partition(" = ")[2] for x in lines if x.startswith(f"{kind}_function_signature")]
            if d and got_sig and got_sig != [d]:
                raise Violation("wrong-dump", f"{k}: signature {got_sig[0]} instead of {d}")


@functools.cache
def declared():
    """(operator, kind) -> the signature in the library, where the generator accepts it."""
    out = {}
    free = not_present(read(os.path.join(DIR, "abstract_interp_lib_gen.py")))
    for name, code in units():
        if name and "〡" in name and name not in free:
            out[World.triple(name), name.split("〡")[1]] = next(x for x in code.splitlines() if x.startswith("def "))
    return out


@functools.cache
def check_committed():
    """Why the committed files are not what the generators make, or None."""
    try:
        committed()
        want = expected_td([o for k, o in everything().items() if not k.startswith("simops::")])
    except Unknown as e:
        return f"{TD} defines {e}, which PyTorch does not have"
    except (KeyError, TypeError, ValueError, AttributeError) as e:
        return f"{TD} is not a list of definitions of PyTorch's operators: {type(e).__name__} {str(e)[:100]}"
    why = wrong(TD, read(COMMITTED), want)
    if why:
        return f"{TD}: {why}"
    head, asm, tail = split(read(os.path.join(core.REPO, "lib/Dialect/Torch/Transforms", CPP)))
    got = set(re.findall(r'func\.func @"(__torch_mlir_[^"]*)"', asm))
    want = {exported("__torch__." + n) for n in functions()}
    if got != want:
        n = sorted(got ^ want)[0]
        return f"{CPP} and the script differ in {n}"
    return None


def setup():
    mlir.install()
    everything()
    if check_committed() is None:
        functions()
    at_import()
