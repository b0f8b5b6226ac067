"""A simulated process that runs programs through TorchDynamo and Torch-MLIR.

PyTorch's own TorchDynamo and AOTAutograd capture the graphs; the code under
test brings them into shape, imports them and restores the calling convention.
The device is simulated: it runs the imported module (or, for a back end that
takes the normalised graph, the graph) and fails when the scenario says so.
"""

import copy
import operator

import torch
import torch._dynamo
import torch.utils._pytree as pytree
from torch._decomp import get_decompositions
from torch._dynamo.backends.common import aot_autograd
from torch._functorch.aot_autograd import make_boxed_compiler
from torch._subclasses import FakeTensor
from torch.utils._python_dispatch import _disable_current_modes

from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir
from . import fxprog, fxworld, interp
from .fxworld import FAULTS, InjectedInterrupt, injected

from torch_mlir import _dynamo_fx_importer as dimp  # noqa: E402
from torch_mlir import dynamo as tdyn  # noqa: E402

aten = torch.ops.aten

# What PyTorch captures and Torch-MLIR asks to have decomposed.
DECOMPOSED = [
    aten._adaptive_avg_pool2d, aten.std.correction, aten.dot, aten._native_batch_norm_legit_functional,
    aten.native_group_norm, aten.norm.ScalarOpt_dim, aten.embedding_dense_backward,
    aten.native_layer_norm_backward, aten.slice_backward, aten.select_backward, aten.upsample_bilinear2d.vec,
    aten.mse_loss_backward, aten.native_group_norm_backward, aten.sigmoid_backward,
    aten._native_batch_norm_legit, aten.squeeze, aten._scaled_dot_product_flash_attention_for_cpu,
    aten._native_batch_norm_legit_no_training,
]

# Those of which all overloads are.
WHOLE = [
    aten._adaptive_avg_pool2d, aten.dot, aten.native_group_norm, aten.embedding_dense_backward, aten.native_layer_norm_backward,
    aten.slice_backward, aten.select_backward, aten.mse_loss_backward, aten.native_group_norm_backward, aten.sigmoid_backward,
    aten._scaled_dot_product_flash_attention_for_cpu, aten._native_batch_norm_legit_no_training, aten.squeeze,
    aten._native_batch_norm_legit_functional,
]
LITERALS = (bool, int, float, str, torch.dtype, torch.device, torch.memory_format, torch.layout)


def beyond(graph):
    """Why a graph is outside what the importer takes (None when it is inside)."""

    def fake(v):
        if isinstance(v, (list, tuple)):
            return all(isinstance(x, FakeTensor) for x in v)
        return isinstance(v, FakeTensor)

    ops = mlir.registered_ops()
    for n in graph.nodes:
        if n.op not in ("placeholder", "call_function", "output"):
            return f"{n.op} node"
        if n.op == "output":
            outs = n.args[0]
            if not isinstance(outs, (list, tuple)) or not all(isinstance(x, torch.fx.Node) for x in outs):
                return "a result that is no tensor"
            continue
        if not fake(n.meta.get("val")):
            return f"{n.name} is no tensor"
        if n.op == "placeholder":
            v = n.meta["val"]
            if v.layout is not torch.strided:
                return "sparse input"
            continue
        for v in n.meta["val"] if isinstance(n.meta["val"], (list, tuple)) else [n.meta["val"]]:
            if v.dtype not in dimp.DTYPE_TO_INT or v.layout is not torch.strided or any(not isinstance(d, int) for d in v.shape):
                return f"type of {n.name}"
        if n.target is operator.getitem:
            if isinstance(n.args[0].target, torch._ops.OpOverload) and len(n.args[0].target._schema.returns) == 1:
                return "list result"
            continue
        if not isinstance(n.target, torch._ops.OpOverload):
            return f"target {n.target}"
        s = n.target._schema
        if any(not isinstance(r.type, torch.TensorType) for r in s.returns):
            return f"results of {n.target}"
        name = "torch." + s.name.replace("::", ".") + ("." + s.overload_name if s.overload_name else "")
        if name not in ops:
            return f"operation {name} is not registered"
        given = dict(zip([a.name for a in s.arguments], n.args))
        given.update(n.kwargs)
        for p in s.arguments:
            if p.name not in given:
                continue
            t, v = p.type, given[p.name]
            if isinstance(v, torch.fx.Node) or v is None:
                continue
            if isinstance(t, torch.OptionalType):
                t = t.getElementType()
            if isinstance(v, (list, tuple)):
                if not isinstance(v, list):
                    return "tuple literal"
                if not isinstance(t, torch.ListType):
                    return "list literal"
                e = t.getElementType()
                if isinstance(e, torch.OptionalType):
                    e = e.getElementType()
                for x in v:
                    if isinstance(x, torch.fx.Node) or x is None:
                        continue
                    if not isinstance(x, (bool, int, float, str)):
                        return f"literal {x!r}"
                    if isinstance(e, torch.FloatType) and not isinstance(x, float):
                        return "number of another kind"
                    if isinstance(e, torch.NumberType):
                        return "list of numbers"
                continue
            if not isinstance(v, LITERALS):
                return f"literal {v!r}"
            if isinstance(t, torch.TensorType):
                return "number for a tensor"
            if isinstance(t, torch.FloatType) and not isinstance(v, float):
                return "number of another kind"
            if isinstance(t, torch.IntType) and isinstance(v, (bool, float)):
                return "number of another kind"
    return None


def scalarize(graph):
    """What callers of the importer do: the overloads for numbers where numbers are given."""
    for n in graph.nodes:
        if n.op != "call_function" or not isinstance(n.target, torch._ops.OpOverload):
            continue
        if n.target._overloadname in ("Tensor", "Tensor_mode") and len(n.args) == 2 and not isinstance(n.args[1], torch.fx.Node):
            name = n.target._overloadname.replace("Tensor", "Scalar")
            if name in n.target.overloadpacket.overloads():
                n.target = getattr(n.target.overloadpacket, name)


def rebind(graph, tweaks):
    """The same program with some arguments passed the other way."""
    calls = [n for n in graph.nodes if n.op == "call_function" and isinstance(n.target, torch._ops.OpOverload)]
    for which, how in tweaks:
        if not calls:
            return
        n = calls[which % len(calls)]
        params = n.target._schema.arguments
        if how == 0:  # leave out what is the default
            args = list(n.args)
            while args and params[len(args) - 1].has_default_value() and not isinstance(args[-1], torch.fx.Node) and type(args[-1]) is type(params[len(args) - 1].default_value) and args[-1] == params[len(args) - 1].default_value:
                args.pop()
            n.args = tuple(args)
        else:  # by keyword
            k = min(how, len(n.args))
            cut = len(n.args) - k
            n.kwargs = dict(n.kwargs, **{p.name: a for p, a in zip(params[cut:], n.args[cut:])})
            n.args = tuple(n.args[:cut])


class Conv(torch.nn.Module):
    """Returns what the program computes in one of the shapes callers use."""

    def __init__(self, base, ret, brk=False, extra=None):
        super().__init__()
        self.base, self.ret, self.brk, self.extra = base, ret, brk, extra

    def forward(self, *inputs):
        out = self.base(*inputs)
        outs = list(out) if isinstance(out, (list, tuple)) else [out]
        if self.brk:
            torch._dynamo.graph_break()
            outs = [o * 2 if isinstance(o, torch.Tensor) and o.is_floating_point() else o for o in outs]
        r, x = self.ret, inputs[0]
        if self.extra:
            outs.append(EXTRA[self.extra](x))
        if r == "asis":
            return outs[0] if len(outs) == 1 else tuple(outs)
        if r == "one":
            return outs[0]
        if r == "list1":
            return [outs[-1]]
        if r == "tuple1":
            return (outs[-1],)
        if r == "list":
            return outs
        if r == "dict":
            return {f"k{i}": o for i, o in enumerate(outs)}
        if r == "nest":
            return (outs[0], [outs[-1], {"z": (outs[0],)}])
        if r == "none":
            return None, outs[0], None
        if r == "input":
            return x, outs[0]
        if r == "dup":
            return outs[0], outs[0]
        if r == "num":
            return outs[0], 3, 2.5, "s", True
        if r == "view":
            return outs[0], x.reshape(-1), x[:1]
        if r == "inplace":
            x.add_(1)
            return outs[0]
        if r == "only":
            x.mul_(2)
            return None
        if r == "shape":
            return outs[0], x.shape[0], list(x.shape)
        raise InvalidScenario(r)


RETS = ["asis", "one", "list1", "tuple1", "list", "dict", "nest", "none", "input", "dup", "num", "view", "inplace", "only", "shape"]

_F = torch.nn.functional
EXTRA = {
    "std": lambda x: x.std(),
    "var": lambda x: x.var(0, unbiased=False),
    "dot": lambda x: torch.dot(x.reshape(-1), x.reshape(-1)),
    "norm": lambda x: x.norm(2, dim=1),
    "layer_norm": lambda x: _F.layer_norm(x, (x.shape[1],)),
    "group_norm": lambda x: _F.group_norm(x.reshape(1, x.shape[1], -1), 2),
    "batch_norm": lambda x: _F.batch_norm(x.reshape(1, -1, 4).transpose(1, 2), torch.zeros(4), torch.ones(4)),
    "batch_norm_train": lambda x: _F.batch_norm(x, torch.zeros(4), torch.ones(4), training=True),
    "pool": lambda x: _F.adaptive_avg_pool2d(x.reshape(1, 1, -1, 4), (1, 2)),
    "resize": lambda x: _F.interpolate(x.reshape(1, 1, -1, 4), scale_factor=2.0, mode="bilinear"),
    "mse": lambda x: _F.mse_loss(x, torch.zeros_like(x)),
    "sigmoid": lambda x: torch.sigmoid(x),
    "squeeze": lambda x: x.reshape(1, -1).squeeze(0),
    "squeeze_all": lambda x: x.reshape(1, -1, 1).squeeze(),
    "embed": lambda x: _F.embedding(torch.tensor([1, 0]), x),
    "attention": lambda x: _F.scaled_dot_product_attention(x.reshape(1, 1, -1, 4), x.reshape(1, 1, -1, 4), x.reshape(1, 1, -1, 4)),
    "select": lambda x: x[1] * x.select(0, 0),
    "split": lambda x: x.split(2, 1)[1],
    "topk": lambda x: x.topk(2, 1)[0],
    "max": lambda x: x.max(1)[0] + x.max(1)[1],
    "index": lambda x: x[torch.tensor([1, 0]), :] + x[:, torch.tensor([2])][:2],
    "full": lambda x: torch.full((2, 3), 7.5) + torch.arange(3, dtype=torch.float32),
    "ones": lambda x: torch.ones(2, dtype=torch.float64, device="cpu") * 2,
    "gelu": lambda x: _F.gelu(x, approximate="tanh"),
    "cat": lambda x: torch.cat([x, x * 2, x], 1),
    "empty": lambda x: torch.empty_like(x, memory_format=torch.contiguous_format).fill_(3),
    "clamp": lambda x: x.clamp(max=0.25) + x.clamp(-0.5),
    "to": lambda x: x.to(torch.int32) + x.to(torch.float64),
    "where": lambda x: torch.where(x > 0, x, -1.0),
    "conv": lambda x: _F.conv1d(x.reshape(1, 1, -1), torch.ones(2, 1, 3), stride=2, padding=1),
    "pad": lambda x: _F.pad(x, (1, 2), value=0.5),
    "bool": lambda x: (x > 0.5).any(1).logical_not(),
    "scalar": lambda x: x.sum(dtype=torch.float64) + 1,
    "softmax": lambda x: torch.softmax(x, -1, dtype=torch.float64),
    "std_mean": lambda x: torch.std_mean(x, 1)[1],
    "roll": lambda x: torch.roll(x, [1, 2], [0, 1]),
    "complex": lambda x: torch.view_as_real(x.to(torch.complex64) * x.to(torch.complex64)),
    "complex_wide": lambda x: torch.view_as_real(x.to(torch.complex128) * 2),
    "half": lambda x: x.to(torch.float16).float() + x.to(torch.bfloat16).float(),
    "small": lambda x: (x.abs().to(torch.uint8) + x.abs().to(torch.int16)).to(torch.int8),
    "format": lambda x: x.reshape(1, 1, -1, 2).clone(memory_format=torch.channels_last),
    "format_3d": lambda x: torch.zeros_like(x.reshape(1, 1, 1, -1, 2), memory_format=torch.channels_last_3d),
    "inf": lambda x: torch.where(x > 0, float("inf"), float("-inf")),
}


def model_of(spec):
    """(module, [arguments of call i])"""
    if "suite" in spec:
        t = fxprog.suite().get(spec["suite"])
        if t is None:
            raise InvalidScenario(spec["suite"])
        m, args = fxprog.suite_module(spec["suite"])
        return m, lambda c: copy.deepcopy(args)
    m = fxprog.GenModule(spec["gen"])
    return (
        Conv(m, spec.get("ret", "asis"), spec.get("break", False), spec.get("extra")),
        lambda c: tuple(fxprog.gen_inputs(spec["gen"], spec["gen"]["n"] + (c % 2 if spec.get("grow") else 0), c)),
    )


class Session:
    """One program under three treatments, with its own state in each."""

    def __init__(self, world, no, spec, mode):
        self.w, self.no, self.spec, self.mode = world, no, spec, mode
        torch.manual_seed(7)
        self.subject, self.args = model_of(spec)
        for p in self.subject.parameters():
            p.requires_grad_(bool(spec.get("train")) and p.is_floating_point())
        self.golden = copy.deepcopy(self.subject)
        self.plain = copy.deepcopy(self.subject)
        self.failed = self.beyond = None
        self.compile()

    def compile(self):
        w = self.w
        if self.mode == "import":
            backend = aot_autograd(
                fw_compiler=make_boxed_compiler(self.by_import), decompositions=tdyn._get_decomposition_table
            )
        else:
            keep = tdyn.aot_autograd
            tdyn.aot_autograd = self.capture
            try:
                backend = tdyn.make_simple_dynamo_backend(self.by_graph)
            finally:
                tdyn.aot_autograd = keep
        dyn = False if self.mode == "import" else w.sc.get("dynamic")
        self.run = torch.compile(self.subject, backend=backend, dynamic=dyn)
        ref = aot_autograd(
            fw_compiler=make_boxed_compiler(self.reference_backend), decompositions=lambda: get_decompositions(DECOMPOSED)
        )
        self.ref = torch.compile(self.golden, backend=ref, dynamic=dyn)

    def capture(self, fw_compiler, **kw):
        """AOTAutograd, whose graphs return tuples or (as other versions do) lists."""
        if self.w.sc.get("convention") != "list":
            return aot_autograd(fw_compiler=fw_compiler, **kw)

        def with_lists(gm, example):
            for node in gm.graph.nodes:
                if node.op == "output" and isinstance(node.args[0], (tuple, list)):
                    node.args = (list(node.args[0]),)
            gm.recompile()
            f = fw_compiler(gm, example)

            def call(args):
                out = f(args)
                if type(out) is not list:
                    raise Violation("calling-convention", f"a graph returning a list gives a {type(out).__name__}")
                return out

            call._boxed_call = True
            return call

        return aot_autograd(fw_compiler=with_lists, **kw)

    # -- back ends

    def reference_backend(self, gm, _example):
        if self.mode == "import":
            scalarize(gm.graph)
            gm.recompile()
            self.beyond = self.beyond or beyond(gm.graph)
        return gm

    def by_import(self, gm, _example):
        w = self.w
        w.graphs += 1
        scalarize(gm.graph)
        gm.recompile()
        name = f"{['graph', 'main', 'f.g', 'x-1'][w.graphs % 4]}{w.graphs}"
        module = w.importing(lambda: dimp.import_fx_graph_as_func(gm.graph, name), f"graph {name} of program {self.no}")
        why = beyond(gm.graph)
        if why is not None:  # what was made of it is not judged
            raise RuntimeError(f"the graph is beyond the importer: {why}")
        w.check_import(module, gm.graph, name, f"graph {name} of program {self.no}")
        if gm.code != gm.graph.python_code("self").src:
            raise Violation("stale-code", f"{where}: the code of the graph module is not that of its graph")
        with _disable_current_modes():
            mine = copy.deepcopy(gm)

        def device(*inputs):
            w.may_fail("device")
            args = [x.detach().clone() for x in inputs]
            with _disable_current_modes(), torch.no_grad():
                torch.manual_seed(23)
                try:
                    got = interp.Interp(module).call(name, args)
                except Exception as e:
                    raise Violation("meaningless-ir", f"{name}: {type(e).__name__}: {str(e)[:300]}")
                torch.manual_seed(23)
                want = mine(*[x.detach().clone() for x in inputs])
                right = interp.same(list(got), list(want))
            if not right:
                raise Violation(
                    "wrong-result",
                    f"{name} of program {self.no} computes {[interp.show(x) for x in got]},"
                    f" its graph {[interp.show(x) for x in want]}",
                )
            return list(got)

        return device

    def by_graph(self, gm, example):
        """A back end which takes normalised graphs: what torchscript.compile takes."""
        w = self.w
        w.graphs += 1
        where = f"graph {w.graphs} of program {self.no}"
        w.may_fail("back end")
        n = 0
        for node in gm.graph.nodes:
            if node.op == "placeholder":
                n += 1
            if node.op == "call_function" and isinstance(node.target, torch._ops.OpOverload):
                raise Violation("calling-convention", f"{where}: {node.target} keeps its overload")
            if node.op == "call_function" and node.target in WHOLE:
                raise Violation("not-decomposed", f"{where}: {node.target} is left")
            if node.op == "output":
                out = node.args[0]
                if isinstance(out, list):
                    raise Violation("calling-convention", f"{where} returns a list")
                if isinstance(out, tuple) and len(out) == 1:
                    raise Violation("calling-convention", f"{where} returns a tuple of one")
        if n != len(example):
            raise Violation("calling-convention", f"{where} takes {n} inputs, {len(example)} examples are given")
        if gm.code != gm.graph.python_code("self").src:
            raise Violation("stale-code", f"{where}: the code of the graph module is not that of its graph")
        with _disable_current_modes():
            mine = copy.deepcopy(gm)

        def device(*inputs):
            w.may_fail("device")
            if len(inputs) != n:
                raise Violation("calling-convention", f"{where} takes {n} inputs, is called with {len(inputs)}")
            with torch.no_grad():
                return mine(*[x.detach().clone() if isinstance(x, torch.Tensor) else x for x in inputs])

        return device


def _values(tree):
    flat, spec = pytree.tree_flatten(tree)
    return [x.detach().clone() if isinstance(x, torch.Tensor) else x for x in flat], spec


def _loss(tree):
    flat, _ = pytree.tree_flatten(tree)
    ts = [x for x in flat if isinstance(x, torch.Tensor) and x.requires_grad and x.is_floating_point()]
    return sum((t.double().sum() for t in ts), torch.zeros((), dtype=torch.float64)) if ts else None


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.sessions = {}
        self.graphs = 0
        self.fault = None
        self.fired = None
        self.ticks = 0
        mlir.hooks.reset()

    # -- faults

    def point(self, name):
        self.ticks += 1
        f = self.fault
        if f is not None and f["where"] == "binding" and self.ticks == f["at"]:
            self.fire(name)

    def may_fail(self, where):
        f = self.fault
        if f is not None and f["where"] == where:
            f["at"] -= 1
            if f["at"] <= 0:
                self.fire(where)

    def fire(self, name):
        kind = self.fault["kind"]
        self.fault = None
        self.fired = (kind, name)
        self.run.log("fault", kind, name)
        self.run.fault(f"{kind} in {name if name in ('device', 'back end') else 'binding'}")
        raise FAULTS[kind](name)

    # -- imports

    def importing(self, go, what):
        mlir.hooks.tick = self.point
        self.ticks = 0
        try:
            return go()
        finally:
            mlir.hooks.tick = None
            self.run.steps += self.ticks
            d = mlir.depth()
            if d:
                mlir.hooks.reset()
                raise Violation("context-leak", f"{what}: {d} MLIR contexts, locations or insertion points left entered")

    def check_import(self, module, graph, name, what):
        try:
            module.operation.verify()
        except mlir.MLIRError as e:
            raise Violation("invalid-module", f"{what}: {str(e)[:600]}")
        a = module.operation._attrs.get("torch.debug_module_name")
        if a is None or a.value != name:
            raise Violation("wrong-name", f"{what}: the module is called {a and a.value!r}")
        fs = fxworld.functions(module)
        if [fxworld.name_of(f) for f in fs] != [name]:
            raise Violation("wrong-name", f"{what}: functions {[fxworld.name_of(f) for f in fs]}")
        ops = [
            o for o in fs[0].regions[0].blocks[0].operations
            if not o.name.startswith("torch.constant.") and o.name not in ("torch.prim.ListConstruct", "func.return")
        ]
        nodes = [n for n in graph.nodes if n.op == "call_function" and n.target is not operator.getitem]
        if len(ops) != len(nodes):
            raise Violation("wrong-result", f"{what}: {len(ops)} operations for {len(nodes)} nodes")
        for o, n in zip(ops, nodes):
            loc = o.location
            if loc.kind == "unknown":
                if n.stack_trace:
                    raise Violation("wrong-location", f"{what}: {o.name} has no location")
            elif loc.kind == "file" and n.stack_trace:
                if f'File "{loc.data[0]}", line {loc.data[1]},' not in n.stack_trace:
                    raise Violation("wrong-location", f"{what}: {o.name} is said to be at {loc}")
            else:
                raise Violation("wrong-location", f"{what}: {o.name} is said to be at {loc}")
        self.run.state("import", sorted({o.name for o in ops})[:40])

    # -- operations

    def call(self, no, c, grad, fault):
        s = self.sessions.get(no)
        if s is None:
            return
        if s.failed:
            return

        def args():
            out = s.args(c)
            if grad:
                for x in pytree.tree_flatten(out)[0]:
                    if isinstance(x, torch.Tensor) and x.is_floating_point() and x.is_leaf:
                        x.requires_grad_(True)
                        break
            return out

        def go(f, a, m):
            torch.manual_seed(11)
            for p in m.parameters():
                p.grad = None
            ctx = torch.enable_grad() if grad or s.spec.get("train") else torch.no_grad()
            with ctx:
                out = f(*a)
                loss = _loss(out)
                if loss is not None and loss.requires_grad:
                    loss.backward()
            ga = [x.grad for x in pytree.tree_flatten(a)[0] if isinstance(x, torch.Tensor) and x.is_leaf]
            gp = [p.grad for p in m.parameters()]
            res, spec = _values(out)
            return {
                "results": res, "structure": spec, "arguments": _values(a)[0],
                "gradients": [None if g is None else g.detach().clone() for g in ga + gp],
                "state": [t.detach().clone() for t in list(m.parameters()) + list(m.buffers())],
            }

        backup = [[t.detach().clone() for t in list(m.parameters()) + list(m.buffers())] for m in (s.golden, s.plain)]
        try:
            plain = go(s.plain, args(), s.plain)
            want = go(s.ref, args(), s.golden)
        except (Violation, InvalidScenario, SimUnsupported):
            raise
        except Exception as e:  # not for this way of capturing programs
            self.run.probe("reference-refused")
            self.run.log("reference refused", type(e).__name__)
            s.failed = "reference"
            return
        what = f"program {no}, call {c}{' with gradients' if grad else ''} ({s.mode})"
        mine = args()
        state = [t.detach().clone() for t in list(s.subject.parameters()) + list(s.subject.buffers())]
        self.fault, self.fired = dict(fault) if fault else None, None
        err = got = None
        try:
            got = go(s.run, mine, s.subject)
        except (InjectedInterrupt, Exception) as e:
            e0 = e
            while e0 is not None:
                if isinstance(e0, Violation):
                    raise e0
                e0 = e0.__cause__ or e0.__context__
            if isinstance(e, InvalidScenario):
                raise
            err = e
        finally:
            self.fault = None
        if err is not None:
            if self.fired is not None:
                if not injected(err):
                    raise Violation(
                        "wrong-error", f"{what}: {self.fired[0]} in {self.fired[1]} surfaced as {type(err).__name__}: {str(err)[:300]}"
                    )
                self.run.log("call failed", no, c, self.fired[0], self.fired[1])
                self.rewind(s, backup, state)
                return
            if s.beyond is not None:
                self.run.probe("refused: beyond the importer")
                self.run.log("refused", no, s.beyond.split(" ")[0])
                s.failed = s.beyond
                return
            raise Violation("program-refused", f"{what}: {type(err).__name__}: {str(err)[:500]}")
        if self.fired is not None:
            raise Violation("error-swallowed", f"{what}: {self.fired[0]} in {self.fired[1]} was not reported")
        if got["structure"] != want["structure"]:
            raise Violation("wrong-structure", f"{what} returns {got['structure']}, the program {want['structure']}")
        for k in ("results", "arguments", "gradients", "state"):
            if not interp.same(got[k], want[k], 1e-4, 1e-5):
                raise Violation(
                    f"wrong-{k}",
                    f"{what}: {k} are {[interp.show(x) for x in got[k]][:6]}, the program's {[interp.show(x) for x in want[k]][:6]}",
                )
        if len(plain["results"]) != len(got["results"]):
            raise Violation("wrong-structure", f"{what} returns {len(got['results'])} values, the program {len(plain['results'])}")
        self.run.log("called", no, c, s.mode, len(got["results"]), self.graphs)
        self.run.probe("calls completed")
        if c:
            self.run.nontrivial = True
        return True

    def rewind(self, s, backup, state):
        """After a failed call: programs may be half-way through their own effects,
        which is theirs, so all of them start over from the state before."""
        with torch.no_grad():
            for m, ex in ((s.golden, backup[0]), (s.plain, backup[1]), (s.subject, state)):
                for t, v in zip(list(m.parameters()) + list(m.buffers()), ex):
                    if not interp.same(t, v):
                        t.copy_(v)

    def direct(self, spec, name, tweaks, spoil, fault):
        """A graph from elsewhere, imported on its own."""
        try:
            p = fxprog.build(spec)
        except (InvalidScenario, SimUnsupported):
            raise
        except Exception as e:
            self.run.probe("export-refused")
            self.run.log("export refused", type(e).__name__)
            return
        g = p.ep.graph
        try:
            calls = [(p.spec_values(c), [v for _, v in p.reference(c)]) for c in p.calls]
        except Exception as e:
            self.run.probe("reference-refused")
            self.run.log("reference refused", type(e).__name__)
            return
        for n in list(g.nodes):  # not part of any computation
            if n.op == "call_function" and not n.users and isinstance(n.target, torch._ops.OpOverload) and not n.target._schema.returns:
                g.erase_node(n)
        scalarize(g)
        rebind(g, tweaks)
        what = f"direct import as {name!r}"
        if spoil:
            what += f" with {fxworld.spoil(g, *spoil)}"
        why = beyond(g)
        self.fault, self.fired = dict(fault) if fault else None, None
        try:
            m = self.importing(lambda: dimp.import_fx_graph_as_func(g, name), what)
        except (InjectedInterrupt, Exception) as e:
            if isinstance(e, (Violation, InvalidScenario)):
                raise
            if self.fired is not None:
                if not injected(e):
                    raise Violation("wrong-error", f"{what}: {self.fired} surfaced as {type(e).__name__}: {str(e)[:300]}")
                self.run.log("import failed", *self.fired)
            elif why is not None or spoil:
                self.run.probe("refused: beyond the importer")
                self.run.log("refused", type(e).__name__)
            else:
                raise Violation("program-refused", f"{what}: {type(e).__name__}: {str(e)[:400]}")
            return
        finally:
            self.fault = None
        if self.fired is not None:
            raise Violation("error-swallowed", f"{what}: {self.fired} was not reported")
        if why is not None or spoil:
            self.run.probe("imported although beyond")
            return
        self.check_import(m, g, name, what)
        for ins, want in calls:
            ins = [x for x, n in zip(ins, g.nodes)]
            try:
                got = interp.Interp(m).call(name, ins)
            except Exception as e:
                raise Violation("meaningless-ir", f"{what}: {type(e).__name__}: {str(e)[:300]}")
            if not interp.same(list(got), list(want)):
                raise Violation(
                    "wrong-result",
                    f"{what} computes {[interp.show(x) for x in got]}, the graph {[interp.show(x) for x in want]}",
                )
        self.run.log("direct", name)
        self.run.probe("direct imports")
        return True

    def play(self):
        done = 0
        torch._dynamo.reset()
        try:
            for op in self.sc["ops"]:
                kind = op[0]
                if kind == "call":
                    _, no, c, grad, fault = op
                    no %= len(self.sc["progs"])
                    if no not in self.sessions:
                        spec = self.sc["progs"][no]
                        self.sessions[no] = Session(self, no, spec, spec["mode"])
                    done += bool(self.call(no, c, grad, fault))
                elif kind == "again":  # compile the same program once more
                    s = self.sessions.get(op[1] % len(self.sc["progs"]))
                    if s is not None:
                        s.compile()
                        self.run.log("again", op[1])
                elif kind == "reset":
                    torch._dynamo.reset()
                    self.run.log("reset")
                elif kind == "direct":
                    done += bool(self.direct(*op[1:]))
                else:
                    raise InvalidScenario(kind)
        finally:
            torch._dynamo.reset()
            mlir.hooks.reset()
        if mlir.depth():
            raise Violation("context-leak", "at the end")
        if done > 1 or self.run.faults:
            self.run.nontrivial = True
