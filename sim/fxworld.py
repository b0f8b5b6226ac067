"""A simulated process that imports FX programs into MLIR modules.

Callers create importers, import programs by any entry point, drop programs,
collect garbage, overwrite tensors they own, and meet failures at any call into
the MLIR binding or in their hooks.  Object addresses are the simulator's: an
address becomes free when its object dies and is handed out again as the
scenario says.
"""

import contextlib
import gc
import hashlib
import inspect
import io
import os
import types
import warnings
import weakref

import sympy
import torch

from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir
from . import fxprog, interp

mlir.install()
torch.set_num_threads(1)

from torch_mlir import fx, ir  # noqa: E402
from torch_mlir.dialects import torch as torch_d  # noqa: E402
from torch_mlir.extras import fx_importer  # noqa: E402
from torch_mlir.extras.fx_decomp_util import get_decomposition_table  # noqa: E402
from torch.export.graph_signature import (  # noqa: E402
    ConstantArgument,
    InputKind,
    OutputKind,
)


STATE_MUTATION = (OutputKind.BUFFER_MUTATION, OutputKind.PARAMETER_MUTATION)


class InjectedFault(Exception):
    """A failure the simulator caused."""


class InjectedMLIRError(mlir.MLIRError, InjectedFault):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


FAULTS = {
    "mlir-error": lambda p: InjectedMLIRError(f"simulated failure in {p}"),
    "out-of-memory": lambda p: _Oom(f"simulated allocation failure in {p}"),
    "interrupt": lambda p: InjectedInterrupt(f"simulated Ctrl-C in {p}"),
}


class _Oom(MemoryError, InjectedFault):
    pass


def injected(e):
    while e is not None:
        if isinstance(e, (InjectedFault, InjectedInterrupt)):
            return True
        e = e.__cause__ or e.__context__
    return False


# ------------------------------------------------------- unsupported programs

# No answer to "this program uses something unsupported".
UNHELPFUL = (NameError, AttributeError, IndexError, KeyError, SystemError)


def spoil(graph, kind, which):
    """Put something the importer does not support into the graph."""
    calls = [n for n in graph.nodes if n.op == "call_function" and isinstance(n.target, torch._ops.OpOverload)]
    if not calls:
        return None
    node = calls[which % len(calls)]
    if kind == "meta":
        node.meta["val"] = Ellipsis
        node.meta.pop("tensor_meta", None)
    elif kind == "target":
        node.target = spoil
    elif kind == "hop":
        node.target = torch.ops.higher_order.map_impl
    elif kind == "strided":
        node.target = torch.ops.aten.as_strided.default
        node.args = (node.args[0], [1], [which], None) if node.args else ()
        node.kwargs = {}
    elif kind in ("arg", "list") and node.target is torch.ops.aten._local_scalar_dense.default:
        return None  # a number read from what is no tensor: no program of any kind
    elif kind == "arg":
        node.args = (slice(0, 1),) + tuple(node.args[1:])
    elif kind == "list":
        node.args = ([1, 2.5, "x"],) + tuple(node.args[1:])
    elif kind == "dtype":
        v = node.meta.get("val")
        if not isinstance(v, torch.Tensor):
            return None
        with v.fake_mode:
            node.meta["val"] = torch.empty(list(v.shape), dtype=torch.uint32, device="cpu")
        node.meta.pop("tensor_meta", None)
    else:
        raise InvalidScenario(kind)
    return f"unsupported {kind} in node {node.name}"


# ------------------------------------------------------------------ addresses


class Memory:
    """What id() answers, in one run."""

    def __init__(self, choices):
        self.choices = choices or [0]
        self.n = 0
        self.free = []
        self.next = 1000
        self.live = {}
        self.keep = []
        self.reused = 0

    def id(self, obj):
        rid = id(obj)
        ent = self.live.get(rid)
        if ent is not None and ent[0]() is obj:
            return ent[1]
        addr = None
        if self.free:
            c = self.choices[self.n % len(self.choices)]
            self.n += 1
            if c % 3 == 0:
                addr = self.free.pop()
            elif c % 3 == 1:
                addr = self.free.pop(0)
            if addr is not None:
                self.reused += 1
        if addr is None:
            addr = self.next
            self.next += 16

        def died(_, self=self, addr=addr, rid=rid):
            self.free.append(addr)
            e = self.live.get(rid)
            if e is not None and e[1] == addr:
                del self.live[rid]

        try:
            ref = weakref.ref(obj, died)
        except TypeError:
            self.keep.append(obj)

            def ref(obj=obj):
                return obj

        self.live[rid] = (ref, addr)
        return addr


def _modules():
    import sys

    return [sys.modules["torch_mlir.extras.fx_importer"]]


@contextlib.contextmanager
def simulated(memory):
    """The seams of one run: addresses, garbage collection, the binding."""
    mlir.hooks.reset()
    gc.disable()
    for m in _modules():
        m.id = memory.id
    try:
        yield
    finally:
        for m in _modules():
            m.__dict__.pop("id", None)
        mlir.hooks.reset()


def collect():
    gc.collect()


# -------------------------------------------------------------------- modules


def func_digest(func):
    """Everything a function says, literal bytes included."""
    h = hashlib.blake2b(digest_size=12)
    names = {}

    def v(x):
        return names.setdefault(x, len(names))

    def go(op):
        h.update(repr((op.name, [v(o) for o in op.operands], [str(r.type) for r in op.results])).encode())
        for r in op.results:
            v(r)
        for k in sorted(op._attrs):
            h.update(repr((k, op._attrs[k].key())).encode())
        for r in op.regions:
            for b in r.blocks:
                h.update(repr([str(a.type) for a in b.arguments]).encode())
                for a in b.arguments:
                    v(a)
                for o in b.operations:
                    go(o)

    go(func)
    return h.hexdigest()


def functions(module):
    return [o for o in module.operation.regions[0].blocks[0].operations if o.name == "func.func"]


def top_ops(module):
    return list(module.operation.regions[0].blocks[0].operations)


def name_of(op):
    op = op.operation
    return op._attrs["sym_name"].value


# ---------------------------------------------------------------------- hooks


class Hooks(fx_importer.FxImporterHooks):
    """A framework integrator: loads and stores state by name."""

    def __init__(self, world, behaviour):
        self.w, self.b = world, behaviour or {}
        self.prepared = []
        self.stored = []
        self.resolved = []
        self.literals = []

    def _emit(self, gni, name, results, operands, **attrs):
        a = {k: ir.StringAttr.get(str(x)) for k, x in attrs.items()}
        a["name"] = ir.StringAttr.get(name)
        return ir.Operation.create("torch.operator", results=results, operands=operands, attributes=a)

    def told(self, hook, value, info):
        """A hook is told about state of the program being imported."""
        ep = self.w.current.ep
        given = getattr(self.w.current, "given", (ep,))[0]
        if given is not ep:  # captured or decomposed on the way
            ep = self.w.current.captured = getattr(self.w.current, "captured", info.program)
        if info.program is not ep:
            raise Violation("hook-misled", f"{hook}: info of another program")
        s = info.input_spec
        if s not in list(ep.graph_signature.input_specs):
            raise Violation("hook-misled", f"{hook}: input {s} is not the program's")
        mine = ep.state_dict.get(s.target, ep.constants.get(s.target))
        if value is not mine:
            raise Violation("hook-misled", f"{hook}: the value for {s.target!r} is not the program's")
        if info.node is None or info.node.name != s.arg.name:
            raise Violation("hook-misled", f"{hook}: node {info.node} for {s.target!r}")

    def prepare_module(self, module_op):
        self.prepared.append(module_op)

    def resolve_literal(self, gni, literal, info):
        self.w.point("hook.resolve_literal")
        self.literals.append((literal, info))
        if self.b.get("literal") and isinstance(literal, torch.Tensor):
            key = self.w.global_of(literal)
            t = gni._cc.tensor_to_vtensor_type(literal)
            return self._emit(gni, "torch.sim.global", [t], [], key=key).result
        return None

    def resolve_input(self, gni, value, info):
        self.w.point("hook.resolve_input")
        self.told("resolve_input", value, info)
        self.resolved.append((value, info))
        mutable = info.store_producer_node is not None
        if self.b.get("load") == "all" or (self.b.get("load") == "mutable" and mutable):
            return self._emit(
                gni, "torch.sim.load", [info.ir_type], [], target=info.input_spec.target
            ).result
        return None

    def store_produced_value(self, gni, py_value, produced, info):
        self.w.point("hook.store")
        self.told("store_produced_value", py_value, info)
        if not isinstance(produced, ir.Value):
            raise Violation("hook-misled", f"store to {info.input_spec.target!r} is given {type(produced).__name__}, not a value")
        self.stored.append((info.input_spec.target, py_value, info))
        if self.b.get("store", True):
            self._emit(gni, "torch.sim.store", [], [produced], target=info.input_spec.target)
        else:
            super().store_produced_value(gni, py_value, produced, info)


def ir_name(op):
    if not isinstance(op, torch._ops.OpOverload):
        return None
    name = op._schema.name.replace("::", ".")
    return f"torch.{name}.{op._schema.overload_name}" if op._schema.overload_name else f"torch.{name}"


class StateInterp(interp.Interp):
    """Runs imported functions against a store of named state."""

    def __init__(self, module, store=None, globals_=None):
        super().__init__(module)
        self.store, self.globals = store if store is not None else {}, globals_ or {}
        self.stores = []

    def run_op(self, op, ins, env):
        if op.name == "torch.operator":
            n = op._attrs["name"].value
            if n == "torch.sim.load":
                k = op._attrs["target"].value
                if k not in self.store:
                    raise interp.IRError(f"load of unknown state {k!r}")
                return [self.store[k].clone()]
            if n == "torch.sim.store":
                k = op._attrs["target"].value
                self.stores.append(k)
                self.store[k] = ins[0].clone()
                return []
            if n == "torch.sim.global":
                return [self.globals[op._attrs["key"].value].clone()]
        return super().run_op(op, ins, env)


# ---------------------------------------------------------------------- world


def _beyond_affine(err, p):
    """Refused as a dimension is no sum of products of symbols, which is all that
    the importer can write as a shape expression."""
    if not isinstance(err, NotImplementedError):
        return False
    for n in p.ep.graph.nodes:
        v = n.meta.get("val")
        for t in v if isinstance(v, (list, tuple)) else [v]:
            for d in t.shape if isinstance(t, torch.Tensor) else []:
                if isinstance(d, torch.SymInt):
                    for e in sympy.preorder_traversal(d.node.expr):
                        if not isinstance(e, (sympy.Symbol, sympy.Integer, sympy.Add, sympy.Mul, sympy.Pow)):
                            return True
    return False


def steps(t):
    """The strides that matter."""
    return [(n, k) for n, k in zip(t.shape, t.stride()) if n > 1]


class Imported:
    """One function in a module which must keep its meaning."""

    def __init__(self, handle, name, prog_no, entry, digests, cases):
        self.handle, self.name, self.prog_no, self.entry = handle, name, prog_no, entry
        self.digests, self.cases = digests, cases


class Handle:
    def __init__(self, no, importer, hooks, ctx):
        self.no, self.importer, self.hooks, self.ctx = no, importer, hooks, ctx
        self.done = []


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.memory = Memory(sc.get("mem"))
        self.handles = {}
        self.progs = {}
        self.globals = {}
        self.fault = None
        self.ticks = 0
        mlir.hooks.reset()

    # -- faults

    def point(self, name):
        """Every place where the simulated environment may fail."""
        self.ticks += 1
        f = self.fault
        if f is not None and self.ticks == f["at"]:
            self.fault = None
            self.fired = (f["kind"], name)
            self.run.log("fault", f["kind"], name)
            self.run.fault(f["kind"])
            raise FAULTS[f["kind"]](name)

    def global_of(self, t):
        key = f"g{len(self.globals)}"
        self.globals[key] = t.detach().clone()
        return key

    # -- operations

    def new(self, no, share=None, behaviour=None, module=False):
        ctx = None
        tracker = None
        if share is not None and share in self.handles:
            other = self.handles[share]
            ctx = other.ctx
            tracker = other.tracker
        if ctx is None:
            ctx = ir.Context()
            torch_d.register_dialect(ctx)
        if tracker is None and self.sc.get("share_tracker"):
            tracker = fx_importer.RefTracker()
        hooks = Hooks(self, behaviour) if behaviour is not None else None
        kw = {"hooks": hooks, "py_attr_tracker": tracker}
        if module:
            mod = ir.Module.create(ir.Location.unknown(ctx))
            imp = fx_importer.FxImporter(module=mod, **kw)
            if imp.module is not mod:
                raise Violation("wrong-module", "the importer does not build into the module it was given")
        else:
            imp = fx_importer.FxImporter(context=ctx, **kw)
        h = Handle(no, imp, hooks, ctx)
        h.tracker = tracker
        self.handles[no] = h
        self.run.log("new", no, "share", share)
        if hooks is not None and len(hooks.prepared) != 1:
            raise Violation("prepare-module", f"prepare_module called {len(hooks.prepared)} times")
        return h

    def build(self, spec):
        return self.captured(lambda: fxprog.build(spec))

    def captured(self, make):
        try:
            return make()
        except (InvalidScenario, SimUnsupported):
            raise
        except Exception as e:  # torch.export cannot: no matter for the importer
            self.run.probe("export-refused")
            self.run.log("export refused", type(e).__name__)
            return None

    def references(self, p, evolve=False):
        """[(reference, stored state)] per call; with ``evolve`` each call starts
        from the state the one before left."""
        refs, state = [], {}
        for c in p.calls:
            try:
                r = p.reference(c, state)
            except Exception as e:
                self.run.probe("reference-refused")
                self.run.log("reference refused", type(e).__name__)
                return None
            stored = {s.target: v for s, v in r if s.kind in STATE_MUTATION}
            if any(k in p.ep.state_dict and p.ep.state_dict[k].dtype != v.dtype for k, v in stored.items()):
                self.run.probe("ill-typed export")  # torch.export lost the conversion of an in-place copy
                return None
            if evolve:
                state = dict(state, **stored)
            refs.append((r, stored))
        return refs

    def cases(self, p, entry, refs):
        """[(arguments, expected results, expected argument values after, expected stores)]"""
        sig = p.ep.graph_signature
        out = []
        for flat, (ref, stored) in zip(p.calls, refs):
            user = [s for s in sig.input_specs if s.kind == InputKind.USER_INPUT]
            if entry == "program":
                args, names = [], []
                for v, s in zip(flat, user):
                    if not isinstance(s.arg, ConstantArgument):
                        args.append(v)
                        names.append(s.arg.name)
                want = [v for s, v in ref if s.kind == OutputKind.USER_OUTPUT]
                muts = {s.target: v for s, v in ref if s.kind == OutputKind.USER_INPUT_MUTATION}
                after = [muts.get(n, v) for n, v in zip(names, args)]
            else:
                if entry == "frozen":
                    args = list(flat)
                else:
                    args = p.spec_values(flat)
                want = [v for _, v in ref]
                after = list(args)
                stored = {}
            out.append((args, want, after, stored))
        return out

    def front(self, handle, p, entry, front, opts):
        """The program as torch_mlir.fx's entry points will capture it."""
        if entry == "graph":
            return handle, p
        spec = p.spec
        plain = "suite" in spec or not any(o[0] in fxprog.MIXED for o in spec.get("ops", ()))
        table, module = front.get("table", "empty"), bool(front.get("module"))
        if "hop" in spec or not plain or opts.get("spoil"):
            table, module = "empty", False
        ep, args, kw = p.ep, (), {}
        if module:
            mod, args, dyn = fxprog.source(spec)
            kwargs = {}
            k = front.get("kwargs", 0)
            if "suite" in spec and k and dyn is None:
                names = list(inspect.signature(mod.forward).parameters)
                if len(names) == len(args):
                    kwargs = dict(zip(names[-k:], args[-k:]))
                    args = args[: len(args) - len(kwargs)]
            if dyn is not None:
                kw["dynamic_shapes"] = dyn
            ep = self.captured(lambda: torch.export.export(mod, args, kwargs, dynamic_shapes=dyn, strict=False))
            kw.update(kwargs)
            self.run.probe("module captured by export_and_import")
            if ep is not None and table == "empty" and any(
                isinstance(n.target, torch._ops.OpOverload) and n.target._schema.is_mutable for n in ep.graph.nodes
            ):
                table = "default"  # else it is left in a form that has no IR of values
        if table == "default":
            decompositions = get_decomposition_table()
        elif table == "some":
            kw["decomposition_table"] = dict(list(get_decomposition_table().items())[: front.get("some", 5)])
            decompositions = dict(kw["decomposition_table"])
        else:
            kw["decomposition_table"] = decompositions = {}
        if decompositions and ep is not None:
            ep0 = ep
            ep = self.captured(lambda: ep0.run_decompositions(dict(decompositions)))
        if ep is None:
            return handle, None
        q = p
        if ep is not p.ep:
            q = fxprog.Prog(spec, ep, p.calls)
            q.refused = p.refused
        q.given = (mod if module else p.ep, args, kw)
        if table != "empty":
            q.gone = {ir_name(o) for o in kw.get("decomposition_table") or get_decomposition_table()}
            q.gone -= {ir_name(n.target) for n in ep.graph.nodes if isinstance(n.target, torch._ops.OpOverload)}
        return handle, q

    def invoke_front(self, handle, p, entry, name, opts, front):
        kw = {"output_type": front.get("type", "raw")}
        if kw["output_type"] == "default":
            del kw["output_type"]
        if front.get("print"):
            kw["enable_graph_printing"] = True
        imp = handle.importer
        if front.get("fresh"):
            if handle.hooks is not None:
                kw["hooks"] = handle.hooks
        else:
            kw["fx_importer"] = imp
        with contextlib.redirect_stdout(io.StringIO()) as printed, warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            if entry == "graph":
                if name != "main":
                    kw["model_name"] = name
                module = fx.stateless_fx_import(p.ep.graph_module, **kw)
            else:
                if name != "main":
                    kw["func_name"] = name
                if opts.get("symbolic"):
                    kw["import_symbolic_shape_expressions"] = True
                if entry == "program":
                    kw["experimental_support_mutation"] = True
                given, args, more = p.given
                module = fx.export_and_import(given, *args, **kw, **more)
        if printed.getvalue() and not front.get("print"):
            raise Violation("unexpected-output", f"prints {printed.getvalue()[:200]!r}")
        warned = [w for w in warned if w.category is UserWarning and os.path.realpath(w.filename) in (fx.__file__, fx_importer.__file__)]
        if warned:
            raise Violation("unexpected-output", f"warns {str(warned[0].message)!r}")
        if front.get("fresh"):
            handle.importer = types.SimpleNamespace(module=module)
        elif module is not imp.module:
            raise Violation("wrong-module", "export_and_import returns another module than that of the importer it was given")
        self.run.probe("imported by torch_mlir.fx")
        fs = [f for f in functions(module) if name_of(f) not in self.taken and getattr(f.operation._attrs.get("sym_visibility"), "value", None) != "private"]
        if len(fs) != 1 or (name_of(fs[0]) != name and name not in [name_of(f) for f in functions(module)]):
            raise Violation("wrong-name", f"no function {name!r} but {[name_of(f) for f in functions(module)]}")
        return fs[0]

    def invoke(self, handle, p, entry, name, opts):
        if opts.get("front") is not None:
            return self.invoke_front(handle, p, entry, name, opts, opts["front"])
        imp = handle.importer
        vis = opts.get("visibility")
        kw = {"func_name": name, "func_visibility": vis}
        if opts.get("symbolic"):
            kw["import_symbolic_shape_expressions"] = True
        if entry == "program":
            return imp.import_program(p.ep, **kw)
        if entry == "frozen":
            return imp.import_frozen_program(p.ep, **kw)
        if entry == "gm":
            return imp.import_graph_module(p.ep.graph_module, **kw)
        if entry == "graph":
            return imp.import_stateless_graph(p.ep.graph, **kw)
        raise InvalidScenario(entry)

    def snapshot(self, handle):
        return [(name_of(f), func_digest(f)) for f in functions(handle.importer.module)]

    def check_clean(self, where):
        d = mlir.depth()
        if d != 0:
            raise Violation("context-leak", f"{where}: {d} MLIR contexts, locations or insertion points left entered")

    def check_module(self, handle, where):
        try:
            handle.importer.module.operation.verify()
        except mlir.MLIRError as e:
            raise Violation("invalid-module", f"{where}: {str(e)[:600]}")

    def run_cases(self, module, name, cases, what, initial, formats=False):
        store = {k: v.clone() for k, v in initial.items()}
        for i, (args, want, after, stored) in enumerate(cases):
            mine = [a.clone() if isinstance(a, torch.Tensor) else a for a in args]
            it = StateInterp(module, store, self.globals)
            expect = dict(store, **stored)
            try:
                got = it.call(name, mine)
            except interp.IRError as e:
                raise Violation("meaningless-ir", f"{what}, call {i}: {e}")
            except SimUnsupported:
                raise
            except Exception as e:
                raise Violation("meaningless-ir", f"{what}, call {i}: {type(e).__name__}: {str(e)[:300]}")
            if not interp.same(list(got), list(want)):
                raise Violation(
                    "wrong-result",
                    f"{what}, call {i}: computes {[interp.show(x) for x in got]},"
                    f" the program computes {[interp.show(x) for x in want]}",
                )
            if formats:
                for g, v in zip(got, want):
                    if isinstance(v, torch.Tensor) and v.dim() > 3 and steps(g) != steps(v):
                        raise Violation(
                            "wrong-format", f"{what}, call {i}: a result of shape {list(v.shape)} has strides {g.stride()}, the program's {v.stride()}"
                        )
            if not interp.same(mine, after):
                raise Violation(
                    "wrong-mutation",
                    f"{what}, call {i}: leaves arguments {[interp.show(x) for x in mine]},"
                    f" the program leaves {[interp.show(x) for x in after]}",
                )
            if sorted(it.stores) != sorted(stored):
                raise Violation(
                    "wrong-mutation", f"{what}, call {i}: stores to {sorted(it.stores)}, the program to {sorted(stored)}"
                )
            for k in sorted(expect):
                if not interp.same([store[k]], [expect[k]]):
                    raise Violation(
                        "wrong-mutation",
                        f"{what}, call {i}: leaves {k!r} = {interp.show(store[k])}, the program {interp.show(expect[k])}",
                    )
            yield it

    def import_op(self, handle, slot, entry, name, opts, fault=None):
        """One import.  Returns Imported or None when it failed as it should."""
        spec = self.sc["progs"][slot % len(self.sc["progs"])]
        p = None
        if opts.get("again") and not opts.get("spoil"):  # the program object of an earlier import
            p = self.progs.get(("again", slot))
            if p is not None:
                self.run.probe("program imported again")
        p = p or self.build(spec)
        if p is None:
            return None
        front = opts.get("front")
        for a in ("given", "captured", "gone"):  # of an earlier import
            p.__dict__.pop(a, None)
        if front is not None:
            if "hop" in p.spec and entry == "graph":
                entry = "program"
            if front.get("fresh"):
                b = handle.hooks.b if handle.hooks is not None else None
                hooks = Hooks(self, b) if b is not None else None
                ctx = ir.Context()
                torch_d.register_dialect(ctx)
                handle = Handle(handle.no, types.SimpleNamespace(module=ir.Module.create(ir.Location.unknown(ctx))), hooks, ctx)
            opts = dict(opts, visibility=None)
            entry = {"gm": "program"}.get(entry, entry)
            handle, p = self.front(handle, p, entry, front, opts)
            if p is None:
                return None
        self.progs.pop(("again", slot), None)
        if opts.get("keep") and entry != "frozen" and not opts.get("spoil"):
            self.progs[("again", slot)] = p  # also if this import fails
        b = handle.hooks.b if handle.hooks is not None else None
        refs = self.references(p, entry == "program" and b is not None and b.get("load") in ("all", "mutable"))
        if refs is None:
            return None
        self.current = p
        initial = {
            s.target: v
            for s, v in zip(p.ep.graph_signature.input_specs, p.spec_values(p.calls[0]))
            if s.kind in (InputKind.PARAMETER, InputKind.BUFFER)
        }
        must_refuse = (
            entry == "program"
            and any(s.kind in STATE_MUTATION for s in p.ep.graph_signature.output_specs)
            and (b is None or not b.get("store", True))
        )
        must_refuse = must_refuse or p.refused
        spoiled = None
        if opts.get("spoil"):
            spoiled = spoil(p.ep.graph, *opts["spoil"])
            if spoiled is None:
                return None
        if entry == "graph" and any(isinstance(m, torch.fx.GraphModule) for m in p.ep.graph_module.children()):
            if front is not None:
                return None
            entry = "gm"  # the other is for graphs without child modules only
        if entry in ("graph", "gm") and opts.get("symbolic"):
            opts = dict(opts, symbolic=False)
        cases = self.cases(p, entry, refs)
        what = f"{entry} import of program {slot} as {name!r}"
        before = self.snapshot(handle)
        self.taken = [n for n, _ in before]
        self.fault, self.fired, self.ticks = fault, None, 0
        mlir.hooks.tick = self.point
        err = None
        func = None
        try:
            func = self.invoke(handle, p, entry, name, opts)
        except (InjectedInterrupt, Exception) as e:
            if isinstance(e, (Violation, InvalidScenario)):
                raise
            err = e
        finally:
            mlir.hooks.tick = None
            self.fault = None
        self.run.steps += self.ticks
        self.check_clean(what)
        if err is not None:
            fired = self.fired
            if fired is None and must_refuse and isinstance(err, NotImplementedError):
                self.run.probe("without IR refused" if p.refused else "mutation refused")
                self.run.log("mutation refused", slot)
                self.after_failure(handle, before, f"{what} (mutates state)")
                return None
            if fired is None and spoiled is not None:
                if isinstance(err, UNHELPFUL):
                    raise Violation(
                        "wrong-error",
                        f"{what} with {spoiled}: refused by {type(err).__name__}: {str(err)[:300]}",
                    )
                self.run.fault("unsupported-construct")
                self.run.log("import refused", entry, slot, spoiled, type(err).__name__)
                self.after_failure(handle, before, f"{what} with {spoiled}")
                return None
            if fired is None and opts.get("symbolic") and _beyond_affine(err, p):
                self.run.probe("shape expression refused")
                self.run.log("shape expression refused", slot)
                self.after_failure(handle, before, what)
                return None
            if fired is None:
                raise Violation(
                    "import-refused", f"{what}: {type(err).__name__}: {str(err)[:400]}", program=spec
                )
            if not injected(err):
                raise Violation(
                    "wrong-error",
                    f"{what}: {fired[0]} in {fired[1]} surfaced as {type(err).__name__}: {str(err)[:300]}",
                )
            self.run.log("import failed", entry, slot, fired[0], fired[1])
            self.after_failure(handle, before, what)
            err = None
            del p
            return None
        if self.fired is not None:
            raise Violation("error-swallowed", f"{what}: {self.fired[0]} in {self.fired[1]} was not reported")
        if must_refuse:
            lost = "captured tensors are" if p.refused else "mutation of state is"
            raise Violation("lost-mutation", f"{what}: the program's {lost} silently dropped")
        if spoiled is not None:
            self.run.probe("spoiled program imported")
            return None  # importable after all (e.g. in a part nobody reads)
        got = name_of(func)
        self.run.log("imported", entry, slot, got, self.ticks)
        self.check_kept(handle, before, what)
        self.check_module(handle, what)
        if [name_of(f) for f in functions(handle.importer.module)].count(got) != 1:
            raise Violation("duplicate-name", f"{what}: several functions called {got!r}")
        left = {o.name for o in func.operation.walk()} & getattr(p, "gone", set())
        if left:
            raise Violation("not-decomposed", f"{what}: {sorted(left)} are left although they were to be decomposed")
        if entry == "program" and opts.get("check_signature", True):
            self.check_signature(handle, func, p, opts, what)
        for it in self.run_cases(handle.importer.module, got, cases, what, initial, formats="fouts" in p.spec):
            if opts.get("symbolic"):
                self.check_symbols(it, p, func, what)
        if not opts.get("symbolic") and any(o.name.startswith("torch.symbolic_int") for o in func.operation.walk()):
            raise Violation("wrong-symbols", f"{what}: declares symbols although none were asked for")
        rec = Imported(handle, got, slot, entry, dict(self.snapshot(handle)), cases)
        rec.initial = initial
        handle.done.append(rec)
        self.run.state(entry, sorted({o.name for o in func.operation.walk()})[:40])
        if opts.get("keep"):
            self.progs[("kept", slot)] = p
        return rec

    def check_signature(self, handle, func, p, opts, what):
        a = func.operation._attrs
        if opts.get("visibility") and a.get("sym_visibility") is not None:
            if a["sym_visibility"].value != opts["visibility"]:
                raise Violation("visibility", f"{what}: declared {opts['visibility']}, is {a['sym_visibility'].value}")

    def check_symbols(self, it, p, func, what):
        want = {}
        big = torch.iinfo(torch.int64)

        def num(v, up):
            s = str(v)
            if s in ("oo", "int_oo"):
                return big.max
            if s in ("-oo", "-int_oo"):
                return big.min
            return int(v)

        for k, r in p.ep.range_constraints.items():
            if not k.is_integer:  # the value of a float is no dimension
                continue
            want[str(k)] = (num(r.lower, 0), num(r.upper, 1))
        ops = func.operation.regions[0].blocks[0].operations
        have = {}
        for o in ops:
            if o.name == "torch.symbolic_int":
                have[o._attrs["symbol_name"].value] = (o._attrs["min_val"].value, o._attrs["max_val"].value)
        if have != want:
            raise Violation("wrong-symbols", f"{what}: symbols {have}, the program's are {want}")

    def after_failure(self, handle, before, what):
        """A failed import adds at most complete private helper functions."""
        module = handle.importer.module
        for f in functions(module):
            blocks = f.regions[0].blocks
            if not blocks or not blocks[0].operations or blocks[0].operations[-1].name != "func.return":
                raise Violation("residue", f"{what} failed and left the incomplete function {name_of(f)!r}")
        now = dict(self.snapshot(handle))
        for n, _ in before:
            if n not in now:
                raise Violation("lost-function", f"{what} failed and {n!r} is gone")
        self.check_kept(handle, before, what + " (failed)")
        known = {n for n, _ in before}
        for f in functions(module):
            if name_of(f) not in known:
                vis = f._attrs.get("sym_visibility")
                if vis is None or vis.value != "private":
                    raise Violation("residue", f"{what} failed and left the function {name_of(f)!r}")
        self.check_module(handle, what + " (failed)")

    def check_kept(self, handle, before, what):
        """What was in the module before is still there, unchanged."""
        now = self.snapshot(handle)
        names = [n for n, _ in now]
        d = dict(now)
        for n, dig in before:
            if names.count(n) != 1:
                raise Violation("duplicate-name", f"{what}: {names.count(n)} functions called {n!r}")
            if d[n] != dig:
                raise Violation("function-changed", f"{what} changed the earlier function {n!r}")

    def drop(self, slot):
        self.progs.pop(("again", slot), None)
        self.progs.pop(("kept", slot), None)
        collect()
        self.run.log("drop", slot)

    def scribble(self, slot):
        """The owner of a program overwrites its tensors, then drops it."""
        p = self.progs.pop(("kept", slot), None)
        self.progs.pop(("again", slot), None)
        if p is None:
            return
        with torch.no_grad():
            for t in list(p.ep.state_dict.values()) + list(p.ep.constants.values()):
                if isinstance(t, torch.Tensor):
                    try:
                        t.detach().fill_(3)
                    except RuntimeError:
                        pass
        self.run.fault("tensor-overwritten")
        self.run.log("scribble", slot)
        del p
        collect()

    def final(self, again=True):
        """Every function imported so far still means what it meant."""
        for h in self.handles.values():
            snap = dict(self.snapshot(h))
            for rec in h.done:
                if rec.name not in snap:
                    raise Violation("lost-function", f"{rec.name!r} of program {rec.prog_no} is gone")
                for n, d in rec.digests.items():
                    if snap.get(n) != d:
                        raise Violation("function-changed", f"{n!r} is not what it was after importing {rec.name!r}")
            self.check_module(h, "at the end")
            if again and h.done:
                rec = h.done[0]
                for _ in self.run_cases(
                    h.importer.module, rec.name, rec.cases, f"at the end, program {rec.prog_no}", rec.initial
                ):
                    pass
        self.check_clean("at the end")
        self.run.fault("address-reused", self.memory.reused) if self.memory.reused else None
