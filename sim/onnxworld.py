"""A simulated process that imports ONNX models into MLIR modules.

The oracle walks the model and the imported function in parallel, from the
outputs back: whatever order operations are in, and whatever else there is,
each output must be computed by the model's nodes, from the model's values,
with the model's attributes.  Operators that are imported as calls of their
defining function are compared by evaluating both.
"""

import warnings

import numpy as np
import onnx
from onnx import AttributeProto, TensorProto, helper, numpy_helper

from .core import InvalidScenario, SimUnsupported, Violation
from .fakes import mlir
from . import onnxprog
from .fxworld import FAULTS, InjectedInterrupt, UNHELPFUL, func_digest, functions, injected, name_of

mlir.install()

from torch_mlir import ir  # noqa: E402
from torch_mlir.dialects import torch as torch_d  # noqa: E402
from torch_mlir.extras import onnx_importer  # noqa: E402

T = TensorProto
ELEM = {
    T.FLOAT: "f32", T.DOUBLE: "f64", T.FLOAT16: "f16", T.BFLOAT16: "bf16", T.BOOL: "i1",
    T.INT8: "si8", T.INT16: "si16", T.INT32: "si32", T.INT64: "si64", T.INT4: "si4",
    T.UINT8: "ui8", T.UINT16: "ui16", T.UINT32: "ui32", T.UINT64: "ui64", T.UINT4: "ui4",
    T.COMPLEX64: "complex<f32>", T.COMPLEX128: "complex<f64>",
    T.FLOAT8E4M3FN: "f8E4M3FN", T.FLOAT8E4M3FNUZ: "f8E4M3FNUZ", T.FLOAT8E5M2: "f8E5M2", T.FLOAT8E5M2FNUZ: "f8E5M2FNUZ",
    T.STRING: "!torch.str",
}


def tensor_asm(elem, shape):
    """The type of a tensor; ``shape`` None: of unknown rank."""
    dims = "*" if shape is None else "[" + ",".join("?" if d is None else str(d) for d in shape) + "]"
    return f"vtensor<{dims},{ELEM[elem]}>"


def proto_asm(tp):
    """How a TypeProto is written in the torch dialect, without "!torch."."""
    kind = tp.WhichOneof("value")
    if kind is None:
        return "none"
    if kind == "tensor_type":
        t = tp.tensor_type
        if not t.elem_type:
            return None
        shape = None
        if t.HasField("shape"):
            shape = [d.dim_value if d.HasField("dim_value") else None for d in t.shape.dim]
        return tensor_asm(t.elem_type, shape)
    inner = proto_asm(getattr(tp, kind).elem_type)
    if inner is None:
        return None
    return {"sequence_type": "list", "optional_type": "optional"}[kind] + f"<{inner}>"


def as_type(asm, ctx):
    return str(ir.Type.parse("!torch." + asm, context=ctx))


def proto_bytes(t):
    """Row-major little-endian elements of a tensor proto."""
    if t.HasField("raw_data"):
        return bytes(t.raw_data)
    return numpy_helper.to_array(t).tobytes()


def attr_bytes(a):
    if isinstance(a, ir.DenseResourceElementsAttr):
        return a.raw()
    return a.numpy().tobytes()


def expandable(node, model, config):
    """Whether an operator is to be imported as a call of its defining function."""
    allow = config.function_expansion_allowlists_by_domain
    deny = config.function_expansion_denylists_by_domain
    if allow is not None and node.op_type not in allow.get(node.domain, ()):
        return False
    if node.op_type in deny.get(node.domain, ()):
        return False
    version = next((o.version for o in model.opset_import if o.domain == node.domain), None)
    if version is None:
        return False
    try:
        s = onnx.defs.get_schema(node.op_type, domain=node.domain, max_inclusive_version=version)
    except onnx.defs.SchemaError:
        return None
    v = list(s.function_opset_versions) + list(s.context_dependent_function_opset_versions)
    return any(x <= version for x in v)


# -------------------------------------------------------------- model scopes


class Scope:
    """Who produces which name, in one graph of the model."""

    def __init__(self, graph, parent=None, elide=False):
        self.graph, self.parent, self.block = graph, parent, None
        self.prod, self.types = {}, {}
        inits = {t.name for t in graph.initializer}
        self.inputs = [i for i in graph.input if not (elide and i.name in inits)]
        for v in list(graph.value_info) + list(graph.output) + list(graph.input):
            self.types.setdefault(v.name, v.type)
        for v in graph.value_info:
            self.types[v.name] = v.type
        for i, v in enumerate(self.inputs):
            self.prod[v.name] = ("arg", i)
        for t in graph.initializer:
            self.prod[t.name] = ("const", t)
        for n in graph.node:
            for i, o in enumerate(n.output):
                if o:
                    if n.op_type == "Constant" and n.domain in ("", "ai.onnx") and n.attribute and n.attribute[0].name == "value":
                        self.prod[o] = ("const", n.attribute[0].t)
                    else:
                        self.prod[o] = ("node", n, i)

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.prod:
                return s, s.prod[name]
            s = s.parent
        raise KeyError(name)

    def type_of(self, name):
        try:
            s, p = self.lookup(name)
        except KeyError:
            return None
        if name in s.types:
            return s.types[name]
        if p[0] == "const":
            return helper.make_tensor_type_proto(p[1].data_type, list(p[1].dims))
        return None


class Matcher:
    """One imported function against its model."""

    def __init__(self, world, model, config, func, what):
        self.w, self.model, self.config, self.func, self.what = world, model, config, func, what
        self.ctx = func.context
        self.memo = set()
        self.ops = set()
        self.calls = []
        self.matched = {}

    def bad(self, kind, msg):
        raise Violation(kind, f"{self.what}: {msg}")

    def run(self):
        g = self.model.graph
        f = self.func
        if name_of(f) != g.name:
            self.bad("wrong-name", f"imported as {name_of(f)!r}")
        if f._attrs.get("sym_visibility") is not None and f._attrs["sym_visibility"].value != "public":
            self.bad("wrong-name", "the graph's function is not public")
        scope = Scope(g, elide=self.config.elide_initialized_inputs)
        ft = f._attrs["function_type"].value
        ins = [as_type(proto_asm(i.type), self.ctx) for i in scope.inputs]
        outs = [as_type(proto_asm(o.type), self.ctx) for o in g.output]
        if [str(t) for t in ft.inputs] != ins:
            self.bad("wrong-signature", f"takes {[str(t) for t in ft.inputs]}, the graph {ins}")
        if [str(t) for t in ft.results] != outs:
            self.bad("wrong-signature", f"returns {[str(t) for t in ft.results]}, the graph {outs}")
        self.meta(f)
        scope.block = f.regions[0].blocks[0]
        self.graph_outputs(scope, "func.return")

    def meta(self, f):
        m = self.model
        want = {}
        default = [o.version for o in m.opset_import if not o.domain]
        others = {o.domain: o.version for o in m.opset_import if o.domain}
        if default:
            want["opset_version"] = default[-1]
        if others:
            want["opset_versions"] = others
        want.update(ir_version=m.ir_version, producer_name=m.producer_name, producer_version=m.producer_version)
        got = {}
        for k, a in f._attrs.items():
            if k.startswith("torch.onnx_meta."):
                if isinstance(a, ir.DictAttr):
                    v = {x: y.value for x, y in a.value.items()}
                    typed = [y for y in a.value.values()]
                else:
                    v, typed = a.value, [a]
                for y in typed:
                    if isinstance(y, ir.IntegerAttr) and str(y.type) != "si64":
                        self.bad("wrong-metadata", f"{k} is of type {y.type}")
                got[k[len("torch.onnx_meta."):]] = v
        if got != want:
            self.bad("wrong-metadata", f"metadata {got}, the model's is {want}")

    def graph_outputs(self, scope, terminator):
        ops = scope.block.operations
        term = ops[-1] if ops else None
        if term is None or term.name != terminator:
            self.bad("wrong-structure", f"graph {scope.graph.name!r} ends in {term.name if term else 'nothing'}")
        want = [o.name for o in scope.graph.output]
        if len(term.operands) != len(want):
            self.bad("wrong-output", f"graph {scope.graph.name!r} has {len(want)} outputs, {len(term.operands)} imported")
        for n, v in zip(want, term.operands):
            self.value(scope, n, v, f"output {n!r} of {scope.graph.name!r}")

    def value(self, scope, name, v, where):
        try:
            s, p = scope.lookup(name)
        except KeyError:
            self.bad("wrong-wiring", f"{where}: nothing produces {name!r}, yet it was imported")
        key = (id(s), name, id(v))
        if key in self.memo:
            return
        self.memo.add(key)
        tp = s.type_of(name)
        if tp is not None:
            asm = proto_asm(tp)
            if asm is not None:
                t = as_type(asm, self.ctx)
                if str(v.type) != t:
                    self.bad("wrong-type", f"{where}: value {name!r} is {v.type}, in the model {t}")
        if p[0] == "arg":
            if not isinstance(v, mlir.BlockArgument) or v.owner is not s.block or v.index != p[1]:
                self.bad("wrong-wiring", f"{where}: {name!r} is input {p[1]} of {s.graph.name!r}, imported as {self.show(v)}")
            return
        if isinstance(v, mlir.BlockArgument):
            self.bad("wrong-wiring", f"{where}: {name!r} is {self.say(p)}, imported as {self.show(v)}")
        op = v.owner
        if p[0] == "const":
            self.constant(p[1], op, f"{where}: {name!r}")
            return
        node, i = p[1], p[2]
        if v.index != (i if op.name != "func.call" else sum(1 for o in node.output[:i] if o)):
            self.bad("wrong-wiring", f"{where}: {name!r} is result {i} of {node.op_type}, imported as result {v.index} of {op.name}")
        other = self.matched.setdefault(id(op), node)
        if other is not node and (other.SerializeToString() != node.SerializeToString()):
            # one operation may stand for two equal nodes, not for different ones
            if other.op_type != node.op_type:
                self.bad("wrong-wiring", f"{where}: one operation stands for {other.op_type} and {node.op_type}")
        self.node(s, node, op, where)

    def show(self, v):
        if isinstance(v, mlir.BlockArgument):
            return f"block argument {v.index}"
        n = v.owner._attrs.get("name")
        return f"result {v.index} of {n.value if n is not None else v.owner.name}"

    def say(self, p):
        return "a constant" if p[0] == "const" else f"result {p[2]} of {p[1].op_type}"

    def constant(self, t, op, where):
        if op.name != "torch.operator" or op._attrs["name"].value != "onnx.Constant":
            self.bad("wrong-constant", f"{where} is a constant, imported as {op.name}")
        if op.operands or set(op._attrs) != {"name", "torch.onnx.value"}:
            self.bad("wrong-constant", f"{where}: constant with {sorted(op._attrs)}")
        self.dense(t, op._attrs["torch.onnx.value"], where)
        want = as_type(tensor_asm(t.data_type, list(t.dims)), self.ctx)
        if str(op.results[0].type) != want:
            self.bad("wrong-constant", f"{where}: constant of type {op.results[0].type}, in the model {want}")

    def dense(self, t, a, where):
        ty = a.type
        if ty.kind != "tensor" or list(ty.p["shape"]) != list(t.dims) or str(ty.p["elem"]) != ELEM[t.data_type]:
            self.bad("wrong-constant", f"{where}: elements of type {ty}, in the model {ELEM[t.data_type]} of {list(t.dims)}")
        got, want = attr_bytes(a), proto_bytes(t)
        if got != want:
            self.bad("wrong-constant", f"{where}: elements {got[:32].hex()}, in the model {want[:32].hex()}")

    def node(self, scope, n, op, where):
        if ("node", id(n), id(op)) in self.memo:
            return
        self.memo.add(("node", id(n), id(op)))
        where = f"{where}: {n.op_type} of {list(n.output)}"
        self.ops.add(n.op_type)
        call = expandable(n, self.model, self.config)
        if op.name == "func.call":
            if call is False:
                self.bad("wrong-expansion", f"{where} is imported as a call")
            self.calls.append((scope, n, op))
        else:
            if call:
                self.bad("wrong-expansion", f"{where} is to be expanded and is not")
            if op.name != "torch.operator" or op._attrs["name"].value != f"onnx.{n.op_type}":
                got = op._attrs.get("name")
                self.bad("wrong-operator", f"{where} is imported as {got.value if got is not None else op.name}")
        if len(op.operands) != len(n.input):
            self.bad("wrong-wiring", f"{where}: {len(op.operands)} operands for inputs {list(n.input)}")
        outputs = [o for o in n.output if o] if op.name == "func.call" else list(n.output)
        if len(op.results) != len(outputs):
            self.bad("wrong-wiring", f"{where}: {len(op.results)} results for outputs {list(n.output)}")
        for name, v in zip(n.input, op.operands):
            if name == "":
                if isinstance(v, mlir.BlockArgument) or v.owner.name != "torch.constant.none":
                    self.bad("wrong-wiring", f"{where}: an omitted input is imported as {self.show(v)}")
            else:
                self.value(scope, name, v, where)
        for name, r in zip(outputs, op.results):
            tp = scope.type_of(name) if name else None
            asm = proto_asm(tp) if tp is not None else None
            if asm is not None and str(r.type) != as_type(asm, self.ctx):
                self.bad("wrong-type", f"{where}: result {name!r} is {r.type}, in the model {as_type(asm, self.ctx)}")
        if op.name == "func.call":
            return
        want = {a.name: a for a in n.attribute if a.type != AttributeProto.GRAPH}
        got = {k[len("torch.onnx."):]: a for k, a in op._attrs.items() if k.startswith("torch.onnx.")}
        if set(want) != set(got):
            self.bad("wrong-attribute", f"{where}: attributes {sorted(got)}, in the model {sorted(want)}")
        for k in sorted(want):
            self.attribute(want[k], got[k], f"{where}: attribute {k!r}")
        graphs = sorted((a.name, a) for a in n.attribute if a.type == AttributeProto.GRAPH)
        if len(op.regions) != len(graphs):
            self.bad("wrong-structure", f"{where}: {len(op.regions)} regions for {len(graphs)} subgraphs")
        for (k, a), r in zip(graphs, op.regions):
            if len(r.blocks) != 1:
                self.bad("wrong-structure", f"{where}: subgraph {k} in {len(r.blocks)} blocks")
            sub = Scope(a.g, scope)
            sub.block = r.blocks[0]
            self.keep(sub)
            types = [as_type(proto_asm(i.type), self.ctx) for i in sub.inputs]
            if [str(x.type) for x in sub.block.arguments] != types:
                self.bad("wrong-signature", f"{where}: subgraph {k} takes {[str(x.type) for x in sub.block.arguments]}, in the model {types}")
            self.graph_outputs(sub, "torch.operator_terminator")

    def keep(self, x):
        self.__dict__.setdefault("_kept", []).append(x)

    def attribute(self, a, got, where):
        A = AttributeProto

        def is_int(x, v):
            return isinstance(x, ir.IntegerAttr) and str(x.type) == "si64" and x.value == v

        def is_float(x, v):
            return isinstance(x, ir.FloatAttr) and str(x.type) == "f32" and np.float32(x.value).tobytes() == np.float32(v).tobytes()

        def is_str(x, v):
            return isinstance(x, ir.StringAttr) and x.value.encode("utf-8", "surrogateescape") == v

        def listed(values, f):
            return isinstance(got, ir.ArrayAttr) and len(got) == len(values) and all(f(x, v) for x, v in zip(got, values))

        if a.type == A.TENSOR:
            return self.dense(a.t, got, where)
        if a.type == A.TENSORS:
            if not isinstance(got, ir.ArrayAttr) or len(got) != len(a.tensors):
                self.bad("wrong-attribute", f"{where}: {len(a.tensors)} tensors imported as {str(got)[:80]}")
            for t, x in zip(a.tensors, got):
                self.dense(t, x, where)
            return
        ok = {
            A.INT: lambda: is_int(got, a.i), A.FLOAT: lambda: is_float(got, a.f), A.STRING: lambda: is_str(got, a.s),
            A.INTS: lambda: listed(a.ints, is_int), A.FLOATS: lambda: listed(a.floats, is_float),
            A.STRINGS: lambda: listed(a.strings, is_str),
        }.get(a.type)
        if ok is None:
            self.bad("wrong-attribute", f"{where}: of a kind that is not supported, yet imported")
        if not ok():
            self.bad("wrong-attribute", f"{where}: {str(helper.get_attribute_value(a))[:80]} imported as {str(got)[:80]} ({getattr(got, 'type', '')})")


# -------------------------------------------------- what an expansion computes


class Uncomputable(Exception):
    pass


DIMS = {"N": 2, "M": 3, "H": 2}


def concrete(tp, seed, dims):
    """A random value of a type."""
    kind = tp.WhichOneof("value")
    if kind == "sequence_type":
        return [concrete(tp.sequence_type.elem_type, seed + 11 * i, dims) for i in range(1 + seed % 2)]
    if kind != "tensor_type" or not tp.tensor_type.HasField("shape"):
        raise Uncomputable(str(kind))
    sh = []
    for d in tp.tensor_type.shape.dim:
        sh.append(d.dim_value if d.HasField("dim_value") else dims.get(d.dim_param, 2))
    e = tp.tensor_type.elem_type
    if e in onnxprog.ITEM or e == T.STRING:
        raise Uncomputable(ELEM[e])
    n = int(np.prod(sh)) if sh else 1
    r = np.random.RandomState(seed)
    if e in (T.FLOAT, T.DOUBLE, T.FLOAT16):
        return (r.randn(n) * 2).astype(helper.tensor_dtype_to_np_dtype(e)).reshape(sh)
    return r.randint(0, 4, n).astype(helper.tensor_dtype_to_np_dtype(e)).reshape(sh)


class Decompiler:
    """Functions of the module as an ONNX model."""

    def __init__(self, module):
        self.funcs = {name_of(f): f for f in functions(module)}
        self.local = {}

    def function(self, name):
        if name in self.local:
            return self.local[name][0]
        f = self.funcs[name]
        fid = f"f{len(self.local)}"
        self.local[name] = (fid, None)
        version = f._attrs["torch.onnx_meta.opset_version"].value
        block = f.regions[0].blocks[0]
        env = {}
        ins = []
        for a in block.arguments:
            env[id(a)] = f"a{len(env)}"
            ins.append(env[id(a)])
        nodes, outs = self.block(block, env, version)
        # a result that is an argument, or one twice, gets a name of its own
        final = []
        for i, o in enumerate(outs):
            nodes.append(helper.make_node("Identity", [o], [f"out{i}"]))
            final.append(f"out{i}")
        fn = helper.make_function(
            "sim.local", fid, ins, final, nodes,
            [helper.make_opsetid("", version), helper.make_opsetid("sim.local", 1)],
        )
        self.local[name] = (fid, fn)
        return fid

    def block(self, block, env, version):
        nodes = []
        for op in block.operations:
            ins = [env[id(v)] for v in op.operands]
            if op.name in ("func.return", "torch.operator_terminator"):
                return nodes, ins
            outs = []
            for r in op.results:
                env[id(r)] = f"v{len(env)}"
                outs.append(env[id(r)])
            if op.name == "torch.constant.none":
                env[id(op.results[0])] = ""
                continue
            if op.name == "func.call":
                fid = self.function(op._attrs["callee"].value)
                nodes.append(helper.make_node(fid, ins, outs, domain="sim.local"))
                continue
            if op.name != "torch.operator":
                raise Uncomputable(op.name)
            kind = op._attrs["name"].value[len("onnx."):]
            schema = onnx.defs.get_schema(kind, version, "") if version else None
            n = helper.make_node(kind, ins, outs)
            for k, a in op._attrs.items():
                if k.startswith("torch.onnx."):
                    n.attribute.append(self.attr(k[len("torch.onnx."):], a, schema))
            if op.regions:
                names = sorted(k for k, d in schema.attributes.items() if str(d.type).endswith("GRAPH"))
                if len(names) != len(op.regions):
                    raise Uncomputable(f"regions of {kind}")
                for k, r in zip(names, op.regions):
                    b = r.blocks[0]
                    gi = []
                    for a in b.arguments:
                        env[id(a)] = f"b{len(env)}"
                        gi.append(helper.make_value_info(env[id(a)], onnx.TypeProto()))
                    gn, go = self.block(b, env, version)
                    final = []
                    for i, o in enumerate(go):
                        env[("out", id(b), i)] = f"y{len(env)}"
                        gn.append(helper.make_node("Identity", [o], [env[("out", id(b), i)]]))
                        final.append(helper.make_value_info(env[("out", id(b), i)], onnx.TypeProto()))
                    n.attribute.append(helper.make_attribute(k, helper.make_graph(gn, "g", gi, final)))
            nodes.append(n)
        raise Uncomputable("block without end")

    def attr(self, name, a, schema):
        A = AttributeProto
        if isinstance(a, ir.ArrayAttr):
            xs = list(a)
            if not xs:
                kind = schema.attributes[name].type if schema and name in schema.attributes else A.INTS
                return helper.make_attribute(name, [], attr_type=int(getattr(kind, "value", kind)))
            return helper.make_attribute(name, [self.plain(x) for x in xs])
        return helper.make_attribute(name, self.plain(a))

    def plain(self, a):
        if isinstance(a, (ir.DenseElementsAttr, ir.DenseResourceElementsAttr)):
            t = TensorProto()
            t.data_type = next(k for k, v in ELEM.items() if v == str(a.type.p["elem"]))
            t.dims.extend(a.type.p["shape"])
            t.raw_data = attr_bytes(a)
            return t
        if isinstance(a, ir.FloatAttr):
            return float(a.value)
        if isinstance(a, ir.IntegerAttr):
            return int(a.value)
        if isinstance(a, ir.StringAttr):
            return a.value.encode("utf-8", "surrogateescape")
        raise Uncomputable(type(a).__name__)


def close(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind in "fc":
        tol = 2e-2 if a.dtype == np.float16 else 1e-4
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    return bool((a == b).all())


def evaluate(model, feeds):
    from onnx.reference import ReferenceEvaluator

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return ReferenceEvaluator(model).run(None, feeds)
        except (InvalidScenario, SimUnsupported):
            raise
        except Exception as e:
            raise Uncomputable(f"{type(e).__name__}: {str(e)[:200]}")


def compare_call(m, scope, node, op, module, seed):
    """Does the called function compute what the operator does?  Returns None or an account."""
    ins, feeds, names = [], {}, []
    for i, n in enumerate(node.input):
        if n == "":
            names.append("")
            continue
        tp = scope.type_of(n)
        s, p = scope.lookup(n)
        if tp is None:
            raise Uncomputable("an input without a type")
        v = numpy_helper.to_array(p[1]) if p[0] == "const" else concrete(tp, seed + 31 * i, DIMS)
        key = f"in{i}"
        feeds[key] = v
        ins.append(helper.make_value_info(key, tp))
        names.append(key)
    outs = [f"o{i}" if o else "" for i, o in enumerate(node.output)]
    n = onnx.NodeProto()
    n.CopyFrom(node)
    del n.input[:]
    n.input.extend(names)
    del n.output[:]
    n.output.extend(outs)
    vis = [helper.make_value_info(o, onnx.TypeProto()) for o in outs if o]
    ref = helper.make_model(helper.make_graph([n], "g", ins, vis), opset_imports=list(m.model.opset_import))
    d = Decompiler(module)
    fid = d.function(op._attrs["callee"].value)
    call = helper.make_node(fid, names, [o for o in outs if o], domain="sim.local")
    mine = helper.make_model(
        helper.make_graph([call], "g", ins, vis),
        opset_imports=[o for o in m.model.opset_import if o.domain == ""] + [helper.make_opsetid("sim.local", 1)],
        functions=[f for _, f in d.local.values()],
    )
    want = evaluate(ref, feeds)
    got = evaluate(mine, feeds)
    if not close(list(want), list(got)):
        return f"computes {[np.asarray(x).reshape(-1)[:6].tolist() for x in got]}, the operator {[np.asarray(x).reshape(-1)[:6].tolist() for x in want]}"
    return None


# ------------------------------------------------------------- refused models


def spoil(model, kind, which):
    """Make the model one that cannot be imported.  Returns what was done, or None."""
    g = model.graph
    n = g.node[which % len(g.node)] if g.node else None
    if kind == "unknown-elem":
        t = TensorProto(name="bad", data_type=[999, T.UNDEFINED, 23][which % 3], dims=[1], raw_data=b"\0")
        g.initializer.append(t)
        return "an initializer of unknown element type"
    if kind == "typed":
        e = [T.BFLOAT16, T.COMPLEX64, T.FLOAT16, T.UINT16][which % 4]
        t = TensorProto(name="bad", data_type=e, dims=[2])
        (t.float_data if e == T.COMPLEX64 else t.int32_data).extend([1, 2, 3, 4][: 4 if e == T.COMPLEX64 else 2])
        g.initializer.append(t)
        return f"typed data of {ELEM[e]}"
    if kind == "strings":
        g.initializer.append(helper.make_tensor("bad", T.STRING, [1], [b"x"]))
        return "a constant of strings"
    if kind == "map":
        v = onnx.ValueInfoProto(name="bad")
        v.type.map_type.key_type = T.INT64
        v.type.map_type.value_type.tensor_type.elem_type = T.FLOAT
        g.input.append(v)
        return "an input of map type"
    if kind == "sparse":
        v = onnx.ValueInfoProto(name="bad")
        v.type.sparse_tensor_type.elem_type = T.FLOAT
        g.input.append(v)
        return "an input of sparse tensor type"
    if kind == "nested":
        v = helper.make_value_info("bad", helper.make_sequence_type_proto(helper.make_sequence_type_proto(helper.make_tensor_type_proto(T.FLOAT, [1]))))
        g.input.append(v)
        return "an input of nested sequence type"
    if kind == "output":
        g.output.append(helper.make_tensor_value_info("nowhere", T.FLOAT, [1]))
        return "an output nothing produces"
    if n is None:
        return None
    if kind == "input":
        if n.op_type == "Constant":
            return None
        n.input.append("nowhere")
        return "an input nothing produces"
    if kind == "late":
        if not n.output or not n.output[0]:
            return None
        m = onnx.NodeProto(op_type="Foo", domain="com.sim")
        m.input.append(n.output[0])
        m.output.append("early")
        old = list(g.node)
        del g.node[:]
        g.node.extend([m] + old)
        if not any(o.domain == "com.sim" for o in model.opset_import):
            model.opset_import.append(helper.make_opsetid("com.sim", 1))
        return "a node before its input"
    if kind == "attr":
        a = n.attribute.add()
        a.name = "bad"
        w = which % 5
        a.type = [AttributeProto.SPARSE_TENSOR, AttributeProto.TYPE_PROTO, AttributeProto.GRAPHS, AttributeProto.UNDEFINED, AttributeProto.SPARSE_TENSORS][w]
        if n.op_type == "Constant" and n.domain == "" and n.attribute[0].name == "value":
            return None
        return "an attribute of a kind that is not supported"
    if kind == "opset":
        dom = n.domain
        keep = [o for o in model.opset_import if o.domain != dom]
        del model.opset_import[:]
        model.opset_import.extend(keep)
        if all(x.op_type == "Constant" and x.attribute and x.attribute[0].name == "value" for x in g.node if x.domain == dom):
            return None
        return f"no opset import for {dom!r}"
    raise InvalidScenario(kind)


SPOILS = ["unknown-elem", "typed", "strings", "map", "sparse", "nested", "output", "input", "late", "attr", "opset"]

# ---------------------------------------------------------------------- world


class Handle:
    def __init__(self, no, ctx, module):
        self.no, self.ctx, self.module = no, ctx, module
        self.cc = self.mc = None
        self.done = []  # [(name, digest of every function at that time)]


class World:
    def __init__(self, sc, run):
        self.sc, self.run = sc, run
        self.handles = {}
        self.models = {}
        self.ccs = {}
        self.fault, self.fired, self.ticks = None, None, 0
        mlir.hooks.reset()

    def point(self, name):
        self.ticks += 1
        f = self.fault
        if f is not None and self.ticks == f["at"]:
            self.fault = None
            self.fired = (f["kind"], name)
            self.run.log("fault", f["kind"], name)
            self.run.fault(f["kind"])
            raise FAULTS[f["kind"]](name)

    def model(self, slot):
        specs = self.sc["models"]
        slot %= len(specs)
        if slot not in self.models:
            try:
                m = onnxprog.build(specs[slot])
                onnx.checker.check_model(m)
            except (onnx.checker.ValidationError, onnx.shape_inference.InferenceError) as e:
                self.run.probe("model refused by onnx")
                self.run.log("refused", slot, str(e)[:80])
                m = None
            except InvalidScenario:
                self.run.probe("empty model")
                m = None
            self.models[slot] = m
        return self.models[slot]

    def new(self, no, share=None):
        ctx = self.handles[share].ctx if share in self.handles else None
        if ctx is None:
            ctx = ir.Context()
            torch_d.register_dialect(ctx)
        m = ir.Module.create(ir.Location.unknown(ctx))
        h = self.handles[no] = Handle(no, ctx, m)
        self.run.log("new", no, share)
        return h

    def config(self, opts):
        c = onnx_importer.Config()
        x = opts.get("expand")
        if x == "all":
            c.function_expansion_allowlists_by_domain = None
        elif x == "known":
            c.function_expansion_allowlists_by_domain = {"": set(onnxprog.FUNCTIONS)}
        elif x == "none":
            c.function_expansion_allowlists_by_domain = {}
        if opts.get("keepinputs"):
            c.elide_initialized_inputs = False
        return c

    def snapshot(self, h):
        return [(name_of(f), func_digest(f)) for f in functions(h.module)]

    def import_op(self, h, slot, opts, fault=None):
        opts = opts or {}
        proto = self.model(slot)
        if proto is None:
            return None
        model = onnx.ModelProto()
        model.CopyFrom(proto)
        name = opts.get("name") or "main"
        names = {name_of(f) for f in functions(h.module)}
        while name in names:
            name += "_"
        model.graph.name = name
        spoiled = None
        if opts.get("spoil"):
            spoiled = spoil(model, SPOILS[opts["spoil"][0] % len(SPOILS)], opts["spoil"][1])
            if spoiled is None:
                return None
        if spoiled and SPOILS[opts["spoil"][0] % len(SPOILS)] == "attr":
            opts = dict(opts, expand="none")  # an expansion takes the attributes it knows
        config = self.config(opts)
        if not config.elide_initialized_inputs:
            inits = {t.name for t in model.graph.initializer}
            if any(i.name in inits for i in model.graph.input):
                config.elide_initialized_inputs = True
        what = f"import of model {slot} as {name!r}"
        before = self.snapshot(h)
        frozen = model.SerializeToString(deterministic=True)
        share = opts.get("share", "both")
        self.fault, self.fired, self.ticks = fault, None, 0
        mlir.hooks.tick = self.point
        err = func = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                info = onnx_importer.ModelInfo(model, config=config)
                kw = {}
                if share in ("both", "cc"):
                    if id(h.ctx) not in self.ccs:
                        self.ccs[id(h.ctx)] = onnx_importer.ContextCache(h.ctx)
                    kw["context_cache"] = self.ccs[id(h.ctx)]
                if share == "both":
                    if h.mc is None:
                        h.mc = onnx_importer.ModuleCache(h.module.operation, kw["context_cache"])
                    kw["module_cache"] = h.mc
                imp = onnx_importer.NodeImporter.define_function(info.main_graph, h.module.operation, **kw)
                imp.import_all()
        except (InjectedInterrupt, Exception) as e:
            if isinstance(e, (Violation, InvalidScenario)):
                raise
            err = e
        finally:
            mlir.hooks.tick = None
            self.fault = None
        self.run.steps += self.ticks
        if mlir.depth():
            raise Violation("context-leak", f"{what}: {mlir.depth()} MLIR contexts, locations or insertion points left entered")
        if model.SerializeToString(deterministic=True) != frozen:
            raise Violation("model-modified", f"{what} changed the caller's model")
        if err is not None:
            return self.failed(h, slot, err, spoiled, what, before, config)
        if self.fired is not None:
            raise Violation("error-swallowed", f"{what}: {self.fired[0]} in {self.fired[1]} was not reported")
        if spoiled is not None:
            raise Violation("bad-model-imported", f"{what} with {spoiled}: imported without an error")
        found = [f for f in functions(h.module) if name_of(f) == name]
        if len(found) != 1:
            raise Violation("wrong-name", f"{what}: {len(found)} functions of that name, functions {[name_of(f) for f in functions(h.module)][:6]}")
        self.kept(h, before, what)
        self.check_module(h, what)
        self.private_only(h, before, name, what)
        m = Matcher(self, model, config, found[0], what)
        m.run()
        seen = 0
        for scope, node, op in m.calls:
            seen += 1
            if seen > 6:
                break
            try:
                bad = compare_call(m, scope, node, op, h.module, 7 * seen + slot)
            except Uncomputable as e:
                self.run.probe("expansion not compared")
                self.run.log("not compared", node.op_type, str(e)[:120])
                continue
            self.run.probe("expansions compared")
            if bad:
                raise Violation("wrong-expansion", f"{what}: {node.op_type} of {list(node.output)} {bad}")
        self.run.log("imported", slot, name, len(m.memo), self.ticks)
        self.run.state(sorted(m.ops))
        h.done.append((name, dict(self.snapshot(h))))
        return found[0]

    def failed(self, h, slot, err, spoiled, what, before, config):
        if self.fired is not None:
            if not injected(err):
                raise Violation("wrong-error", f"{what}: {self.fired[0]} in {self.fired[1]} surfaced as {type(err).__name__}: {str(err)[:300]}")
            self.run.log("import failed", slot, self.fired[0], self.fired[1])
        elif spoiled is not None:
            if isinstance(err, UNHELPFUL):
                raise Violation("wrong-error", f"{what} with {spoiled}: refused by {type(err).__name__}: {str(err)[:300]}")
            if not isinstance(err, onnx_importer.OnnxImportError) and not self.refused_by_onnx(err):
                raise Violation("wrong-error", f"{what} with {spoiled}: refused by {type(err).__name__}: {str(err)[:300]}")
            self.run.fault("bad model")
            self.run.log("refused", slot, spoiled, type(err).__name__)
        else:
            # onnx's own function bodies may defy onnx's own type inference
            if self.refused_by_onnx(err) and config.function_expansion_allowlists_by_domain is None:
                self.run.probe("expansion refused by onnx")
                self.run.log("expansion refused", slot, str(err)[:100])
            else:
                raise Violation("import-refused", f"{what}: {type(err).__name__}: {str(err)[:400]}")
        for f in functions(h.module):
            ops = f.regions[0].blocks[0].operations if f.regions[0].blocks else []
            if not ops or ops[-1].name != "func.return":
                raise Violation("residue", f"{what} failed and left the incomplete function {name_of(f)[:60]!r}")
        self.kept(h, before, what + " (failed)")
        self.private_only(h, before, None, what + " (failed)")
        self.check_module(h, what + " (failed)")
        return None

    def refused_by_onnx(self, err):
        return type(err).__module__.partition(".")[0] == "onnx"

    def kept(self, h, before, what):
        now = self.snapshot(h)
        names = [n for n, _ in now]
        d = dict(now)
        for n, dig in before:
            if names.count(n) != 1:
                raise Violation("duplicate-name" if n in names else "lost-function", f"{what}: {names.count(n)} functions called {n[:60]!r}")
            if d[n] != dig:
                raise Violation("function-changed", f"{what} changed the earlier function {n[:60]!r}")

    def private_only(self, h, before, name, what):
        known = {n for n, _ in before} | {name}
        for f in functions(h.module):
            if name_of(f) not in known:
                vis = f._attrs.get("sym_visibility")
                if vis is None or vis.value != "private":
                    raise Violation("residue", f"{what} left the function {name_of(f)[:60]!r}")

    def check_module(self, h, where):
        try:
            h.module.operation.verify()
        except mlir.MLIRError as e:
            raise Violation("invalid-module", f"{where}: {str(e)[:600]}")

    def final(self):
        for h in self.handles.values():
            snap = dict(self.snapshot(h))
            for name, digs in h.done:
                for n, d in digs.items():
                    if snap.get(n) != d:
                        raise Violation("function-changed", f"{n[:60]!r} is not what it was after importing {name!r}")
            self.check_module(h, "at the end")


def play(sc, run):
    if not sc.get("models") or not sc.get("ops"):
        raise InvalidScenario("empty")
    w = World(sc, run)
    done = 0
    try:
        for op in sc["ops"]:
            if op[0] == "new":
                w.new(op[1], op[2])
            elif op[0] == "import":
                _, h, slot, opts, fault = op
                if h not in w.handles:
                    w.new(h)
                done += w.import_op(w.handles[h], slot, opts, fault) is not None
            else:
                raise InvalidScenario(op[0])
        w.final()
    finally:
        mlir.hooks.reset()
    run.probe("imports completed", done)
    if done > 1 or run.faults:
        run.nontrivial = True
    return w
