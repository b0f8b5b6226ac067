"""Random ONNX models.

A spec is plain JSON; ``build`` turns it into a ModelProto.  Operands are
numbers which pick among the values of the right type that are in scope, so a
spec stays meaningful when parts of it are removed.
"""

import struct

import numpy as np
import onnx
from onnx import TensorProto, helper

from .core import InvalidScenario

T = TensorProto
F, D, H, I64, I32, B = T.FLOAT, T.DOUBLE, T.FLOAT16, T.INT64, T.INT32, T.BOOL
NAMES = [
    "v", "v", "v", "x/y", "a.b", "%", "a b", "名", 'q"', "\\", "onnx::Add", "x:", "1", "_", "A", "arg", "None", "é",
]
STRINGS = ["", "a", "NCHW", 'q"\\', "名", "line\nbreak", "\x00z"]
# operators with a function body whose expansion onnx itself carries out
FUNCTIONS = {
    "Relu", "LeakyRelu", "Elu", "Selu", "HardSigmoid", "Softmax", "LogSoftmax", "Softplus", "Softsign", "HardSwish",
    "ThresholdedRelu", "Celu", "Mish", "Gelu", "Clip", "GreaterOrEqual", "LessOrEqual", "PRelu", "LayerNormalization",
    "GroupNormalization", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare", "Shrink",
    "MeanVarianceNormalization", "DynamicQuantizeLinear", "SoftmaxCrossEntropyLoss", "NegativeLogLikelihoodLoss",
    "CenterCropPad", "SequenceMap", "HannWindow", "HammingWindow", "BlackmanWindow", "AffineGrid",
}


class Val:
    def __init__(self, name, kind, elem=None, shape=None, inner=None, const=None):
        self.name, self.kind, self.elem, self.shape, self.inner, self.const = name, kind, elem, shape, inner, const

    def proto(self):
        if self.kind == "t":
            return helper.make_tensor_type_proto(self.elem, self.shape)
        if self.kind == "seq":
            return helper.make_sequence_type_proto(self.inner.proto())
        if self.kind == "opt":
            return helper.make_optional_type_proto(self.inner.proto())
        return None


def np_of(elem):
    return helper.tensor_dtype_to_np_dtype(elem)


def data(elem, dims, seed):
    """Deterministic values, different for every seed."""
    n = int(np.prod(dims)) if dims else 1
    r = np.random.RandomState(seed % (1 << 31))
    if elem == T.BOOL:
        a = r.randint(0, 2, n).astype(bool)
    elif elem in (T.COMPLEX64, T.COMPLEX128):
        a = (r.randn(n) + 1j * r.randn(n)).astype(np_of(elem))
    elif elem in (T.FLOAT, T.DOUBLE, T.FLOAT16):
        a = (r.randn(n) * 4).astype(np_of(elem))
        if seed % 7 == 0 and n:
            a[r.randint(n)] = [np.inf, -np.inf, np.nan, 0.0, -0.0][r.randint(5)]
    else:
        info = np.iinfo(np_of(elem))
        a = r.randint(-5, 6, n).astype(np_of(elem))
        if n and seed % 3 == 0:
            a[r.randint(n)] = info.max if seed % 2 else info.min
    return a.reshape(dims)


# How a tensor's elements are stored in the proto.
TYPED = {F: "float_data", D: "double_data", I64: "int64_data", I32: "int32_data", T.INT8: "int32_data", T.UINT8: "int32_data",
         T.INT16: "int32_data", B: "int32_data", T.UINT32: "uint64_data", T.UINT64: "uint64_data"}
RAW = [F, D, H, I64, I32, B, T.UINT8, T.INT8, T.UINT16, T.INT16, T.UINT32, T.UINT64, T.COMPLEX64, T.COMPLEX128, T.BFLOAT16,
       T.FLOAT8E4M3FN, T.FLOAT8E4M3FNUZ, T.FLOAT8E5M2, T.FLOAT8E5M2FNUZ]
ITEM = {T.BFLOAT16: 2, T.FLOAT8E4M3FN: 1, T.FLOAT8E4M3FNUZ: 1, T.FLOAT8E5M2: 1, T.FLOAT8E5M2FNUZ: 1}


def tensor(name, elem, dims, seed, raw=True, values=None):
    t = TensorProto()
    t.name = name
    t.data_type = elem
    t.dims.extend(dims)
    if elem in ITEM:
        n = int(np.prod(dims)) if dims else 1
        t.raw_data = np.random.RandomState(seed % (1 << 31)).bytes(n * ITEM[elem])
        return t
    a = np.asarray(values, dtype=np_of(elem)).reshape(dims) if values is not None else data(elem, dims, seed)
    field = TYPED.get(elem)
    if raw or field is None or a.size == 0:
        t.raw_data = a.tobytes()
    else:
        getattr(t, field).extend(int(x) if elem == T.BOOL else x for x in a.reshape(-1).tolist())
    return t


class Scope:
    """One graph under construction."""

    def __init__(self, b, parent=None):
        self.b, self.parent = b, parent
        self.vals, self.nodes, self.inits, self.extra = [], [], [], []
        self.counter = parent.counter if parent else 0
        self.depth = parent.depth + 1 if parent else 0

    def all(self):
        out = list(self.parent.all()) if self.parent else []
        return out + self.vals

    def fresh(self, style=0):
        self.counter += 1
        base = NAMES[style % len(NAMES)]
        return f"{base}{self.counter}"

    def find(self, pick, pred):
        c = [v for v in self.all() if pred(v)]
        if not c:
            return None
        # prefer recent values, and outer ones in subgraphs now and then
        return c[-1 - pick % len(c)] if pick % 3 else c[(pick // 3) % len(c)]

    def add(self, v):
        self.vals.append(v)
        return v

    def node(self, op, ins, outs, domain="", **attrs):
        names = [i.name if isinstance(i, Val) else i for i in ins]
        onames = [o.name if isinstance(o, Val) else o for o in outs]
        n = helper.make_node(op, names, onames, name=f"n{self.counter}" if self.counter % 3 else "", domain=domain)
        for k in attrs:
            if attrs[k] is not None:
                n.attribute.append(attrs[k] if isinstance(attrs[k], onnx.AttributeProto) else helper.make_attribute(k, attrs[k]))
        if self.b.spec.get("rev") and len(n.attribute) > 1:
            a = list(n.attribute)[::-1]
            del n.attribute[:]
            n.attribute.extend(a)
        self.nodes.append(n)
        for o in outs:
            if isinstance(o, Val):
                self.add(o)
        return n

    def const(self, elem, dims, values, how=0):
        """A value known at import time."""
        name = self.fresh()
        v = Val(name, "t", elem, list(dims), const=np.asarray(values, dtype=np_of(elem)).reshape(dims))
        t = tensor(name, elem, dims, 0, raw=how % 2 == 0, values=values)
        if how % 4 < 2:
            self.inits.append(t)
            self.add(v)
        else:
            if how % 8 < 4:
                t.name = ""
            self.node("Constant", [], [v], value=t)
        return v


def isfloat(v):
    return v.kind == "t" and v.elem in (F, D)


def same(v):
    return lambda w: w.kind == "t" and w.elem == v.elem and w.shape == v.shape


def known(v):
    return v.kind == "t" and v.shape is not None


class Builder:
    def __init__(self, spec):
        self.spec = spec
        self.opset = max(spec.get("opset", 17), 13)
        self.domains = set()

    # -- operators

    def unary(self, s, p):
        v = s.find(p["a"], lambda w: isfloat(w) and w.shape is not None)
        if v is None:
            return
        ops = [
            ("Relu", {}), ("Neg", {}), ("Abs", {}), ("Tanh", {}), ("Sigmoid", {}), ("Identity", {}), ("Floor", {}),
            ("LeakyRelu", {"alpha": p["f"]}), ("LeakyRelu", {}), ("Elu", {"alpha": p["f"]}), ("Selu", {"alpha": 1.5, "gamma": p["f"]}),
            ("HardSigmoid", {"alpha": 0.25, "beta": p["f"]}), ("HardSigmoid", {"alpha": 0.25}), ("HardSigmoid", {"beta": 0.25}),
            ("Selu", {"alpha": 0.5}), ("Selu", {"gamma": 0.5}), ("Shrink", {"bias": 0.5}), ("Shrink", {"lambd": 0.5}), ("Softplus", {}), ("Softsign", {}), ("ThresholdedRelu", {"alpha": p["f"]}),
            ("Celu", {"alpha": 2.0}), ("HardSwish", {}), ("Shrink", {"bias": p["f"], "lambd": 0.75}), ("Mish", {}), ("Gelu", {}),
            ("Gelu", {"approximate": "tanh"}), ("Softmax", {"axis": -1}), ("LogSoftmax", {"axis": -1}), ("Softmax", {"axis": 0}),
        ]
        op, at = ops[p["k"] % len(ops)]
        if op in ("Mish",) and self.opset < 18 or op == "Gelu" and self.opset < 20 or op == "HardSwish" and self.opset < 14:
            op, at = "Relu", {}
        # onnx's function body of Celu makes rank 1 of rank 0
        if op in ("Celu", "Mish") and v.elem != F or op == "Celu" and not v.shape:
            op, at = "Neg", {}
        if op in ("Softmax", "LogSoftmax") and not v.shape:
            op, at = "Neg", {}
        s.node(op, [v], [Val(s.fresh(p["n"]), "t", v.elem, v.shape)], **at)

    def binary(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem in (F, D, I64, I32))
        if v is None:
            return
        w = s.find(p["b"], same(v)) or v
        k = p["k"]
        out = Val(s.fresh(p["n"]), "t", v.elem, v.shape)
        if k % 9 < 4:
            s.node(["Add", "Sub", "Mul", "Sub"][k % 4], [v, w], [out])
        elif k % 9 == 4:
            u = s.find(p["c"], same(v)) or v
            s.node(["Max", "Min", "Sum", "Mean"][k % 4] if isfloat(v) else ["Max", "Min"][k % 2], [v, w, u][: 1 + p["c"] % 3], [out])
        elif k % 9 in (5, 6):
            out.elem = B
            s.node(["Greater", "Less", "Equal", "GreaterOrEqual", "LessOrEqual"][p["c"] % 5], [v, w], [out])
        elif k % 9 == 7:
            c = s.find(p["c"], lambda x: known(x) and x.elem == B and x.shape == v.shape)
            if c is None:
                s.node("Sub", [w, v], [out])
            else:
                s.node("Where", [c, v, w], [out])
        else:
            if not isfloat(v):
                s.node("Sub", [w, v], [out])
            else:
                s.node("PRelu", [v, w], [out])

    def logic(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem == B)
        if v is None:
            return
        out = Val(s.fresh(p["n"]), "t", B, v.shape)
        w = s.find(p["b"], same(v)) or v
        if p["k"] % 4 == 0:
            s.node("Not", [v], [out])
        else:
            s.node(["And", "Or", "Xor"][p["k"] % 3], [v, w], [out])

    def cast(self, s, p):
        v = s.find(p["a"], known)
        if v is None or v.elem not in (F, D, H, I64, I32, B):
            return
        to = [F, D, H, I64, I32, B, F][p["k"] % 7]
        s.node("Cast", [v], [Val(s.fresh(p["n"]), "t", to, v.shape)], to=to)

    def shape(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and len(w.shape) >= 1)
        if v is None:
            return
        k = p["k"] % 9
        r = len(v.shape)
        if k == 0:
            perm = list(range(r))[::-1] if p["b"] % 2 else [(i + 1) % r for i in range(r)]
            s.node("Transpose", [v], [Val(s.fresh(p["n"]), "t", v.elem, [v.shape[i] for i in perm])], perm=perm)
        elif k == 1:
            w = s.find(p["b"], same(v)) or v
            if isinstance(v.shape[0], str):
                return
            s.node("Concat", [v, w, v][: 2 + p["c"] % 2], [Val(s.fresh(p["n"]), "t", v.elem, [v.shape[0] * (2 + p["c"] % 2)] + v.shape[1:])], axis=0)
        elif k == 2:
            ax = self.const_axes(s, [0], p["c"])
            s.node("Unsqueeze", [v, ax], [Val(s.fresh(p["n"]), "t", v.elem, [1] + v.shape)])
        elif k == 3:
            s.node("Shape", [v], [Val(s.fresh(p["n"]), "t", I64, [r])], **({"start": 0} if self.opset >= 15 and p["b"] % 2 else {}))
        elif k == 4:
            if isinstance(v.shape[0], str) or v.shape[0] < 2:
                return
            n = v.shape[0]
            sp = self.const_axes(s, [1, n - 1], p["c"])
            outs = [Val(s.fresh(p["n"]), "t", v.elem, [1] + v.shape[1:]), Val(s.fresh(p["n"] + 1), "t", v.elem, [n - 1] + v.shape[1:])]
            if p["b"] % 5 == 0 and n > 1:
                s.node("Split", [v, sp], [outs[0], ""] if p["b"] % 2 else ["", outs[1]], axis=0)
            else:
                s.node("Split", [v, sp], outs, axis=0)
        elif k == 5:
            if any(isinstance(d, str) for d in v.shape):
                return
            n = int(np.prod(v.shape))
            sh = self.const_axes(s, [n] if p["b"] % 2 else [1, n], p["c"])
            s.node("Reshape", [v, sh], [Val(s.fresh(p["n"]), "t", v.elem, [n] if p["b"] % 2 else [1, n])])
        elif k == 6:
            # the target rank is not known
            sh = s.find(p["c"], lambda w: known(w) and w.elem == I64 and w.const is None and len(w.shape) == 1)
            if sh is None:
                return
            s.node("Reshape", [v, sh], [Val(s.fresh(p["n"]), "t", v.elem, None)])
        elif k == 7:
            ix = s.const(I64, [2], [0, 0], p["c"])
            s.node("Gather", [v, ix], [Val(s.fresh(p["n"]), "t", v.elem, [2] + v.shape[1:])], axis=0 if p["b"] % 2 else None)
        else:
            if v.elem not in (F, D, I64, I32):
                return
            kk = s.const(I64, [1], [1], p["c"])
            vals = Val(s.fresh(p["n"]), "t", v.elem, v.shape[:-1] + [1])
            idx = Val(s.fresh(p["n"] + 1), "t", I64, v.shape[:-1] + [1])
            s.node("TopK", [v, kk], [vals, idx], axis=-1, largest=p["c"] % 2)

    def const_axes(self, s, vals, how):
        return s.const(I64, [len(vals)], vals, how)

    def reduce(self, s, p):
        v = s.find(p["a"], lambda w: isfloat(w) and known(w) and len(w.shape) >= 1)
        if v is None:
            return
        op = ["ReduceSum", "ReduceMean", "ReduceMax", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"][p["k"] % 8]
        keep = p["b"] % 2
        out = Val(s.fresh(p["n"]), "t", v.elem, ([1] if keep else []) + v.shape[1:])
        if op == "ReduceSum" or self.opset >= 18:
            ax = self.const_axes(s, [0], p["c"])
            s.node(op, [v, ax], [out], keepdims=keep)
        else:
            s.node(op, [v], [out], axes=[0], keepdims=keep)

    def clip(self, s, p):
        v = s.find(p["a"], lambda w: isfloat(w) and known(w))
        if v is None:
            return
        lo = s.const(v.elem, [], -1.0, p["c"]) if p["b"] % 2 else ""
        hi = s.const(v.elem, [], 1.5, p["c"] + 1) if p["b"] % 4 < 2 else ""
        ins = [v, lo, hi]
        if p["k"] % 2:
            while ins[-1] == "":
                ins.pop()
        s.node("Clip", ins, [Val(s.fresh(p["n"]), "t", v.elem, v.shape)])

    def optional_outputs(self, s, p):
        v = s.find(p["a"], lambda w: isfloat(w) and known(w) and len(w.shape) >= 1 and not isinstance(w.shape[-1], str))
        if v is None:
            return
        if p["k"] % 2:
            out, mask = Val(s.fresh(p["n"]), "t", v.elem, v.shape), Val(s.fresh(p["n"]), "t", B, v.shape)
            s.node("Dropout", [v], [out, mask] if p["b"] % 3 == 0 else [out] if p["b"] % 3 == 1 else [out, ""])
            return
        if self.opset < 17 or v.elem != F or 0 in v.shape:
            return  # onnx's function body has no result for an empty tensor
        sc = s.const(F, [v.shape[-1]], [1.0 + 0.25 * i for i in range(v.shape[-1])], p["c"])
        ins = [v, sc]
        if p["b"] % 2:
            ins.append(s.const(F, [v.shape[-1]], [0.5 * i for i in range(v.shape[-1])], p["c"] // 2))
        y = Val(s.fresh(p["n"]), "t", F, v.shape)
        m = Val(s.fresh(p["n"]), "t", F, v.shape[:-1] + [1])
        d = Val(s.fresh(p["n"]), "t", F, v.shape[:-1] + [1])
        outs = [[y], [y, "", d], [y, m], [y, m, d]][p["c"] % 4]
        s.node("LayerNormalization", ins, outs, axis=-1, epsilon=p["f"] if p["f"] > 0 else None)

    def mvn(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem == F and len(w.shape) == 4)
        if v is None:
            return
        axes = [None, [0, 2, 3], [1], [0, 1], [-1]][p["k"] % 5]
        s.node("MeanVarianceNormalization", [v], [Val(s.fresh(p["n"]), "t", F, v.shape)], axes=axes)

    def twins(self, s, p):
        """Nodes of one operator, alike but for one respect."""
        ops = [
            ("HardSigmoid", [{"alpha": 0.5}, {"beta": 0.5}, {"alpha": 0.5, "beta": 0.25}, {"alpha": 0.25, "beta": 0.5}, {}]),
            ("Selu", [{"alpha": 0.5}, {"gamma": 0.5}, {"alpha": 0.5, "gamma": 2.0}, {"alpha": 2.0, "gamma": 0.5}, {}]),
            ("Shrink", [{"bias": 0.5}, {"lambd": 0.5}, {"bias": 0.5, "lambd": 0.25}, {"bias": 0.25, "lambd": 0.5}, {}]),
            ("Elu", [{"alpha": 0.5}, {"alpha": 0.25}, {}]),
            ("LeakyRelu", [{"alpha": 0.5}, {"alpha": 0.25}, {}]),
            ("ThresholdedRelu", [{"alpha": 0.5}, {"alpha": 0.25}, {}]),
            ("Celu", [{"alpha": 0.5}, {"alpha": 2.0}, {}]),
            ("Softmax", [{"axis": 0}, {"axis": -1}, {}]),
            ("LogSoftmax", [{"axis": 0}, {"axis": -1}, {}]),
            ("MeanVarianceNormalization", [{"axes": [0, 2, 3]}, {"axes": [2, 3]}, {"axes": [0, 1]}, {}]),
        ]
        op, variants = ops[p["k"] % len(ops)]
        need = {"Celu": 1, "Softmax": 1, "LogSoftmax": 1, "MeanVarianceNormalization": 4}.get(op, 0)
        v = s.find(p["a"], lambda w: known(w) and w.elem == F and len(w.shape) >= need and (need < 4 or len(w.shape) == 4))
        if v is None:
            return
        for i in range(2 + p["n"] % 2):
            at = variants[(p["b"] + i * (1 + p["c"] % 2)) % len(variants)]
            w = v
            if p["c"] % 5 == 0 and i:
                w = s.find(p["c"], lambda x: known(x) and x.elem == F and len(x.shape) == len(v.shape)) or v
            s.node(op, [w], [Val(s.fresh(p["n"]), "t", w.elem, w.shape)], **at)

    def functions(self, s, p):
        """Operators that onnx defines by other operators, with more involved bodies."""
        k = p["k"] % 5
        if k == 0:
            v = s.find(p["a"], lambda w: known(w) and w.elem == F)
            if v is None:
                return
            s.node("DynamicQuantizeLinear", [v], [Val(s.fresh(p["n"]), "t", T.UINT8, v.shape), Val(s.fresh(1), "t", F, []), Val(s.fresh(2), "t", T.UINT8, [])])
        elif k == 1:
            v = s.find(p["a"], lambda w: known(w) and w.elem == F and len(w.shape) == 2 and all(isinstance(d, int) and d for d in w.shape))
            if v is None:
                return
            n, c = v.shape
            lab = s.const(I64, [n], [(i * (1 + p["b"])) % c for i in range(n)], p["c"])
            wt = [s.const(F, [c], [0.5 + i for i in range(c)], p["c"] // 2)] if p["b"] % 2 else []
            red = ["mean", "sum", "none", None][p["c"] % 4]
            out = Val(s.fresh(p["n"]), "t", F, [n] if red == "none" else [])
            if p["b"] % 3 == 0:
                s.node("NegativeLogLikelihoodLoss", [v, lab] + wt, [out], reduction=red)
            else:
                s.node("SoftmaxCrossEntropyLoss", [v, lab] + wt, [out] + ([Val(s.fresh(p["n"]), "t", F, v.shape)] if p["b"] % 5 == 1 else []), reduction=red)
        elif k == 2:
            if self.opset < 17:
                return
            sz = s.const(I64, [], 3 + p["b"] % 4, p["c"])
            s.node(["HannWindow", "HammingWindow", "BlackmanWindow"][p["a"] % 3], [sz], [Val(s.fresh(p["n"]), "t", F, [3 + p["b"] % 4])], periodic=p["c"] % 2)
        elif k == 3:
            v = s.find(p["a"], lambda w: w.kind == "seq" and w.inner.elem == F)
            if v is None or self.opset < 17:
                return
            x = Val(s.fresh(p["n"]), "t", F, v.inner.shape)
            sub = Scope(self, s)
            sub.add(x)
            y = Val(sub.fresh(1), "t", F, v.inner.shape)
            sub.node(["Neg", "Abs", "Tanh"][p["b"] % 3], [x], [y])
            g = helper.make_graph(sub.nodes, "smbody", [helper.make_value_info(x.name, x.proto())], [helper.make_value_info(y.name, y.proto())])
            s.counter = sub.counter
            s.node("SequenceMap", [v], [Val(s.fresh(p["n"]), "seq", inner=Val("", "t", F, v.inner.shape))], body=g)
        else:
            v = s.find(p["a"], lambda w: known(w) and w.elem == F and len(w.shape) >= 2 and all(isinstance(d, int) and d for d in w.shape))
            if v is None or self.opset < 18:
                return
            sh = s.const(I64, [2], [2, 3], p["c"])
            s.node("CenterCropPad", [v, sh], [Val(s.fresh(p["n"]), "t", F, [2, 3] + v.shape[2:])], axes=[0, 1])

    def constant(self, s, p):
        k = p["k"] % 9
        if k == 0:
            e = RAW[p["b"] % len(RAW)]
            dims = [[], [1], [2], [2, 3], [0], [0, 2], [1, 1, 1, 2]][p["c"] % 7]
            v = Val(s.fresh(p["n"]), "t", e, dims)
            t = tensor(v.name if p["a"] % 2 else "", e, dims, p["a"], raw=p["a"] % 3 > 0)
            s.node("Constant", [], [v], value=t)
        elif k in (1, 2, 3):
            e = RAW[p["b"] % len(RAW)]
            dims = [[], [1], [2], [2, 3], [0], [0, 2], [1, 1, 1, 2]][p["c"] % 7]
            v = Val(s.fresh(p["n"]), "t", e, dims)
            s.inits.append(tensor(v.name, e, dims, p["a"], raw=p["a"] % 3 > 0))
            s.add(v)
        elif k == 4:
            s.node("Constant", [], [Val(s.fresh(p["n"]), "t", F, [])], value_float=p["f"])
        elif k == 5:
            s.node("Constant", [], [Val(s.fresh(p["n"]), "t", I64, [])], value_int=[0, -1, 2**62, -(2**63), 7][p["b"] % 5])
        elif k == 6:
            s.node("Constant", [], [Val(s.fresh(p["n"]), "t", I64, [3])], value_ints=[p["b"], -p["a"], 0])
        elif k == 7:
            s.node("Constant", [], [Val(s.fresh(p["n"]), "t", F, [2])], value_floats=[p["f"], -1.5])
        else:
            dims = [[2, 3], [], [4]][p["b"] % 3]
            sh = s.const(I64, [len(dims)], dims, p["c"])
            e = [F, I64, I32, D][p["a"] % 4]
            t = tensor("", e, [1], p["a"], raw=p["c"] % 2 == 0)
            s.node("ConstantOfShape", [sh], [Val(s.fresh(p["n"]), "t", e, dims)], value=None if p["a"] % 5 == 0 and e == F else t)

    def sequence(self, s, p):
        k = p["k"] % 6
        if k in (0, 1):
            v = s.find(p["a"], lambda w: known(w) and w.elem in (F, I64))
            if v is None:
                return
            w = s.find(p["b"], same(v)) or v
            s.node("SequenceConstruct", [v, w], [Val(s.fresh(p["n"]), "seq", inner=Val("", "t", v.elem, v.shape))])
        elif k == 2:
            v = s.find(p["a"], lambda w: w.kind == "seq")
            if v is None:
                return
            i = s.const(I64, [], 0, p["c"])
            s.node("SequenceAt", [v, i], [Val(s.fresh(p["n"]), "t", v.inner.elem, v.inner.shape)])
        elif k == 3:
            v = s.find(p["a"], lambda w: w.kind == "seq")
            if v is None:
                return
            s.node("SequenceLength", [v], [Val(s.fresh(p["n"]), "t", I64, [])])
        elif k == 4:
            v = s.find(p["a"], lambda w: known(w) and w.elem in (F, I64) or w.kind == "seq")
            if v is None or self.opset < 16:
                return
            s.node("Optional", [v], [Val(s.fresh(p["n"]), "opt", inner=v)])
        else:
            v = s.find(p["a"], lambda w: w.kind == "opt")
            if v is None:
                return
            i = v.inner
            s.node("OptionalGetElement", [v], [Val(s.fresh(p["n"]), i.kind, i.elem, i.shape, i.inner)])

    def custom(self, s, p):
        """An operator no schema describes: every kind of attribute."""
        dom = ["com.sim", "ai.sim.x", "com.microsoft"][p["k"] % 3]
        self.domains.add(dom)
        ins = []
        for c in (p["a"], p["b"], p["c"])[: p["k"] % 4]:
            v = s.find(c, lambda w: True)
            ins.append("" if c % 5 == 0 or v is None else v)
        out = Val(s.fresh(p["n"]), "t", [F, I64, D, T.STRING][p["c"] % 4], [[2, 3], ["N", 4], [], None][p["b"] % 4])
        at = {}
        z = p["a"]
        if z % 2:
            at["alpha"] = p["f"]
        if z % 3 == 0:
            at["mode"] = STRINGS[p["b"] % len(STRINGS)]
        if z % 5 < 2:
            at["axes"] = helper.make_attribute("axes", [p["b"], -1, 2**62], attr_type=onnx.AttributeProto.INTS)
        if z % 5 == 3:
            at["none"] = helper.make_attribute("none", [], attr_type=onnx.AttributeProto.INTS)
        if z % 7 < 2:
            at["scales"] = [p["f"], 0.5]
        if z % 7 == 3:
            at["words"] = helper.make_attribute("words", [STRINGS[p["b"] % len(STRINGS)].encode(), b"\xff\xfe"], attr_type=onnx.AttributeProto.STRINGS)
        if z % 4 == 1:
            at["t"] = tensor("t", RAW[p["c"] % len(RAW)], [2], p["b"])
        if z % 11 < 3:
            at["ts"] = helper.make_attribute("ts", [tensor("a", F, [1], p["b"]), tensor("a", I32, [2], p["c"], raw=False)], attr_type=onnx.AttributeProto.TENSORS)
        if z % 6 == 2:
            at["big"] = -(2**63)
        outs = [out]
        if p["c"] % 5 == 0:
            outs = [out, "", Val(s.fresh(p["n"] + 1), "t", F, [1])]
        elif p["c"] % 7 == 0 and ins:
            outs = []
        s.node(["Foo", "Bar.Baz", "Add", "Constant", "Relu"][(p["b"] + p["c"]) % 5], ins, outs, domain=dom, **at)
        for o in outs:
            if isinstance(o, Val):
                s.extra.append(helper.make_value_info(o.name, o.proto()))

    def untyped(self, s, p):
        """An operator whose result has no type at all."""
        self.domains.add("com.sim")
        v = s.find(p["a"], lambda w: True)
        s.node("Opaque", [v] if v is not None else [], [Val(s.fresh(p["n"]), "u")], domain="com.sim")

    # -- control flow

    def subgraph(self, s, ops, name, inputs, results, setup=None):
        """A graph with the given inputs; ``results(scope)`` gives its outputs."""
        sub = Scope(self, s)
        for v in inputs:
            sub.add(v)
        for o in ops or []:
            self.step(sub, o)
        outs = results(sub)
        g = helper.make_graph(
            sub.nodes, name, [helper.make_value_info(v.name, v.proto()) for v in inputs],
            [helper.make_value_info(o.name, o.proto()) for o in outs], sub.inits, value_info=sub.extra,
        )
        return g, sub

    def result_like(self, sub, v, p, always=True):
        """A value of this type computed in the subgraph."""
        c = [w for w in sub.vals if same(v)(w) and w.kind == v.kind]
        if c and p % 4:
            return c[-1 - p % len(c)]
        o = Val(sub.fresh(), "t", v.elem, v.shape)
        src = sub.find(p, same(v)) or v
        sub.node("Identity", [src], [o])
        return o

    def cond(self, s, p):
        c = s.find(p["c"], lambda w: known(w) and w.elem == B and w.shape == [])
        return c if c is not None else s.const(B, [], bool(p["c"] % 2), p["c"])

    def iff(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem in (F, D, I64, I32))
        w = s.find(p["b"], lambda x: known(x) and x.elem in (F, I64))
        if v is None or w is None:
            return
        c = self.cond(s, p)
        n = 1 + p["k"] % 2
        subs = []
        # Both branches start from the same names: they are siblings.
        gs = {}
        order = ["then", "else"] if p["k"] % 3 else ["else", "then"]
        for br in order:
            def res(sub, br=br):
                r = [self.result_like(sub, v, p["b"] + len(br) * 7 + ord(br[0]))]
                if n == 2:
                    r.append(self.result_like(sub, w, p["c"] + ord(br[0])))
                return r

            gs[br], sub = self.subgraph(s, p.get(br), br + "_g" if p["b"] % 2 else "g", [], res)
            subs.append(sub)
        s.counter = max(x.counter for x in subs)
        outs = [Val(s.fresh(p["n"]), "t", v.elem, v.shape)]
        if n == 2:
            outs.append(Val(s.fresh(p["n"]), "t", w.elem, w.shape))
        at = {k + "_branch": gs[k] for k in order}
        s.node("If", [c], outs, **at)

    def loop(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem in (F, I64))
        if v is None:
            return
        m = s.const(I64, [], 2 + p["b"] % 2, p["c"]) if p["k"] % 4 else ""
        c = "" if p["k"] % 3 == 0 and m != "" else s.const(B, [], True, p["c"])
        scan = p["b"] % 2
        inner = Scope(self, s)
        it, ci, acc = Val(inner.fresh(), "t", I64, []), Val(inner.fresh(), "t", B, []), Val(inner.fresh(p["n"]), "t", v.elem, v.shape)
        s.counter = inner.counter

        def res(sub):
            co = Val(sub.fresh(), "t", B, [])
            sub.node("Identity", [ci], [co])
            r = [co, self.result_like(sub, acc, p["b"] + 1)]
            if scan:
                so = Val(sub.fresh(), "t", v.elem, v.shape)
                sub.node("Identity", [self.result_like(sub, v, p["c"])], [so])
                r.append(so)
            return r

        g, sub = self.subgraph(s, p.get("body"), "body", [it, ci, acc], res)
        s.counter = sub.counter
        outs = [Val(s.fresh(p["n"]), "t", v.elem, v.shape)]
        if scan:
            outs.append(Val(s.fresh(p["n"]), "t", v.elem, None))
        s.node("Loop", [m, c, v], outs, body=g)

    def scan(self, s, p):
        v = s.find(p["a"], lambda w: known(w) and w.elem == F and len(w.shape) >= 2)
        if v is None:
            return
        elt = v.shape[1:]
        init = s.find(p["b"], lambda w: known(w) and w.elem == F and w.shape == elt)
        if init is None:
            if any(isinstance(d, str) for d in elt):
                return
            init = s.const(F, elt, np.zeros(elt), p["c"])
        inner = Scope(self, s)
        st, x = Val(inner.fresh(), "t", F, elt), Val(inner.fresh(p["n"]), "t", F, elt)
        s.counter = inner.counter

        def res(sub):
            o = Val(sub.fresh(), "t", F, elt)
            sub.node("Add", [st, x], [o])
            q = Val(sub.fresh(), "t", F, elt)
            sub.node("Identity", [o], [q])
            return [o, q]

        g, sub = self.subgraph(s, p.get("body"), "scan_body", [st, x], res)
        s.counter = sub.counter
        s.node("Scan", [init, v], [Val(s.fresh(p["n"]), "t", F, elt), Val(s.fresh(p["n"]), "t", F, v.shape)], body=g,
               num_scan_inputs=1, scan_input_directions=[p["k"] % 2] if p["b"] % 2 else None)

    STEPS = {
        "unary": unary, "binary": binary, "logic": logic, "cast": cast, "shape": shape, "reduce": reduce, "clip": clip,
        "outs": optional_outputs, "mvn": mvn, "twins": twins, "functions": functions, "constant": constant, "sequence": sequence,
        "custom": custom, "untyped": untyped, "if": iff, "loop": loop, "scan": scan,
    }

    def step(self, s, o):
        p = {"a": 0, "b": 0, "c": 0, "k": 0, "n": 0, "f": 0.0}
        p.update({k: v for k, v in o.items() if v is not None})
        f = self.STEPS.get(o["op"])
        if f is None:
            raise InvalidScenario(o["op"])
        f(self, s, p)

    def build(self):
        spec = self.spec
        s = Scope(self)
        inputs = []
        for i in spec["inputs"]:
            e = [F, F, D, I64, I32, B, H][i["e"] % 7]
            dims = [[[2, 3], ["N", 3], [], [2, 2, 2, 3], ["N", 2, "H", 3], [4], ["M"]][i["s"] % 7], []][i["s"] == 99]
            v = Val(s.fresh(i.get("n", 0)), "t", e, dims)
            inputs.append(v)
            s.add(v)
            if i.get("init") and not any(isinstance(d, str) for d in dims):
                s.inits.append(tensor(v.name, e, dims, i["init"], raw=i["init"] % 2 == 0))
        for o in spec["ops"]:
            self.step(s, o)
        def rank(v):
            return v.shape is not None if v.kind == "t" else v.kind in ("seq", "opt") and rank(v.inner)

        cands = [v for v in s.vals if rank(v)]
        outs = []
        for q in spec.get("outs", [0]):
            if not cands:
                break
            v = cands[-1 - q % len(cands)] if q % 4 else cands[-1]
            if any(v is o for o in outs):
                continue  # an output is named once
            outs.append(v)
        if not outs:
            raise InvalidScenario("no outputs")
        outs_vi = [helper.make_value_info(v.name, v.proto()) for v in outs]
        extra = [e for e in s.extra if e.name not in {v.name for v in outs}]
        g = helper.make_graph(
            s.nodes, spec.get("name", "main"), [helper.make_value_info(v.name, v.proto()) for v in inputs], outs_vi, s.inits,
            value_info=extra,
        )
        imports = [helper.make_opsetid("", self.opset)] + [helper.make_opsetid(d, 1 + len(d)) for d in sorted(self.domains)]
        if spec.get("revimports"):
            imports = imports[::-1]
        m = helper.make_model(g, opset_imports=imports)
        m.ir_version = 8 + spec.get("ir", 0) % 3
        m.producer_name, m.producer_version = spec.get("producer", ["", ""])
        m = onnx.shape_inference.infer_shapes(m, data_prop=bool(spec.get("prop", True)))
        return m


def build(spec):
    return Builder(spec).build()


OPS = [("unary", 6), ("binary", 6), ("logic", 2), ("cast", 2), ("shape", 4), ("reduce", 2), ("clip", 2), ("outs", 3), ("mvn", 2), ("twins", 1),
       ("functions", 1), ("constant", 4), ("sequence", 3), ("custom", 4), ("untyped", 1), ("if", 2), ("loop", 1), ("scan", 1)]


def gen_op(rng, depth, weights=OPS):
    op = rng.weighted(weights if depth < 2 else [w for w in weights if w[0] not in ("if", "loop", "scan")])
    o = {"op": op, "a": rng.randrange(60), "b": rng.randrange(60), "c": rng.randrange(60), "k": rng.randrange(60),
         "n": rng.randrange(len(NAMES)), "f": rng.pick([0.0, 0.5, -1.25, 0.1, 1e-5, 3.0])}
    if op == "if":
        for br in ("then", "else"):
            o[br] = [gen_op(rng, depth + 1, weights) for _ in range(rng.pick([0, 1, 1, 2, 3]))]
    elif op in ("loop", "scan"):
        o["body"] = [gen_op(rng, depth + 1, weights) for _ in range(rng.pick([0, 1, 1, 2, 3]))]
    return o


def gen_spec(rng, focus=None):
    w = OPS
    if focus == "functions":
        w = [("unary", 6), ("binary", 3), ("clip", 3), ("outs", 3), ("mvn", 4), ("twins", 4), ("functions", 5), ("reduce", 3), ("constant", 1),
             ("sequence", 2), ("if", 2), ("shape", 1)]
    spec = {
        "opset": rng.pick([13, 15, 17, 17, 18, 20, 21]),
        "ir": rng.randrange(3),
        "producer": [rng.pick(STRINGS), rng.pick(["", "1.0", "名"])],
        "inputs": [
            {"e": rng.pick([0, 0, 0, 1, 2, 3, 4, 5, 6]), "s": rng.randrange(7), "n": rng.randrange(len(NAMES)), "init": rng.randrange(1, 40) if rng.chance(0.12) else 0}
            for _ in range(rng.pick([0, 1, 1, 2, 2, 3, 4]))
        ],
        "ops": [gen_op(rng, 0, w) for _ in range(rng.pick([1, 2, 3, 4, 6, 9, 14]))],
        "outs": [rng.randrange(20) for _ in range(rng.pick([1, 1, 2, 3]))],
        "prop": rng.chance(0.7),
    }
    if focus == "functions" and spec["inputs"]:
        spec["inputs"][0].update(e=0, s=rng.pick([0, 3, 3, 4]), init=0)
    if rng.chance(0.2):
        spec["revimports"] = True
    if rng.chance(0.2):
        spec["rev"] = True
    return spec
