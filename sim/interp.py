"""Executes IR recorded by the fake binding, by calling the torch operators.

The meaning of an imported function is what its operators compute, so this is
the oracle's reading of the import: types are checked against the run-time
values, literals come from the attribute's bytes, calls go through the symbol
table, mutable arguments are overwritten in place, and symbolic shape bindings
must have a consistent assignment of their symbols.
"""

import itertools
import math
import re

import numpy as np

import torch

from .core import SimUnsupported


class IRError(Exception):
    """The IR means nothing, or contradicts its own types."""


ELEM = {
    "f16": torch.float16,
    "f32": torch.float32,
    "f64": torch.float64,
    "bf16": torch.bfloat16,
    "i1": torch.bool,
    "si8": torch.int8,
    "ui8": torch.uint8,
    "si16": torch.int16,
    "si32": torch.int32,
    "si64": torch.int64,
    "complex<f32>": torch.complex64,
    "complex<f64>": torch.complex128,
    "complex<f16>": torch.complex32,
    "!torch.qint8": torch.qint8,
    "!torch.quint8": torch.quint8,
    "f8E5M2": torch.float8_e5m2,
    "f8E4M3FN": torch.float8_e4m3fn,
    "f8E5M2FNUZ": torch.float8_e5m2fnuz,
    "f8E4M3FNUZ": torch.float8_e4m3fnuz,
    "f8E8M0FNU": torch.float8_e8m0fnu,
    "ui16": torch.uint16,
    "ui32": torch.uint32,
    "ui64": torch.uint64,
}
# The numbering of torch_upstream::ScalarType (include/torch-mlir/.../TorchUpstream.h);
# from 27 on it is not PyTorch's.
SCALAR_TYPES = dict(
    enumerate(
        [
            torch.uint8, torch.int8, torch.int16, torch.int32, torch.int64, torch.float16, torch.float32, torch.float64,
            torch.complex32, torch.complex64, torch.complex128, torch.bool, torch.qint8, torch.quint8, torch.qint32,
            torch.bfloat16,
        ]
    )
)
SCALAR_TYPES.update(
    {23: torch.float8_e5m2, 24: torch.float8_e4m3fn, 25: torch.float8_e5m2fnuz, 26: torch.float8_e4m3fnuz, 28: torch.float8_e8m0fnu, 29: torch.float4_e2m1fn_x2}
)
_NP = {
    torch.float16: np.float16,
    torch.float32: np.float32,
    torch.float64: np.float64,
    torch.int8: np.int8,
    torch.uint8: np.uint8,
    torch.int16: np.int16,
    torch.int32: np.int32,
    torch.int64: np.int64,
    torch.complex64: np.complex64,
    torch.complex128: np.complex128,
    torch.bool: np.bool_,
}


def literal_tensor(attr, vtype):
    """The tensor a vtensor.literal of this attribute and type stands for."""
    dt = ELEM.get(str(vtype.p["dtype"]))
    if dt is None:
        raise SimUnsupported(f"literal of type {vtype}")
    a = np.array(attr.numpy(), copy=True)
    shape = tuple(vtype.p["sizes"])
    if dt == torch.bfloat16:
        t = torch.from_numpy(a.astype(np.float32).reshape(-1)).to(torch.bfloat16)
    elif dt in _NP:
        t = torch.from_numpy(np.ascontiguousarray(a).reshape(-1).astype(_NP[dt]))
    else:
        raise SimUnsupported(f"literal of type {vtype}")
    n = int(np.prod(shape, dtype=np.int64)) if shape else 1
    if t.numel() == 1 and n != 1:
        t = t.expand(n).clone()
    if t.numel() != n:
        raise IRError(f"literal of {t.numel()} elements for type {vtype}")
    return t.reshape(shape)


class Symbol:
    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi
        self.value = None


def encoding_fits(enc, v):
    """Whether a sparse_tensor encoding describes how this tensor is stored."""
    if v.layout is torch.strided:
        return enc is None
    if enc is None:
        return False
    sparse, dense = v.sparse_dim(), v.dense_dim()
    b = v.dim() - sparse - dense
    levels = [f"d{i}:batch" for i in range(b)]
    row, col = f"d{b}", f"d{b + 1}"
    if v.layout is torch.sparse_coo:
        idx = v._indices()
        levels.append(f"d{b}:compressed(nonunique)")
        levels += [f"d{i}:singleton(nonunique,soa)" for i in range(b + 1, b + sparse - 1)]
        levels.append(f"d{b + sparse - 1}:singleton(soa)")
    elif v.layout is torch.sparse_csr:
        levels += [f"{row}:dense", f"{col}:compressed"]
        idx = v.col_indices()
    elif v.layout is torch.sparse_csc:
        levels += [f"{col}:dense", f"{row}:compressed"]
        idx = v.row_indices()
    else:
        m, n = v.values().shape[b + 1 : b + 3]
        outer = [f"{row}floordiv{m}", f"{col}floordiv{n}"]
        if v.layout is torch.sparse_bsr:
            idx = v.col_indices()
        elif v.layout is torch.sparse_bsc:
            idx = v.row_indices()
            outer.reverse()
        else:
            raise SimUnsupported(str(v.layout))
        # blocks are stored in row-major order in both layouts
        levels += [f"{outer[0]}:dense", f"{outer[1]}:compressed", f"{row}mod{m}:dense", f"{col}mod{n}:dense"]
    levels += [f"d{i}:dense" for i in range(b + sparse, v.dim())]
    text = re.sub(r"\s+", "", enc)
    m = re.search(r"map=\((.*?)\)->\((.*)\),posWidth=(\d+),crdWidth=(\d+)", text)
    bits = torch.iinfo(idx.dtype).bits
    return (
        m is not None
        and m[1] == ",".join(f"d{i}" for i in range(v.dim()))
        and m[2] == ",".join(levels)
        and int(m[3]) == int(m[4]) == bits
    )


def check_type(what, t, v):
    """A run-time value against the declared torch type."""
    k = t.p.get("t") if t.kind == "torch" else None
    bad = False
    if k in ("vtensor", "tensor"):
        if not isinstance(v, torch.Tensor):
            bad = True
        else:
            if t.p["dtype"] is not None:
                want = ELEM.get(str(t.p["dtype"]))
                if want is not None and want != v.dtype:
                    bad = True
            if t.p["sizes"] is not None:
                s = list(v.shape)
                if len(s) != len(t.p["sizes"]) or any(
                    d not in (-1, x) for d, x in zip(t.p["sizes"], s)
                ):
                    bad = True
            if not bad and not encoding_fits(t.p.get("enc"), v):
                raise IRError(f"{what} is declared {t} but is a {v.layout} tensor")
    elif k == "int":
        bad = isinstance(v, bool) or not isinstance(v, (int, Symbol))
    elif k == "float":
        bad = not isinstance(v, float)
    elif k == "bool":
        bad = not isinstance(v, bool)
    elif k == "str":
        bad = not isinstance(v, str)
    elif k == "none":
        bad = v is not None
    elif k == "list":
        bad = not isinstance(v, (list, tuple))
        if not bad:
            for x in v:
                check_type(what, t.p["elem"], x)
    elif k == "optional":
        if v is not None:
            check_type(what, t.p["elem"], v)
    if bad:
        shown = f"{v.dtype}{list(v.shape)}" if isinstance(v, torch.Tensor) else repr(v)
        raise IRError(f"{what} is declared {t} but computes {shown}")


def torch_op(name):
    if not name.startswith("torch."):
        raise SimUnsupported(f"operation {name}")
    parts = name[len("torch.") :].split(".")
    if len(parts) not in (2, 3):
        raise SimUnsupported(f"operation {name}")
    try:
        packet = getattr(getattr(torch.ops, parts[0]), parts[1])
        return getattr(packet, parts[2] if len(parts) == 3 else "default")
    except AttributeError:
        raise IRError(f"operation {name} names no torch operator")


class Interp:
    MAX_OPS = 200000

    def __init__(self, module):
        self.funcs = {}
        for op in module.operation.regions[0].blocks[0].operations:
            if op.name == "func.func":
                self.funcs[op._attrs["sym_name"].value] = op
        self.count = 0
        self.used = {}
        self.symbols = {}
        self.pending = []
        self.literals = []

    # -- calls

    def call(self, fname, args):
        """Run one function.  Mutable arguments are updated in place."""
        f = self.funcs.get(fname)
        if f is None:
            raise IRError(f"no function {fname!r} (have {sorted(self.funcs)})")
        return self.run_func(f, list(args))

    def run_func(self, f, args):
        block = f.regions[0].blocks[0]
        name = f._attrs["sym_name"].value
        if len(args) != len(block.arguments):
            raise IRError(f"{name} takes {len(block.arguments)} arguments, {len(args)} given")
        env = {}
        saved = self.symbols, self.pending
        self.symbols, self.pending = {}, []
        for i, (a, v) in enumerate(zip(block.arguments, args)):
            check_type(f"argument {i} of {name}", a.type, v)
            env[a] = v
        out = self.run_block(block, env)
        self._settle()
        self.last_symbols = self.symbols
        self.symbols, self.pending = saved
        return out

    def run_block(self, block, env):
        for op in block.operations:
            self.count += 1
            if self.count > self.MAX_OPS:
                raise IRError("the function does not come to an end")
            self.used[op.name] = self.used.get(op.name, 0) + 1
            if op.name in ("func.return", "torch.prim.Loop.condition"):
                return [env[v] for v in op.operands]
            ins = [env[v] for v in op.operands]
            outs = self.run_op(op, ins, env)
            if len(outs) != len(op.results):
                raise IRError(f"{op.name} gives {len(outs)} results, {len(op.results)} declared")
            for r, v in zip(op.results, outs):
                check_type(f"result of {op.name}", r.type, v)
                env[r] = v
        raise IRError("block without terminator")

    # -- operations

    def run_op(self, op, ins, env):
        n, at = op.name, op._attrs
        if n == "torch.constant.none":
            return [None]
        if n in ("torch.constant.int", "torch.constant.float", "torch.constant.str"):
            return [at["value"].value]
        if n == "torch.constant.bool":
            return [bool(at["value"].value)]
        if n == "torch.constant.device":
            return [torch.device(at["value"].value)]
        if n == "torch.constant.number":
            return [at["value"].value]
        if n == "torch.vtensor.literal":
            t = literal_tensor(at["value"], op.results[0].type)
            return [t]
        if n == "torch.prim.ListConstruct":
            return [list(ins)]
        if n == "torch.prim.ListUnpack":
            return list(ins[0])
        if n == "torch.prim.NumToTensor.Scalar":
            dt = ELEM[str(op.results[0].type.p["dtype"])]
            return [torch.tensor(ins[0], dtype=dt)]
        if n == "torch.copy.to_vtensor":
            return [ins[0].clone()]
        if n == "torch.overwrite.tensor.contents":
            if ins[0].shape != ins[1].shape or ins[0].dtype != ins[1].dtype:
                raise IRError("overwrite with a tensor of another shape or type")
            ins[1].copy_(ins[0])
            return []
        if n == "torch.symbolic_int":
            s = Symbol(at["symbol_name"].value, at["min_val"].value, at["max_val"].value)
            if s.name in self.symbols:
                raise IRError(f"symbol {s.name} twice")
            self.symbols[s.name] = s
            return [s]
        if n == "torch.bind_symbolic_shape":
            self.pending.append((list(ins[0].shape), ins[1:], at["shape_expressions"].value))
            return []
        if n == "func.call":
            callee = self.funcs.get(at["callee"].value)
            if callee is None:
                raise IRError(f"call to unknown function {at['callee'].value}")
            return self.run_func(callee, ins)
        if n == "torch.prim.Loop":
            limit, cond, carried = ins[0], ins[1], list(ins[2:])
            body, i = op.regions[0].blocks[0], 0
            while cond and i < limit:
                inner = dict(env)
                for a, v in zip(body.arguments, [i] + carried):
                    inner[a] = v
                cond, *carried = self.run_block(body, inner)
                i += 1
            return carried
        if n == "torch.hop_flex_attention":
            return self.run_flex(op, ins)
        name = at["name"].value if n == "torch.operator" else n
        return self.run_torch(name, ins, op)

    def run_torch(self, name, ins, op):
        o = torch_op(name)
        sch = o._schema
        if len(ins) != len(sch.arguments):
            raise IRError(f"{name} takes {len(sch.arguments)} operands, has {len(ins)}")
        pos, kw = [], {}
        for p, v in zip(sch.arguments, ins):
            if isinstance(v, Symbol):
                v = v.value
            if isinstance(v, int) and "ScalarType" in str(p.real_type):
                if v not in SCALAR_TYPES:
                    raise IRError(f"{name}: {v} is no type of elements")
                v = SCALAR_TYPES[v]
            if p.kwarg_only:
                kw[p.name] = v
            else:
                pos.append(v)
        changed = []
        if name.startswith("torch.verif."):
            # the functional form: returns its results and the changed arguments
            for p in sch.arguments:
                if p.alias_info is not None and p.alias_info.is_write:
                    where, key = (kw, p.name) if p.kwarg_only else (pos, [q.name for q in sch.arguments].index(p.name))
                    where[key] = where[key].clone()
                    changed.append(where[key])
        with torch.no_grad():
            r = o(*pos, **kw)
        if changed:
            return ([] if not sch.returns else [r] if len(sch.returns) == 1 else list(r)) + changed
        if len(sch.returns) == 0:
            return []
        if len(sch.returns) == 1:
            return [r]
        return list(r)

    def run_flex(self, op, ins):
        """Attention whose scores and mask are given by functions of the module."""
        q, k, v, scale, lse, top = ins

        def function(attr, arity):
            if attr not in op._attrs:
                return None
            f = self.funcs.get(op._attrs[attr].value)
            if f is None:
                raise IRError(f"{attr} names the unknown function {op._attrs[attr].value!r}")
            if len(f.regions[0].blocks[0].arguments) != arity:
                raise IRError(f"{attr} {op._attrs[attr].value!r} does not take {arity} arguments")
            return lambda *a: self.run_func(f, list(a))[0]

        score = function("score_mod_fn", 5)
        mask = function("mask_mod_fn", 4)
        g = q.shape[1] // k.shape[1]
        k, v = k.repeat_interleave(g, 1), v.repeat_interleave(g, 1)
        s = q @ k.transpose(-1, -2) * (q.shape[-1] ** -0.5 if scale is None else scale)
        i32 = [torch.arange(d, dtype=torch.int32) for d in s.shape]
        for ix in itertools.product(*[range(d) for d in s.shape]):
            at = [i32[n][x] for n, x in enumerate(ix)]
            if score is not None:
                s[ix] = score(s[ix].clone(), *at)
            if mask is not None and not mask(*at):
                s[ix] = float("-inf")
        out = torch.nan_to_num(torch.softmax(s, -1)) @ v
        # In units of log2, as torch's operator gives them.
        return [out, torch.logsumexp(s, -1) / math.log(2), s.amax(-1) / math.log(2)]

    # -- symbolic shapes

    def _settle(self):
        """An assignment of the symbols must explain every bound shape."""
        todo = list(self.pending)
        for shape, syms, m in todo:
            for e, d in zip(m.results, shape):
                if e.op == "sym":
                    s = syms[e.a]
                    if s.value is None:
                        s.value = d
        for shape, syms, m in todo:
            if len(m.results) != len(shape):
                raise IRError(f"bind_symbolic_shape of rank {len(m.results)} on rank {len(shape)}")
            if any(s.value is None for s in syms):
                continue
            got = [e.eval([s.value for s in syms]) for e in m.results]
            if got != list(shape):
                raise IRError(
                    f"bind_symbolic_shape says {got} for a tensor of shape {list(shape)}"
                    f" ({ {s.name: s.value for s in syms} })"
                )
        for s in self.symbols.values():
            if s.value is not None and not s.lo <= s.value <= s.hi:
                raise IRError(f"symbol {s.name}={s.value} outside [{s.lo},{s.hi}]")


def same(a, b, rtol=1e-5, atol=1e-6):
    """Whether two results are the same value."""
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.layout is not b.layout:
            return False
        if a.layout is not torch.strided:
            return same(a.to_dense(), b.to_dense(), rtol, atol)
        if a.is_quantized or b.is_quantized:
            return torch.equal(a.dequantize(), b.dequantize())
        if a.dtype.is_floating_point or a.dtype.is_complex:
            if a.dtype in (torch.float16, torch.bfloat16):
                rtol, atol = 2e-2, 2e-3
            if a.dtype.itemsize == 1:
                return bool((a.float() == b.float()).all())
            return torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        return torch.equal(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= atol + rtol * abs(b)
    return type(a) is type(b) and a == b


def show(v):
    if isinstance(v, torch.Tensor):
        if v.layout is not torch.strided:
            return f"{v.layout} {show(v.to_dense())}"
        return f"{v.dtype}{list(v.shape)} {v.flatten()[:6].tolist()}"
    return repr(v)[:200]
