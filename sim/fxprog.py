"""Programs for the FX importer: the e2e suite's, and generated ones.

A program spec is JSON; ``build(spec)`` gives a fresh Prog every time: new
module, new tensors, new exported graph.  All tensors of generated programs
broadcast against (N, 4), so that any operation list makes sense and shrinking
never breaks a program.
"""

import copy
import contextlib
import json
import operator
import os

import torch
import torch.utils._pytree as pytree

from . import core
from .core import InvalidScenario, SimUnsupported

K = 4
DT = {
    "f32": torch.float32,
    "f64": torch.float64,
    "f16": torch.float16,
    "bf16": torch.bfloat16,
    "i8": torch.int8,
    "u8": torch.uint8,
    "i16": torch.int16,
    "i32": torch.int32,
    "i64": torch.int64,
    "bool": torch.bool,
    "c64": torch.complex64,
}
SHAPES = ["(4)", "(1,4)", "()", "(1)", "(N,4)", "(N,1)", "(1,1)"]


def values(shape, dtype, seed):
    g = torch.Generator().manual_seed(seed * 7919 + 13)
    if dtype == torch.bool:
        return torch.rand(shape, generator=g) > 0.5
    if dtype.is_floating_point:
        return (torch.randint(-12, 13, shape, generator=g).to(torch.float64) / 4 + (seed % 5) / 8).to(dtype)
    if dtype.is_complex:
        re = torch.randint(-12, 13, shape, generator=g).to(torch.float32) / 4
        im = torch.randint(-12, 13, shape, generator=g).to(torch.float32) / 4
        return torch.complex(re, im)
    lo = 0 if dtype == torch.uint8 else -9
    return torch.randint(lo, 20, shape, generator=g).to(dtype)


def shape_of(s, n, m=0):
    s = s.strip("()")
    return tuple({"N": n, "M": m}.get(d) if d in "NM" else int(d) for d in s.split(",") if d)


SPARSE = {
    "coo": lambda t: t.to_sparse(),
    "csr": lambda t: t.to_sparse_csr(),
    "csc": lambda t: t.to_sparse_csc(),
    "bsr": lambda t: t.to_sparse_bsr((t.shape[0], 2)),
    "bsc": lambda t: t.to_sparse_bsc((t.shape[0], 2)),
    "bsr1": lambda t: t.to_sparse_bsr((1, 4)),
    "bsc1": lambda t: t.to_sparse_bsc((1, 4)),
    # batches must have the same number of non-zeros
    "bcsr": lambda t: _batch(t).to_sparse_csr(),
    "bcsc": lambda t: _batch(t).to_sparse_csc(),
    "bbsr": lambda t: _batch(t).to_sparse_bsr((t.shape[0], 2)),
    "bbsc": lambda t: _batch(t).to_sparse_bsc((t.shape[0], 2)),
    # trailing dense dimensions
    "hcoo": lambda t: t.reshape(t.shape[0], 2, 2).to_sparse(2),
    "hcsr": lambda t: (t.abs() + 1).reshape(t.shape[0], 2, 2).to_sparse_csr(dense_dim=1),
    "coo3": lambda t: t.reshape(t.shape[0], 2, 2).to_sparse(),
    "coo4": lambda t: t.reshape(1, t.shape[0], 2, 2).to_sparse(),
    "csr32": lambda t: (lambda c: torch.sparse_csr_tensor(c.crow_indices().int(), c.col_indices().int(), c.values(), c.shape))(t.to_sparse_csr()),
}


def _batch(t):
    return torch.stack([t.abs() + 1, t.abs() + 2])


def _aside(s):
    """Inputs which do not take part in the ordinary operations."""
    return "sparse" in s or "M" in s.get("shape", "")


def layout(t, how, seed):
    """The same values over another storage layout."""
    if how == "t" and t.dim() == 2:
        return t.t().contiguous().t()
    if how == "slice" and t.dim() >= 1:
        big = values((t.shape[0] + 2,) + tuple(t.shape[1:]), t.dtype, seed + 1)
        big[1 : 1 + t.shape[0]] = t
        return big[1 : 1 + t.shape[0]]
    if how == "step" and t.dim() >= 1:
        big = values(tuple(t.shape[:-1]) + (t.shape[-1] * 2,), t.dtype, seed + 1)
        big[..., ::2] = t
        return big[..., ::2]
    if how == "expand" and t.dim() == 2:
        return t[:1].clone().expand(t.shape)
    return t


# ------------------------------------------------------- operations

# name -> (arity, needs float, function(args, k, ctx))


def _f(x):
    if x.dtype.is_complex:
        return torch.real(x) + torch.imag(x)
    return x if x.dtype in (torch.float32, torch.float64) else x.to(torch.float32)


def _b(x):
    return x if x.dtype == torch.bool else _f(x) > 0


def _full(x, ctx):
    """The value spread over (n, K)."""
    if x.dim() == 2 and x.shape[-1] == K and not (isinstance(x.shape[0], int) and x.shape[0] == 1):
        return x
    return x.expand(ctx.n, K).clone()


def _own_storage(x, ctx):
    return _full(_f(x), ctx).clone(memory_format=torch.contiguous_format)


def _item(a, k):
    """An integer that is known at run time only."""
    u = (torch.nan_to_num(_f(a)).abs().amax().clamp(0, 9) + k % 3).to(torch.int64).item()
    torch._check(u >= 0)
    torch._check(u < 16)
    return u


def _fitem(a, k):
    return (torch.nan_to_num(_f(a)).amin().clamp(-9, 9) - k % 3).item()


def _mod(x, k):
    """A size's remainder, of positive and of negative numbers."""
    return (x % (k % 3 + 2)) if k % 2 else (k % 4 - x) % 3


_DTS = list(DT)


def _while(a, b, k, ctx):
    from torch._higher_order_ops import while_loop

    a, b = _f(a).clone(), _f(b).clone()
    i = torch.tensor(0) + 0
    step = k % 3 + 1

    def cond(i, x, y):
        return i < 3

    if k % 2:

        def body(i, x, y):
            return i + step, x * 0.5 + 1.0, y - 1.0

    else:

        def body(i, x, y):
            return i + step, x + 0.25, y * 0.5

    _, x, y = while_loop(cond, body, (i, a, b))
    return x, y


OPS = {
    "add": (2, lambda a, b, k, c: (_f(a) + _f(b)).clamp(-64, 64)),
    "sub": (2, lambda a, b, k, c: torch.sub(_f(a), _f(b), alpha=k % 3 + 1).clamp(-64, 64)),
    "mul": (2, lambda a, b, k, c: (_f(a) * _f(b)).clamp(-64, 64)),
    "max2": (2, lambda a, b, k, c: torch.maximum(_f(a), _f(b))),
    "where": (2, lambda a, b, k, c: torch.where(_b(a), _f(b), _f(a) - k % 5)),
    "relu": (1, lambda a, b, k, c: torch.relu(_f(a))),
    "neg": (1, lambda a, b, k, c: -_f(a)),
    "sigm": (1, lambda a, b, k, c: torch.sigmoid(_f(a)) * 3),
    "scal_f": (1, lambda a, b, k, c: _f(a) * (k % 7 - 2.5)),
    "scal_i": (1, lambda a, b, k, c: _f(a) + (k % 9 - 4)),
    "scal_rsub": (1, lambda a, b, k, c: (k % 5) - _f(a)),
    "scal_div": (1, lambda a, b, k, c: _f(a) / (k % 4 + 2)),
    "floor_div": (1, lambda a, b, k, c: torch.floor_divide(_f(a), k % 3 + 2)),
    "div_mode": (1, lambda a, b, k, c: torch.div(_f(a), k % 3 + 1.5, rounding_mode=("floor", "trunc", None)[k % 3])),
    "int_add": (2, lambda a, b, k, c: (_f(a) * 2).to(torch.int64) + (_f(b)).to(torch.int64) * (k % 3)),
    "to": (1, lambda a, b, k, c: _f(a).clamp(0, 60).to(DT[_DTS[k % 10]])),
    "eq": (2, lambda a, b, k, c: _f(a) >= _f(b)),
    "lnot": (1, lambda a, b, k, c: torch.logical_not(_b(a))),
    "mask": (2, lambda a, b, k, c: _full(_f(b), c).masked_fill(_b(a).expand(c.n, K), k % 5 + 0.5)),
    "cat_dim": (2, lambda a, b, k, c: torch.cat([_full(_f(a), c).to(torch.float32), _full(_f(b), c).to(torch.float32)], dim=1)[:, k % 4 : k % 4 + K]),
    "stack": (2, lambda a, b, k, c: torch.stack([_full(_f(a), c).to(torch.float32), _full(_f(b), c).to(torch.float32)], dim=k % 2)[(slice(None),) * (k % 2) + (k // 2 % 2,)]),
    "split": (1, lambda a, b, k, c: torch.split(_full(_f(a), c), [1, 3] if k % 2 else [3, 1], dim=1)[k // 2 % 2].sum(1, keepdim=True)),
    "chunk": (1, lambda a, b, k, c: torch.chunk(_full(_f(a), c), 4, dim=1)[k % 4]),
    "unbind": (1, lambda a, b, k, c: torch.unbind(_full(_f(a), c), dim=1)[k % 4].unsqueeze(1)),
    "topk": (1, lambda a, b, k, c: (lambda v, i: v * 2 + i)(*torch.topk(_full(_f(a), c), K, dim=1, largest=bool(k % 2)))),
    "maxdim": (1, lambda a, b, k, c: (lambda v, i: v if k % 2 else i)(*torch.max(_full(_f(a), c), dim=1, keepdim=True))),
    "varmean": (1, lambda a, b, k, c: (lambda v, m: v - m)(*torch.var_mean(_full(_f(a), c), dim=1, keepdim=True, correction=0))),
    "sort": (1, lambda a, b, k, c: (lambda v, i: v if k % 3 else i + 0)(*torch.sort(_full(_f(a), c), dim=1, stable=True, descending=bool(k & 1)))),
    "index": (1, lambda a, b, k, c: _full(_f(a), c)[:, torch.tensor([3, 0, 2, 1][k % 4 :] + [3, 0, 2, 1][: k % 4])]),
    "index_sel": (1, lambda a, b, k, c: torch.index_select(_full(_f(a), c), 1, torch.tensor([k % 4, (k + 1) % 4, 0, 3]))),
    "index_put": (2, lambda a, b, k, c: torch.ops.aten.index_put(_full(_f(a), c), [None, torch.tensor([k % 4])], (_f(b).sum() % 7).to(_f(a).dtype), bool(k % 2))),
    "flip": (1, lambda a, b, k, c: torch.flip(_full(_f(a), c), [1])),
    "roll": (1, lambda a, b, k, c: torch.roll(_full(_f(a), c), [k % 4], [1])),
    "permute": (1, lambda a, b, k, c: torch.permute(torch.permute(_full(_f(a), c), [1, 0]).contiguous() + k % 3, [1, 0])),
    "pad": (1, lambda a, b, k, c: torch.nn.functional.pad(_full(_f(a), c), [k % 3, 2 - k % 3, 0, 0], value=float(k % 5))[:, 1 : 1 + K]),
    "cumsum": (1, lambda a, b, k, c: torch.cumsum(_full(_f(a), c), dim=1).clamp(-64, 64)),
    "arange": (1, lambda a, b, k, c: _f(a) + torch.arange(k % 3, k % 3 + K, dtype=torch.float32 if k % 2 else torch.int64)),
    "full": (1, lambda a, b, k, c: _f(a) + torch.full((1, K), k % 5 + 0.25, dtype=torch.float32)),
    "zeros_dev": (1, lambda a, b, k, c: _f(a) + torch.ones(K, device="cpu", dtype=torch.float64 if k % 2 else torch.float32) * (k % 4)),
    "full_like": (1, lambda a, b, k, c: _f(a) - torch.full_like(_f(a), k % 3)),
    "tensor_c": (1, lambda a, b, k, c: _f(a) * torch.tensor([1.0, k % 5, -1.0, 0.5])),
    "tensor_b": (1, lambda a, b, k, c: torch.where(torch.tensor([bool(k & 1), bool(k & 2), bool(k & 4), bool(k & 8)]), _f(a), -_f(a))),
    "clone_mf": (1, lambda a, b, k, c: _full(_f(a), c).clone(memory_format=torch.contiguous_format) + 1),
    "mm": (2, lambda a, b, k, c: (_full(_f(a), c).to(torch.float32) @ _full(_f(b), c).to(torch.float32).t() @ _full(_f(b), c).to(torch.float32)).clamp(-64, 64)),
    "reduce": (1, lambda a, b, k, c: _full(_f(a), c).sum(dim=[1], keepdim=True) if k % 2 else _full(_f(a), c).mean(dim=[1], keepdim=True)),
    "amax": (1, lambda a, b, k, c: torch.amax(_full(_f(a), c), dim=(1,), keepdim=True)),
    "scatter": (2, lambda a, b, k, c: torch.scatter_reduce(_full(_f(a), c).to(torch.float32), 1, (torch.arange(K) * (k % 3 + 1) % K).unsqueeze(0).expand(c.n, K), _full(_f(b), c).to(torch.float32), reduce=("sum", "amax", "amin")[k % 3])),
    "strided": (1, lambda a, b, k, c: torch.as_strided(_own_storage(a, c), (c.n, 2), (K, 1 + k % 2), k % 2).sum(1, keepdim=True) if isinstance(c.n, int) else _f(a)),
    "strided_t": (1, lambda a, b, k, c: torch.as_strided(_own_storage(a, c)[:, k % 2 :], (c.n, 2), (K, 1), None if k % 3 == 0 else k % 2).sum(1, keepdim=True) if isinstance(c.n, int) else _f(a)),
    "size": (1, lambda a, b, k, c: _full(_f(a), c) * c.x0.size(0)),
    "size_arith": (1, lambda a, b, k, c: _full(_f(a), c) + (c.x0.size(0) * (k % 3 + 1) - k % 4)),
    "cat_rows": (2, lambda a, b, k, c: torch.cat([_full(_f(a), c).to(torch.float32), _full(_f(b), c).to(torch.float32)], dim=0)[k % 2 :][: c.x0.size(0)]),
    "view": (1, lambda a, b, k, c: (_full(_f(a), c).contiguous().view(c.n * 2, 2) + k % 3).view(c.n, K)),
    "grow": (1, lambda a, b, k, c: torch.cat([_full(_f(a), c)] * 2, 0).sum(1, keepdim=True).view(2, -1).sum(0).unsqueeze(1)),
    "linear_args": (1, lambda a, b, k, c: torch.nn.functional.leaky_relu(_f(a), (k % 4) / 8)),
    "softmax": (1, lambda a, b, k, c: torch.softmax(_full(_f(a), c), dim=1, dtype=torch.float64 if k % 2 else None)),
    "gelu": (1, lambda a, b, k, c: torch.nn.functional.gelu(_f(a), approximate="tanh" if k % 2 else "none")),
    "nan": (1, lambda a, b, k, c: torch.nan_to_num(torch.where(_f(a) > 2, float("inf"), _f(a)), nan=1.0, posinf=7.0, neginf=None)),
    "einsum": (2, lambda a, b, k, c: torch.einsum("ij,ij->i", _full(_f(a), c).to(torch.float32), _full(_f(b), c).to(torch.float32)).unsqueeze(1).clamp(-64, 64)),
    "bucket": (1, lambda a, b, k, c: torch.bucketize(_f(a), torch.tensor([-1.0, 0.0, 1.5]), out_int32=bool(k % 2), right=bool(k & 2))),
    "triu": (1, lambda a, b, k, c: torch.triu(_full(_f(a), c), k % 3 - 1)),
    "sz_div": (1, lambda a, b, k, c: _f(a) + (c.x0.size(0) / (k % 3 + 2))),
    "sz_floordiv": (1, lambda a, b, k, c: _f(a) + (c.x0.size(0) - k % 5) // (k % 3 + 2)),
    "sz_mod": (1, lambda a, b, k, c: _f(a) + _mod(c.x0.size(0), k)),
    "sz_neg": (1, lambda a, b, k, c: _f(a) + (-c.x0.size(0) * (k % 3))),
    "sz_fill": (1, lambda a, b, k, c: _f(a) + torch.full((1, 4), c.x0.size(0) - k % 3)),
    "sz_ar": (1, lambda a, b, k, c: _f(a) + torch.arange(c.x0.size(0) + k % 3).sum()),
    "sz_tensor": (1, lambda a, b, k, c: _f(a) + (torch.tensor(c.x0.size(0)) if k % 2 else torch.ops.aten.scalar_tensor(c.x0.size(0) + k % 3))),
    "sz_numel": (1, lambda a, b, k, c: _f(a) + c.x0.numel() * (k % 3 - 1)),
    "sz_stride": (1, lambda a, b, k, c: _f(a) + c.x0.stride(0)),
    "sz_two": (1, lambda a, b, k, c: _f(a) + ((c.x0.size(0) + k % 3) * (c.x0.size(0) - 1) - c.x0.size(0) // 2)),
    "item_i": (2, lambda a, b, k, c: _f(a) + (_item(b, k) * (k % 3 + 1) - 2)),
    "item_rsub": (2, lambda a, b, k, c: _f(a) - (k % 5 - _item(b, k))),
    "item_mod": (2, lambda a, b, k, c: _f(a) + _mod(_item(b, k), k)),
    "item_full": (2, lambda a, b, k, c: _f(a) * torch.full((1, 4), _item(b, k))),
    "item_rows": (2, lambda a, b, k, c: _f(a) + torch.full((_item(b, k) + 1, 4), 0.5).sum(0)),
    "item_ar": (2, lambda a, b, k, c: _f(a) + torch.arange(_item(b, k)).sum()),
    "item_f": (2, lambda a, b, k, c: _f(a) + (_fitem(b, k) * 0.5 - (k % 5))),
    "item_fdiv": (2, lambda a, b, k, c: _f(a) + (_fitem(b, k) / (k % 3 + 1.5))),
    "item_frsub": (2, lambda a, b, k, c: _f(a) * (1.5 - _fitem(b, k))),
    "item_ff": (2, lambda a, b, k, c: _f(a) + (_fitem(a, k) - _fitem(b, 0)) * 0.25),
    "nonzero": (2, lambda a, b, k, c: _f(a) + (torch.nonzero(_b(b)) + 1).sum(dim=0).sum()),
    "emb_bag": (1, lambda a, b, k, c: _f(a) + torch.nn.functional.embedding_bag(torch.tensor([[0, k % 4], [1, 2]]), torch.arange(16.0).reshape(4, 4), mode=("sum", "mean", "max")[k % 3])[k // 3 % 2]),
    "baddbmm": (2, lambda a, b, k, c: torch.baddbmm(torch.empty(1, 1, 4) if k % 2 else torch.ones(1, 1, 4), torch.full((1, 1, 4), 0.5), torch.arange(16.0).reshape(1, 4, 4), beta=0 if k % 2 else k % 5, alpha=k % 3 + 1)[0] + _f(a)),
    "unsafe_put": (2, lambda a, b, k, c: torch.ops.aten._unsafe_index_put(_full(_f(a), c).to(torch.float32), [torch.tensor([0, 1]), torch.tensor([k % 4, (k + 1) % 4])], torch.tensor([1.5, float(k)]), bool(k & 2))),
    "while": (2, None),
}
# Numbers of two kinds in one operation: the graphs of older torch versions.
MIXED = {
    "mix_mul": lambda a, b, k, c: _f(a) * (c.x0.size(0) * (k % 4 + 0.5)),
    "mix_rmul": lambda a, b, k, c: _f(a) * ((k % 4 + 0.5) * c.x0.size(0)),
    "mix_sub": lambda a, b, k, c: _f(a) + (c.x0.size(0) - (k % 4 + 0.5)),
    "mix_rsub": lambda a, b, k, c: _f(a) + ((k % 4 + 0.5) - c.x0.size(0)),
    "mix_add": lambda a, b, k, c: _f(a) + (c.x0.size(0) + (k % 4 + 0.5)),
    "mix_radd": lambda a, b, k, c: _f(a) + ((k % 4 + 0.5) + c.x0.size(0)),
    "mix_div": lambda a, b, k, c: _f(a) + (c.x0.size(0) / (k % 4 + 0.5)),
    "mix_rdiv": lambda a, b, k, c: _f(a) + ((k % 4 + 0.5) / c.x0.size(0)),
    "mix_item": lambda a, b, k, c: _f(a) + (_item(b, k) - (k % 4 + 0.5)) * 0.5,
    "mix_two": lambda a, b, k, c: _f(a) + (c.x0.size(0) * 0.5 - c.x0.size(0)) * (c.x0.size(0) + 0.25),
    "mix_fill": lambda a, b, k, c: _f(a) + torch.full((1, 4), c.x0.size(0) * 0.5),
}


MIXED["mix_cmp"] = lambda a, b, k, c: _f(a) + _item(b, k)
OPS.update({k: (2, f) for k, f in MIXED.items()})


COMPARE = [
    (operator.lt, 0, 99.5),
    (operator.le, 0, 99.5),
    (operator.gt, 0, -0.5),
    (operator.ge, 0, -0.5),
    (operator.ne, 0, 0.5),
    (operator.gt, 1, 99.5),
    (operator.ge, 1, 99.5),
    (operator.lt, 1, -0.5),
    (operator.le, 1, -0.5),
    (operator.ne, 1, 0.5),
]


def unpromote(ep, compare=()):
    """Drop the conversions of integers to floats that newer versions of torch
    trace explicitly; assert comparisons of sizes with floats."""
    for node in list(ep.graph.nodes):
        if node.target is torch.sym_float:
            node.replace_all_uses_with(node.args[0])
            ep.graph.erase_node(node)
    ints = [n for n in ep.graph.nodes if isinstance(n.meta.get("val"), torch.SymInt) and n.op == "call_function"]
    for k in compare:
        if not ints:
            break
        node = ints[k % len(ints)]
        op, swap, x = COMPARE[k % len(COMPARE)]
        with ep.graph.inserting_after(node):
            c = ep.graph.call_function(op, (x, node) if swap else (node, x))
        c.meta["val"] = op(x, node.meta["val"]) if swap else op(node.meta["val"], x)
        with ep.graph.inserting_after(c):
            check = ep.graph.call_function(torch.ops.aten._assert_scalar.default, (c, "assertion of the program"))
        check.meta["val"] = None
    ep.graph_module.recompile()


PLAIN_OPS = [o for o in OPS if o != "while" and o not in MIXED]
NUMBER_OPS = [o for o in OPS if o.startswith(("sz_", "item_", "size"))]


# Extra outputs over an input with a dimension of its own: f(x, m, k), where x
# is (N, 4) and m is (M).
XOUTS = {
    "outer": lambda x, m, k: x[:, :1] * m,
    "outer_t": lambda x, m, k: m.unsqueeze(1) * x[:, k % K],
    "flat": lambda x, m, k: (x[:, :1] * m).reshape(-1),
    "square": lambda x, m, k: (m.unsqueeze(1) * m).reshape(-1),
    "cube": lambda x, m, k: (m[:, None, None] * m[None, :, None] * m).reshape(-1),
    "cat": lambda x, m, k: torch.cat([m] * (k % 2 + 1) + [x[:, 0]] * (k // 2 % 3)),
    "tail": lambda x, m, k: m[1:],
    "zeros": lambda x, m, k: torch.zeros(m.size(0) + k % 4, x.size(0) * (k % 3 + 1)),
    "sizes": lambda x, m, k: x * (m.size(0) * (k % 3 + 1) - x.size(0)),
    "size": lambda x, m, k: m.size(0) + x.size(0) * (k % 3),
    "expand": lambda x, m, k: x[:, k % K].unsqueeze(1).expand(x.size(0), m.size(0)),
    "mod": lambda x, m, k: torch.zeros(m.size(0) % (k % 3 + 2) + 1, x.size(0) % 2 + k % 2 + 1),
    "half": lambda x, m, k: torch.zeros((m.size(0) + x.size(0) * (k % 3)) // (k % 2 + 2) + 1, 2),
    "rows": lambda x, m, k: m[m.size(0) // 2 :],
    "nonzero": lambda x, m, k: torch.nonzero(m > k % 3) + k % 2,
    "prod3": lambda x, m, k: (x[:, :, None] * m).reshape(x.size(0), -1),
}


# Extra outputs in other element types, memory formats and storage layouts:
# f(x, k), where x is (N, 4).
WIDE = ["complex32", "complex64", "complex128", "float16", "bfloat16", "uint8", "int8", "int16", "float8_e5m2", "float8_e4m3fn",
        "float8_e5m2fnuz", "float8_e4m3fnuz", "float8_e8m0fnu"]
_CL = torch.channels_last


def _wide(k):
    return getattr(torch, WIDE[k % len(WIDE)])


def _4d(x, k):
    return x.reshape(1, -1, 2, 2) if k % 2 else x.reshape(-1, 2, 2, 1)


FOUTS = {
    "cast": lambda x, k: x.abs().clamp(1, 8).to(_wide(k)),
    "cast_back": lambda x, k: x.abs().clamp(1, 8).to(_wide(k)).to(torch.float64 if _wide(k).is_floating_point else torch.complex128 if _wide(k).is_complex else torch.int64),
    "zeros": lambda x, k: torch.zeros(2, k % 3 + 1, dtype=_wide(k)),
    "complex_mul": lambda x, k: x.to(torch.complex64 if k % 2 else torch.complex128) * torch.full((1, 4), 1.5, dtype=torch.complex64),
    "clone": lambda x, k: _4d(x, k).clone(memory_format=(_CL, torch.contiguous_format, torch.preserve_format)[k // 2 % 3]),
    "clone_t": lambda x, k: x.t().clone(memory_format=(torch.contiguous_format, torch.preserve_format)[k % 2]),
    "contiguous": lambda x, k: _4d(x, k).permute(0, 3, 1, 2).contiguous(memory_format=(_CL, torch.contiguous_format)[k // 2 % 2]),
    "clone_3d": lambda x, k: _4d(x, k).unsqueeze(0).clone(memory_format=torch.channels_last_3d),
    "to_format": lambda x, k: _4d(x, k).to(torch.float64 if k % 3 else torch.bfloat16, memory_format=(_CL, torch.contiguous_format)[k // 2 % 2]),
    "full_like": lambda x, k: torch.full_like(_4d(x, k), k % 5, memory_format=(_CL, torch.contiguous_format)[k // 2 % 2]),
    "zeros_like": lambda x, k: torch.zeros_like(x.t(), dtype=_wide(k), memory_format=torch.contiguous_format),
    "ones_like": lambda x, k: torch.ones_like(_4d(x, k), memory_format=_CL),
    "sparse": lambda x, k: x.to_sparse(layout=(torch.sparse_coo, torch.sparse_csr, torch.sparse_csc)[k % 3]).to_dense(),
    "upsample": lambda x, k: torch.nn.functional.interpolate(_4d(x, k), scale_factor=[2.0, 1.5 if k % 2 else 1.0], mode=("bilinear", "nearest")[k // 2 % 2]),
    "resize": lambda x, k: torch.nn.functional.interpolate(_4d(x, k), size=(3, 2), mode=("bilinear", "nearest")[k // 2 % 2]),
    "zero_sparse": lambda x, k: torch.zeros(2, 4, layout=(torch.sparse_csc, torch.sparse_csr)[k % 2]).to_dense(),
}


class _Ctx:
    pass


def _apply(op, stack, ctx):
    name, i, j, k = op
    if name not in OPS:
        raise InvalidScenario(name)
    a, b = stack[i % len(stack)], stack[j % len(stack)]
    if name == "while":
        x, y = _while(_full(a, ctx), _full(b, ctx), k, ctx)
        return [x, y]
    return [OPS[name][1](a, b, k, ctx)]


class GenModule(torch.nn.Module):
    def __init__(self, spec):
        super().__init__()
        self.spec = spec
        n = spec["n"]
        self._names = []
        tensors = []
        for i, s in enumerate(spec["state"]):
            shape = shape_of(s["shape"], n)
            dt = DT[s["dtype"]]
            alias = s.get("alias")
            t = None
            if alias is not None and tensors:
                src = tensors[alias % len(tensors)]
                if s["kind"] != "param" and not src.requires_grad:
                    src = src.detach()
                    t = src if s.get("layout") == "same" else src.flatten()[:1] if src.numel() else None
                    if s.get("layout") == "rev" and src.dim() == 2:
                        t = src.t().contiguous().t()
            if t is None:
                t = layout(values(shape, dt, s["seed"]), s.get("layout"), s["seed"])
            name = s["name"]
            if hasattr(self, name):
                name = f"{name}_{i}"
            self._names.append(name)
            if s["kind"] == "param" and (dt.is_floating_point or dt.is_complex):
                self.register_parameter(name, torch.nn.Parameter(t.detach(), requires_grad=False))
            elif s["kind"] == "const":
                setattr(self, name, t)
            else:
                self.register_buffer(name, t, persistent=s["kind"] != "nonpersistent")
            tensors.append(t)

    def forward(self, *inputs):
        spec = self.spec
        aside = [_aside(s) for s in spec["inputs"]]
        sparse = [x for x, s in zip(inputs, spec["inputs"]) if "sparse" in s]
        ms = [x for x, s in zip(inputs, spec["inputs"]) if "M" in s.get("shape", "") and "sparse" not in s]
        inputs = [x for x, a in zip(inputs, aside) if not a]
        tin = [x for x in inputs if isinstance(x, torch.Tensor)]
        ctx = _Ctx()
        ctx.x0 = tin[0]
        ctx.n = tin[0].shape[0]
        stack = list(tin)
        for x in inputs:
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                stack.append(tin[0] * x)
        stack += [getattr(self, n) for n in self._names]
        muts = spec.get("muts", [])

        def mutate(when):
            for m in muts:
                kind, target, src, style, at = m
                if at != when:
                    continue
                if kind == "in":
                    j = target % len(tin)
                    if j == 0 and len(tin) > 1 and False:
                        continue
                    t = tin[j]
                else:
                    own = self._parameters if kind == "par" else self._buffers
                    bufs = [n for n, s in zip(self._names, spec["state"]) if n in own]
                    if not bufs:
                        continue
                    t = getattr(self, bufs[target % len(bufs)])
                if t.dtype == torch.bool or t.dtype.is_complex:
                    continue
                v = stack[src % len(stack)]
                v = _f(v)
                # bring the value to the target's shape
                t = t.detach() if kind == "par" else t
                if v.dim() != t.dim() or any(p != q for p, q in zip(v.shape, t.shape)):
                    v = v.reshape(-1)[0] if v.numel() else v.sum()
                    if style in (0, 5):
                        v = v.expand(t.shape)
                if t.dtype not in (torch.float32, torch.float64):
                    v = v.clamp(-9, 9) if t.dtype != torch.uint8 else v.clamp(0, 9)
                if style == 0:
                    t.copy_(v)
                elif style == 1:
                    t.add_(v.to(t.dtype))
                elif style == 2:
                    t.mul_(2)
                elif style == 3:
                    t.zero_()
                elif style == 4 and t.dim() >= 1:
                    t[..., :1] = 3
                elif style == 5:
                    t.copy_(v.to(t.dtype) if v.dtype != t.dtype else v)
                else:
                    t.sub_(1)

        for idx, op in enumerate(spec["ops"]):
            mutate(idx)
            stack += _apply(op, stack, ctx)
        mutate(-1)
        outs = []
        for o in spec["outs"]:
            if isinstance(o, dict):
                outs.append({"int": 3, "float": 2.5, "bool": True, "none": None, "str": "s"}[o["const"]] if "const" in o else ctx.x0.size(0) * o["size"])
            else:
                outs.append(stack[o % len(stack)])
        for x, i, k in spec.get("xouts", []):
            if ms:
                outs.insert(k % (len(outs) + 1), XOUTS[x](_full(_f(tin[0]), ctx), ms[i % len(ms)], k))
        for x, k in spec.get("fouts", []):
            outs.insert(k % (len(outs) + 1), FOUTS[x](_full(_f(tin[0]), ctx).to(torch.float32), k))
        for i, x in enumerate(sparse):
            outs.insert(i % (len(outs) + 1), x)
        if len(outs) == 1 and not isinstance(spec["outs"][0], dict):
            return outs[0]
        return tuple(outs)


# -------------------------------------------------------------- programs


class Prog:
    """A freshly exported program with its call arguments and its meaning."""

    refused = False  # has no IR: to be refused with NotImplementedError

    def __init__(self, spec, ep, calls):
        self.spec, self.ep, self.calls = spec, ep, calls

    def spec_values(self, flat):
        """Argument values in the order of the graph's placeholders."""
        from torch.export.graph_signature import InputKind

        ep, ins, it = self.ep, [], iter(flat)
        for s in ep.graph_signature.input_specs:
            if s.kind == InputKind.USER_INPUT:
                v = next(it)
                ins.append(v.clone() if isinstance(v, torch.Tensor) else v)
            elif s.kind == InputKind.PARAMETER:
                ins.append(ep.state_dict[s.target].detach().clone())
            elif s.kind == InputKind.BUFFER:
                src = ep.state_dict if s.persistent else ep.constants
                ins.append(src[s.target].detach().clone())
            else:
                ins.append(ep.constants[s.target].detach().clone())
        return ins

    def reference(self, flat, state=None):
        """What the exported graph computes: [(spec, value)] in output order."""
        ins = self.spec_values(flat)
        if state:
            for i, s in enumerate(self.ep.graph_signature.input_specs):
                if s.target in state:
                    ins[i] = state[s.target].clone()
        with torch.no_grad():
            out = self.ep.graph_module(*ins)
        return list(zip(self.ep.graph_signature.output_specs, [_own(o) for o in out]))


def _own(v):
    return v.clone() if isinstance(v, torch.Tensor) else v


_suite = None
_pool = None


def suite():
    global _suite
    if _suite is None:
        from torch_mlir_e2e_test.registry import GLOBAL_TEST_REGISTRY as reg
        from torch_mlir_e2e_test.test_suite import register_all_tests

        if not reg:
            register_all_tests()
        _suite = {t.unique_name: t for t in reg}
    return _suite


def pool():
    global _pool
    if _pool is None:
        with open(os.path.join(core.VERIF, "data/fxpool.json")) as f:
            _pool = json.load(f)
    return _pool


@contextlib.contextmanager
def _no_print():
    yield


def _export(mod, args, how, dynamic_shapes=None):
    if how == "functional":
        from torch.export._trace import _export as ex

        return ex(mod, args, strict=False, pre_dispatch=False, dynamic_shapes=dynamic_shapes)
    ep = torch.export.export(mod, args, strict=False, dynamic_shapes=dynamic_shapes)
    if how == "decomp":
        from torch._decomp import get_decompositions  # noqa: F401
        from torch_mlir.extras.fx_decomp_util import get_decomposition_table

        ep = ep.run_decompositions(get_decomposition_table())
    return ep


def gen_inputs(spec, n, seed, m=None):
    m = m or spec.get("m") or 2
    out = []
    for i, s in enumerate(spec["inputs"]):
        if "const" in s:
            out.append(s["const"])
        elif "int" in s:
            out.append(n + 2 if s["int"] == "dyn" else s["int"])
        else:
            t = values(shape_of(s["shape"], n, m), DT[s["dtype"]], s["seed"] + seed * 101)
            out.append(SPARSE[s["sparse"]](t) if "sparse" in s else t)
    return out


class _Tracer:
    def __init__(self, m):
        self.m, self.calls = m, []

    def __getattr__(self, n):
        def call(*a):
            self.calls.append((n, copy.deepcopy(a)))
            return self.m.forward(*a) if n == "forward" else getattr(self.m, n)(*a)

        return call


_inputs_cache = {}

# Programs with loops are slow to export, so these few are exported once per
# process; a scenario gets a copy with its own numbers in every scalar argument.
HOPS = [
    [["while", 0, 1, 0], ["add", 2, 3, 0]],
    [["while", 0, 1, 1], ["relu", 2, 0, 0], ["while", 4, 1, 2]],
    [["scal_f", 0, 0, 1], ["while", 2, 1, 3], ["where", 3, 4, 2]],
    [["while", 0, 1, 5], ["while", 1, 2, 0], ["sub", 4, 5, 1]],
]
_hop_cache = {}
_lib = None


def custom_ops():
    """Operators which change their arguments."""
    global _lib
    if _lib is not None:
        return
    _lib = torch.library.Library("verif", "DEF")

    def define(schema, f, fake):
        name = schema.split("(")[0]
        _lib.define(schema)
        _lib.impl(name, f, "CompositeExplicitAutograd")
        torch.library.register_fake(f"verif::{name}", fake, lib=_lib)

    def bump_(x, k=1):
        x.add_(k)

    def accum(y, x, s):
        x.mul_(s)
        return y + x

    def both(x, y, *, flip=False, z=None):
        old = x.clone()
        x.copy_(y * (-1 if flip else 1))
        y.copy_(old)
        return old * 2 + (0 if z is None else z), y - 1

    def pick(xs, x, i):
        x.add_(xs[i])

    define("bump_(Tensor(a!) x, int k=1) -> ()", bump_, lambda x, k=1: None)
    define("accum(Tensor y, Tensor(a!) x, float s) -> Tensor", accum, lambda y, x, s: torch.empty_like(y))
    define(
        "both(Tensor(a!) x, Tensor(b!) y, *, bool flip=False, Tensor? z=None) -> (Tensor, Tensor)",
        both,
        lambda x, y, *, flip=False, z=None: (torch.empty_like(x), torch.empty_like(y)),
    )
    define("pick(Tensor[] xs, Tensor(a!) x, int i) -> ()", pick, lambda xs, x, i: None)


def functional_v1(ep):
    """Rewrite what newer versions of torch emit for operators that change their
    arguments to the form the importer reads (the one of older versions)."""
    from torch._higher_order_ops.auto_functionalize import auto_functionalized, auto_functionalized_v2

    for node in ep.graph.nodes:
        if node.target is not auto_functionalized_v2:
            continue
        (op,) = node.args
        kw = dict(node.kwargs)
        bases = kw.pop("_all_bases")
        mutable = [a.name for a in op._schema.arguments if a.alias_info is not None and a.alias_info.is_write]
        index = [kw.pop(f"_{a}_base_index") for a in mutable]
        if any(k.startswith("_") for k in kw) or sorted(index) != list(range(len(bases))):
            raise SimUnsupported("views of mutated arguments")
        full = {a.name: kw.get(a.name, a.default_value if a.has_default_value() else None) for a in op._schema.arguments}
        full.update({a: bases[i] for a, i in zip(mutable, index)})
        nret = max(1, len(op._schema.returns))
        val = node.meta["val"]
        node.target, node.kwargs = auto_functionalized, full
        node.meta["val"] = tuple(val[:nret]) + tuple(val[nret + i] for i in index)
        for u in list(node.users):
            k = u.args[1]
            if k >= nret:
                u.args = (node, nret + index.index(k - nret))
    ep.graph_module.recompile()


class Mutating(torch.nn.Module):
    """Programs that call operators which change their arguments."""

    def __init__(self, which):
        super().__init__()
        self.which = which
        self.register_buffer("b", torch.arange(12.0).reshape(3, 4) / 4)

    def forward(self, x, y):
        op = torch.ops.verif
        z = x + 1.25
        if self.which == 0:
            op.bump_(z, 3)
            r = op.accum(y, z, 0.5)
            return r * z, z
        if self.which == 1:
            op.bump_(z)
            op.bump_(z, 2)
            w = y * 0.5
            p, q = op.both(z, w, flip=True)
            return p - q, w, z
        if self.which == 2:
            w = y * 2.5
            p, q = op.both(w, z, z=x)
            op.pick([x, y, p * 1.5], w, 2)
            p2, q2 = op.both(z, w)
            return q * 1.5, p2 + q2, w
        if self.which == 3:  # changes an argument and a buffer
            op.bump_(x, 2)
            r = op.accum(y, self.b, 0.25)
            op.pick([self.b, r], x, 1)
            return r + x
        r = op.accum(z, y, 1.5)
        s = op.accum(r, y, 0.5)
        op.bump_(s, 7)
        return s, r * 0.5


class Flex(torch.nn.Module):
    def __init__(self, which):
        from torch.nn.attention.flex_attention import create_block_mask

        super().__init__()
        self.which = which
        self.register_buffer("bias", torch.tensor([0.5, -1.0]))
        self.bm = create_block_mask(lambda b, h, i, j: i >= j, 1, 1, 4, 4, device="cpu", BLOCK_SIZE=2)
        self.bm2 = create_block_mask(lambda b, h, i, j: (i - j) % 2 == 0, 1, 1, 4, 4, device="cpu", BLOCK_SIZE=2)

    def forward(self, q, k, v):
        from torch.nn.attention.flex_attention import AuxRequest, flex_attention

        def far(s, b, h, i, j):
            return s * 0.5 + (i - j)

        def heads(s, b, h, i, j):
            return torch.where(h == 1, s * 2.5, s - b)

        def biased(s, b, h, i, j):
            return s + self.bias[h]

        if self.which == 0:
            return flex_attention(q, k, v, score_mod=far, block_mask=self.bm, scale=0.25) + 1.0
        if self.which == 1:
            a, aux = flex_attention(q, k, v, score_mod=heads, block_mask=self.bm2, return_aux=AuxRequest(lse=True))
            return a * 1.5, aux.lse
        if self.which == 2:
            a = flex_attention(q, k, v, score_mod=far, block_mask=self.bm2, scale=0.5)
            b = flex_attention(a * 1.5, k, v, score_mod=heads, block_mask=self.bm, scale=0.75)
            return b, a
        if self.which == 3:
            return flex_attention(q, k[:, :1], v[:, :1], block_mask=self.bm, enable_gqa=True)
        return flex_attention(q, k, v, score_mod=biased, block_mask=self.bm, scale=0.5)


# The last one reads a tensor from inside its score function, for which there is
# no operation to import it to.
REFUSED = {("flex", 4)}


def _template(kind, i):
    if kind == "while":
        full = {
            "n": 3,
            "inputs": [{"shape": "(N,4)", "dtype": "f32", "seed": 1}],
            "state": [{"name": "w", "kind": "buffer", "shape": "(4)", "dtype": "f32", "seed": 3}],
            "ops": HOPS[i],
            "outs": [1 + sum(2 if o[0] == "while" else 1 for o in HOPS[i]), 2, 0],
            "how": "functional" if i % 2 else "export",
        }
        p = build(full)
        return p.ep, p.calls
    if kind == "mutating":
        custom_ops()
        args = (values((3, 4), torch.float32, 1), values((3, 4), torch.float32, 2))
        ep = _export(Mutating(i), args, "functional")
        functional_v1(ep)
        return ep, [list(args)]
    g = torch.Generator().manual_seed(5)
    args = tuple(torch.randn((1, 2, 4, 2), generator=g) for _ in range(3))
    ep = _export(Flex(i), args, "decomp" if i % 2 else "functional")
    return ep, [list(args)]


TEMPLATES = [("while", i) for i in range(len(HOPS))] + [("mutating", i) for i in range(5)] + [("flex", i) for i in range(5)]


def _hop(spec):
    t = TEMPLATES[spec["hop"] % len(TEMPLATES)]
    if t not in _hop_cache:
        _hop_cache[t] = _template(*t)
    ep, calls = _hop_cache[t]
    ep = copy.deepcopy(ep)
    tweak = spec.get("tweak") or [0]
    i = 0
    gms = [ep.graph_module] + [m for _, m in ep.graph_module.named_children() if hasattr(m, "graph")]
    for gm in gms:
        for node in gm.graph.nodes:
            if node.op == "call_function" and len(node.args) > 1 and type(node.args[1]) is float:
                k = tweak[i % len(tweak)]
                i += 1
                node.args = (node.args[0], (k % 9 - 4) / 4 + node.args[1]) + node.args[2:]
            elif node.target is torch.ops.higher_order.flex_attention:
                k = tweak[i % len(tweak)]
                i += 1
                node.args = node.args[:5] + (node.args[5] + k / 16,) + node.args[6:]
            elif node.target is torch.ops.higher_order.auto_functionalized:
                k = tweak[i % len(tweak)]
                i += 1
                num = {float: k / 8, int: k % 2}
                node.kwargs = {n: num.get(type(v), v) + (n == "k") if type(v) in num else v for n, v in node.kwargs.items()}
        gm.recompile()
    with torch.no_grad():
        for v in ep.state_dict.values():
            v.add_(tweak[0] % 3)
    p = Prog(spec, ep, copy.deepcopy(calls))
    p.refused = t in REFUSED
    return p


def suite_module(name):
    """(module, arguments) of a program of the test suite."""
    t = suite().get(name)
    if t is None:
        raise InvalidScenario(name)
    from torch_mlir_e2e_test.framework import TestUtils

    args = _inputs_cache.get(name)
    if args is None:
        torch.manual_seed(7)
        m = t.program_factory()
        tr = _Tracer(m)
        torch.manual_seed(0)
        with torch.no_grad():
            t.program_invoker(tr, TestUtils())
        if not tr.calls or tr.calls[0][0] != "forward":
            raise InvalidScenario("no forward")
        args = _inputs_cache[name] = tr.calls[0][1]
    torch.manual_seed(7)
    m = t.program_factory()
    return m, copy.deepcopy(args)


def dynamic(spec):
    dyn = None
    if spec.get("dyn"):
        lo, hi = spec["dyn"]
        d = torch.export.Dim("batch", min=lo, max=hi)
        d2 = torch.export.Dim(spec.get("mname", "other"), min=spec.get("mlo", 2), max=spec.get("mhi", 64))
        dyn = []
        for s in spec["inputs"]:
            if "M" in s.get("shape", ""):
                dyn.append({i: {"N": d, "M": d2}[x] for i, x in enumerate(s["shape"].strip("()").split(",")) if x in "NM"})
            elif "shape" in s and s["shape"].startswith("(N"):
                dyn.append({0: d})
            elif s.get("int") == "dyn":
                dyn.append(torch.export.Dim.DYNAMIC)
            else:
                dyn.append(None)
        dyn = (tuple(dyn),)
    return dyn


def source(spec):
    """(module, arguments, dynamic shapes) of a program that is no template."""
    if "suite" in spec:
        return *suite_module(spec["suite"]), None
    m = GenModule(spec)
    return m, tuple(gen_inputs(spec, spec["n"], 0)), dynamic(spec)


def build(spec):
    """A new program.  ``spec`` = {"suite": name, "how"} or a generated spec."""
    if "suite" in spec:
        m, args = suite_module(spec["suite"])
        ep = _export(m, args, spec.get("how", "export"))
        flat, _ = pytree.tree_flatten(args)
        return Prog(spec, ep, [flat])
    if "hop" in spec:
        return _hop(spec)
    m, args, dyn = source(spec)
    ep = _export(m, args, spec.get("how", "functional"), dyn)
    if any(o[0] in MIXED for o in spec["ops"]):
        unpromote(ep, [o[3] for o in spec["ops"] if o[0] == "mix_cmp"])
    calls = []
    ns = spec.get("call_ns") or [spec["n"]]
    ms = spec.get("call_ms") or [None]
    for c, n in enumerate(ns):
        calls.append(gen_inputs(spec, n if spec.get("dyn") else spec["n"], c, ms[c % len(ms)] if spec.get("dyn") else None))
    return Prog(spec, ep, calls)


# ------------------------------------------------------------ generation


def gen_suite(rng):
    how = rng.weighted([("export", 5), ("functional", 2), ("decomp", 1)])
    names = pool()[how]
    if how == "export" and rng.chance(0.5):
        names = pool()["rare"]
    return {"suite": rng.pick(names), "how": how}


def gen_hop(rng, kind=None):
    return {"hop": rng.pick([i for i, t in enumerate(TEMPLATES) if kind in (None, t[0])]), "tweak": [rng.randrange(36) for _ in range(rng.pick([1, 3, 5]))]}


def gen_spec(rng, *, mutate=False, dyn=False, hop=False, literals=False, size=None, sparse=False, formats=False):
    """One generated program spec."""
    n = rng.pick([2, 3, 3, 5]) if not dyn else rng.pick([3, 4])
    dts = ["f32"] * 6 + ["f64", "f16", "bf16", "i32", "i64", "i8", "u8", "i16", "bool", "bool"]
    inputs = [{"shape": "(N,4)", "dtype": "f32", "seed": rng.randrange(50)}]
    for _ in range(rng.pick([0, 1, 1, 2])):
        inputs.append(
            {
                "shape": rng.pick(["(N,4)", "(N,4)", "(4)", "(1,4)", "(N,1)", "()"]),
                "dtype": rng.pick(["f32", "f32", "i64", "f64", "bool"]),
                "seed": rng.randrange(50),
            }
        )
    if rng.chance(0.15):
        inputs.append({"const": rng.pick([3, 2.5, None, True])})
    if dyn and rng.chance(0.3):
        inputs.append({"int": "dyn"})
    if dyn and rng.chance(0.6):
        for _ in range(rng.pick([1, 1, 2])):
            inputs.insert(rng.randrange(len(inputs) + 1), {"shape": "(M)", "dtype": "f32", "seed": rng.randrange(50)})
    if sparse:
        for _ in range(rng.pick([1, 1, 2])):
            x = {"shape": rng.pick(["(N,4)", "(4,4)"]), "dtype": rng.pick(["f32", "f32", "f64"]), "seed": rng.randrange(50)}
            if rng.chance(0.8):
                x["sparse"] = rng.pick(sorted(SPARSE))
            inputs.insert(rng.randrange(len(inputs) + 1) if "sparse" in x else len(inputs), x)
    nstate = rng.pick([1, 2, 3, 4]) if not literals else rng.pick([3, 4, 6, 8])
    state = []
    for i in range(nstate):
        s = {
            "name": rng.pick(["w", "b", "c", "k"]) + str(rng.randrange(3)),
            "kind": rng.weighted([("buffer", 5), ("param", 3), ("const", 2), ("nonpersistent", 0 if not mutate else 1)]),
            "shape": rng.pick(SHAPES if not dyn else [s for s in SHAPES if "N" not in s]),
            "dtype": rng.pick(dts),
            "seed": rng.randrange(1000),
            "layout": rng.pick([None, None, None, "t", "slice", "step", "expand"]),
        }
        if literals and i and rng.chance(0.35):  # look-alike of an earlier one
            p = state[rng.randrange(len(state))]
            s["shape"], s["dtype"] = p["shape"], p["dtype"]
        if rng.chance(0.06) and i and s["kind"] == "buffer" and not mutate:
            s["alias"] = rng.randrange(i)
            s["layout"] = rng.pick(["same", "first"])
        state.append(s)
    if mutate:
        for s in state:
            if s["kind"] == "buffer" and s["dtype"] == "bool":
                s["dtype"] = "f32"
            if s["kind"] != "const":
                s["layout"] = None
    names = PLAIN_OPS + (sorted(MIXED) * 2 if dyn and rng.chance(0.2) else [])
    if rng.chance(0.1):
        names = NUMBER_OPS + [x for x in names if x in MIXED]
    ops = []
    size = size or rng.pick([1, 2, 3, 4, 6, 9])
    total = len([i for i in inputs if "shape" in i and not _aside(i)]) + nstate
    for i in range(size):
        name = rng.pick(names)
        if hop and (rng.chance(0.35) or i == 0):
            name = "while"
        # prefer recent values
        a = total - 1 - rng.randrange(min(total, 4)) if rng.chance(0.6) else rng.randrange(total)
        b = rng.randrange(total)
        ops.append([name, a, b, rng.randrange(24)])
        total += 2 if name == "while" else 1
    outs = [total - 1]
    if literals:
        base = total - nstate - sum(2 if o[0] == "while" else 1 for o in ops)
        for i in range(nstate):
            if rng.chance(0.7):
                # combine: literals as direct operands of an op
                ops.append([rng.pick(["relu", "where", "add", "lnot", "scal_i"]), base + i, base + rng.randrange(nstate), rng.randrange(24)])
                outs.append(total)
                total += 1
    for _ in range(rng.pick([0, 0, 1, 2])):
        outs.insert(rng.randrange(len(outs) + 1), rng.randrange(total))
    if rng.chance(0.2):
        outs.insert(rng.randrange(len(outs) + 1), {"const": rng.pick(["int", "float", "bool", "none", "str"])})
    if dyn and rng.chance(0.3):
        outs.append({"size": rng.randrange(1, 4)})
    spec = {"n": n, "inputs": inputs, "state": state, "ops": ops, "outs": outs}
    if any("M" in i.get("shape", "") for i in inputs):
        spec["m"] = rng.pick([3, 5, 6, 7])
        spec["mname"] = rng.pick(["a", "other", "zz"])
        spec["mlo"], spec["mhi"] = rng.pick([2, 2, 3]), rng.pick([8, 30, 64])
        spec["xouts"] = [[rng.pick(sorted(XOUTS)), rng.randrange(2), rng.randrange(24)] for _ in range(rng.pick([1, 2, 2, 3]))]
    if formats:
        spec["fouts"] = [[rng.pick(sorted(FOUTS)), rng.randrange(78)] for _ in range(rng.pick([1, 2, 3]))]
    if mutate and rng.chance(0.35):
        # the new contents are computed before the last use of the old ones
        late = rng.randrange(len(inputs) + 1)
        state.append({"name": f"late{late}", "kind": "buffer", "shape": "(N,4)", "dtype": "f32", "seed": rng.randrange(1000), "layout": None})
        b0 = len([i for i in inputs if "shape" in i and not _aside(i)])
        for o in ops:  # values after the new buffer move by one
            o[1] += o[1] >= b0 + nstate
            o[2] += o[2] >= b0 + nstate
        outs[:] = [o + (o >= b0 + nstate) if isinstance(o, int) else o for o in outs]
        buf, total = b0 + nstate, total + 1
        ops.append([rng.pick(["add", "sub", "scal_f", "max2"]), buf, 0, rng.randrange(24)])
        new = total
        ops.append([rng.pick(["add", "mul", "where"]), buf, rng.randrange(total), rng.randrange(24)])
        outs.append(total + 1)
        total += 2
        nbuf = sum(1 for s in state if s["kind"] in ("buffer", "nonpersistent") or (s["kind"] == "param" and not (DT[s["dtype"]].is_floating_point or DT[s["dtype"]].is_complex)))
        last = ["buf", nbuf - 1, new, 0, -1]
    if mutate:
        muts = []
        for _ in range(rng.pick([1, 1, 2, 3, 4])):
            muts.append(
                [
                    rng.pick(["in", "in", "buf", "buf", "buf", "par"]),
                    rng.randrange(4),
                    rng.randrange(total),
                    rng.randrange(7),
                    rng.pick([-1] + list(range(len(ops)))),
                ]
            )
        for m in muts:  # the source must exist when the mutation happens
            if m[4] >= 0:
                m[2] = rng.randrange(max(1, total - len(ops) + m[4]))
        if any(x["name"].startswith("late") for x in state):
            muts = [m for m in muts if m[0] != "buf" or m[4] != -1][:2] + [last]
        spec["muts"] = muts
        spec["how"] = "functional"
    else:
        spec["how"] = rng.pick(["export", "functional"])
    if dyn:
        lo = rng.pick([2, 2, 3])
        hi = rng.pick([8, 16, 100])
        spec["dyn"] = [lo, hi]
        spec["call_ns"] = [n] + [rng.randrange(lo, 8) for _ in range(2)]
        if "m" in spec:
            spec["call_ms"] = [spec["m"]] + [rng.randrange(spec["mlo"], 8) for _ in range(2)]
    else:
        spec["call_ns"] = [n] * rng.pick([1, 1, 2])
    return spec
