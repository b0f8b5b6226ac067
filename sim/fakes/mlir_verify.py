"""What mlir's verifier would say about IR built by the importers.

Covers SSA dominance, terminators, function signatures, calls, symbol
uniqueness and the operand and result constraints of generated torch ops.
"""

from . import mlir


def _t(t):
    return t.p.get("t") if t.kind == "torch" else None


def _is_tensor(t):
    return _t(t) in ("vtensor", "tensor")


_BASE = {
    "Torch_IntType": lambda t: _t(t) == "int",
    "Torch_FloatType": lambda t: _t(t) == "float",
    "Torch_BoolType": lambda t: _t(t) == "bool",
    "Torch_StringType": lambda t: _t(t) == "str",
    "Torch_DeviceType": lambda t: _t(t) == "Device",
    "Torch_GeneratorType": lambda t: _t(t) == "Generator",
    "Torch_NonValueTensorType": lambda t: _t(t) == "tensor",
    "Torch_ValueTensorType": lambda t: _t(t) == "vtensor",
    "Torch_NoneType": lambda t: _t(t) == "none",
    "AnyTorchTensorType": _is_tensor,
    "AnyTorchScalarType": lambda t: _t(t) in ("int", "float", "number"),
    "AnyTorchType": lambda t: t.kind == "torch",
}


def _opt(p):
    return lambda t: _t(t) in ("optional", "none") or p(t)


def _list(p):
    return lambda t: _t(t) == "list" and p(t.p["elem"])


_B = _BASE
_BASE.update(
    {
        "AnyTorchOptionalTensorType": _opt(_is_tensor),
        "AnyTorchOptionalNonValueTensorType": _opt(_B["Torch_NonValueTensorType"]),
        "AnyTorchOptionalIntType": _opt(_B["Torch_IntType"]),
        "AnyTorchOptionalFloatType": _opt(_B["Torch_FloatType"]),
        "AnyTorchOptionalBoolType": _opt(_B["Torch_BoolType"]),
        "AnyTorchOptionalStringType": _opt(_B["Torch_StringType"]),
        "AnyTorchOptionalDeviceType": _opt(_B["Torch_DeviceType"]),
        "AnyTorchOptionalGeneratorType": _opt(_B["Torch_GeneratorType"]),
        "AnyTorchOptionalScalarType": _opt(_B["AnyTorchScalarType"]),
        "AnyTorchListOfTorchBoolType": _list(_B["Torch_BoolType"]),
        "AnyTorchListOfTorchIntType": _list(_B["Torch_IntType"]),
        "AnyTorchListOfTorchFloatType": _list(_B["Torch_FloatType"]),
        "AnyTorchListOfTorchStringType": _list(_B["Torch_StringType"]),
        "AnyTorchListOfTensorType": _list(_is_tensor),
        "AnyTorchListOfNonValueTensorType": _list(_B["Torch_NonValueTensorType"]),
        "AnyTorchListOfOptionalTensorType": _list(_opt(_is_tensor)),
        "AnyTorchListOfOptionalIntType": _list(_opt(_B["Torch_IntType"])),
        "AnyTorchOptionalListOfTorchIntType": _opt(_list(_B["Torch_IntType"])),
        "AnyTorchOptionalListOfTorchFloatType": _opt(_list(_B["Torch_FloatType"])),
        "AnyTorchListType": lambda t: _t(t) == "list",
    }
)

TERMINATORS = {
    "func.return",
    "torch.prim.Loop.condition",
    "torch.prim.If.yield",
    "torch.operator_terminator",
}


def subtype(sub, sup):
    """isValidSubtype: sup says no more than sub, and does not disagree."""
    if str(sub) == str(sup):
        return True
    if _t(sup) == "any":
        return True
    if _is_tensor(sub) and _is_tensor(sup) and _t(sub) == _t(sup):
        a, b = sub.p, sup.p
        if b["dtype"] is not None and (a["dtype"] is None or str(a["dtype"]) != str(b["dtype"])):
            return False
        if b["sizes"] is not None:
            if a["sizes"] is None or len(a["sizes"]) != len(b["sizes"]):
                return False
            return all(y == -1 or x == y for x, y in zip(a["sizes"], b["sizes"]))
        return True
    return False


def verify(root):
    errs = []

    def err(op, msg):
        errs.append(f"'{op.name}' op {msg}")

    symbols = {}
    if root.name == "builtin.module":
        for o in root.regions[0].blocks[0].operations:
            n = o._attrs.get("sym_name")
            if n is not None:
                if n.value in symbols:
                    err(o, f"redefinition of symbol named '{n.value}'")
                symbols[n.value] = o

    def check_op(op, scope):
        for i, v in enumerate(op.operands):
            if id(v) not in scope:
                err(op, f"operand #{i} does not dominate this use")
        reg = mlir.registered_ops().get(op.name)
        if op.name.startswith("torch.") and reg is None:
            err(op, "unregistered operation")
        if reg is not None and reg[2]:
            ins, outs = reg[0], reg[1]
            if ins != "?" and all("Variadic" not in c for c, _ in ins):
                if len(op.operands) != len(ins):
                    err(op, f"expected {len(ins)} operands, but found {len(op.operands)}")
                else:
                    for (c, n), v in zip(ins, op.operands):
                        p = _BASE.get(c)
                        if p is not None and not p(v.type):
                            err(op, f"operand '{n}' must be {c}, but got '{v.type}'")
            if outs != "?" and all("Variadic" not in c for c, _ in outs):
                if len(op.results) != len(outs):
                    err(op, f"expected {len(outs)} results, but found {len(op.results)}")
                else:
                    for (c, n), v in zip(outs, op.results):
                        p = _BASE.get(c)
                        if p is not None and not p(v.type):
                            err(op, f"result '{n}' must be {c}, but got '{v.type}'")
        if op.name == "torch.prim.ListConstruct":
            lt = op.results[0].type
            for v in op.operands:
                e = lt.p["elem"]
                base = e.p["elem"] if _t(e) == "optional" else e
                ok = subtype(v.type, base) or (
                    _t(e) == "optional" and (_t(v.type) == "none" or subtype(v.type, e))
                )
                if not ok:
                    err(op, f"operand types should have the same type as the list contained type: {v.type} in {lt}")
        elif op.name == "torch.vtensor.literal":
            at, rt = op._attrs["value"].type, op.results[0].type
            if _t(rt) != "vtensor" or rt.p["sizes"] is None or rt.p["dtype"] is None:
                err(op, f"literal of type {rt}")
            elif list(at.p["shape"]) != rt.p["sizes"] or str(at.p["elem"]) != str(rt.p["dtype"]):
                err(op, f"literal value type {at} does not match {rt}")
        elif op.name == "torch.overwrite.tensor.contents":
            v, o = op.operands
            if _t(v.type) != "vtensor" or _t(o.type) != "tensor":
                err(op, f"operand types {v.type}, {o.type}")
            elif v.type.p != {**o.type.p, "t": "vtensor"} and str(v.type)[len("!torch.v"):] != str(o.type)[len("!torch."):]:
                err(op, f"overwrites {o.type} with {v.type}")
        elif op.name == "torch.copy.to_vtensor":
            s, r = op.operands[0].type, op.results[0].type
            if _t(s) != "tensor" or _t(r) != "vtensor" or str(r)[len("!torch.v"):] != str(s)[len("!torch."):]:
                err(op, f"copy from {s} to {r}")
        elif op.name == "func.call":
            callee = symbols.get(op._attrs["callee"].value)
            if callee is None or callee.name != "func.func":
                err(op, f"'{op._attrs['callee'].value}' does not reference a valid function")
            else:
                ft = callee._attrs["function_type"].value
                if [str(t) for t in ft.inputs] != [str(v.type) for v in op.operands]:
                    err(op, f"operand type mismatch with callee: {ft}")
                if [str(t) for t in ft.results] != [str(v.type) for v in op.results]:
                    err(op, f"result type mismatch with callee: {ft}")
        elif op.name == "func.return":
            f = op.parent
            if f is not None and f.name == "func.func":
                ft = f._attrs["function_type"].value
                if [str(t) for t in ft.results] != [str(v.type) for v in op.operands]:
                    err(
                        op,
                        f"returns {[str(v.type) for v in op.operands]}, function declares "
                        f"{[str(t) for t in ft.results]}",
                    )
        elif op.name == "torch.bind_symbolic_shape":
            m = op._attrs["shape_expressions"].value
            if m.n_symbols != len(op.operands) - 1:
                err(op, "number of shape symbols does not match the affine map")
            for v in op.operands[1:]:
                if getattr(v.owner, "name", None) != "torch.symbolic_int":
                    err(op, "shape symbol must be produced by a SymbolicIntOp")

    def check_region(op, region, scope):
        for b in region.blocks:
            inner = set(scope)
            inner.update(id(a) for a in b.arguments)
            if op.name == "func.func":
                ft = op._attrs["function_type"].value
                if [str(t) for t in ft.inputs] != [str(a.type) for a in b.arguments]:
                    err(op, "entry block arguments do not match the signature")
            if op.name != "builtin.module" and (
                not b.operations or b.operations[-1].name not in TERMINATORS
            ):
                err(op, "block without terminator")
            for i, o in enumerate(b.operations):
                check_op(o, inner)
                if o.name in TERMINATORS and i != len(b.operations) - 1:
                    err(o, "must be the last operation in the parent block")
                for r in o.regions:
                    check_region(o, r, set() if o.name == "func.func" else inner)
                inner.update(id(r) for r in o.results)

    for r in root.regions:
        check_region(root, r, set())
    return errs
