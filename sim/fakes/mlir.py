"""A stand-in for the MLIR Python bindings, faithful where the importers look.

It records IR as Python objects, checks what the real bindings check (types
parse, attributes have values, a location and a context are in scope, operands
are values), uniques symbols as mlir::SymbolTable does, keeps resource buffers
by reference as DenseResourceElementsAttr does, and can fail at any call: every
entry point ticks ``hook(point)``, which a simulation may make raise.

A name it does not have becomes a placeholder that stops the run as "outside
the model" when used, so that nothing is judged on a part that is missing.
"""

import itertools
import re
import sys
import threading
import types as _types

import numpy as np

from ..core import SimUnsupported, REPO

try:
    import ml_dtypes
except ImportError:  # pragma: no cover
    ml_dtypes = None


class MLIRError(Exception):
    def __init__(self, message="", error_diagnostics=()):
        super().__init__(message)
        self.message = message
        self.error_diagnostics = list(error_diagnostics)

    def __str__(self):
        return self.message


# ------------------------------------------------------------- simulation seam


class Hooks:
    """What a run decides about the binding: failures and pass execution."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.tick = None  # fn(point): may raise
        self.run_pass = None  # fn(pm, op): what PassManager.run does
        self.parse_pass = None
        self.asm = None  # fn(op, text): what get_asm is about to return
        self.import_module = None  # JIT importer
        self.counts = {}
        _tls.stack = []


_tls = threading.local()


def _stack():
    st = getattr(_tls, "stack", None)
    if st is None:
        st = _tls.stack = []
    return st


hooks = Hooks()


def _tick(point):
    if hooks.tick is not None:
        hooks.tick(point)


# ------------------------------------------------------------------- contexts

_ids = itertools.count()


class _Dialects:
    def __init__(self, ctx):
        self._ctx = ctx

    def __getitem__(self, name):
        if name in self._ctx._dialects:
            return ("dialect", name)
        raise IndexError(f"Dialect '{name}' not found")

    def __getattr__(self, name):
        try:
            return self[name]
        except IndexError:
            raise AttributeError(name)


class Context:
    """with Context(): pushes it; every object belongs to one context."""

    def __init__(self):
        self._dialects = {"builtin", "func"}
        self._blobs = {}
        self.emit_error_diagnostics = False
        self.allow_unregistered_dialects = False
        self._multithreading = True

    class _Current:
        def __get__(self, obj, cls):
            return _default_ctx()

    current = _Current()  # static: Context.current

    @property
    def dialects(self):
        return _Dialects(self)

    d = dialects

    def is_registered_operation(self, name):
        return name in registered_ops()

    def enable_multithreading(self, on):
        self._multithreading = bool(on)

    def append_dialect_registry(self, reg):
        pass

    def load_all_available_dialects(self):
        pass

    def __enter__(self):
        _push(("ctx", self), ctx=self)
        return self

    def __exit__(self, *exc):
        _pop(("ctx", self))


class _Frame:
    __slots__ = ("key", "ctx", "ip", "loc")

    def __init__(self, key, ctx, ip, loc):
        self.key, self.ctx, self.ip, self.loc = key, ctx, ip, loc


def _push(key, ctx, ip=None, loc=None):
    st = _stack()
    if st and st[-1].ctx is ctx:
        ip = ip if ip is not None else st[-1].ip
        loc = loc if loc is not None else st[-1].loc
    st.append(_Frame(key, ctx, ip, loc))


def _pop(key):
    st = _stack()
    if not st or st[-1].key[0] != key[0] or st[-1].key[1] is not key[1]:
        raise RuntimeError(f"Unbalanced {key[0]} enter/exit")
    st.pop()


def depth():
    return len(_stack())


def _default_ctx(explicit=None):
    if explicit is not None:
        if not isinstance(explicit, Context):
            raise TypeError(f"expected a Context, got {type(explicit)}")
        return explicit
    st = _stack()
    if not st:
        raise RuntimeError(
            "An MLIR function requires a Context but none was provided in the call "
            "or from the surrounding environment. Either pass to the function with "
            "a 'context=' argument or establish a default using 'with Context():'"
        )
    return st[-1].ctx


def _default_loc(explicit=None):
    if explicit is not None:
        if not isinstance(explicit, Location):
            raise TypeError(f"expected a Location, got {type(explicit)}")
        return explicit
    st = _stack()
    if not st or st[-1].loc is None:
        raise RuntimeError(
            "An MLIR function requires a Location but none was provided in the call "
            "or from the surrounding environment. Either pass to the function with "
            "a 'loc=' argument or establish a default using 'with loc:'"
        )
    return st[-1].loc


class Location:
    def __init__(self, ctx, kind, data):
        self.context, self.kind, self.data = ctx, kind, data

    @staticmethod
    def unknown(context=None):
        return Location(_default_ctx(context), "unknown", ())

    @staticmethod
    def file(filename, line, col, context=None):
        if not isinstance(filename, str) or not isinstance(line, int):
            raise TypeError("Location.file")
        return Location(_default_ctx(context), "file", (filename, line, col))

    @staticmethod
    def callsite(callee, frames, context=None):
        frames = list(frames)
        if not frames:
            raise ValueError("No caller frames provided.")
        for f in [callee] + frames:
            if not isinstance(f, Location):
                raise TypeError("Location.callsite")
        return Location(_default_ctx(context), "callsite", (callee, *frames))

    @staticmethod
    def name(name, childLoc=None, context=None):
        if not isinstance(name, str):
            raise TypeError("Location.name expects str")
        return Location(_default_ctx(context), "name", (name, childLoc))

    @staticmethod
    def fused(locations, metadata=None, context=None):
        return Location(_default_ctx(context), "fused", tuple(locations))

    def __enter__(self):
        _push(("Location", self), ctx=self.context, loc=self)
        return self

    def __exit__(self, *exc):
        _pop(("Location", self))

    def __eq__(self, o):
        return (
            isinstance(o, Location)
            and o.context is self.context
            and o.kind == self.kind
            and o.data == self.data
        )

    def __hash__(self):
        return hash((self.kind, len(self.data)))

    def __str__(self):
        if self.kind == "unknown":
            return "loc(unknown)"
        return f"loc({self.kind}:{', '.join(str(d) for d in self.data)})"


class InsertionPoint:
    """At the end of a block, or before an operation."""

    def __init__(self, beforeOperation):
        if isinstance(beforeOperation, Block):
            self.block, self.ref = beforeOperation, None
        elif isinstance(beforeOperation, (Operation, OpView)):
            op = beforeOperation.operation
            if op.block is None:
                raise ValueError("Insertion point before a detached operation")
            self.block, self.ref = op.block, op
        else:
            raise TypeError(
                f"InsertionPoint(): incompatible argument {type(beforeOperation)}"
            )

    @staticmethod
    def at_block_begin(block):
        return (
            InsertionPoint(block.operations[0])
            if block.operations
            else InsertionPoint(block)
        )

    @staticmethod
    def at_block_terminator(block):
        if not block.operations:
            raise ValueError("Block has no terminator")
        return InsertionPoint(block.operations[-1])

    def insert(self, op):
        op = op.operation
        if op.block is not None:
            raise ValueError("Attempt to insert operation that is already inserted")
        op.block = self.block
        if self.ref is None:
            self.block.operations.append(op)
        else:
            self.block.operations.insert(
                [id(o) for o in self.block.operations].index(id(self.ref)), op
            )

    def __enter__(self):
        _push(("InsertionPoint", self), ctx=self.block.context, ip=self)
        return self

    def __exit__(self, *exc):
        _pop(("InsertionPoint", self))


# ---------------------------------------------------------------------- types

_FLOATS = {
    "f16",
    "bf16",
    "f32",
    "f64",
    "f8E5M2",
    "f8E4M3FN",
    "f8E5M2FNUZ",
    "f8E4M3FNUZ",
    "f8E8M0FNU",
    "f8E4M3B11FNUZ",
    "f4E2M1FN",
}
_TORCH_SIMPLE = {
    "int",
    "float",
    "bool",
    "none",
    "str",
    "Device",
    "Generator",
    "number",
    "any",
    "qint8",
    "quint8",
    "qint16",
    "qint32",
    "LinearParams",
}


class Type:
    """kind: int/float/complex/tensor/function/index/none/torch; str is canonical."""

    def __init__(self, ctx, kind, text, **params):
        self.context, self.kind, self.text = ctx, kind, text
        self.p = params

    @staticmethod
    def parse(asm, context=None):
        ctx = _default_ctx(context)
        if not isinstance(asm, str):
            raise TypeError(f"Type.parse expects str, got {type(asm)}")
        _tick("Type.parse")
        p = _Parser(asm, ctx)
        t = p.type()
        p.ws()
        if p.i != len(p.s):
            raise MLIRError(f"Unable to parse type: {asm!r} (trailing characters)")
        return t

    def __str__(self):
        return self.text

    def __repr__(self):
        return f"Type({self.text})"

    def __eq__(self, o):
        return (
            isinstance(o, Type) and o.context is self.context and o.text == self.text
        )

    def __hash__(self):
        return hash(self.text)

    # Shaped and function accessors
    @property
    def inputs(self):
        return list(self.p["inputs"])

    @property
    def results(self):
        return list(self.p["results"])

    @property
    def shape(self):
        return list(self.p["shape"])

    @property
    def element_type(self):
        return self.p["elem"]

    @property
    def width(self):
        return self.p["width"]


class _Parser:
    def __init__(self, s, ctx):
        self.s, self.i, self.ctx = s, 0, ctx

    def fail(self, why=""):
        raise MLIRError(f"Unable to parse type: {self.s!r} {why}")

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t\n":
            self.i += 1

    def eat(self, tok):
        self.ws()
        if self.s.startswith(tok, self.i):
            self.i += len(tok)
            return True
        return False

    def need(self, tok):
        if not self.eat(tok):
            self.fail(f"(expected {tok!r} at {self.i})")

    def word(self):
        self.ws()
        m = re.compile(r"[A-Za-z_][A-Za-z0-9_$]*").match(self.s, self.i)
        if not m:
            self.fail(f"(expected a keyword at {self.i})")
        self.i = m.end()
        return m.group()

    def type(self):
        self.ws()
        if self.eat("!torch."):
            return self.torch()
        if self.eat("("):
            ins = []
            if not self.eat(")"):
                ins.append(self.type())
                while self.eat(","):
                    ins.append(self.type())
                self.need(")")
            self.need("->")
            outs = []
            if self.eat("("):
                if not self.eat(")"):
                    outs.append(self.type())
                    while self.eat(","):
                        outs.append(self.type())
                    self.need(")")
            else:
                outs.append(self.type())
            return FunctionType.get(ins, outs, self.ctx)
        w = self.word()
        if w in _FLOATS:
            return Type(self.ctx, "float", w)
        m = re.fullmatch(r"(si|ui|i)([0-9]+)", w)
        if m:
            return _int_type(self.ctx, m.group(1), int(m.group(2)))
        if w == "index":
            return Type(self.ctx, "index", "index")
        if w == "none":
            return Type(self.ctx, "none", "none")
        if w == "complex":
            self.need("<")
            e = self.type()
            self.need(">")
            return _complex(self.ctx, e)
        if w == "tensor":
            self.need("<")
            dims = []
            while True:
                self.ws()
                m = re.compile(r"(\?|[0-9]+)x").match(self.s, self.i)
                if not m:
                    break
                dims.append(-1 if m.group(1) == "?" else int(m.group(1)))
                self.i = m.end()
            e = self.type()
            self.need(">")
            return _tensor(self.ctx, dims, e)
        self.fail(f"(unknown type {w!r})")

    def torch(self):
        ctx = self.ctx
        w = self.word()
        if w == "nn":
            self.need(".")
            if self.word() != "Module":
                self.fail()
            self.need("<")
            self.need('"')
            j = self.s.index('"', self.i)
            name = self.s[self.i : j]
            self.i = j + 1
            self.need(">")
            return Type(ctx, "torch", f'!torch.nn.Module<"{name}">', t="nn.Module")
        if w in _TORCH_SIMPLE:
            return Type(ctx, "torch", f"!torch.{w}", t=w)
        if w in ("list", "optional"):
            self.need("<")
            e = self.inner()
            self.need(">")
            return Type(ctx, "torch", f"!torch.{w}<{_short(e)}>", t=w, elem=e)
        if w in ("tuple", "union", "dict"):
            self.need("<")
            es = []
            if not self.eat(">"):
                es.append(self.inner())
                while self.eat(","):
                    es.append(self.inner())
                self.need(">")
            return Type(
                ctx,
                "torch",
                f"!torch.{w}<{', '.join(_short(e) for e in es)}>",
                t=w,
                elems=es,
            )
        if w in ("vtensor", "tensor"):
            if not self.eat("<"):
                return Type(
                    ctx, "torch", f"!torch.{w}", t=w, sizes=None, dtype=None, enc=None
                )
            sizes = None
            if not self.eat("*"):
                self.need("[")
                sizes = []
                first = True
                while True:
                    if not first and not self.eat(","):
                        break
                    first = False
                    if self.eat("?"):
                        sizes.append(-1)
                        continue
                    self.ws()
                    m = re.compile(r"-?[0-9]+").match(self.s, self.i)
                    if not m:
                        break
                    self.i = m.end()
                    sizes.append(int(m.group()))
                self.need("]")
            self.need(",")
            dtype = None
            if not self.eat("unk"):
                dtype = self.type()
            enc = None
            if self.eat(","):
                enc = self.attr_text()
            self.need(">")
            if dtype is not None and not _valid_torch_dtype(dtype):
                self.fail(f"(invalid dtype {dtype} for !torch.tensor type)")
            if sizes and any(s < 0 and s != -1 for s in sizes):
                self.fail("(invalid size for !torch.tensor type)")
            if sizes is None and dtype is None:
                text = f"!torch.{w}"
            else:
                sz = (
                    "*"
                    if sizes is None
                    else "[" + ",".join("?" if s < 0 else str(s) for s in sizes) + "]"
                )
                text = f"!torch.{w}<{sz},{dtype if dtype is not None else 'unk'}"
                text += f",{enc}>" if enc else ">"
            return Type(ctx, "torch", text, t=w, sizes=sizes, dtype=dtype, enc=enc)
        self.fail(f"(unknown torch type {w!r})")

    def inner(self):
        """Inside !torch<...>: the dialect prefix may be left out."""
        self.ws()
        if self.s.startswith("!", self.i):
            return self.type()
        return self.torch()

    def attr_text(self):
        """An attribute up to the '>' that closes the enclosing type."""
        self.ws()
        if not self.s.startswith("#sparse_tensor.encoding<", self.i):
            self.fail("(invalid sparsity encoding attribute)")
        start, lvl = self.i, 0
        while self.i < len(self.s):
            c = self.s[self.i]
            if c == "<":
                lvl += 1
            elif c == ">" and self.s[self.i - 1] != "-":
                if lvl == 0:
                    break
                lvl -= 1
            self.i += 1
        body = self.s[start : self.i]
        if lvl or not re.fullmatch(
            r"#sparse_tensor\.encoding<\{\s*map\s*=\s*\([d0-9, ]*\)\s*->\s*\(.*\)\s*,"
            r"\s*posWidth\s*=\s*\d+\s*,\s*crdWidth\s*=\s*\d+\s*\}>",
            body,
        ):
            self.fail("(malformed sparsity encoding)")
        return re.sub(r"\s+", "", body)


def _short(t):
    return t.text[len("!torch.") :] if t.text.startswith("!torch.") else t.text


def _int_type(ctx, sign, width):
    return Type(ctx, "int", f"{sign}{width}", sign=sign, width=width)


def _complex(ctx, e):
    if e.kind not in ("float", "int"):
        raise MLIRError(f"invalid element type for complex: {e}")
    return Type(ctx, "complex", f"complex<{e}>", elem=e)


def _tensor(ctx, dims, e):
    if e.kind not in ("int", "float", "complex", "index"):
        raise MLIRError(f"invalid tensor element type: {e}")
    text = "tensor<" + "".join(f"{'?' if d < 0 else d}x" for d in dims) + f"{e}>"
    return Type(ctx, "tensor", text, shape=list(dims), elem=e)


def _valid_torch_dtype(t):
    if t.kind == "complex":
        t = t.p["elem"]
    if t.kind == "float":
        return True
    if t.kind == "torch":
        return t.p["t"] in ("qint8", "quint8", "qint16", "qint32", "str")
    if t.kind == "int":
        s, w = t.p["sign"], t.p["width"]
        return (s == "i" and w == 1) or (
            s == "si" and w in (4, 8, 16, 32, 64)
        ) or (s == "ui" and w in (4, 8, 16, 32, 64))
    return False


class _TypeNS:
    """Static constructors; the result is a plain Type."""


def _float_ns(name, asm):
    def get(context=None):
        return Type(_default_ctx(context), "float", asm)

    def isinstance_(t):
        return t.kind == "float" and t.text == asm

    return type(
        name,
        (_TypeNS,),
        {"get": staticmethod(get), "isinstance": staticmethod(isinstance_)},
    )


F16Type = _float_ns("F16Type", "f16")
BF16Type = _float_ns("BF16Type", "bf16")
F32Type = _float_ns("F32Type", "f32")
F64Type = _float_ns("F64Type", "f64")
Float8E5M2Type = _float_ns("Float8E5M2Type", "f8E5M2")
Float8E4M3FNType = _float_ns("Float8E4M3FNType", "f8E4M3FN")
Float8E5M2FNUZType = _float_ns("Float8E5M2FNUZType", "f8E5M2FNUZ")
Float8E4M3FNUZType = _float_ns("Float8E4M3FNUZType", "f8E4M3FNUZ")
Float8E8M0FNUType = _float_ns("Float8E8M0FNUType", "f8E8M0FNU")
Float4E2M1FNType = _float_ns("Float4E2M1FNType", "f4E2M1FN")


class IntegerType(_TypeNS):
    @staticmethod
    def get_signless(width, context=None):
        return _int_type(_default_ctx(context), "i", width)

    @staticmethod
    def get_signed(width, context=None):
        return _int_type(_default_ctx(context), "si", width)

    @staticmethod
    def get_unsigned(width, context=None):
        return _int_type(_default_ctx(context), "ui", width)


class ComplexType(_TypeNS):
    @staticmethod
    def get(elem):
        return _complex(elem.context, elem)


class RankedTensorType(_TypeNS):
    @staticmethod
    def get(shape, element_type, encoding=None, loc=None):
        if not isinstance(element_type, Type):
            raise TypeError(f"RankedTensorType.get(): element type {element_type!r}")
        _default_loc(loc)
        _tick("Type.get")
        return _tensor(element_type.context, [int(d) for d in shape], element_type)


class FunctionType(_TypeNS):
    @staticmethod
    def get(inputs, results, context=None):
        ctx = _default_ctx(context)
        inputs, results = list(inputs), list(results)
        for t in inputs + results:
            if not isinstance(t, Type):
                raise TypeError(f"FunctionType.get(): not a Type: {t!r}")
        _tick("Type.get")
        text = (
            "("
            + ", ".join(str(t) for t in inputs)
            + ") -> ("
            + ", ".join(str(t) for t in results)
            + ")"
        )
        return Type(ctx, "function", text, inputs=inputs, results=results)


# ----------------------------------------------------------------- attributes


class Attribute:
    kind = "attr"

    def __init__(self, ctx, value, type=None):
        self.context, self.value, self._type = ctx, value, type

    @property
    def type(self):
        if self._type is None:
            return Type(self.context, "none", "none")
        return self._type

    @staticmethod
    def parse(asm, context=None):
        raise SimUnsupported("Attribute.parse")

    def key(self):
        return (self.kind, self.value, str(self._type) if self._type else None)

    def __eq__(self, o):
        return (
            isinstance(o, Attribute)
            and o.context is self.context
            and o.key() == self.key()
        )

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return self.asm(None)

    def asm(self, limit):
        return f"{self.value!r}" + (f" : {self._type}" if self._type else "")


def escape(s):
    """As llvm::printEscapedString prints: bytes, hexadecimal where not printable."""
    return "".join(
        chr(b) if 32 <= b < 127 and b not in (34, 92) else "\\\\" if b == 92 else f"\\{b:02X}"
        for b in s.encode("utf-8", "surrogateescape")
    )


class StringAttr(Attribute):
    kind = "string"

    def __init__(self, ctx, value=None, type=None):
        if isinstance(ctx, Attribute):  # cast
            if not isinstance(ctx, StringAttr):
                raise ValueError(f"Cannot cast attribute to StringAttr (from {ctx!r})")
            super().__init__(ctx.context, ctx.value)
            return
        super().__init__(ctx, value)

    @staticmethod
    def get(value, context=None):
        ctx = _default_ctx(context)
        if isinstance(value, bytes):
            value = value.decode("utf-8", "surrogateescape")
        if not isinstance(value, str):
            raise TypeError(f"StringAttr.get(): {value!r}")
        _tick("Attribute.get")
        return StringAttr(ctx, value)

    def asm(self, limit):
        return '"' + escape(self.value) + '"'


class FlatSymbolRefAttr(Attribute):
    kind = "symbol"

    @staticmethod
    def get(value, context=None):
        if not isinstance(value, str):
            raise TypeError(f"FlatSymbolRefAttr.get(): {value!r}")
        _tick("Attribute.get")
        return FlatSymbolRefAttr(_default_ctx(context), value)

    def asm(self, limit):
        return "@" + self.value


class UnitAttr(Attribute):
    kind = "unit"

    @staticmethod
    def get(context=None):
        return UnitAttr(_default_ctx(context), None)

    def asm(self, limit):
        return "unit"


class BoolAttr(Attribute):
    kind = "bool"

    @staticmethod
    def get(value, context=None):
        return BoolAttr(_default_ctx(context), bool(value))


class TypeAttr(Attribute):
    kind = "type"

    @staticmethod
    def get(value, context=None):
        return TypeAttr(_default_ctx(context), value)

    def key(self):
        return (self.kind, str(self.value), None)

    def asm(self, limit):
        return str(self.value)


class IntegerAttr(Attribute):
    kind = "integer"

    @staticmethod
    def get(type, value):
        if not isinstance(type, Type) or type.kind not in ("int", "index"):
            raise TypeError(f"IntegerAttr.get(): {type!r}")
        if not hasattr(value, "__index__"):
            raise TypeError(f"IntegerAttr.get(): {value!r}")
        value = int(value)
        if not -(2**63) <= value < 2**64:
            raise TypeError(f"IntegerAttr.get(): {value} does not fit")
        _tick("Attribute.get")
        width = type.p.get("width", 64)
        sign = type.p.get("sign", "i")
        if sign == "ui":
            value &= (1 << width) - 1
        else:  # what the bits mean when read back as a signed value
            value &= (1 << width) - 1
            if width > 1 and value >> (width - 1):
                value -= 1 << width
        return IntegerAttr(type.context, value, type)


class FloatAttr(Attribute):
    kind = "float"

    @staticmethod
    def get(type, value, loc=None):
        if not isinstance(type, Type) or type.kind != "float":
            raise TypeError(f"FloatAttr.get(): {type!r}")
        _default_loc(loc)
        _tick("Attribute.get")
        v = float(value)
        if type.text == "f32":
            v = float(np.float32(v))
        elif type.text == "f16":
            v = float(np.float16(v))
        return FloatAttr(type.context, v, type)

    @staticmethod
    def get_f64(value, context=None):
        _tick("Attribute.get")
        ctx = _default_ctx(context)
        return FloatAttr(ctx, float(value), Type(ctx, "float", "f64"))

    @staticmethod
    def get_f32(value, context=None):
        _tick("Attribute.get")
        ctx = _default_ctx(context)
        return FloatAttr(ctx, float(np.float32(value)), Type(ctx, "float", "f32"))

    def key(self):
        return (self.kind, repr(self.value), str(self._type))


class ArrayAttr(Attribute):
    kind = "array"

    @staticmethod
    def get(values, context=None):
        values = list(values)
        for v in values:
            if not isinstance(v, Attribute):
                raise RuntimeError(f"Invalid attribute when attempting to create an ArrayAttribute: {v!r}")
        return ArrayAttr(_default_ctx(context), values)

    def key(self):
        return (self.kind, tuple(v.key() for v in self.value), None)

    def __iter__(self):
        return iter(self.value)

    def __len__(self):
        return len(self.value)

    def asm(self, limit):
        return "[" + ", ".join(v.asm(limit) for v in self.value) + "]"


class DictAttr(Attribute):
    kind = "dict"

    @staticmethod
    def get(value=None, context=None):
        value = dict(value or {})
        for v in value.values():
            if not isinstance(v, Attribute):
                raise TypeError("DictAttr.get()")
        return DictAttr(_default_ctx(context), value)

    def key(self):
        return (self.kind, tuple(sorted((k, v.key()) for k, v in self.value.items())), None)

    def __getitem__(self, k):
        return self.value[k]

    def asm(self, limit):
        return "{" + ", ".join(f"{k} = {v.asm(limit)}" for k, v in sorted(self.value.items())) + "}"


def elem_numpy(t):
    """The numpy dtype that holds one element of this type, or None."""
    s = t.text
    table = {
        "f16": np.float16,
        "f32": np.float32,
        "f64": np.float64,
        "i1": np.bool_,
        "complex<f32>": np.complex64,
        "complex<f64>": np.complex128,
    }
    if ml_dtypes is not None:
        table["bf16"] = ml_dtypes.bfloat16
        table["f8E5M2"] = ml_dtypes.float8_e5m2
        table["f8E4M3FN"] = ml_dtypes.float8_e4m3fn
        table["f8E5M2FNUZ"] = ml_dtypes.float8_e5m2fnuz
        table["f8E4M3FNUZ"] = ml_dtypes.float8_e4m3fnuz
    if s in table:
        return np.dtype(table[s])
    if t.kind == "int":
        w = t.p["width"]
        if w in (8, 16, 32, 64):
            return np.dtype(("u" if t.p["sign"] == "ui" else "") + f"int{w}")
    return None


def _infer_elem(ctx, dt, signless):
    dt = np.dtype(dt)
    if dt == np.bool_:
        return _int_type(ctx, "i", 1)
    if dt.kind in "iu":
        sign = "i" if signless else ("si" if dt.kind == "i" else "ui")
        return _int_type(ctx, sign, dt.itemsize * 8)
    name = {"float16": "f16", "float32": "f32", "float64": "f64", "bfloat16": "bf16"}.get(dt.name)
    if name:
        return Type(ctx, "float", name)
    if dt.kind == "c":
        return _complex(ctx, Type(ctx, "float", {8: "f32", 16: "f64"}[dt.itemsize]))
    raise TypeError(f"unimplemented array format conversion from format: {dt}")


class DenseElementsAttr(Attribute):
    """Owns a copy of its elements."""

    kind = "dense"

    @staticmethod
    def get(array, signless=True, type=None, shape=None, context=None):
        ctx = _default_ctx(context)
        _tick("DenseElementsAttr.get")
        if isinstance(array, (list, tuple)):
            raise SimUnsupported("DenseElementsAttr.get(list)")
        arr = np.asarray(array)
        if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
            raise ValueError("array must be contiguous")
        if type is not None and type.kind == "tensor":
            elem, shp = type.p["elem"], list(type.p["shape"])
        else:
            elem = type
            shp = list(shape) if shape is not None else list(arr.shape)
        shp = [int(d) for d in shp]
        if elem is None:
            elem = _infer_elem(ctx, arr.dtype, signless)
        n = 1
        for d in shp:
            n *= d
        if arr.size != n and arr.size != 1:
            raise ValueError(f"array of {arr.size} elements for shape {shp}")
        nd = elem_numpy(elem)
        if nd is None:
            raise TypeError(f"unsupported element type {elem}")
        if nd.itemsize != arr.dtype.itemsize:
            raise ValueError(f"element size of {arr.dtype} does not match {elem}")
        # The bytes are taken as they lie in memory.
        raw = np.frombuffer(arr.tobytes(order="A" if not arr.flags.c_contiguous else "C"), dtype=nd)
        if arr.size == 1 and n != 1:
            raw = np.repeat(raw, n)
        return DenseElementsAttr(ctx, raw.reshape(shp).copy(), _tensor(ctx, shp, elem))

    @staticmethod
    def get_splat(shaped_type, element_attr):
        _tick("DenseElementsAttr.get")
        elem = shaped_type.p["elem"]
        if str(element_attr.type) != str(elem):
            raise ValueError("Shaped element type and attribute type must be equal")
        return DenseElementsAttr(
            shaped_type.context,
            np.full(shaped_type.p["shape"], element_attr.value, dtype=elem_numpy(elem)),
            shaped_type,
        )

    def numpy(self):
        return self.value

    def key(self):
        return (self.kind, self.value.tobytes(), str(self._type))

    def asm(self, limit):
        n = self.value.size
        if limit is not None and n > limit:
            return f"dense_resource<__elided__> : {self._type}"
        return f"dense<{self.value.tolist()}> : {self._type}"


class DenseResourceElementsAttr(Attribute):
    """Holds the caller's buffer, not a copy: writes to it show through."""

    kind = "dense_resource"

    @staticmethod
    def get_from_buffer(array, name, type, alignment=None, is_mutable=False, context=None):
        ctx = _default_ctx(context if context is not None else type.context)
        _tick("DenseResourceElementsAttr.get")
        if not isinstance(name, str):
            raise TypeError("blob name must be a str")
        if type.kind != "tensor":
            raise ValueError(f"Constructing a DenseResourceElementsAttr requires a ShapedType, got {type}")
        try:
            view = memoryview(array)
        except ValueError:
            # The binding asks for a buffer without a format string, which numpy
            # gives for extension dtypes too; Python's memoryview asks for one.
            array = np.asarray(array)
            view = memoryview(array.view(f"u{array.dtype.itemsize}"))
        if not view.contiguous:
            raise ValueError("Contiguous buffer is required.")
        base, n = name, 0
        while name in ctx._blobs:
            n += 1
            name = f"{base}_{n}"
        a = DenseResourceElementsAttr(ctx, name, type)
        a.view = view
        a.hint = base
        ctx._blobs[name] = a
        return a

    def raw(self):
        v = self.view
        return v.tobytes(order="A") if v.ndim else v.tobytes()

    def numpy(self):
        elem, shape = self._type.p["elem"], self._type.p["shape"]
        nd = elem_numpy(elem)
        if nd is None:
            raise SimUnsupported(f"resource of {elem}")
        raw = self.raw()
        n = 1
        for d in shape:
            n *= d
        if len(raw) != n * nd.itemsize:
            raise MLIRError(
                f"resource blob of {len(raw)} bytes for {self._type} ({n * nd.itemsize} bytes)"
            )
        return np.frombuffer(raw, dtype=nd).reshape(shape).copy()

    def key(self):
        return (self.kind, self.raw(), str(self._type))

    def asm(self, limit):
        if limit is not None:
            return f"dense_resource<__elided__> : {self._type}"
        return f"dense_resource<{self.value}> : {self._type}"


class _Affine:
    def __init__(self, ctx, op, a, b=None):
        self.context, self.op, self.a, self.b = ctx, op, a, b

    def eval(self, syms):
        if self.op == "sym":
            return syms[self.a]
        if self.op == "const":
            return self.a
        x, y = self.a.eval(syms), self.b.eval(syms)
        return {"+": lambda: x + y, "*": lambda: x * y, "mod": lambda: x % y}[self.op]()

    def __str__(self):
        if self.op == "sym":
            return f"s{self.a}"
        if self.op == "const":
            return str(self.a)
        return f"({self.a} {self.op} {self.b})"


AffineExpr = _Affine


def _aff(op):
    def get(lhs, rhs):
        lhs = lhs if isinstance(lhs, _Affine) else AffineConstantExpr.get(lhs)
        rhs = rhs if isinstance(rhs, _Affine) else AffineConstantExpr.get(rhs)
        return _Affine(lhs.context, op, lhs, rhs)

    return type("AffineBin", (), {"get": staticmethod(get)})


AffineAddExpr = _aff("+")
AffineMulExpr = _aff("*")
AffineModExpr = _aff("mod")


class AffineConstantExpr:
    @staticmethod
    def get(value, context=None):
        return _Affine(_default_ctx(context), "const", int(value))


class AffineSymbolExpr:
    @staticmethod
    def get(pos, context=None):
        return _Affine(_default_ctx(context), "sym", int(pos))


class AffineMap:
    def __init__(self, ctx, dims, syms, exprs):
        self.context, self.n_dims, self.n_symbols, self.results = ctx, dims, syms, exprs

    @staticmethod
    def get(dim_count, symbol_count, exprs, context=None):
        exprs = list(exprs)
        for e in exprs:
            if not isinstance(e, _Affine):
                raise RuntimeError("Invalid expression when attempting to create an AffineMap")
        return AffineMap(_default_ctx(context), dim_count, symbol_count, exprs)

    def __str__(self):
        return f"affine_map<()[{self.n_symbols}] -> ({', '.join(str(e) for e in self.results)})>"


class AffineMapAttr(Attribute):
    kind = "affine_map"

    @staticmethod
    def get(m):
        return AffineMapAttr(m.context, m)

    def key(self):
        return (self.kind, str(self.value), None)

    def asm(self, limit):
        return str(self.value)


# -------------------------------------------------------------- operations


class Value:
    def __init__(self, type, owner, index):
        self._type, self.owner, self.index = type, owner, index

    @property
    def type(self):
        return self._type

    def set_type(self, t):
        self._type = t

    @property
    def context(self):
        return self._type.context

    def __str__(self):
        return f"%{self.index} : {self._type}"


class OpResult(Value):
    pass


class BlockArgument(Value):
    @property
    def arg_number(self):
        return self.index


class _Results(list):
    pass


class _Attrs:
    def __init__(self, op, d):
        self._op, self._d = op, d

    def __getitem__(self, k):
        if k not in self._d:
            raise KeyError("attempt to access a non-existent attribute")
        return self._d[k]

    def __setitem__(self, k, v):
        if not isinstance(v, Attribute):
            raise TypeError(f"attribute {k!r}: {v!r}")
        self._d[k] = v

    def __delitem__(self, k):
        del self._d[k]

    def __contains__(self, k):
        return k in self._d

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def items(self):
        return self._d.items()

    def keys(self):
        return self._d.keys()


class _Blocks(list):
    def __init__(self, region):
        super().__init__()
        self._region = region

    def append(self, *types, arg_locs=None):
        if len(types) == 1 and isinstance(types[0], (list, tuple)):
            types = tuple(types[0])
        for t in types:
            if not isinstance(t, Type):
                raise TypeError(f"blocks.append(): {t!r}")
        if arg_locs is not None:
            if len(arg_locs) != len(types):
                raise ValueError("Expected arg_locs to match the block argument types")
        elif types:
            _default_loc()
        b = Block(self._region, types)
        list.append(self, b)
        return b


class Region:
    def __init__(self, owner):
        self.owner = owner
        self.blocks = _Blocks(self)

    @property
    def context(self):
        return self.owner.context


class Block:
    def __init__(self, region, types):
        self.region = region
        self.operations = []
        self.arguments = [BlockArgument(t, self, i) for i, t in enumerate(types)]

    @property
    def context(self):
        return self.region.context

    @property
    def owner(self):
        return self.region.owner

    @staticmethod
    def create_at_start(parent, arg_types=(), arg_locs=None):
        if not isinstance(parent, Region):
            raise TypeError(f"Block.create_at_start(): {parent!r}")
        arg_types = list(arg_types)
        for t in arg_types:
            if not isinstance(t, Type):
                raise TypeError(f"Block.create_at_start(): {t!r}")
        if arg_locs is None:
            _default_loc()
        _tick("Block.create")
        b = Block(parent, arg_types)
        parent.blocks.insert(0, b)
        return b

    def append(self, op):
        InsertionPoint(self).insert(op)

    def __iter__(self):
        return iter(self.operations)


class Operation:
    def __init__(self, ctx, name, results, operands, attributes, regions, loc):
        self.context, self.name, self.location = ctx, name, loc
        self.operands = list(operands)
        self.results = _Results(
            OpResult(t, self, i) for i, t in enumerate(results)
        )
        self._attrs = dict(attributes or {})
        self.regions = [Region(self) for _ in range(regions)]
        self.block = None
        self.erased = False

    @staticmethod
    def create(
        name,
        results=None,
        operands=None,
        attributes=None,
        successors=None,
        regions=0,
        loc=None,
        ip=None,
        infer_type=False,
    ):
        if not isinstance(name, str):
            raise TypeError(f"Operation.create(): name {name!r}")
        loc = _default_loc(loc)
        ctx = loc.context
        results = list(results or [])
        operands = list(operands or [])
        for i, t in enumerate(results):
            if not isinstance(t, Type):
                raise TypeError(f"Operation.create({name}): result {i} is {t!r}, not a Type")
        for i, v in enumerate(operands):
            if isinstance(v, (Operation, OpView)):
                operands[i] = v.operation.result
            elif not isinstance(v, Value):
                raise TypeError(f"Operation.create({name}): operand {i} is {v!r}, not a Value")
        if attributes is not None:
            for k, a in attributes.items():
                if not isinstance(k, str) or not isinstance(a, Attribute):
                    raise TypeError(
                        f"Operation.create({name}): attribute {k!r} is {a!r}, not an Attribute"
                    )
        if infer_type or successors:
            raise SimUnsupported("Operation.create(infer_type/successors)")
        for x in results + [v.type for v in operands] + list((attributes or {}).values()):
            if x.context is not ctx:
                raise MLIRError(f"Operation.create({name}): mixes objects of two contexts")
        _tick("Operation.create")
        dialect = name.split(".", 1)[0]
        if dialect not in ctx._dialects and not ctx.allow_unregistered_dialects:
            raise MLIRError(f"op '{name}' of an unregistered dialect")
        op = Operation(ctx, name, results, operands, attributes, regions, loc)
        if ip is None:
            st = _stack()
            ip = st[-1].ip if st and st[-1].ctx is ctx else None
        elif ip is False:
            ip = None
        if ip is not None:
            ip.insert(op)
        return op

    @property
    def operation(self):
        return self

    @property
    def opview(self):
        if self.name == "func.func":
            return FuncOp._wrap(self)
        return OpView._wrap(self)

    @property
    def attributes(self):
        return _Attrs(self, self._attrs)

    @property
    def result(self):
        if len(self.results) != 1:
            raise ValueError(
                f"Cannot call .result on operation {self.name} which has {len(self.results)} results"
            )
        return self.results[0]

    @property
    def parent(self):
        return self.block.region.owner if self.block is not None else None

    def erase(self):
        if self.erased:
            raise RuntimeError("the operation has been invalidated")
        self.detach_from_parent()
        self.erased = True

    def detach_from_parent(self):
        if self.block is not None:
            self.block.operations[:] = [o for o in self.block.operations if o is not self]
            self.block = None
        return self

    def move_before(self, other):
        self.detach_from_parent()
        InsertionPoint(other).insert(self)

    def move_after(self, other):
        raise SimUnsupported("move_after")

    def verify(self):
        _tick("verify")
        from . import mlir_verify

        errs = mlir_verify.verify(self)
        if errs:
            raise MLIRError("Verification failed:\n" + "\n".join(errs[:5]), errs)
        return True

    def get_asm(
        self,
        binary=False,
        large_elements_limit=None,
        large_resource_limit=None,
        enable_debug_info=False,
        pretty_debug_info=False,
        print_generic_op_form=False,
        use_local_scope=False,
        use_name_loc_as_prefix=False,
        assume_verified=False,
        skip_regions=False,
    ):
        _tick("get_asm")
        text = _Printer(large_elements_limit, enable_debug_info).print(self)
        if hooks.asm is not None:
            hooks.asm(self, text)
        return text

    def print(self, *a, file=None, binary=False, **kw):
        (file or sys.stdout).write(self.get_asm(**kw) + "\n")

    def __str__(self):
        return self.get_asm()

    def __eq__(self, o):
        return isinstance(o, (Operation, OpView)) and o.operation is self

    def __hash__(self):
        return id(self)

    def walk(self):
        yield self
        for r in self.regions:
            for b in r.blocks:
                for o in list(b.operations):
                    yield from o.walk()


class OpView:
    _op = None

    @classmethod
    def _wrap(cls, op):
        v = cls.__new__(cls)
        v._op = op
        return v

    @property
    def operation(self):
        return self._op

    def __getattr__(self, n):
        return getattr(self._op, n)

    def __str__(self):
        return str(self._op)

    def __eq__(self, o):
        return isinstance(o, (Operation, OpView)) and o.operation is self._op

    def __hash__(self):
        return id(self._op)


class FuncOp(OpView):
    def __init__(self, name, type, *, visibility=None, body_builder=None, loc=None, ip=None):
        ctx = _default_ctx()
        if not isinstance(type, Type):
            ins, outs = type
            type = FunctionType.get(ins, outs)
        if type.kind != "function":
            raise ValueError(f"FuncOp type {type}")
        attrs = {
            "sym_name": StringAttr.get(str(name)),
            "function_type": TypeAttr.get(type),
        }
        if visibility is not None:
            attrs["sym_visibility"] = StringAttr.get(str(visibility))
        if body_builder is not None:
            raise SimUnsupported("FuncOp(body_builder)")
        self._op = Operation.create(
            "func.func", attributes=attrs, regions=1, loc=loc, ip=ip
        )

    @property
    def is_external(self):
        return len(self._op.regions[0].blocks) == 0

    @property
    def body(self):
        return self._op.regions[0]

    @property
    def type(self):
        return self._op._attrs["function_type"].value

    @property
    def name(self):
        return self._op._attrs["sym_name"]

    @property
    def visibility(self):
        return self._op._attrs.get("sym_visibility")

    @property
    def entry_block(self):
        if self.is_external:
            raise IndexError("External function does not have a body")
        return self._op.regions[0].blocks[0]

    @property
    def arguments(self):
        return self.entry_block.arguments

    def add_entry_block(self, arg_locs=None):
        if not self.is_external:
            raise IndexError("The function already has an entry block!")
        self.body.blocks.append(*self.type.inputs, arg_locs=arg_locs)
        return self.body.blocks[0]


class ReturnOp(OpView):
    def __init__(self, operands_, *, loc=None, ip=None):
        self._op = Operation.create("func.return", operands=list(operands_), loc=loc, ip=ip)


class CallOp(OpView):
    def __init__(self, calleeOrResults, argumentsOrCallee, arguments=None, *, loc=None, ip=None):
        if isinstance(calleeOrResults, FuncOp):
            res = calleeOrResults.type.results
            callee = FlatSymbolRefAttr.get(calleeOrResults.name.value)
            args = argumentsOrCallee
        else:
            res = calleeOrResults
            callee = (
                argumentsOrCallee
                if isinstance(argumentsOrCallee, Attribute)
                else FlatSymbolRefAttr.get(argumentsOrCallee)
            )
            args = arguments
        self._op = Operation.create(
            "func.call",
            results=res,
            operands=list(args),
            attributes={"callee": callee},
            loc=loc,
            ip=ip,
        )


class Module:
    def __init__(self, op):
        self._op = op

    @staticmethod
    def create(loc=None):
        loc = _default_loc(loc)
        op = Operation(loc.context, "builtin.module", [], [], {}, 1, loc)
        op.regions[0].blocks.append()
        return Module(op)

    @staticmethod
    def parse(asm, context=None):
        raise SimUnsupported("Module.parse")

    @property
    def context(self):
        return self._op.context

    @property
    def operation(self):
        return self._op

    @property
    def body(self):
        return self._op.regions[0].blocks[0]

    def get_asm(self, **kw):
        return self._op.get_asm(**kw)

    def __str__(self):
        return str(self._op)

    def dump(self):
        sys.stderr.write(str(self) + "\n")


class SymbolTable:
    """Like mlir::SymbolTable: knows the symbols of its construction and what
    was inserted through it since."""

    def __init__(self, op):
        op = op.operation
        if op.name != "builtin.module":
            raise ValueError("Operation is not a Symbol Table.")
        self._op = op
        self._map = {}
        self._counter = 0
        for o in op.regions[0].blocks[0].operations:
            n = o._attrs.get("sym_name")
            if n is not None:
                self._map.setdefault(n.value, o)

    def insert(self, op):
        op = op.operation
        _tick("SymbolTable.insert")
        if "sym_name" not in op._attrs:
            raise ValueError("Expected operation to have a symbol name.")
        if op.block is None:
            InsertionPoint(self._op.regions[0].blocks[0]).insert(op)
        name = op._attrs["sym_name"].value
        cur = self._map.get(name)
        if cur is None:
            self._map[name] = op
        elif cur is not op:
            while True:
                cand = f"{name}_{self._counter}"
                self._counter += 1
                if cand not in self._map:
                    break
            self._map[cand] = op
            op._attrs["sym_name"] = StringAttr(op.context, cand)
        return op._attrs["sym_name"]

    def erase(self, op):
        op = op.operation
        name = op._attrs["sym_name"].value
        if self._map.get(name) is op:
            del self._map[name]
        op.erase()

    def __getitem__(self, name):
        op = self._map.get(name)
        if op is None or op.erased:
            raise KeyError(f"Symbol '{name}' not in the symbol table.")
        return op.opview

    def __delitem__(self, name):
        self.erase(self[name])

    def __contains__(self, name):
        return name in self._map and not self._map[name].erased

    @staticmethod
    def get_symbol_name(op):
        return op.operation._attrs["sym_name"]

    @staticmethod
    def set_symbol_name(op, name):
        op = op.operation
        op._attrs["sym_name"] = StringAttr(op.context, name if isinstance(name, str) else name.value)

    @staticmethod
    def get_visibility(op):
        return op.operation._attrs.get("sym_visibility")

    @staticmethod
    def set_visibility(op, v):
        op = op.operation
        op._attrs["sym_visibility"] = StringAttr(op.context, v)


class _Printer:
    def __init__(self, limit, debug):
        self.limit, self.debug = limit, debug
        self.names = {}

    def v(self, v):
        k = id(v)
        if k not in self.names:
            self.names[k] = f"%{len(self.names)}"
        return self.names[k]

    def print(self, op, ind=0):
        pad = "  " * ind
        line = pad
        if op.results:
            line += ", ".join(self.v(r) for r in op.results) + " = "
        attrs = dict(op._attrs)
        if op.name == "func.func" and "sym_name" in attrs:
            sym = attrs.pop("sym_name").value
            line += "func.func @" + (sym if re.fullmatch(r"[A-Za-z_][\w$.]*", sym, re.A) else f'"{escape(sym)}"')
        else:
            line += f'"{op.name}"(' + ", ".join(self.v(o) for o in op.operands) + ")"
        if op.regions:
            parts = []
            for r in op.regions:
                text = "{\n"
                for b in r.blocks:
                    args = ", ".join(f"{self.v(a)}: {a.type}" for a in b.arguments)
                    text += f"{pad}^bb({args}):\n"
                    for o in b.operations:
                        text += self.print(o, ind + 1) + "\n"
                parts.append(text + pad + "}")
            line += " (" + ", ".join(parts) + ")"
        if attrs:
            line += (
                " {"
                + ", ".join(f"{k} = {a.asm(self.limit)}" for k, a in sorted(attrs.items()))
                + "}"
            )
        line += (
            " : ("
            + ", ".join(str(o.type) for o in op.operands)
            + ") -> ("
            + ", ".join(str(r.type) for r in op.results)
            + ")"
        )
        if self.debug:
            line += f" {op.location}"
        return line


# --------------------------------------------------------------- pass manager


class PassManager:
    def __init__(self, anchor_op="any", context=None):
        self.pipeline = ""
        self.context = _default_ctx(context)
        self.ir_printing = False

    @staticmethod
    def parse(pipeline, context=None):
        ctx = _default_ctx(context)
        if not isinstance(pipeline, str):
            raise TypeError("PassManager.parse expects str")
        _tick("PassManager.parse")
        pm = PassManager.__new__(PassManager)
        pm.pipeline, pm.context, pm.ir_printing = pipeline, ctx, False
        pm.verifier = True
        if hooks.parse_pass is not None:
            hooks.parse_pass(pm)
        return pm

    def enable_ir_printing(self, *a, **k):
        if self.context._multithreading:
            raise RuntimeError("IR printing can't be enabled when multi-threading is enabled")
        self.ir_printing = True

    def enable_verifier(self, on):
        self.verifier = on

    def run(self, op):
        if not isinstance(op, (Operation, OpView)):
            raise TypeError("PassManager.run expects an operation")
        op = op.operation
        if op.context is not self.context:
            raise MLIRError("pass manager and operation live in different contexts")
        _tick("PassManager.run")
        if hooks.run_pass is None:
            raise SimUnsupported("PassManager.run outside a compile simulation")
        hooks.run_pass(self, op)


# ---------------------------------------------------------- operation registry

_REG = None


def registered_ops():
    """op name -> (operand constraints, result constraints) from the repo's ODS."""
    global _REG
    if _REG is None:
        from . import mlir_ods

        _REG = mlir_ods.load(REPO)
    return _REG


# --------------------------------------------------------------- python modules


def register_dialect(context, load=True):
    if not isinstance(context, Context):
        raise TypeError("register_dialect expects a Context")
    context._dialects.add("torch")


class _Placeholder:
    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise SimUnsupported(f"mlir binding {self._name}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise SimUnsupported(f"mlir binding {self._name}.{n}")


def _module(name, names, package=False):
    m = _types.ModuleType(name)
    for n in names:
        setattr(m, n, globals()[n])

    def missing(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return _Placeholder(f"{name}.{attr}")

    m.__getattr__ = missing
    if package:
        m.__path__ = []
    m.__all__ = list(names)
    return m


IR_NAMES = [
    n
    for n, v in list(globals().items())
    if (isinstance(v, type) or n == "AffineExpr")
    and not n.startswith("_")
    and n
    not in ("Hooks", "PassManager", "FuncOp", "ReturnOp", "CallOp", "SimUnsupported")
]


# The TorchScript importer: an opaque native component that the simulation scripts.


class ClassAnnotator:
    def __init__(self):
        self.log = []

    def exportNone(self, t):
        self.log.append(("exportNone",))

    def exportPath(self, t, path):
        self.log.append(("exportPath", tuple(path)))

    def annotateArgs(self, t, path, annotation):
        self.log.append(
            (
                "annotateArgs",
                tuple(path),
                tuple(
                    None if a is None else (tuple(a[0]), str(a[1]), bool(a[2]))
                    for a in annotation
                ),
            )
        )


class ImportOptions:
    def __init__(self):
        self.assumeTensorsHaveValueSemantics = False
        self.ignoreExistingTensorShapesAndDtypes = False


class ModuleBuilder:
    def __init__(self):
        ctx = Context()
        register_dialect(ctx)
        self.context = ctx
        self.module = Module.create(Location.unknown(ctx))

    def import_module(self, module, annotator=None, options=None):
        _tick("ModuleBuilder.import_module")
        if hooks.import_module is None:
            raise SimUnsupported("ModuleBuilder.import_module")
        hooks.import_module(self, module, annotator, options)

    def import_function(self, function, options=None):
        _tick("ModuleBuilder.import_function")
        if hooks.import_module is None:
            raise SimUnsupported("ModuleBuilder.import_function")
        hooks.import_module(self, function, None, options)


_OPS = {}
REGISTERED = None  # restricts get_registered_ops() to these (name, overload)


def get_registered_ops():
    """The Torch JIT operator registry, as get_registered_ops.cpp lists it."""
    import copy

    if REGISTERED not in _OPS:
        import torch

        def arg(a):
            d = {"name": a.name, "type": a.type.str(), "pytype": a.type.annotation_str}
            if a.N is not None:
                d["N"] = a.N
            if a.has_default_value():
                d["default_debug"] = _ivalue(a.default_value)
            if a.alias_info is not None:
                ai = a.alias_info
                d["alias_info"] = {"is_write": ai.is_write, "before": sorted(ai.before_set), "after": sorted(ai.after_set)}
            return d

        out = []
        for s in torch._C._jit_get_all_schemas():
            if REGISTERED is not None and (s.name, s.overload_name) not in REGISTERED:
                continue
            out.append(
                {
                    "name": (s.name, s.overload_name),
                    "is_c10_op": not s.name.startswith("prim::"),
                    "is_vararg": "..." in str(s).partition("->")[0],
                    "is_varret": "..." in str(s).partition("->")[2],
                    "is_mutable": s.is_mutable,
                    "arguments": [arg(a) for a in s.arguments],
                    "returns": [arg(a) for a in s.returns],
                }
            )
        _OPS[REGISTERED] = out
    return copy.deepcopy(_OPS[REGISTERED])


def _ivalue(v):
    if v is None:
        return "None"
    if isinstance(v, bool):
        return "True" if v else "False"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(_ivalue(x) for x in v) + "]"
    if isinstance(v, float):
        return f"{int(v)}." if abs(v) < 1e10 and v == int(v) else f"{v:.17g}"
    return str(v)


def _constant(name, type_):
    class Constant(OpView):
        def __init__(self, value=None, *, results=None, loc=None, ip=None):
            attrs = {}
            if name != "torch.constant.none":
                if not isinstance(value, Attribute):
                    raise TypeError(f"{name} of {value!r}")
                attrs["value"] = value
            elif value is not None:
                raise TypeError(name)
            self._op = Operation.create(
                name, results=results or [Type.parse(type_)], attributes=attrs, loc=loc, ip=ip
            )

    return Constant


class _PrimListConstructOp(OpView):
    def __init__(self, result, elements, *, loc=None, ip=None):
        self._op = Operation.create("torch.prim.ListConstruct", results=[result], operands=list(elements), loc=loc, ip=ip)


def _torch_d(name):
    """The generated op classes; those that no part under test uses are placeholders."""
    from . import mlir_ods

    m = _types.ModuleType(name)
    for n in mlir_ods.classes(REPO):
        setattr(m, n, _Placeholder(f"{name}.{n}"))
    for n, op, t in (
        ("ConstantNoneOp", "torch.constant.none", "!torch.none"),
        ("ConstantBoolOp", "torch.constant.bool", "!torch.bool"),
        ("ConstantIntOp", "torch.constant.int", "!torch.int"),
        ("ConstantFloatOp", "torch.constant.float", "!torch.float"),
        ("ConstantStrOp", "torch.constant.str", "!torch.str"),
        ("ConstantDeviceOp", "torch.constant.device", "!torch.Device"),
    ):
        setattr(m, n, _constant(op, t))
    m.PrimListConstructOp = _PrimListConstructOp
    m.__all__ = [n for n in vars(m) if not n.startswith("_")]
    return m


FACTORIES = {
    "torch_mlir.ir": lambda n: _module(n, IR_NAMES),
    "torch_mlir.passmanager": lambda n: _module(n, ["PassManager"]),
    "torch_mlir.dialects.func": lambda n: _module(n, ["FuncOp", "ReturnOp", "CallOp"]),
    "torch_mlir.dialects._torch_ops_gen": _torch_d,
    "torch_mlir._mlir_libs": lambda n: _module(n, [], package=True),
    "torch_mlir._mlir_libs._torchMlir": lambda n: _module(n, ["register_dialect"]),
    "torch_mlir._mlir_libs._jit_ir_importer": lambda n: _module(
        n, ["ClassAnnotator", "ImportOptions", "ModuleBuilder", "get_registered_ops"]
    ),
}


def install():
    from .. import overlay

    overlay.FAKES.update(FACTORIES)
    overlay.install()
