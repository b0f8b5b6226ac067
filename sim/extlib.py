"""Abstract interpretation functions as a user would pass in ``extra_library``.

Those without ``_not_present_in_registry`` are checked against the operator
registry by the code under test; the last one fails that check.
"""

import re
import types
from typing import List, Optional, Tuple, Union, Any

OPS = [("aten::tanh", ""), ("aten::relu", ""), ("aten::add", "Tensor"), ("aten::cat", "")]


def aten〇tanh〡shape(self: List[int]) -> List[int]:
    return self


def aten〇relu〡shape(self: List[int]) -> List[int]:
    return self


def sim〇goofy〡shape(a: List[int], b: List[int]) -> List[int]:
    return a


def sim〇goofy〇Scalar〡shape(a: List[int], b: float) -> List[int]:
    return a


def sim〇goofy〡dtype(a_rank_dtype: Tuple[int, int]) -> int:
    return a_rank_dtype[1]


def sim〇other〡has_value_semantics() -> None:
    return


for _f in (sim〇goofy〡shape, sim〇goofy〇Scalar〡shape, sim〇goofy〡dtype, sim〇other〡has_value_semantics):
    _f._not_present_in_registry = None


def aten〇cat〡shape(tensors: List[int]) -> List[int]:
    return tensors


GOOD = [aten〇tanh〡shape, aten〇relu〡shape, sim〇goofy〡shape, sim〇goofy〇Scalar〡shape, sim〇goofy〡dtype, sim〇other〡has_value_semantics]
# the same names again, as after a cell of a notebook was edited
EDITED = []
for _f in (aten〇tanh〡shape, sim〇goofy〡shape, sim〇goofy〡dtype):
    _g = types.FunctionType(_f.__code__, _f.__globals__, _f.__name__)
    _g.__annotations__ = _f.__annotations__
    _g.__dict__.update(_f.__dict__, edited=True)
    EDITED.append(_g)
GOOD += EDITED
BAD = aten〇cat〡shape


def source(f):
    return f"{f.__name__} edited={bool(getattr(f, 'edited', False))}"


def munge(asm, escape):
    """The library's text from the IR: names as the passes look for them."""
    for f in GOOD + [BAD]:
        asm = re.sub(r'"__torch__\.sim\.extlib\.(?:___torch_mangle_\d+\.)?' + re.escape(escape(f.__name__)) + '"', lambda m: '"' + exported(f) + '"', asm)
    return asm


def exported(f):
    """The name the passes look for."""
    op, kind = f.__name__.split("〡")
    return f"__torch_mlir_{kind}_fn." + op.replace("〇", ".")
