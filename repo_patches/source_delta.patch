From ad838e8602d8df2b5b8e68f1a04289ed1ebf9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 01/40] fix: RefTracker must not map a new object to the value
 of a dead one

Mappings are keyed by id(), which Python reuses as soon as an object dies
(e.g. the temporary uint8 copy of a bool literal). A literal could therefore be
imported with the contents of another, dead tensor.
---
 python/torch_mlir/extras/fx_importer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e760500..a14ab90 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2691,10 +2691,13 @@ class RefMapping:
     ]
 
     def __init__(self, referrent: Any):
-        if referrent is not Empty:
-            self._referrent = weakref.ref(referrent)
+        self._referrent = Empty if referrent is Empty else weakref.ref(referrent)
         self.value = Empty
 
+    def refers_to(self, referrent: Any) -> bool:
+        """Whether this is still a mapping for the (live) referrent."""
+        return self._referrent is not Empty and self._referrent() is referrent
+
     @property
     def is_empty(self):
         return self.value is Empty
@@ -2715,7 +2718,9 @@ class RefTracker:
     def track(self, referrent: Any) -> RefMapping:
         ref_id = id(referrent)
         existing = self._refs.get(ref_id)
-        if existing:
+        # An id is reused once its object has died, so it does not identify the
+        # referrent by itself.
+        if existing is not None and existing.refers_to(referrent):
             return existing
         info = RefMapping(referrent)
         # Finalizer is removed due to a memory leak
-- 
2.43.0


From 37ce42757fd6d46b70a1f913030b4f254f6b26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 02/40] fix: FX child modules must be called by the name their
 function actually got

Functions of higher-order operators' child modules were found by id(module),
which is reused when a module dies, and by a name which the symbol table may
have changed on insertion. A loop could call another program's body or an
undefined symbol.
---
 python/torch_mlir/extras/fx_importer.py | 42 +++++++++++--------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a14ab90..1a281a3 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -560,7 +560,6 @@ class FxImporter:
         "_hooks",
         "symbol_table",
         "_graph_module_to_func_name",
-        "_func_name_counter",
     ]
 
     def __init__(
@@ -588,10 +587,12 @@ class FxImporter:
         self._hooks = hooks or FxImporterHooks()
         self.symbol_table = SymbolTable(self._m.operation)
         self._hooks.prepare_module(self._m.operation)
-        # Used specifically in HOPs to map module IDs to function names
-        self._graph_module_to_func_name: Dict[int, str] = {}
-        # Handles collision of function names in the same module
-        self._func_name_counter: int = 0
+        # Used specifically in HOPs to map modules to the names of the functions
+        # they were imported as. Weak, because a module may die (and its id be
+        # reused) before the next program is imported.
+        self._graph_module_to_func_name: weakref.WeakKeyDictionary[GraphModule, str] = (
+            weakref.WeakKeyDictionary()
+        )
 
     def _config_check(self):
         for dname in REQUIRED_DIALCTS:
@@ -1021,27 +1022,20 @@ class FxImporter:
         TODO: This mechanism is deprecated by the `import_program` entry-point and
         it should be removed when no longer required for backwards compatibility.
         """
-        # Store the mapping for this module itself (HOPs will need to look this up)
-        module_id = id(gm)
-        if module_id not in self._graph_module_to_func_name:
-            # Ensure the func_name is unique
-            final_func_name = func_name
-            if func_name in self._graph_module_to_func_name.values():
-                final_func_name = f"{func_name}_{self._func_name_counter}"
-                self._func_name_counter += 1
-            self._graph_module_to_func_name[module_id] = final_func_name
-        else:
-            # Module already imported, use existing name
-            final_func_name = self._graph_module_to_func_name[module_id]
-
         self._import_all_child_modules(gm, func_name, import_symbolic_shape_expressions)
         # Then import this module's own graph
-        return self.import_stateless_graph(
+        func = self.import_stateless_graph(
             gm.graph,
-            func_name=final_func_name,
+            func_name=func_name,
             func_visibility=func_visibility,
             import_symbolic_shape_expressions=import_symbolic_shape_expressions,
         )
+        # Store the mapping for this module itself (HOPs will need to look this up).
+        # The symbol table may have renamed the function to make it unique.
+        self._graph_module_to_func_name[gm] = StringAttr(
+            func.attributes["sym_name"]
+        ).value
+        return func
 
     def import_stateless_graph(
         self,
@@ -1767,8 +1761,8 @@ class GraphNodeImporter:
         body_fn_module = getattr(root_module, body_fn_node.target, None)
 
         # Generate function names with module IDs for uniqueness
-        cond_fn_name = self.fx_importer._graph_module_to_func_name[id(cond_fn_module)]
-        body_fn_name = self.fx_importer._graph_module_to_func_name[id(body_fn_module)]
+        cond_fn_name = self.fx_importer._graph_module_to_func_name[cond_fn_module]
+        body_fn_name = self.fx_importer._graph_module_to_func_name[body_fn_module]
 
         # Import the carries (loop state variables)
         carry_values = []
@@ -1974,7 +1968,7 @@ class GraphNodeImporter:
             score_mod_module = getattr(root_module, score_mod_arg.target, None)
             if score_mod_module is not None:
                 score_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                    id(score_mod_module)
+                    score_mod_module
                 ]
                 score_mod_ref = FlatSymbolRefAttr.get(score_mod_func_name)
 
@@ -1993,7 +1987,7 @@ class GraphNodeImporter:
                 mask_mod_module = getattr(root_module, mask_mod_arg.target, None)
                 if mask_mod_module is not None:
                     mask_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                        id(mask_mod_module)
+                        mask_mod_module
                     ]
                     mask_mod_ref = FlatSymbolRefAttr.get(mask_mod_func_name)
 
-- 
2.43.0


From e5f07a8db912a3bce37ed174da5c2a36829ae687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 03/40] fix: a failed FX import must not leave an incomplete
 function behind

The function under construction stayed in the module without a terminator, so
that the whole module no longer verified.
---
 python/torch_mlir/extras/fx_importer.py | 31 +++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 1a281a3..96c7749 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -11,6 +11,7 @@ except ImportError:
     # python less than 3.10 doesn't have NoneType
     NoneType = type(None)
 
+import functools
 import logging
 import operator
 import re
@@ -532,6 +533,29 @@ class FxImporterHooks:
         )
 
 
+def _erase_incomplete_functions(import_method):
+    """Erases functions whose construction was begun but not finished by a failed import.
+
+    Otherwise, a function without a terminator would be left behind, making the
+    module invalid for everything else in it.
+    """
+
+    @functools.wraps(import_method)
+    def wrapper(self: "FxImporter", *args, **kwargs):
+        pending = self._incomplete_functions
+        outer = len(pending)
+        try:
+            return import_method(self, *args, **kwargs)
+        except BaseException:
+            for func_op in reversed(pending[outer:]):
+                func_op.operation.erase()
+            raise
+        finally:
+            del pending[outer:]
+
+    return wrapper
+
+
 class FxImporter:
     """Main entry-point for importing an fx.GraphModule.
 
@@ -560,6 +584,7 @@ class FxImporter:
         "_hooks",
         "symbol_table",
         "_graph_module_to_func_name",
+        "_incomplete_functions",
     ]
 
     def __init__(
@@ -593,6 +618,8 @@ class FxImporter:
         self._graph_module_to_func_name: weakref.WeakKeyDictionary[GraphModule, str] = (
             weakref.WeakKeyDictionary()
         )
+        # Functions under construction, to be erased if their import fails.
+        self._incomplete_functions: List[func_dialect.FuncOp] = []
 
     def _config_check(self):
         for dname in REQUIRED_DIALCTS:
@@ -612,6 +639,7 @@ class FxImporter:
     def module_op(self) -> Operation:
         return self._m.operation
 
+    @_erase_incomplete_functions
     def import_program(
         self,
         prog: torch.export.ExportedProgram,
@@ -816,6 +844,7 @@ class FxImporter:
             func_op = func_dialect.FuncOp(
                 func_name, ftype, ip=self._m_ip, visibility=func_visibility
             )
+            self._incomplete_functions.append(func_op)
             # Programs imported from FX have strong guarantees. Setting this attribute
             # causes various lowerings to be able to emit more efficient code or
             # handle more cases. See isAssumingStrictSymbolicShapes().
@@ -1037,6 +1066,7 @@ class FxImporter:
         ).value
         return func
 
+    @_erase_incomplete_functions
     def import_stateless_graph(
         self,
         g: Graph,
@@ -1065,6 +1095,7 @@ class FxImporter:
                 ip=self._m_ip,
                 visibility=func_visibility,
             )
+            self._incomplete_functions.append(func)
             entry_block = Block.create_at_start(func.body, ftype.inputs)
         node_importer = GraphNodeImporter(
             self,
-- 
2.43.0


From faf5d3777b6063fdc7fe25f17f4262722095696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 04/40] fix: report unsupported values and dtypes as such in
 the FX importer

The error paths themselves failed with a NameError (undefined 'sparsity') and a
KeyError (dict lookup guarded by 'except IndexError').
---
 python/torch_mlir/extras/fx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 96c7749..b72c3a7 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1297,7 +1297,7 @@ class ContextCache:
 
         raise NotImplementedError(
             f"Could not deduce type from value info: "
-            f"tensor_meta={tensor_meta}, val={val} {type(val)}, sparsity={sparsity}"
+            f"tensor_meta={tensor_meta}, val={val} {type(val)}"
         )
 
     def tensor_metadata_to_type(
@@ -1323,7 +1323,7 @@ class ContextCache:
         if t is None:
             try:
                 asm = TORCH_DTYPE_TO_MLIR_TYPE_ASM[dtype]
-            except IndexError:
+            except KeyError:
                 raise ValueError(f"Unknown conversion from {dtype} to IREE type")
             t = IrType.parse(asm, self._c)
             self._dtype_to_type[dtype] = t
-- 
2.43.0


From 6d30d4deef91f50064d87d92920b0fed3f575173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 05/40] fix: do not carry symbolic shape guards over to the
 next imported program

A program without dynamic shapes got the shape symbols (and ranges) of the
program which was imported before it with the same importer.
---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index b72c3a7..a1c44a0 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1379,6 +1379,8 @@ class ContextCache:
             # TODO: Remove this adjustment when fractional ranges are removed
             return adjust_func(val)
 
+        # Guards of a previously imported program do not apply to this one.
+        self._symbolic_guards = {}
         contains_symbolic_ints = False
         sym_int_types = (
             (sympy.Integer, IntInfinity, NegativeIntInfinity)
-- 
2.43.0


From 76a4bf3b50bef1784b7e0b267457f176d8831642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 06/40] fix: import constant outputs of programs that also
 mutate state

Constant outputs were recorded by their position among all outputs (mutations
included) but looked up by their position among the user outputs: the import
failed with a KeyError, or returned another output's constant.
---
 python/torch_mlir/extras/fx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a1c44a0..6d7b0a2 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -723,7 +723,7 @@ class FxImporter:
         # producer for the output.
         user_outputs: List[Optional[Node]] = []
         user_output_types: List[IrType] = []
-        for i, output_spec in enumerate(sig.output_specs):
+        for output_spec in sig.output_specs:
             kind = output_spec.kind
             arg = output_spec.arg
             if kind == OutputKind.USER_OUTPUT:
@@ -741,7 +741,7 @@ class FxImporter:
                     )
                 elif isinstance(arg, ConstantArgument):
                     # Constant Outputs don't have a node so we will only store their values
-                    constant_output_values[i] = arg.value
+                    constant_output_values[len(user_outputs)] = arg.value
                     # Placeholder for constant outputs in the node list
                     user_outputs.append(None)
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
-- 
2.43.0


From bf703432098821b5b188d36cc4377cf5a285bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 07/40] fix: import lists that hold frozen parameters, buffers
 or constants

import_frozen_program replaces lifted placeholders by their tensors, which was
refused inside list arguments (e.g. torch.cat([self.weight, x])).
---
 python/torch_mlir/extras/fx_importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 6d7b0a2..55bc276 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2428,6 +2428,9 @@ class GraphNodeImporter:
                 ) or SCALAR_TYPE_TO_TORCH_MLIR_TYPE.get(
                     element_type
                 ) == val_type, f"Heterogeneous lists are not supported: expected {element_type}, got {val_type}"
+            elif isinstance(operand, torch.Tensor) and element_type == "vtensor":
+                # A frozen tensor that took the place of a lifted placeholder.
+                val = self._import_argument(loc, operand)
             else:
                 assert (is_optional_type and operand_type is NoneType) or (
                     element_type == operand_type
-- 
2.43.0


From 52f013207c53c10f377feb6ad92bfc23ac57bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 08/40] fix: perform every mutation of an imported FX program

- Only one of several inputs/buffers updated to the same value was updated.
- An update to the value of another input was dropped, or its hook was handed a
  Python function in place of an IR value.
- A buffer first used after its update was loaded after the store, and so read
  the new contents.
---
 python/torch_mlir/extras/fx_importer.py | 33 ++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 55bc276..07e0404 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -894,6 +894,9 @@ class FxImporter:
             prog.graph.owning_module, func_name, import_symbolic_shape_expressions
         )
 
+        # Mutations to the value of another input are not triggered by any node.
+        node_importer.notify_produced_placeholders(placeholder_nodes.values())
+
         # Import all nodes and return.
         node_importer.import_nodes(
             all_producer_nodes.values(),
@@ -1452,8 +1455,8 @@ class GraphNodeImporter:
         self._v: Dict[Union[Callable[[], Value], Tuple[torch_fx.Node, int]], Value] = {}
         # Map of Shape Symbol to MLIR Value
         self._symbol_to_value: Dict[str, Value] = {}
-        # Map of node name to hook that should be called when it is produced.
-        self._on_node_produced: Dict[str, Callable[[Value], None]] = {}
+        # Map of node name to hooks that should be called when it is produced.
+        self._on_node_produced: Dict[str, List[Callable[[Value], None]]] = {}
         # Statically multi-result nodes which we have de-tupled are noted here.
         # They will have their getitem calls short-circuited.
         self._multi_result_nodes: Set[torch_fx.Node] = set()
@@ -1477,10 +1480,23 @@ class GraphNodeImporter:
         assert key not in self._v, f"Node already has a value: {node}"
         self._v[key] = value
 
-        producer_callback = self._on_node_produced.get(node.name)
-        if producer_callback is not None:
+        # A lazily bound value (of a placeholder) has not been produced yet.
+        if not callable(value):
+            self._notify_produced(node, value)
+
+    def _notify_produced(self, node: Node, value: Value):
+        for producer_callback in self._on_node_produced.pop(node.name, ()):
             producer_callback(value)
 
+    def notify_produced_placeholders(self, nodes: Iterable[Node]):
+        """Calls outstanding hooks for values which are inputs themselves.
+
+        Such producers were bound before (or lazily, regardless of) the hooks.
+        """
+        for node in nodes:
+            if node.name in self._on_node_produced:
+                self._notify_produced(node, self.resolve_node_value(node))
+
     def resolve_node_value(self, node: Node, result_index: int = 0) -> Value:
         """Resolves a node to a value."""
         key = (node, result_index)
@@ -1548,7 +1564,7 @@ class GraphNodeImporter:
                     operands=[value, mutable_value],
                 )
 
-        self._on_node_produced[producer_node_name] = on_produced
+        self._on_node_produced.setdefault(producer_node_name, []).append(on_produced)
         return copy_result
 
     def import_constant(self, loc: Location, node: Node, constant: Any) -> Value:
@@ -1587,12 +1603,17 @@ class GraphNodeImporter:
         if info.store_producer_node is not None:
 
             def on_produced(value: Value):
+                # Users of the original contents must not see the stored value.
+                if node.users:
+                    self.resolve_node_value(node)
                 with loc, InsertionPoint(self._b):
                     self.fx_importer._hooks.store_produced_value(
                         self, buffer_value, value, info
                     )
 
-            self._on_node_produced[info.store_producer_node] = on_produced
+            self._on_node_produced.setdefault(info.store_producer_node, []).append(
+                on_produced
+            )
 
     def return_node_values(self, loc, nodes: List[Node], constants: Dict[int, Any]):
         # This function returns both node values and constant values
-- 
2.43.0


From ed8262d5d4fc857795958c3ceafd21dac4a47ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 09/40] fix: import mutations of parameters instead of dropping
 them

torch.export reports in-place updates of parameters as PARAMETER_MUTATION,
which the FX importer silently ignored.
---
 python/torch_mlir/extras/fx_importer.py | 36 +++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 07e0404..2726c06 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -713,6 +713,7 @@ class FxImporter:
 
         # Additional bindings that we need to set up after the function is created.
         mutable_buffer_target_producers: Dict[str, str] = {}
+        mutable_parameter_target_producers: Dict[str, str] = {}
         constant_tensors: Dict[Node, torch.Tensor] = {}
         parameter_bindings: Dict[Node, Tuple[Any, InputInfo]] = {}
         buffer_bindings: Dict[Node, Tuple[Any, InputInfo]] = {}
@@ -747,6 +748,10 @@ class FxImporter:
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
             elif kind == OutputKind.BUFFER_MUTATION and isinstance(arg, TensorArgument):
                 mutable_buffer_target_producers[output_spec.target] = arg.name
+            elif kind == getattr(
+                OutputKind, "PARAMETER_MUTATION", None
+            ) and isinstance(arg, TensorArgument):
+                mutable_parameter_target_producers[output_spec.target] = arg.name
 
         # Derive user inputs. These will be op=='placeholder' nodes.
         user_inputs: List[Node] = []
@@ -796,6 +801,9 @@ class FxImporter:
                         node=node,
                         ir_type=node_ir_type,
                         mutable_producer_node_name=None,
+                        store_producer_node=mutable_parameter_target_producers.get(
+                            input_spec.target
+                        ),
                     ),
                 )
             elif input_spec.kind == InputKind.BUFFER and isinstance(
@@ -1582,6 +1590,8 @@ class GraphNodeImporter:
                 return self._import_input(parameter_value, info)
 
         self.bind_node_value(node, _on_access)
+        if info.store_producer_node is not None:
+            self._store_when_produced(loc, node, parameter_value, info)
 
     def lazy_import_buffer(
         self,
@@ -1601,19 +1611,23 @@ class GraphNodeImporter:
             raise NotImplementedError("NYI: Mutable SSA buffer updates")
 
         if info.store_producer_node is not None:
+            self._store_when_produced(loc, node, buffer_value, info)
 
-            def on_produced(value: Value):
-                # Users of the original contents must not see the stored value.
-                if node.users:
-                    self.resolve_node_value(node)
-                with loc, InsertionPoint(self._b):
-                    self.fx_importer._hooks.store_produced_value(
-                        self, buffer_value, value, info
-                    )
+    def _store_when_produced(self, loc, node: Node, py_value: Any, info: InputInfo):
+        """Issues a store of a parameter or buffer when its new value is produced."""
 
-            self._on_node_produced.setdefault(info.store_producer_node, []).append(
-                on_produced
-            )
+        def on_produced(value: Value):
+            # Users of the original contents must not see the stored value.
+            if node.users:
+                self.resolve_node_value(node)
+            with loc, InsertionPoint(self._b):
+                self.fx_importer._hooks.store_produced_value(
+                    self, py_value, value, info
+                )
+
+        self._on_node_produced.setdefault(info.store_producer_node, []).append(
+            on_produced
+        )
 
     def return_node_values(self, loc, nodes: List[Node], constants: Dict[int, Any]):
         # This function returns both node values and constant values
-- 
2.43.0


From 5f82450a6a77367f083aab3b183b2155ba0cc72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/40] fix: concurrent compiles must not take each other's
 sys.stderr

---
 projects/pt1/python/torch_mlir/torchscript.py |  3 +++
 python/torch_mlir/compiler_utils.py           | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index cf97983..35e4262 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -19,6 +19,7 @@ from torch_mlir.compiler_utils import (
     run_pipeline_with_repro_report,
     OutputType,
     lower_mlir_module,
+    stderr_capture_lock,
     TensorPlaceholder,
 )
 from torch_mlir.jit_ir_importer import ClassAnnotator, ImportOptions, ModuleBuilder
@@ -273,6 +274,7 @@ def compile(
     mb = ModuleBuilder()
     import_options = ImportOptions()
     import_options.ignoreExistingTensorShapesAndDtypes = ignore_traced_shapes
+    stderr_capture_lock.acquire()
     try:
         original_stderr = sys.stderr
         sys.stderr = StringIO()
@@ -290,6 +292,7 @@ PyTorch TorchScript module -> torch-mlir Object Graph IR import failed with:
         ) from None
     finally:
         sys.stderr = original_stderr
+        stderr_capture_lock.release()
 
     if verbose:
         print("\n====================")
diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index fa056e5..ae98a5f 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -3,10 +3,12 @@
 # SPDX-License-Identifier: Apache-2.0 WITH LLVM-exception
 # Also available under a BSD-style license. See LICENSE.
 from enum import Enum
+from functools import wraps
 from io import StringIO
 import os
 import sys
 import tempfile
+import threading
 from typing import Union, List, Optional
 from dataclasses import dataclass, field
 
@@ -85,6 +87,21 @@ class BackendLoweringOptions:
     allow_non_finites: bool = True
 
 
+# Diagnostics are captured by replacing `sys.stderr`, which belongs to all
+# threads of the process: only one thread at a time may do that.
+stderr_capture_lock = threading.RLock()
+
+
+def _captures_stderr(f):
+    @wraps(f)
+    def wrapper(*args, **kwargs):
+        with stderr_capture_lock:
+            return f(*args, **kwargs)
+
+    return wrapper
+
+
+@_captures_stderr
 def run_pipeline_with_repro_report(
     module, pipeline: str, description: str, enable_ir_printing: bool = False
 ):
-- 
2.43.0


From 3383f2bb44edb9c731467bcbd439b8cae5e66768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 11/40] fix: report a module that cannot be printed as a
 compiler error

---
 python/torch_mlir/compiler_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index ae98a5f..7e5fb65 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -108,6 +108,7 @@ def run_pipeline_with_repro_report(
     """Runs `pipeline` on `module`, with a nice repro report if it fails."""
     module_name = get_module_name_for_debug_dump(module)
     original_stderr = sys.stderr
+    asm_for_error_report = None
     try:
         sys.stderr = StringIO()
         asm_for_error_report = module.operation.get_asm(
@@ -133,8 +134,11 @@ def run_pipeline_with_repro_report(
         # - if we do have have colliding filenames, writes should at least
         #   avoid being racy.
         filename = os.path.join(tempfile.gettempdir(), module_name + ".mlir")
-        with open(filename, "w") as f:
-            f.write(asm_for_error_report)
+        if asm_for_error_report is None:
+            filename = "(the module could not be printed)"
+        else:
+            with open(filename, "w") as f:
+                f.write(asm_for_error_report)
         debug_options = "-mlir-print-ir-after-all -mlir-disable-threading"
         # Put something descriptive here even if description is empty.
         description = description or f"{module_name} compile"
-- 
2.43.0


From 0fd6ec22abdd2067bb30903255263949ad4f2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 12/40] fix: write the module for reproducing an error
 atomically

---
 python/torch_mlir/compiler_utils.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index 7e5fb65..27425b8 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -101,6 +101,25 @@ def _captures_stderr(f):
     return wrapper
 
 
+def write_file_atomically(filename: str, contents: str):
+    """Writes a file that others see either completely or not at all.
+
+    Several processes may write the same file at the same time, as names in the
+    temporary directory are shared.
+    """
+    with tempfile.NamedTemporaryFile(
+        "w", dir=os.path.dirname(filename), delete=False
+    ) as f:
+        try:
+            f.write(contents)
+            f.flush()
+            os.chmod(f.name, 0o644)
+            os.replace(f.name, filename)
+        except BaseException:
+            os.unlink(f.name)
+            raise
+
+
 @_captures_stderr
 def run_pipeline_with_repro_report(
     module, pipeline: str, description: str, enable_ir_printing: bool = False
@@ -131,14 +150,11 @@ def run_pipeline_with_repro_report(
         #   RAM fs, which increases worries about capacity).
         # - don't have colliding filenames (hard to do without cluttering
         #   up /tmp)
-        # - if we do have have colliding filenames, writes should at least
-        #   avoid being racy.
         filename = os.path.join(tempfile.gettempdir(), module_name + ".mlir")
         if asm_for_error_report is None:
             filename = "(the module could not be printed)"
         else:
-            with open(filename, "w") as f:
-                f.write(asm_for_error_report)
+            write_file_atomically(filename, asm_for_error_report)
         debug_options = "-mlir-print-ir-after-all -mlir-disable-threading"
         # Put something descriptive here even if description is empty.
         description = description or f"{module_name} compile"
-- 
2.43.0


From 386bfd727418637790d2a864a73ee6d7c1eb2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 13/40] fix: an unwritable temporary directory must not hide
 compiler diagnostics

---
 python/torch_mlir/compiler_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index 27425b8..4376c74 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -154,7 +154,11 @@ def run_pipeline_with_repro_report(
         if asm_for_error_report is None:
             filename = "(the module could not be printed)"
         else:
-            write_file_atomically(filename, asm_for_error_report)
+            try:
+                write_file_atomically(filename, asm_for_error_report)
+            except OSError as os_error:
+                # Still report what went wrong in the first place.
+                filename = f"(the module could not be saved: {os_error.strerror})"
         debug_options = "-mlir-print-ir-after-all -mlir-disable-threading"
         # Put something descriptive here even if description is empty.
         description = description or f"{module_name} compile"
-- 
2.43.0


From 101d24116bbb92a1b8caf398fab121d6c1310610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 14/40] fix: do not let another compilation replace an extra
 library before it is read

---
 projects/pt1/python/torch_mlir/torchscript.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index 35e4262..708e985 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -6,6 +6,7 @@
 from typing import Optional, Sequence, Union, List, Dict, Tuple, Callable, Iterable
 from enum import Enum
 
+import hashlib
 import sys
 from io import StringIO
 import tempfile
@@ -20,6 +21,7 @@ from torch_mlir.compiler_utils import (
     OutputType,
     lower_mlir_module,
     stderr_capture_lock,
+    write_file_atomically,
     TensorPlaceholder,
 )
 from torch_mlir.jit_ir_importer import ClassAnnotator, ImportOptions, ModuleBuilder
@@ -155,11 +157,14 @@ def _canon_extra_library(
             extra_library_dict[library_func.__name__] = library_func
         mlir_library = generate_library(extra_library_dict)
 
+        # The passes read the file later: no other compilation, in whichever
+        # process, may put another library in its place.
+        digest = hashlib.sha256(mlir_library.encode("utf-8")).hexdigest()[:16]
+        root, ext = os.path.splitext(extra_library_file_name)
         extra_library_file = os.path.join(
-            tempfile.gettempdir(), extra_library_file_name
+            tempfile.gettempdir(), f"{root}-{digest}{ext}"
         )
-        with open(extra_library_file, "w") as f:
-            f.write(mlir_library)
+        write_file_atomically(extra_library_file, mlir_library)
         return extra_library_file
     else:
         return ""
-- 
2.43.0


From 3671f21babf86c794302d3ce4357741ba9a015e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 15/40] fix: torchscript.compile leaves torch.jit.export marks
 behind

The mark is made on the functions of the user's class. Once a model was
compiled by scripting, compiling any instance of its class by tracing failed
with "method already defined".
---
 projects/pt1/python/torch_mlir/torchscript.py | 43 ++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index 708e985..b6af58d 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -4,12 +4,14 @@
 # Also available under a BSD-style license. See LICENSE.
 
 from typing import Optional, Sequence, Union, List, Dict, Tuple, Callable, Iterable
+from contextlib import contextmanager
 from enum import Enum
 
 import hashlib
 import sys
 from io import StringIO
 import tempfile
+import threading
 import os
 
 from torch._functorch.compile_utils import strip_overloads
@@ -28,6 +30,35 @@ from torch_mlir.jit_ir_importer import ClassAnnotator, ImportOptions, ModuleBuil
 from torch_mlir.jit_ir_importer.build_tools.library_generator import generate_library
 
 
+# Held while PyTorch converts a model to JIT IR, see `_exported_methods`.
+_jit_conversion_lock = threading.RLock()
+
+
+@contextmanager
+def _exported_methods(model: torch.nn.Module, method_names: Iterable[str]):
+    """Marks methods with `torch.jit.export` while the model is converted.
+
+    The mark is made on the function, which belongs to the user's class. Left
+    behind, it would make later conversions of any instance of the class script
+    these methods, which fails when the model is traced.
+    """
+    unmarked = []
+    attr = "_torchscript_modifier"
+    with _jit_conversion_lock:
+        try:
+            for method_name in method_names:
+                func = getattr(model, method_name).__func__
+                unmarked.append((func, func.__dict__.get(attr)))
+                torch.jit.export(func)
+            yield
+        finally:
+            for func, modifier in reversed(unmarked):
+                if modifier is None:
+                    func.__dict__.pop(attr, None)
+                else:
+                    setattr(func, attr, modifier)
+
+
 _example_arg = Union[TensorPlaceholder, torch.Tensor]
 _example_args_for_one_method = Union[_example_arg, Sequence[_example_arg]]
 _example_args = Union[_example_args_for_one_method, "ExampleArgs"]
@@ -257,16 +288,16 @@ def compile(
                 )
         scripted = model
     elif use_tracing:
-        scripted = torch.jit.trace_module(
-            model, example_args._get_for_tracing(use_tracing, ignore_traced_shapes)
-        )
+        with _exported_methods(model, []):
+            scripted = torch.jit.trace_module(
+                model, example_args._get_for_tracing(use_tracing, ignore_traced_shapes)
+            )
     else:
         # Make sure that all the methods that the user requested get scripted.
         # By default, PyTorch only scripts the `forward` method and transitive
         # callees.
-        for method_name in example_args._get_methods():
-            torch.jit.export(getattr(model, method_name).__func__)
-        scripted = torch.jit.script(model)
+        with _exported_methods(model, example_args._get_methods()):
+            scripted = torch.jit.script(model)
     class_annotator = ClassAnnotator()
     class_annotator.exportNone(scripted._c._type())
     for method_name, example_args in example_args._get_for_annotation().items():
-- 
2.43.0


From 48e4f6a98e76e78f988e5596cbcf622a360be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 16/40] fix: rank-0 placeholders are traced with their own
 dtype

A rank-0 TensorPlaceholder was traced as an int64 tensor whatever its dtype,
and the trace records dtypes.
---
 projects/pt1/python/torch_mlir/torchscript.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index b6af58d..b672102 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -165,12 +165,9 @@ class ExampleArgs:
                         # they know what they are doing and that their trace is
                         # correct for any specific concrete size.
                         shape = [s if s != -1 else 7 for s in arg.shape]
-                        if len(shape) == 0:
-                            example_args_for_trace.append(torch.tensor(1))
-                        else:
-                            example_args_for_trace.append(
-                                torch.ones(*shape, dtype=arg.dtype)
-                            )
+                        example_args_for_trace.append(
+                            torch.ones(shape, dtype=arg.dtype)
+                        )
                     else:
                         assert isinstance(arg, torch.Tensor)
                         example_args_for_trace.append(arg)
-- 
2.43.0


From 387096b5824752c9b1f5541fa7f4e84fd2a8e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 17/40] fix: a redefined library function is defined twice in
 the extra library

All functions the process ever scripted are in the compilation unit. Compiling
again with another function of the same name gave a library which defines the
same symbol twice.
---
 .../build_tools/library_generator.py             | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
index 5285aa0..0427b57 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py
@@ -234,14 +234,26 @@ def generate_library(functions: Dict[str, Any]) -> str:
     # We use the registry to ensure that the shape functions are consistent
     # with the ops.
     registry = Registry.load()
+    scripted_functions = []
     for k, v in functions.items():
         if "〇" not in k:
             continue
         if not hasattr(v, "_not_present_in_registry"):
             _verify_signature_matches_registry(v, registry)
         # Add it to the compilation unit.
-        torch.jit.script(v)
-    for function in torch.jit._state._python_cu.get_functions():
+        scripted_functions.append(torch.jit.script(v))
+    # The compilation unit also has the functions of the libraries that this
+    # process made before. As the namespaces are dropped below, only one function
+    # of each name can be imported: ours, or the one defined last.
+    functions_by_symbol = {}
+    for function in [
+        *torch.jit._state._python_cu.get_functions(),
+        *scripted_functions,
+    ]:
+        is_op_function = "〇" in function.name
+        symbol = function.name if is_op_function else function.qualified_name
+        functions_by_symbol[symbol] = function
+    for function in functions_by_symbol.values():
         # Calls to the function `__torch_mlir_internal_promote_dtypes`
         # will get converted to the torch-dialect op `torch.promote_dtypes`
         # during import, so there is no need to import the actual
-- 
2.43.0


From c1915800a05fc6f90b18c02cb29100e910b245c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 18/40] fix: do not leave an incomplete function behind when an
 ONNX import fails

---
 python/torch_mlir/extras/onnx_importer.py | 44 +++++++++++++++--------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1597a8f..7242903 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -293,20 +293,26 @@ class NodeImporter:
                 ip=InsertionPoint(body),
                 visibility="private" if private else None,
             )
-            block = func_op.add_entry_block(
-                [Location.name(k) for k in graph_info.input_map.keys()]
-            )
-        imp = NodeImporter(
-            graph_info,
-            parent_op=func_op,
-            block=block,
-            context_cache=cc,
-            module_op=module_op,
-            module_cache=mc,
-        )
-        for node_name, input_value in zip(graph_info.input_map.keys(), block.arguments):
-            imp._nv_map[node_name] = input_value
-        imp._populate_graph_attrs(func_op)
+            try:
+                block = func_op.add_entry_block(
+                    [Location.name(k) for k in graph_info.input_map.keys()]
+                )
+                imp = NodeImporter(
+                    graph_info,
+                    parent_op=func_op,
+                    block=block,
+                    context_cache=cc,
+                    module_op=module_op,
+                    module_cache=mc,
+                )
+                for node_name, input_value in zip(
+                    graph_info.input_map.keys(), block.arguments
+                ):
+                    imp._nv_map[node_name] = input_value
+                imp._populate_graph_attrs(func_op)
+            except BaseException:
+                func_op.operation.erase()
+                raise
         return imp
 
     def _populate_graph_attrs(self, container_op: Operation):
@@ -343,6 +349,16 @@ class NodeImporter:
 
     def import_all(self, func=True):
         """Imports all nodes topologically."""
+        try:
+            self._import_all(func)
+        except BaseException:
+            # A function without a terminator would make the whole module
+            # invalid, including what was imported into it before.
+            if func:
+                self._p.operation.erase()
+            raise
+
+    def _import_all(self, func: bool):
         # TODO: Consider pulling in initializers on demand since there can be so
         # much unused crap.
         for init in self._gi.initializer_map.values():
-- 
2.43.0


From ca196d7ea1430f237007c4925897b2126b65511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 19/40] fix: import values used from enclosing ONNX graphs with
 their types

---
 python/torch_mlir/extras/onnx_importer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 7242903..6b95f82 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -157,9 +157,12 @@ class GraphInfo:
         model_info: ModelInfo,
         graph_proto: onnx.GraphProto,
         is_subgraph: bool = False,
+        parent: Optional["GraphInfo"] = None,
     ):
         self.model_info = model_info
         self.graph_proto = graph_proto
+        # The graph which a subgraph belongs to, and whose values it may use.
+        self.parent = parent
         self.initializer_map: Dict[str, onnx.TensorProto] = {
             n.name: n for n in graph_proto.initializer
         }
@@ -213,6 +216,10 @@ class GraphInfo:
                 tensor_proto.data_type, tensor_proto.dims
             )
 
+        # Subgraphs may use the values of the graphs around them.
+        if self.parent is not None:
+            return self.parent.find_type_proto_for_name(name)
+
         # No type information is associated, this can occur when the value is unused:
         return ""
 
@@ -527,7 +534,9 @@ class NodeImporter:
                 *block_types, arg_locs=[op.location] * len(block_types)
             )
             block = region.blocks[0]
-            graph_info = GraphInfo(self._gi.model_info, attr.g, is_subgraph=True)
+            graph_info = GraphInfo(
+                self._gi.model_info, attr.g, is_subgraph=True, parent=self._gi
+            )
             imp = NodeImporter(
                 graph_info,
                 parent_op=op,
-- 
2.43.0


From 5bc87a9c0a9c4c11403865e6929bbb7aad2ff546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 20/40] fix: do not import ONNX tensors of unknown rank as rank
 0

---
 python/torch_mlir/extras/onnx_importer.py | 55 +++++++++++++----------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 6b95f82..b1e0a98 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -628,7 +628,9 @@ class ContextCache:
         self._elem_type_map: Dict[int, IrType] = {}
         self._list_type_map: Dict[str, IrType] = {}
         self._optional_type_map: Dict[str, IrType] = {}
-        self._vtensor_type_map: Dict[Tuple[Tuple[Optional[int]], IrType], IrType] = {}
+        self._vtensor_type_map: Dict[
+            Tuple[Optional[Tuple[Optional[int]]], IrType], IrType
+        ] = {}
 
     def tensor_element_type(self, elem_type: int) -> IrType:
         t = self._elem_type_map.get(elem_type)
@@ -676,11 +678,8 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
-            dims = tuple(
-                (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
-            )
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            return f"vtensor<[{shape_asm}],{element_type}>"
+            shape_asm = self.dims_to_asm(self.get_tensor_dims(tt))
+            return f"vtensor<{shape_asm},{element_type}>"
 
         raise OnnxImportError(f"Unsupport list element type")
 
@@ -689,11 +688,8 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
-            dims = tuple(
-                (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
-            )
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            return f"vtensor<[{shape_asm}],{element_type}>"
+            shape_asm = self.dims_to_asm(self.get_tensor_dims(tt))
+            return f"vtensor<{shape_asm},{element_type}>"
 
         if st.elem_type:
             element_type = self.get_list_element_type(st.elem_type)
@@ -701,14 +697,35 @@ class ContextCache:
 
         raise OnnxImportError(f"Unsupport optional element type")
 
+    @staticmethod
+    def get_tensor_dims(tt: onnx.TypeProto.Tensor) -> Optional[Tuple[Optional[int]]]:
+        """Sizes of the dimensions (None: not known), or None if not even the rank is known."""
+        if not tt.HasField("shape"):
+            return None
+        return tuple(
+            # NOTE: dynamic dimension can either be denoted by d.dim_param being set
+            #       (and d.dim_value consequently not set) or
+            #       by neither d.dim_value nor d.dim_param being set. Also note that
+            #       d.dim_value being 0 corresponds to the protobuf default when the field
+            #       is not set.
+            d.dim_value if d.HasField("dim_value") else None
+            for d in tt.shape.dim
+        )
+
+    @staticmethod
+    def dims_to_asm(dims: Optional[Tuple[Optional[int]]]) -> str:
+        if dims is None:
+            return "*"
+        return "[" + ",".join("?" if d is None else str(d) for d in dims) + "]"
+
     def get_vtensor_type(
-        self, dims: Tuple[Optional[int]], element_type: IrType
+        self, dims: Optional[Tuple[Optional[int]]], element_type: IrType
     ) -> IrType:
         key = (dims, element_type)
         t = self._vtensor_type_map.get(key)
         if t is None:
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            asm = f"!torch.vtensor<[{shape_asm}],{str(element_type)}>"
+            shape_asm = self.dims_to_asm(dims)
+            asm = f"!torch.vtensor<{shape_asm},{str(element_type)}>"
             try:
                 t = IrType.parse(asm, context=self._c)
             except MLIRError as e:
@@ -742,15 +759,7 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
-            dims = tuple(
-                # NOTE: dynamic dimension can either be denoted by d.dim_param being set
-                #       (and d.dim_value consequently not set) or
-                #       by neither d.dim_value nor d.dim_param being set. Also note that
-                #       d.dim_value being 0 corresponds to the protobuf default when the field
-                #       is not set.
-                d.dim_value if d.HasField("dim_value") else None
-                for d in tt.shape.dim
-            )
+            dims = self.get_tensor_dims(tt)
             return self.get_vtensor_type(dims, element_type)
 
         st = tp.sequence_type
-- 
2.43.0


From 4680b12b221d6ef4b741db0713ee58d0e6375623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 21/40] fix: expand ONNX functions with omitted or untyped
 outputs

---
 python/torch_mlir/extras/onnx_importer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index b1e0a98..c34a37e 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -444,7 +444,8 @@ class NodeImporter:
             for output_name in node.output:
                 output_names.append(output_name)
                 type_proto = self._gi.find_type_proto_for_name(output_name)
-                output_type_protos.append(type_proto)
+                # ONNX uses the empty string for omitted optional outputs.
+                output_type_protos.append(type_proto if output_name != "" else None)
                 output_types.append(self._cc.type_proto_to_type(type_proto))
 
             for opset_import in self._gi.model_info.model_proto.opset_import:
@@ -463,6 +464,8 @@ class NodeImporter:
 
             if operator_func_op is not None:
                 custom_op = func_dialect.CallOp(operator_func_op, input_values)
+                # The function only has the outputs which are not omitted.
+                output_names = [name for name in output_names if name != ""]
             else:
                 attrs = self.import_attributes(node.attribute)
                 attrs["name"] = StringAttr.get(f"onnx.{op_type}")
@@ -922,7 +925,7 @@ def _specialize_function_and_create_model(
     op_schema: onnx.defs.OpSchema,
     name_to_give_model: str,
     input_type_protos: list[onnx.TypeProto],
-    output_type_protos: list[onnx.TypeProto],
+    output_type_protos: list[Optional[onnx.TypeProto]],
     caller_node: onnx.NodeProto,
 ) -> onnx.ModelProto:
     """
@@ -947,13 +950,18 @@ def _specialize_function_and_create_model(
         input_proto.name = input_name
         input_proto.type.CopyFrom(input_type_proto)
         graph_proto.input.append(input_proto)
-        output_proto = onnx.ValueInfoProto()
 
     for output_name, output_type_proto in zip(
         function_proto.output, output_type_protos
     ):
+        # An output omitted by the caller may not be computed at all.
+        if output_type_proto is None:
+            continue
+        output_proto = onnx.ValueInfoProto()
         output_proto.name = output_name
-        output_proto.type.CopyFrom(output_type_proto)
+        # The type may not be known to the caller; infer it below.
+        if output_type_proto:
+            output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
 
     for node in function_proto.node:
@@ -1002,7 +1010,7 @@ class ModuleCache:
         op_domain: str,
         opset_version: int,
         input_type_protos: list[onnx.TypeProto],
-        output_type_protos: list[onnx.TypeProto],
+        output_type_protos: list[Optional[onnx.TypeProto]],
         caller_node: onnx.NodeProto,
         config: Config,
     ) -> Optional[func_dialect.FuncOp]:
-- 
2.43.0


From 0fba488b1365e66d466f069a7d350bb9e55f07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 22/40] fix: reuse expanded ONNX functions which the module
 already has

---
 python/torch_mlir/extras/onnx_importer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index c34a37e..efd83e1 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -69,6 +69,7 @@ from ..ir import (
     Module,
     Operation,
     StringAttr,
+    SymbolTable,
     Type as IrType,
     Value,
 )
@@ -1086,6 +1087,11 @@ class ModuleCache:
         )
 
         existing = self._operator_function_map.get(key)
+        if existing is None:
+            # The module may have the function from an importer with another cache.
+            symbol_table = SymbolTable(self._m)
+            if key in symbol_table:
+                existing = self._operator_function_map[key] = symbol_table[key]
         if existing is not None:
             return existing
 
-- 
2.43.0


From 5ab31f2bff7b076fd1957933ec2801c76f834011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 23/40] fix: report ONNX nodes whose domain has no opset import

---
 python/torch_mlir/extras/onnx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index efd83e1..3c0b474 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -453,6 +453,10 @@ class NodeImporter:
                 if opset_import.domain == op_domain:
                     opset_version = opset_import.version
                     break
+            else:
+                raise OnnxImportError(
+                    f"No opset import for domain '{op_domain}' of ONNX node: {node}"
+                )
             operator_func_op = self._mc.get_operator_function(
                 op_type,
                 op_domain,
-- 
2.43.0


From a459108106a873893c6f4286f74a44ce6234e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 24/40] fix: write the output of the ONNX import tool all or
 not at all

---
 .../torch_mlir/tools/import_onnx/__main__.py  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/tools/import_onnx/__main__.py b/python/torch_mlir/tools/import_onnx/__main__.py
index 972cfda..36c34e1 100644
--- a/python/torch_mlir/tools/import_onnx/__main__.py
+++ b/python/torch_mlir/tools/import_onnx/__main__.py
@@ -18,6 +18,7 @@ import os
 from pathlib import Path
 import shutil
 import sys
+import tempfile
 
 import onnx
 import onnx.version
@@ -49,12 +50,35 @@ def main(args: argparse.Namespace):
     # get large, enable bytecode and direct binary emission to save
     # some copies.
     if args.output_file and args.output_file != "-":
-        with open(args.output_file, "wt") as f:
-            print(m.get_asm(assume_verified=not args.no_verify), file=f)
+        write_output_file(
+            args.output_file, m.get_asm(assume_verified=not args.no_verify)
+        )
     else:
         print(m.get_asm(assume_verified=not args.no_verify))
 
 
+def write_output_file(output_file: str, asm: str):
+    if os.path.exists(output_file) and not os.path.isfile(output_file):
+        # A pipe or device.
+        with open(output_file, "wt") as f:
+            print(asm, file=f)
+        return
+
+    # Write to a file next to the output and move it into place when it is
+    # complete, so that a failure never leaves a part of the module behind.
+    # Symbolic links are followed, so that they are not replaced.
+    path = os.path.realpath(output_file)
+    with tempfile.TemporaryDirectory(
+        prefix="onnx-importer-output-", dir=os.path.dirname(path)
+    ) as temp_dir:
+        temp_file = os.path.join(temp_dir, os.path.basename(path))
+        with open(temp_file, "wt") as f:
+            print(asm, file=f)
+        if os.path.exists(path):
+            shutil.copymode(path, temp_file)
+        os.replace(temp_file, path)
+
+
 def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     # Do shape inference two ways.  First, attempt in-memory to avoid redundant
     # loading and the need for writing a temporary file somewhere.  If that
-- 
2.43.0


From 52a7cc0673dce02c594b2ab56bf64b86f690eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 25/40] fix: give each run of the ONNX import tool its own
 temporary directory, and remove it

---
 .../torch_mlir/tools/import_onnx/__main__.py  | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/python/torch_mlir/tools/import_onnx/__main__.py b/python/torch_mlir/tools/import_onnx/__main__.py
index 36c34e1..20c8962 100644
--- a/python/torch_mlir/tools/import_onnx/__main__.py
+++ b/python/torch_mlir/tools/import_onnx/__main__.py
@@ -87,17 +87,7 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     # https://github.com/onnx/onnx/blob/main/docs/PythonAPIOverview.md#shape-inference-a-large-onnx-model-2gb
     # for details about the file-based technique.
 
-    # Make a temp dir for all the temp files we'll be generating as a side
-    # effect of infering shapes.  For now, the only file is a new .onnx holding
-    # the revised model with shapes.
-    #
-    # TODO: If the program temp_dir is None, we should be using an ephemeral
-    # temp directory instead of a hard-coded path in order to avoid data races
-    # by default.
     input_dir = os.path.dirname(os.path.abspath(args.input_file))
-    temp_dir = Path(args.temp_dir or input_dir) / "onnx-importer-temp"
-    shutil.rmtree(temp_dir, ignore_errors=True)
-    temp_dir.mkdir(exist_ok=True)
 
     # Load the model, with possible external data coming from the default
     # location, or the location specified on the conmand line.
@@ -132,6 +122,31 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     except ValueError:
         pass
 
+    # Model is too big for in-memory inference: do file-based shape inference
+    # to a temp file.
+    #
+    # Make a temp dir for all the temp files we'll be generating as a side
+    # effect of infering shapes.  It is an ephemeral one in order to avoid data
+    # races, unless asked to keep it.
+    if args.keep_temps:
+        temp_dir = Path(args.temp_dir or input_dir) / "onnx-importer-temp"
+        shutil.rmtree(temp_dir, ignore_errors=True)
+        temp_dir.mkdir(exist_ok=True)
+        return infer_shapes_with_files(args, raw_model, raw_model_modified, temp_dir)
+    with tempfile.TemporaryDirectory(
+        prefix="onnx-importer-temp-", dir=args.temp_dir or input_dir
+    ) as temp_dir:
+        return infer_shapes_with_files(
+            args, raw_model, raw_model_modified, Path(temp_dir)
+        )
+
+
+def infer_shapes_with_files(
+    args: argparse.Namespace,
+    raw_model: onnx.ModelProto,
+    raw_model_modified: bool,
+    temp_dir: Path,
+) -> onnx.ModelProto:
     # The following code was an attempt to work around the bug where models
     # with external data produce invalid output shapes after infer_shapes_path.
     # It works with small models but threw an error for llama seeming to
@@ -142,10 +157,9 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     # onnx.shape_inference.infer_shapes_path(temp_raw_file, temp_inferred_file)
     # inferred_model = onnx.load(temp_inferred_file)
 
+    input_dir = os.path.dirname(os.path.abspath(args.input_file))
     data_dir = Path(args.data_dir or input_dir)
 
-    # Model is too big for in-memory inference: do file-based shape inference
-    # to a temp file.
     # First need to save as model when it has been changed (e.g. version conversion).
     if raw_model_modified:
         data_dir = temp_dir
@@ -172,10 +186,6 @@ def load_onnx_model(args: argparse.Namespace) -> onnx.ModelProto:
     inferred_model = onnx.load(temp_inferred_file, load_external_data=False)
     onnx.load_external_data_for_model(inferred_model, str(data_dir))
 
-    # Remove the inferred shape file unless asked to keep it
-    if not args.keep_temps:
-        shutil.rmtree(temp_dir)
-
     return inferred_model
 
 
-- 
2.43.0


From a305a94db03566268122ba013593354c2b75b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 26/40] fix: describe the layout of BSC tensors as torch stores
 them

The importer divided each dimension by the other one's block size when the
blocks were not square, and gave the elements of a block in column-major
order, though torch stores them in row-major order in either block layout.
---
 python/torch_mlir/extras/fx_importer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 2726c06..a9efa17 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -432,19 +432,18 @@ def sparsity_encoding(t: torch.Tensor) -> str:
         idx_dtype = t.row_indices().dtype
     else:
         assert sparse_dim == 2
-        blocksize = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        m, n = t.values().shape[batch_dim + 1 : batch_dim + 3]
+        i, j = batch_dim, batch_dim + 1
+        rows, cols = f"d{i} floordiv {m}", f"d{j} floordiv {n}"
         if t.layout is torch.sparse_bsr:
-            i, j = batch_dim, batch_dim + 1
+            blocks = f"{rows}:dense,{cols}:compressed"
             idx_dtype = t.col_indices().dtype
         else:
             assert t.layout is torch.sparse_bsc
-            j, i = batch_dim, batch_dim + 1
+            blocks = f"{cols}:dense,{rows}:compressed"
             idx_dtype = t.row_indices().dtype
-        m, n = blocksize
-        lvls = (
-            f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed,"
-            f"d{i} mod {m}:dense,d{j} mod {n}:dense"
-        )
+        # The elements of a block are in row-major order in either layout.
+        lvls = f"{blocks},d{i} mod {m}:dense,d{j} mod {n}:dense"
 
     if batch_dim > 0:
         batch = ",".join(f"d{d}:batch" for d in range(batch_dim))
-- 
2.43.0


From 918e642889aae611f83e4bd79b2a36c7e4f38cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 27/40] fix: import the modulo of sizes as aten.remainder

aten.fmod.int computes a float (the node was declared !torch.int), rounds
towards zero, and is not an operation of the torch dialect;
aten.remainder.int is what Python's % on integers means.
---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a9efa17..dfae496 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -293,7 +293,7 @@ PY_BUILTIN_TO_TORCH_OP = {
     "ge": torch.ops.aten.ge,
     "ne": torch.ops.aten.ne,
     "gt": torch.ops.aten.gt,
-    "mod": torch.ops.aten.fmod,
+    "mod": torch.ops.aten.remainder,
     "eq": torch.ops.aten.eq,
     "floordiv": torch.ops.aten.floordiv,
     "neg": torch.ops.aten.neg,
-- 
2.43.0


From f09ab309d6b9f49246e95456b13da5bc55ef94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:05 +0000
Subject: [PATCH 28/40] fix: refuse flex_attention whose functions capture
 tensors

The operation it is imported as has no operands for them: the call was
imported without the tensors, to functions which take them as arguments.
---
 python/torch_mlir/extras/fx_importer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index dfae496..44eb647 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2021,6 +2021,14 @@ class GraphNodeImporter:
             kernel_options,
         ) = node.args[:7]
 
+        # The operation has no operands for the tensors which score_mod and
+        # mask_mod read besides their arguments.
+        if any(node.args[7:]):
+            raise NotImplementedError(
+                "flex_attention whose score_mod or mask_mod captures tensors: "
+                f"{node.format_node()}"
+            )
+
         # Import Q, K, V tensors
         query = self._import_argument(loc, query_arg, None)
         key = self._import_argument(loc, key_arg, None)
-- 
2.43.0


From 6c6dcb99c598e4b1fc59b595141dd5281c5390c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 29/40] fix: leave a program's symbolic arithmetic as it was
 after importing it

The importer rewrote the arguments of mixed integer and float arithmetic in
the caller's graph, referring to nodes outside of it, so that importing the
program a second time failed with KeyError.
---
 python/torch_mlir/extras/fx_importer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 44eb647..fcb0e3b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1725,6 +1725,21 @@ class GraphNodeImporter:
         target: Union[
             torch._ops.OpOverloadPacket, BuiltinMethodType, BuiltinFunctionType
         ],
+    ):
+        original_args = node.args
+        try:
+            self._import_symbolic_torch_op_as_overload(loc, node, target)
+        finally:
+            # The program keeps its own arguments: it may be imported again.
+            node.args = original_args
+
+    def _import_symbolic_torch_op_as_overload(
+        self,
+        loc: Location,
+        node: torch_fx.Node,
+        target: Union[
+            torch._ops.OpOverloadPacket, BuiltinMethodType, BuiltinFunctionType
+        ],
     ):
         # parse builtin operations like add, sub, mul, etc. because dynamo captures these
         # operations on symbolic arguments as regular python expressions rather than as torch ops
-- 
2.43.0


From cdb13e4b5df3d76a963ed79a5fc0f1b8188c883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 30/40] fix: do not reverse comparisons of integers with floats

lt, ge and gt of an integer and a float had their arguments swapped to fit
the overload which takes the float first, which reverses the comparison.
---
 python/torch_mlir/extras/fx_importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index fcb0e3b..6046c64 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1752,7 +1752,9 @@ class GraphNodeImporter:
             if all(is_int):
                 op_overload = "int"
             elif any(is_int):
-                if target.__name__ in ("add", "lt", "ge", "ne", "gt"):
+                if target.__name__ in ("add", "ne") or (
+                    target.__name__ in ("lt", "ge", "gt") and is_int[1]
+                ):
                     op_overload = "float_int"
                     # put float arg first, as expected in signature
                     if arg_types[1] == float:
-- 
2.43.0


From 2265266b35370edd1c9927dedaf500dc555ec096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 31/40] fix: do not declare symbolic floats as symbolic
 integers

The ranges of a program's unbacked floats became torch.symbolic_int
operations when the program has symbolic dimensions too.
---
 python/torch_mlir/extras/fx_importer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 6046c64..d295a00 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1397,7 +1397,13 @@ class ContextCache:
             if IntInfinity is not None
             else sympy.Integer
         )
-        for val in prog.range_constraints.values():
+        # The ranges of symbolic floats are no ranges of dimensions.
+        range_constraints = {
+            k: v
+            for k, v in prog.range_constraints.items()
+            if k.is_integer or not getattr(v, "is_float", False)
+        }
+        for val in range_constraints.values():
             if (
                 isinstance(val.lower, sym_int_types)
                 and isinstance(val.upper, sym_int_types)
@@ -1421,7 +1427,7 @@ class ContextCache:
                     _sympy_int_to_int(v.lower, math.ceil),
                     _sympy_int_to_int(v.upper, math.floor),
                 )
-                for k, v in prog.range_constraints.items()
+                for k, v in range_constraints.items()
             }
 
     def get_symbolic_guards(self) -> Dict[str, RangeConstraint]:
-- 
2.43.0


From ac2e8241e33e210bc17abeea9af64b43a30c796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:09 +0000
Subject: [PATCH 32/40] fix: do not import what export leaves of the scalars of
 constants

torch.export replaces the uses of item() of a constant by its value and leaves
the call without a type, which made an operation that does not verify.
---
 python/torch_mlir/extras/fx_importer.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index d295a00..bf513d4 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -462,6 +462,17 @@ def is_symbolic(obj: Any) -> bool:
     return isinstance(obj, (torch.SymInt, torch.SymFloat, torch.SymBool))
 
 
+def is_folded_scalar(node: torch_fx.Node) -> bool:
+    """Check for the scalar of a constant, which torch.export has put in place of
+    the node's uses: what it leaves behind has no users and no known type."""
+    return (
+        node.target
+        in (torch.ops.aten.item.default, torch.ops.aten._local_scalar_dense.default)
+        and not node.users
+        and node.meta.get("val") is None
+    )
+
+
 def is_builtin_function_or_method(obj: Any) -> bool:
     return isinstance(obj, (BuiltinMethodType, BuiltinFunctionType))
 
@@ -1686,7 +1697,8 @@ class GraphNodeImporter:
                         self._import_symbolic_torch_op(loc, node, target)
                     elif isinstance(target, TorchOpOverload):
                         # Dispatch to an ATen op.
-                        self._import_torch_op_overload(loc, node)
+                        if not is_folded_scalar(node):
+                            self._import_torch_op_overload(loc, node)
                     elif isinstance(target, HigherOrderOperator):
                         self._import_hop(loc, node, target)
                     else:
-- 
2.43.0


From 249eefa7755b517be07c5538b6d2992297351e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:36 +0000
Subject: [PATCH 33/40] fix: _dynamo_fx_importer: honour positional parameters
 passed by keyword

A positional parameter given by keyword in a node was silently replaced by
its default value (or refused when it had none).
---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 81908d8..8acd9ac 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -318,7 +318,7 @@ class _FXGraphImporter:
         # `Argument` is the term that FX uses analogous to mlir "Value". It is
         # more precise to call them "formal parameters".
         for i, parameter in enumerate(node.target._schema.arguments):
-            if parameter.kwarg_only and parameter.name in node.kwargs:
+            if parameter.name in node.kwargs:
                 arg = node.kwargs[parameter.name]
             elif i < len(node.args):
                 arg = node.args[i]
-- 
2.43.0


From 2cc5650a5f99a41ed018e60ccd05f03cc7dac226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 34/40] fix: fx_importer: number the complex dtypes as
 torch_upstream::ScalarType does

complex32 and complex64 were off by one (an operation casting to complex64
was imported as casting to complex128), complex128 was missing.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index bf513d4..17a5c20 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -245,9 +245,9 @@ TORCH_DTYPE_TO_INT = {
     torch.float16: 5,
     torch.float32: 6,
     torch.float64: 7,
-    # torch.complex_half 8
-    torch.complex32: 9,
-    torch.complex64: 10,
+    torch.complex32: 8,
+    torch.complex64: 9,
+    torch.complex128: 10,
     torch.bool: 11,
     # torch.qint8: 12, # quantized dtypes are not supported in all backends, currently we do not support them
     # torch.quint8: 13,
-- 
2.43.0


From 3bffff94379b37ece016b6c0bd0890b6b636ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 35/40] fix: number the layouts as c10::Layout does in both FX
 importers

sparse_csc was given the number of Mkldnn, and the block layouts the ones
before theirs.
---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 7 ++++---
 python/torch_mlir/extras/fx_importer.py               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 8acd9ac..03c588c 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -228,9 +228,10 @@ LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # 3 is Mkldnn
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 
diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 17a5c20..bb7b4a8 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -278,9 +278,10 @@ TORCH_LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # 3 is Mkldnn
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 PY_BUILTIN_TO_TORCH_OP = {
-- 
2.43.0


From d96a0dfc413945002ae1b8facb60faeafc816139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 36/40] fix: write generated/shape_inference.cpp also if no
 definitions are missing

A file with placeholders for functions that are now defined by hand was left
behind, so that they were defined twice; and a first run made no file at all,
although the build compiles it.
---
 build_tools/autogen_ltc_backend.py | 52 ++++++++++++++----------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/build_tools/autogen_ltc_backend.py b/build_tools/autogen_ltc_backend.py
index f18af38..ebfc338 100644
--- a/build_tools/autogen_ltc_backend.py
+++ b/build_tools/autogen_ltc_backend.py
@@ -430,36 +430,34 @@ class GenTorchMlirLTC:
             - upstream_shape_inference_decls
             - shape_inference_defs
         )
-        if missing_defs:
-            self.generated_path.joinpath("shape_inference.cpp").write_text(
-                dedent(
-                    """
-                    // This file contains autogenerated Lazy Shape Inference placeholders
-                    // for ops that dont have a corresponding structured kernel or shape definition
-
-                    #include "shape_inference.h"
-                    #include "base_lazy_backend/utils/exception.h"
-                    namespace torch {{
-                    namespace lazy {{
-                    {}
-                    }}  // namespace lazy
-                    }}  // namespace torch
-                    """
-                ).format(
-                    "".join(
-                        dedent(
-                            f"""
-                            std::vector<torch::lazy::Shape> {name}({args}) {{
-                                UNIMPLEMENTED_FUNCTION_ERROR();
-                            }}
-                            """
-                        )
-                        for name, args in map(
-                            global_signatures.get, sorted(missing_defs)
-                        )
+        # Also written if it is empty, since the build compiles it.
+        self.generated_path.joinpath("shape_inference.cpp").write_text(
+            dedent(
+                """
+                // This file contains autogenerated Lazy Shape Inference placeholders
+                // for ops that dont have a corresponding structured kernel or shape definition
+
+                #include "shape_inference.h"
+                #include "base_lazy_backend/utils/exception.h"
+                namespace torch {{
+                namespace lazy {{
+                {}
+                }}  // namespace lazy
+                }}  // namespace torch
+                """
+            ).format(
+                "".join(
+                    dedent(
+                        f"""
+                        std::vector<torch::lazy::Shape> {name}({args}) {{
+                            UNIMPLEMENTED_FUNCTION_ERROR();
+                        }}
+                        """
                     )
+                    for name, args in map(global_signatures.get, sorted(missing_defs))
                 )
             )
+        )
 
         unnecessary_defs = shape_inference_defs - shape_inference_decls
         if unnecessary_defs:
-- 
2.43.0


From ccae2b3eb9e68c145bb8507e288f146145bebbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 37/40] fix: generate the lazy backend's sources whenever they
 may be stale

The hash of the inputs was taken before the outputs were made and the script's
own output was one of them, several inputs were not hashed, and a run that failed
halfway left the hash of the run before it: after taking an edit back, upgrading
PyTorch, changing kernels or removing an output, stale sources were kept.
---
 build_tools/autogen_ltc_backend.py | 45 ++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/build_tools/autogen_ltc_backend.py b/build_tools/autogen_ltc_backend.py
index ebfc338..0565493 100644
--- a/build_tools/autogen_ltc_backend.py
+++ b/build_tools/autogen_ltc_backend.py
@@ -150,22 +150,36 @@ class GenTorchMlirLTC:
         # Set the lazy value class
         setValueT(BaseCppType("torch::lazy", "Value"))
 
-    def calculate_hash(self):
-        m = hashlib.sha256()
-
-        # Add file contents to hash
-        for path in (
+    def hash_inputs(self):
+        """Hash of everything that the generated files depend on."""
+        return self._hash_files(
             self.script_path,
             self.config_path,
             self.torch_ops_file,
-            self.source_yaml,
             self.backend_path.joinpath("shape_inference.cpp"),
-            TORCHGEN_DIR.joinpath("dest", "lazy_ir.py"),
-            TORCHGEN_DIR.joinpath("api", "lazy.py"),
-            TORCHGEN_DIR.joinpath("model.py"),
-        ):
-            if path.exists():
-                m.update(path.read_bytes())
+            self.backend_path.joinpath("mlir_native_functions.cpp"),
+            TORCH_INCLUDE_DIR.joinpath(
+                "torch", "csrc", "lazy", "core", "shape_inference.h"
+            ),
+            *sorted(TORCHGEN_DIR.rglob("*.py")),
+            *sorted(TORCHGEN_DIR.joinpath("packaged", "ATen").rglob("*.*")),
+        )
+
+    def hash_outputs(self):
+        """Hash of the generated files as they are."""
+        return self._hash_files(
+            self.source_yaml, *sorted(self.generated_path.rglob("*.*"))
+        )
+
+    @staticmethod
+    def _hash_files(*paths):
+        m = hashlib.sha256()
+
+        for path in paths:
+            if path.is_file():
+                contents = path.read_bytes()
+                m.update(f"{path.name} {len(contents)}\n".encode())
+                m.update(contents)
 
         return m.hexdigest().strip()
 
@@ -509,11 +523,14 @@ def main(args):
     if hash_file.exists():
         prev_hash = hash_file.read_text().strip()
 
-    new_hash = generator.calculate_hash()
+    inputs_hash = generator.hash_inputs()
+    new_hash = f"{inputs_hash} {generator.hash_outputs()}"
 
     if args.force or new_hash != prev_hash:
+        # Until all files are there, they belong to no known inputs.
+        hash_file.unlink(missing_ok=True)
         generator()
-        hash_file.write_text(new_hash)
+        hash_file.write_text(f"{inputs_hash} {generator.hash_outputs()}")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 047b46ddff0f2313f98fd08e6012be31d4e42388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 38/40] fix: abstract_interp_lib_gen uses importlib without
 importing it

Every run with --pytorch_op_extensions ended with a NameError.
---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 5329ba1..0be0875 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -5,6 +5,7 @@
 
 from typing import List, Optional, Any, Tuple, Union, Dict, Set
 import argparse
+import importlib
 import os
 
 import torch
-- 
2.43.0


From caa4e771392dfc9c8e880d14a6c1e9b110e24f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 39/40] fix: keep the backslashes of the abstract
 interpretation library in its C++ source

A quote or a line break in the message of an assertion of a library function is
printed as an escape in MLIR's textual form; the C++ compiler took it for one of
its own and the library did not hold what was imported.
---
 .../jit_ir_importer/build_tools/abstract_interp_lib_gen.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 0be0875..88515a5 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -6557,7 +6557,9 @@ def main(args):
     import torchvision
 
     asm = generate_library(globals())
-    # We're about to put quotes around the string, so escape the `"` characters.
+    # We're about to put quotes around the string, so escape the `"` characters
+    # (and the `\` characters, which start escapes in MLIR's strings too).
+    asm = asm.replace("\\", "\\\\")
     asm = asm.replace("\"", "\\\"")
 
     # Instead of dumping one big chunk of text that is several thousand lines
-- 
2.43.0


From c5da3dd864091b6a872041ef94cdd2b6ee91c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 40/40] fix: replace the generated sources of the torch dialect
 only by whole ones

GeneratedTorchOps.td was truncated before the registry was found to lack an
operator, and either file was left cut off by any failure while it was written.
---
 .../build_tools/abstract_interp_lib_gen.py    |  3 ++-
 .../build_tools/torch_ods_gen.py              |  4 ++--
 .../jit_ir_importer/build_tools/utils.py      | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
index 88515a5..f2699a5 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py
@@ -14,6 +14,7 @@ import torch.jit._shape_functions as upstream_shape_functions
 
 from .testing_framework import Invocation, ErrorInvocation, TensorOfShape, LongTensorOfShape, NonZeroDTensorWithDtype, ZeroDTensorWithDtype, check_shape_function, check_dtype_function
 from .library_generator import generate_library, not_present_in_registry, promote_dtypes, get_dtype_of_scalar, is_integer_dtype, is_float_dtype, is_complex_dtype, get_priority_of_dtype, all_integer_dtypes, all_float_dtypes, all_complex_dtypes
+from .utils import replace_file
 
 # ==============================================================================
 # Shape Functions
@@ -6573,7 +6574,7 @@ def main(args):
     # Write out the library .cpp file.
     abstract_interp_lib_cpp_file = os.path.join(
         args.torch_transforms_cpp_dir, "AbstractInterpLibrary.cpp")
-    with open(abstract_interp_lib_cpp_file, "w") as f:
+    with replace_file(abstract_interp_lib_cpp_file) as f:
         p = lambda *args: print(*args, file=f)
         p(
 f"""//===-------------------------------------------------------------*- C++-*-===//
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
index c1b6c6d..2e6518d 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py
@@ -13,7 +13,7 @@ import logging
 import os
 import sys
 
-from .utils import TextEmitter
+from .utils import TextEmitter, replace_file
 from .registry import Registry, JitOperator
 
 # Mapping from torch types to their corresponding ODS type predicates.
@@ -1388,7 +1388,7 @@ def main(args: argparse.Namespace):
         with open(args.debug_registry_dump, "w") as debug_registry_dump:
             dump_registered_ops(debug_registry_dump, registry)
     td_path = os.path.join(args.torch_ir_include_dir, "GeneratedTorchOps.td")
-    with open(td_path, "w") as f_td:
+    with replace_file(td_path) as f_td:
         emitter_td = TextEmitter(f_td)
         emitter_td.print(ODS_BANNER)
         emit_ops(emitter_td, registry)
diff --git a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py
index be841b1..3ff86de 100644
--- a/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py
+++ b/projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py
@@ -6,9 +6,28 @@
 from typing import TextIO
 
 from contextlib import contextmanager
+import os
 import textwrap
 
 
+@contextmanager
+def replace_file(path: str):
+    """Yields a text file that replaces the one at `path` once it is complete.
+
+    If anything goes wrong before that, the file at `path` stays as it is.
+    """
+    path = os.path.realpath(path)
+    partial_path = path + ".partial"
+    try:
+        with open(partial_path, "w") as f:
+            yield f
+        os.replace(partial_path, path)
+    except BaseException:
+        if os.path.exists(partial_path):
+            os.unlink(partial_path)
+        raise
+
+
 class TextEmitter:
     """Helper for emitting text files"""
 
-- 
2.43.0

