DST = "deterministic simulation with fault injection: "
COMMON = (
    " The simulator's own models (process pool, clock, signals) are trusted; a pass means no violation in the seeded runs, not a proof."
)

prop(
    "C01",
    "A parallel test run accounts for every requested test exactly once",
    "A run of the end-to-end test suite that returns results returns exactly one result for every requested test, sorted by "
    "name, whatever the number of worker processes, the order in which they finish and the way in which individual tests fail. "
    "If a worker process dies in the middle of the run, for whatever reason and with whatever status, the run ends promptly and "
    "with a failure instead of waiting for ever, dropping tests or reporting a pass for a test that never completed. "
    "Nothing one test does to itself (an exception, a call to exit, an unusable value) prevents the other tests' results.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "For every set of tests, worker count, CPU count, scheduling of workers, and every point at which a test raises, exits or kills its worker.",
    "The suite's own run is one schedule in which no worker dies and no test misbehaves; a lost task shows only under a death at a particular moment.",
    [FW],
    [("polling of worker exit codes while results are pending", FW + ": run_tests"), ("per-test capture of exceptions", FW + ": compile_and_run_test")],
    observe=["return value, exit status and duration of run_tests()"],
    check=(DST + "simulated worker pool, virtual time, seeded deaths and schedules",
           "Seeded search over schedules, worker counts and faults of the real run_tests() and compile_and_run_test() on a simulated process pool." + COMMON),
)

prop(
    "C02",
    "A test's time limit is enforced, reported as its own, and never leaks",
    "A test that runs longer than its time limit is stopped at the limit and reported as timed out in the phase it was in, "
    "and a test that stays within its limit is never reported as timed out. "
    "The time-out of one test never reaches another test or code that runs after it, wherever in the test the limit strikes, "
    "and the process's alarm and the handler installed by the caller are not left armed behind a finished test.",
    ["schedules", "fault_sequences", "inputs"],
    "For every duration of every phase of every test, every limit, and every instant (down to the bytecode) at which the limit strikes.",
    "No test of the suite comes near its limit; the instants at which an asynchronous exception does harm cannot be hit by a test.",
    [FW],
    [("SIGALRM-based context manager", FW + ": timeout"), ("conversion of a time-out into a result", FW + ": compile_and_run_test")],
    observe=["TestResult of each test", "pending alarm after each test"],
    check=(DST + "virtual clock and alarms delivered at seeded instants and bytecodes",
           "The real framework runs with alarms on a virtual clock, delivered inside the test's work or at a seeded bytecode of the framework." + COMMON),
)

prop(
    "C03",
    "A test's result does not depend on its neighbours, order or worker",
    "What a test comes to (its golden results, its actual results, pass or fail) is a function of the test alone. "
    "It is the same alone or among any other tests, in any order, sequentially or on any number of workers, and whatever random "
    "numbers, failures or time-outs the tests before it in the same process have caused. "
    "Values a test has recorded are not changed by what it or others do afterwards to the tensors it passed in.",
    ["schedules", "histories", "configurations"],
    "For every set of tests, request order, worker count, assignment of tests to workers, and process history.",
    "One run has one order and one assignment; agreement between different runs is a statement about pairs of runs.",
    [FW],
    [("seeding of the random generator per test", FW + ": TestUtils"), ("cloning of traced inputs", FW + ": _Tracer"), ("fresh program instance for golden results", FW + ": compile_and_run_test")],
    observe=["traces and golden traces in the results of run_tests()"],
    check=(DST + "many simulated worlds of one test set compared with a reference model",
           "Each test set runs in several simulated worlds and every result must equal a reference computed outside the framework." + COMMON),
)

prop(
    "C04",
    "A wrong answer never passes and a right one never fails",
    "If the answers a backend returns for a test differ from the golden ones (a call's answer lost, added, reordered or attributed to "
    "another function, or a value of another type, dtype, shape or contents anywhere inside nested containers), the test is reported as failed. "
    "If the answers equal the golden ones exactly, NaN and negative numbers included, the test is reported as passed. "
    "Passing results from the worker to the report changes neither.",
    ["inputs", "fault_sequences"],
    "For every program, every nested value and every corruption of the returned trace (differences smaller than 1% are not judged).",
    "The suite's backends are right nearly always, so the comparison is hardly ever exercised on a wrong answer.",
    [RP, FW],
    [("comparison of values and traces", RP + ": ValueReport, TraceItemReport, SingleTestReport"), ("result transport", FW + ": clone_trace, run_tests")],
    observe=["PASS/FAIL lines and return value of report_results()"],
    check=(DST + "answers pass through a seeded faulty transport, verdicts are compared with an oracle",
           "Seeded corruption of backend answers against the real comparison and reporting code, judged by an independent comparison." + COMMON),
)

prop(
    "C05",
    "The test runner's report, counts and exit status tell the truth",
    "Each test selected by the command line (it matches the filter and is not excluded) is run and has exactly one outcome line, which says whether "
    "it failed and whether that was expected for the selected configuration; the summary's counts agree with the lines. "
    "The exit status is zero only if there is no unexpected outcome or failures are to be ignored, and tests that are not selected never run. "
    "A test whose answer cannot even be compared costs only that test's outcome.",
    ["configurations", "inputs", "fault_sequences"],
    "For every configuration, filter, exclusion list, expectation table, set of tests and combination of failing, crashing and passing tests.",
    "The existing tests call the parts one by one; the command line, its tables and its exit status are never run by them.",
    [MN, RP, RG, "projects/pt1/e2e_testing/xfail_sets.py"],
    [("selection and exit status", MN + ": main"), ("classification against the expectation table", RP + ": report_results"), ("unique names", RG + ": register_test_case")],
    observe=["standard output and exit status of main()"],
    check=(DST + "the runner's main() on simulated workers with seeded failures and tables",
           "The real command line runs on simulated workers; lines, counts and status are compared with a model of the tests." + COMMON),
)

FXDST = DST + "seeded histories of imports on a simulated MLIR core with simulated addresses, garbage collection and failures"
FXNOTE = (
    "Seeded search over histories of real FX imports; the imported IR is verified and executed by an interpreter and compared with eager PyTorch. "
    "The MLIR core behind the bindings is an in-memory model, so a pass is about the importer's Python, not about MLIR's C++."
)

prop(
    "C06",
    "An FX import has the meaning of its program, whatever was imported before",
    "Importing an exported program, a frozen one, a graph module or a bare graph, by the importer or by torch_mlir.fx's entry points (which "
    "also export modules and decompose exactly the operators asked for, under the name and with the options given), adds to the module well-formed IR whose functions, "
    "when executed, return what the program returns for every input (same values, shapes, dtypes and order, nested and control-flow subprograms included). "
    "This holds whatever was imported before into the same module or through the same context, in whatever order, under whatever names, "
    "and whichever earlier programs have been freed; functions that earlier imports produced keep their names, visibility and meaning. "
    "Nothing is printed, and no warning given, that does not apply.",
    ["inputs", "histories", "schedules"],
    "For every program in the importer's supported subset, every entry point, every sequence of imports and every moment of garbage collection and address reuse.",
    "Tests import one program into a fresh module; faults of the importer's caches show only for certain sequences of imports or address reuse.",
    [FX, FD, "python/torch_mlir/fx.py"],
    [("program, module and node import", FX + ": FxImporter, GraphNodeImporter"), ("export, decomposition and options", "python/torch_mlir/fx.py: export_and_import, stateless_fx_import"), ("caches of types, locations and modules", FX + ": ContextCache"), ("state shared between imports", FX + ": RefTracker")],
    observe=["MLIR module produced by FxImporter", "results of executing its functions"],
    check=(FXDST, FXNOTE),
)

prop(
    "C07",
    "A failed FX import leaves nothing half-made and does no later harm",
    "An import that fails, because the program holds something unsupported, MLIR refuses an operation, memory runs out or the user interrupts it, "
    "raises the error to the caller, naming what is unsupported where that is the reason. "
    "It leaves no incomplete function in the module: what is there verifies, and what earlier imports made is unchanged. "
    "Later imports through the same importer, context or reference tracker, of the same program or others, succeed and are correct.",
    ["fault_sequences", "crash_points", "histories"],
    "For every program and every point of the import at which it can fail, and every history before and after the failure.",
    "Tests check at most that an exception is raised; the state left behind depends on the exact operation that failed.",
    [FX],
    [("function creation and insertion points", FX + ": import_program, import_stateless_graph"), ("error reporting for unsupported constructs", FX + ": GraphNodeImporter")],
    observe=["exception of the failed import", "module contents after it", "outcome of later imports"],
    check=(FXDST, FXNOTE),
)

prop(
    "C08",
    "Every constant in imported IR holds the bytes of its own tensor",
    "Each parameter, buffer, lifted constant and inline tensor of an imported program appears in the IR as the value, shape and element type "
    "the tensor had when it was imported, for every element type and memory layout that is accepted. "
    "Tensors that look alike are not confused, equal tensors may share a constant only if they are the same object, and changing or freeing a tensor "
    "after the import, or reusing its memory for another, never changes a constant already made or to be made.",
    ["inputs", "histories", "schedules"],
    "For every set of tensors (dtype, shape, strides, sharing), every import history and every reuse of addresses and collection of garbage.",
    "Identity-keyed caches fail only when an address is reused, which the allocator decides; a test does not control it.",
    [FX],
    [("tensor to attribute conversion", FX + ": _make_vtensor_literal_op"), ("identity tracking", FX + ": RefTracker, RefMapping")],
    observe=["constants of the module", "results of executing its functions"],
    check=(FXDST, FXNOTE),
)

prop(
    "C09",
    "Imported programs change exactly the state the program changes",
    "Calling an imported program that modifies buffers, parameters or inputs performs every one of these updates, once, on the right object and with the right value, "
    "and returns the user outputs in order, whether an output is a mutated value, a constant, an input or an alias of another output. "
    "An importer that has been given no means to store an update refuses the program instead of dropping the update. "
    "Values read after an update are the updated ones, across any number of calls.",
    ["inputs", "histories"],
    "For every program with mutable state, every combination of load and store hooks, and every number of successive calls.",
    "Few tests hold mutations and none calls an imported function twice, so a lost or misdirected update goes unseen.",
    [FX],
    [("mutated inputs and buffers", FX + ": import_program, InputInfo"), ("hooks for state", FX + ": FxImporterHooks")],
    observe=["calls of the integrator's hooks", "state after each call of an imported function"],
    check=(FXDST, FXNOTE),
)

prop(
    "C10",
    "Shape symbols, their ranges and bindings are the program's own",
    "When shape expressions are imported, every symbol of a function is the program's own, with the range that the program's export established, "
    "and every shape expression bound to a tensor gives that tensor's true sizes for all inputs the ranges admit. "
    "A function imported without shape expressions or from a static program has none, and nothing of one program's symbols or ranges "
    "appears in another's function, whatever was imported or failed before.",
    ["inputs", "histories"],
    "For every dynamic program, every admissible size and every import history.",
    "Tests import single programs and compare the text; whether an expression is true for all sizes, or leaked from an earlier import, is not decided by them.",
    [FX],
    [("symbolic integers and range constraints", FX + ": set_symbolic_guards, _import_symbolic_torch_op"), ("binding of shapes", FX + ": _create_bind_symbolic_shape_ops")],
    observe=["symbolic operations of each imported function", "run-time sizes of the tensors they describe"],
    check=(FXDST, FXNOTE),
)

CPDST = DST + "simulated processes and threads under a seeded scheduler, scripted native code, a simulated temporary directory"
CPNOTE = (
    "Seeded search over schedules, failures of native code and file-system faults of the real compile path; "
    "importer and passes behind the bindings are scripted, so a pass says nothing about what the C++ passes do."
)

prop(
    "C11",
    "A compile does what its options ask for, whatever else is being compiled",
    "Each call of torchscript.compile, fx.export_and_import, fx.stateless_fx_import or lower_mlir_module applies to its own program exactly the pass pipelines that its "
    "arguments ask for (output type, backend-legal ops, non-finite support, extra library), in order, and returns that module; raw and torch output stop where they should. "
    "The argument annotations it makes are those of its example arguments. "
    "This holds for any sequence of compiles and for compiles running at the same time in several threads or processes, after failed ones too; "
    "when no compile is running, sys.stderr is the process's own again.",
    ["configurations", "schedules", "histories"],
    "For every program, combination of options, sequence of compiles and interleaving of threads at source lines, native calls and file operations.",
    "Tests compile one program after the other with a few options; options mixed up between calls or threads show only in particular interleavings.",
    [CU, FE, TS],
    [("entry points", TS + ": compile; " + FE + ": export_and_import, stateless_fx_import"), ("choice of pipelines", CU + ": lower_mlir_module; " + FE + ": _module_lowering"), ("capture of diagnostics", CU + ": run_pipeline_with_repro_report")],
    observe=["pass pipelines run on each module", "module returned", "sys.stderr after the call"],
    check=(CPDST, CPNOTE),
)

prop(
    "C12",
    "A failed compile reports its own failure, all of it, and does no later harm",
    "A compile whose pipeline fails, for whatever reason, raises TorchMlirCompilerError, whose text has every diagnostic written during the failed step, the underlying "
    "exception, the description and the pipeline, and no diagnostic of another compile or of an earlier step; a failed TorchScript import reports its diagnostics and exception likewise. "
    "A full or unwritable temporary directory does not hide the report. A KeyboardInterrupt comes through as such. "
    "After a failure sys.stderr is restored, no MLIR context stays entered, and compiles that run meanwhile or afterwards are not affected.",
    ["fault_sequences", "schedules", "histories"],
    "For every step at which a compile can fail, every amount and timing of diagnostics, every disk error, and every interleaving with other compiles.",
    "Tests provoke hardly any failure of native code, none while the disk is full and none while another thread compiles.",
    [CU, TS],
    [("report of a failed pipeline", CU + ": run_pipeline_with_repro_report"), ("report of a failed import", TS + ": compile")],
    observe=["type and text of the exception", "sys.stderr after the call", "outcome of later compiles"],
    check=(CPDST, CPNOTE),
)

prop(
    "C13",
    "The file for reproducing a failure is whole at every moment and the right one",
    "The file that a failed compile names for reproducing the failure holds the module as it was before the failed pipeline, complete; it is there when the exception is raised. "
    "At every moment, whatever processes write files of the same name at the same time, die while doing so or meet disk errors, "
    "the file under that name is one complete module of one of them or absent; if it could not be written the report does not name it. Nothing else is left in the temporary directory "
    "by a process that lives.",
    ["crash_points", "schedules", "fault_sequences"],
    "For every file operation at which a process dies or fails and every interleaving of processes that use the same name.",
    "A torn file is seen only by another process at a particular moment or after a death at a particular write.",
    [CU],
    [("writing of the reproducer", CU + ": run_pipeline_with_repro_report")],
    observe=["contents of the temporary directory at every moment", "path in the exception's text"],
    check=(CPDST, CPNOTE),
)

prop(
    "C14",
    "The passes of a compile read the extra library that was given to it",
    "When a compile is given abstract interpretation functions, the library file its passes read contains one complete definition of each of them, as given to this compile, under the name the passes look for, "
    "and is not changed or removed under it by any other compile, in the same or another process, whatever library that one uses. "
    "A library that cannot be generated, does not match its operators or cannot be written makes the compile fail before any pass runs; without a library the passes are given none.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "For every set of library functions and every interleaving, death and disk error of the processes which compile with libraries at the same time.",
    "The test suite's workers do compile with libraries in parallel, but what they read depends on the moment; a test cannot choose it.",
    [TS, LG],
    [("library file", TS + ": _canon_extra_library"), ("text of the library", LG + ": generate_library")],
    observe=["bytes which the passes read from the extra-library option's path"],
    check=(CPDST, CPNOTE),
)

OXNOTE = (
    "The real ONNX importer and onnx run on seeded models over an in-memory stand-in for the MLIR bindings; the oracle compares "
    "model and IR from the outputs back and evaluates expanded functions with onnx's reference evaluator." + COMMON
)

prop(
    "C15",
    "An imported ONNX model is the model: values, types, attributes, constants",
    "Importing a valid ONNX model yields a verified module with one public function named after the graph, with the graph's inputs and outputs in order and their types. "
    "Each output is computed by the model's nodes: the same operators with the same operands, omitted operands as none, the same attributes and constants bit for bit, "
    "the types of ONNX's shape inference (unknown dimensions and ranks stay unknown), subgraphs as regions whose uses of outer values are those values; opset, IR version and producer are recorded. "
    "An operator that the configuration says to expand becomes a call of a private function that computes what the operator computes; no other operator does. "
    "None of this depends on which models were imported before, into the same or another module, with shared or separate caches, and the caller's model is not modified.",
    ["inputs", "histories", "configurations"],
    "For every valid ONNX model the importer supports, every expansion configuration and every history of imports sharing contexts, modules and caches.",
    "Tests import a handful of models once each; wiring, omitted operands, captured values and shared caches go wrong for particular models and histories.",
    [OX],
    [("walk of the graph", OX + ": NodeImporter"), ("types", OX + ": ContextCache"), ("expansion of function operators", OX + ": ModuleCache.get_operator_function")],
    observe=["the module after NodeImporter.import_all()"],
    check=(DST + "seeded import histories with injected failures against a structural and an evaluating oracle", OXNOTE),
)

prop(
    "C16",
    "A failed ONNX import is reported as such and leaves everything usable",
    "If a model cannot be imported, because it is invalid or uses what the importer does not support, the import raises OnnxImportError or onnx's own error, never an unrelated one, and never succeeds with something left out. "
    "An import that fails, for this reason, because MLIR reports an error, memory runs out or the user interrupts it, leaves the module valid and the functions imported before as they were, and leaves no unfinished function, "
    "no entered context and no modified model behind; imports that follow, with the same caches, context and module, come out as if it had not been attempted.",
    ["inputs", "fault_sequences", "histories"],
    "For every unsupported or invalid model, every point at which a call into MLIR fails, and every history of imports that shares contexts, modules and caches.",
    "Tests of errors look at one exception each and throw the module away; what a failure leaves behind shows in later imports only.",
    [OX],
    [("removal of unfinished functions", OX + ": NodeImporter.import_all"), ("errors of unsupported constructs", OX + ": OnnxImportError"), ("caches filled on success only", OX + ": ModuleCache, ContextCache")],
    observe=["the exception, and the module after a failed NodeImporter.import_all()"],
    check=(DST + "seeded failures at calls into MLIR and spoilt models within import histories", OXNOTE),
)

prop(
    "C17",
    "The ONNX import tool writes whole modules and touches nothing else",
    "A run of torch-mlir-import-onnx succeeds only if its output (file or standard output) is the whole module imported from the model with the given options, and it succeeds whenever the model can be imported and nothing fails. "
    "At every moment, and after any failure, interrupt or death of the process, the output file holds what it held before or a whole module. "
    "No run changes or removes a file of the user's (models, external data, other files beside them or in the directory for temporaries), no run leaves temporary files behind unless it died or was told to keep them, "
    "and runs at the same time on models in the same directory come out as if each were alone.",
    ["schedules", "crash_points", "fault_sequences", "configurations"],
    "For every model, set of options and size limit, every interleaving of runs in the same directories, and every file operation at which a process dies, is interrupted or meets a disk error.",
    "Tests run the tool once at a time on an intact disk; what is left after a failure, and what another run sees, depends on the moment.",
    [OT, OX],
    [("temporary directory of shape inference on files", OT + ": load_onnx_model"), ("writing of the output", OT + ": main")],
    observe=["contents of all files after every file operation of the tool, standard output, exceptions"],
    check=(DST + "simulated processes and disk with seeded crashes, errors and interleavings",
           "The real tool and importer run as simulated processes on a simulated disk; onnx's native file-based inference and MLIR are stand-ins." + COMMON),
)

DY = "projects/pt1/python/torch_mlir/dynamo.py"
DI = "projects/pt1/python/torch_mlir/_dynamo_fx_importer.py"
prop(
    "C18",
    "What TorchDynamo runs through Torch-MLIR is the program, call after call",
    "A program run with TorchDynamo through Torch-MLIR (make_simple_dynamo_backend, or its decompositions and import_fx_graph_as_func) gives in every call the results, the structure of results, the changes to arguments and state and the gradients that the program gives without it. "
    "An imported graph is one verified function of the given name that computes what the graph computes and carries the locations of its operations; a graph outside the documented subset is refused with an exception, never imported as something else. "
    "This holds whatever was compiled before, how often graphs are captured anew (other shapes, gradients, graph breaks, resets) and which convention for results the captured graph uses; "
    "an exception from the back end, the device or the bindings, or an interrupt, reaches the caller, and later calls are right again.",
    ["schedules", "fault_sequences", "crash_points", "configurations"],
    "For every program, sequence of calls and recompilations, calling convention, and every point at which the back end, the device or a binding call fails.",
    "Tests import or run each program once in a fresh process and without failures; conventions and state carried between graphs show over a history of them.",
    [DY, DI],
    [("calling convention of the wrapped back end", DY + ": make_simple_dynamo_backend"), ("binding of arguments to a schema's parameters", DI + ": _FXGraphImporter")],
    observe=["results, structure, arguments, gradients and state of every call against the same program without Torch-MLIR", "the imported modules, run by an interpreter"],
    check=(DST + "histories of captures and calls with seeded failures of back end, device and bindings",
           "Real TorchDynamo, AOTAutograd and Torch-MLIR code; MLIR's bindings and the device are stand-ins." + COMMON),
)

LG = "build_tools/autogen_ltc_backend.py"
prop(
    "C19",
    "The lazy backend's generated sources are those of the inputs as they are",
    "After every run of autogen_ltc_backend.py that ends successfully, the generated sources and the operator list in the build directory are exactly those that a first run in an empty build directory makes from the inputs as they are now: "
    "the script and its configuration, the dialect's operators, the handwritten shape functions and kernels, and PyTorch's operator declarations, templates, headers and generator. "
    "This holds after any history of edits (taken back or not), removed outputs, earlier runs that failed, were interrupted or died at any point or met disk errors, whatever the order of sets and whichever search tool is installed. "
    "A run does not succeed where a first run fails, and fails only where a first run fails or something goes wrong during it.",
    ["crash_points", "fault_sequences", "schedules", "configurations"],
    "For every history of edits, reverts, removals and runs, and every file operation at which a run dies or fails.",
    "There is no test; a developer runs the script once in a fresh build, where nothing is stale.",
    [LG, "projects/ltc/csrc/base_lazy_backend/CMakeLists.txt", "build_tools/autogen_ltc_backend.yaml"],
    [("deciding whether to generate", LG + ": main, GenTorchMlirLTC.hash_inputs"), ("missing shape functions", LG + ": generate_shape_inference")],
    observe=["contents of generated/ and generated_native_functions.yaml after every run", "how the run ended"],
    check=(DST + "histories of edits, reverts, removals and runs with crashes, torn writes, disk errors, interrupts and failing tools",
           "The real script and torchgen on a simulated disk; PyTorch's declarations are a part of the installed ones." + COMMON),
)

OG = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/torch_ods_gen.py"
AG = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
RG = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/registry.py"
LL = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/library_generator.py"
prop(
    "C20",
    "The dialect's generated sources are whole and those of the registered operators",
    "After a run of torch_ods_gen.py that succeeds, GeneratedTorchOps.td has one definition for each operator asked for, with the names, operands, results, types and traits (value semantics, read only, in-place) of the operator that is registered then; "
    "after a run of abstract_interp_lib_gen.py that succeeds, the string in AbstractInterpLibrary.cpp is, to a C++ compiler, the library imported from the script's functions, each under the name that the passes look for, with all functions they call. "
    "This holds whatever the order of registration, whatever else is registered and whichever extension modules registered it; the registry dump lists every operator once and in order. "
    "A run fails if an operator asked for is not registered, a type has no counterpart, a module cannot be imported, or a function does not agree with its operator's signature or with the operator; it fails only then or if something goes wrong. "
    "At every moment, and after any failure, interrupt or death of a run, each file holds what it held before or a whole generation. The committed files are generations for the PyTorch they were made for.",
    ["crash_points", "fault_sequences", "configurations", "inputs"],
    "For every registry, every set of library functions, every history of runs, and every file operation at which a run dies or fails.",
    "There is no test; a developer runs the scripts once, with the registry of one PyTorch and without failures.",
    [OG, AG, RG, LL, "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/testing_framework.py", "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/utils.py"],
    [("emission of definitions and their traits", OG + ": emit_ops; " + RG + ": JitOperator"), ("making of the library", LL + ": generate_library"), ("writing of the files", OG + ": main; " + AG + ": main")],
    observe=["contents of both files after every file operation of a run", "the registry dump", "how the run ended"],
    check=(DST + "histories of registries, edits and runs with crashes, torn writes, disk and native errors and interrupts",
           "The real scripts, TorchScript's compiler and PyTorch's operators on a simulated disk; the native importer prints what it is given." + COMMON),
)

# ------------------------------------------------------------ not applicable

NATIVE = "There is no MLIR and no LLVM in the sandbox, so the C++ cannot be built, and what the property says is a function of the input alone: "
prop(
    "N01",
    "Conversions and decompositions preserve the meaning of programs",
    "Every pass from the torch dialect to the backend contract, linalg, TOSA, StableHLO and TMTensor turns a module into one that computes the same values for all inputs, or refuses it.",
    ["inputs", "configurations"],
    "For every module of the torch dialect and every pipeline configuration.",
    "The end-to-end suite samples a few thousand programs with one input each.",
    ["lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp", "lib/Conversion/TorchToLinalg/TensorConstructors.cpp"],
    [("rewrite patterns", "lib/Dialect/Torch/Transforms, lib/Conversion")],
    na=NATIVE + "no schedule, time, I/O or fault for a simulator to decide.",
)
prop(
    "N02",
    "Shape and dtype functions agree with PyTorch on every input",
    "The library functions of abstract_interp_lib_gen.py give, for every operator and all arguments, the shapes and dtypes that PyTorch's operator gives, or fail where it fails.",
    ["inputs"],
    "For all argument shapes, dtypes and scalars of every operator in the library.",
    "The library's own checks are a handful of invocations per function.",
    ["projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"],
    [("@check_shape_function / @check_dtype_function", "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/testing_framework.py")],
    na="Pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour for a simulated schedule or fault to change; deciding it is input generation, another technique.",
)
prop(
    "N04",
    "The TorchScript importer preserves the meaning of scripted modules",
    "The native importer of TorchScript (ivalue and node importers, class annotations) turns a module into IR with the same meaning, object graph and annotations.",
    ["inputs"],
    "For every TorchScript module and class annotation.",
    "Lit tests import small modules.",
    ["projects/jit_ir_common/csrc/jit_ir_importer/ivalue_importer.cpp", "projects/jit_ir_common/csrc/jit_ir_importer/node_importer.cpp"],
    [("ivalue and node importer", "projects/jit_ir_common/csrc/jit_ir_importer")],
    na=NATIVE + "single-threaded C++ without I/O.",
)
prop(
    "N05",
    "The lazy tensor backend executes traced graphs once and in order",
    "Tensors of the lazy backend hold what eager execution would have given at every synchronisation point, whatever is traced, synchronised and dropped in between.",
    ["histories", "schedules"],
    "For every sequence of operations, synchronisations and device transfers.",
    "Example scripts run a few models.",
    ["projects/ltc/csrc/base_lazy_backend/backend_impl.cpp", "projects/ltc/csrc/base_lazy_backend/mlir_lowering_context.cpp"],
    [("lowering context and backend", "projects/ltc/csrc/base_lazy_backend")],
    na="The behaviour is in C++ (base_lazy_backend) against libtorch and MLIR headers and libraries that are not in the sandbox; a simulation would contain none of the real code.",
)
