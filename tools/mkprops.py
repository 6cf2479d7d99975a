#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

prop("C01", "Garbage collection never changes what a program does or what its values hold",
 "A program together with its host calls has the same observable behaviour (values, identities, order of effects, errors, results) no matter when and how often the garbage collector runs, including a run at every single allocation. Everything still reachable from a host handle, a running, waiting or not yet started coroutine, a loaded module, a pending resume token or completion callback, or a native function's arguments, locals and closure keeps its identity and its content.",
 ["programs", "schedules"], "for every program, every host call history and every placement of collections between allocations",
 "The tests almost never reach the threshold of 8 MiB at which the collector starts by itself, so nearly all of them run without one collection; no test varies where a collection happens.",
 ["src/vm/heap/collector.cpp", "src/vm/heap/heap.cpp", "src/vm/root_set.cpp", "src/vm/root_set.ipp", "src/vm/context.cpp", "src/vm/handles", "src/vm/interpreter.cpp", "src/vm/objects", "src/api"],
 [("mark phase over all roots and object layouts", "src/vm/heap/collector.cpp Collector::mark/trace"), ("root enumeration", "src/vm/root_set.ipp"), ("handle scopes", "src/vm/handles")],
 ["values logged by native functions called from scripts", "tiro_* accessors on handles", "finalizer calls of native objects"],
 "a collection before each n-th allocation on request, and overwriting of swept storage")

prop("C02", "Unreachable objects are reclaimed and finalizers run exactly once",
 "The finalizer of a native object is never called while the object is reachable; it is called exactly once, with the object's own data and size, by the first collection that finds it unreachable (also when it is part of a cycle), or at the latest when its virtual machine is freed. Storage of unreachable objects becomes usable again, so a program whose reachable data stays bounded can run indefinitely inside a bounded heap.",
 ["programs", "histories"], "for every object graph, every order of linking, unlinking and dropping, and every sequence of collections",
 "The unit tests check a handful of fixed graphs with one or two objects; cycles through closures, coroutines, tokens, modules and containers, repeated collections and reuse under a small limit are not exercised.",
 ["src/vm/heap/collector.cpp", "src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/objects/native.cpp", "src/vm/context.cpp", "src/api/objects.cpp"],
 [("sweep of pages and large objects", "src/vm/heap/chunks.cpp Page::sweep, src/vm/heap/heap.cpp Heap::sweep"), ("finalizer bits", "Page::mark_finalizer, Page::invoke_finalizers")],
 ["native finalizer callbacks", "success of further allocations under a small heap limit"],
 "a collection on request")

prop("C03", "Heap storage is disjoint, aligned, within the configured limit, and returned",
 "The storage of any two live objects never overlaps and has the requested alignment; a new object starts zeroed or null as documented. The memory a virtual machine obtains for its heap never exceeds the configured maximum: a request that would exceed it fails with an allocation error, after which the machine and all existing values are intact and usable. Freeing the machine returns all of it.",
 ["histories", "fault_sequences", "configurations"], "for every sequence of allocations of any sizes and types, drops and collections, and for every page size and heap limit",
 "The tests allocate a few objects of fixed sizes on one page size; splitting, coalescing and reuse of free blocks after arbitrary liveness patterns and exhaustion at arbitrary points are not covered.",
 ["src/vm/heap/heap.cpp", "src/vm/heap/chunks.cpp", "src/vm/heap/memory.cpp", "src/vm/heap/allocator.cpp"],
 [("free lists by size class", "src/vm/heap/heap.cpp FreeSpace"), ("block and mark bitmaps", "src/vm/heap/chunks.cpp Page"), ("limit check", "Heap::allocate_raw")],
 ["addresses and contents of native objects and buffers", "TIRO_ERROR_ALLOC", "process allocation counters"],
 "a collection on request")

prop("C04", "Ready coroutines run first-in first-out and each finishes exactly once",
 "Starting, resuming and yielding put a coroutine at the end of the ready queue; running the machine executes ready coroutines strictly from the front, each until it finishes, waits or yields, and returns only when no coroutine is ready. The machine reports ready work exactly when the queue is not empty. Every coroutine reports started and completed exactly as its life cycle implies and has exactly one final result: success with the returned value, or error with the uncaught panic.",
 ["schedules", "histories"], "for every interleaving of create, start, launch, yield, wait, resume, panic and run over any number of coroutines",
 "The tests run one to three coroutines through one fixed schedule each.",
 ["src/vm/context.cpp", "src/vm/interpreter.cpp", "src/vm/objects/coroutine.cpp", "src/api/objects.cpp", "src/api/vm.cpp", "src/vm/builtins/std.cpp"],
 [("ready queue", "src/vm/context.cpp schedule_coroutine/dequeue_coroutine"), ("state machine of a coroutine", "src/vm/objects/coroutine.hpp CoroutineState"), ("execution", "Context::run_ready, Context::execute_coroutine")],
 ["log of native calls made by coroutines", "tiro_vm_has_ready", "tiro_coroutine_started/completed/result"])

prop("C05", "A resume token wakes its own waiting coroutine at most once",
 "A value or panic handed to the token of a suspended native call resumes exactly the coroutine that waits in that call, exactly once, and that call evaluates to exactly that value (or panics with exactly that message). A token whose call was already resumed, was finished without waiting, or belongs to an earlier suspension is refused with an error and changes nothing, whether it is used from the host or from a script.",
 ["schedules", "histories"], "for every order in which tokens are acquired, used, used again, freed and mixed between coroutines and suspensions",
 "The tests resume one token once right after it was created, plus one double use.",
 ["src/vm/objects/coroutine.cpp", "src/vm/context.cpp", "src/vm/interpreter.cpp", "src/api/functions.cpp", "src/vm/objects/native.cpp", "src/vm/builtins/std.cpp"],
 [("current token check", "src/vm/objects/coroutine.cpp CoroutineToken, src/vm/context.cpp resume_coroutine"), ("async resume", "src/vm/objects/native.cpp / function frames")],
 ["result of the suspended call as seen by the script", "error codes of tiro_async_token_*", "return value of CoroutineToken.resume"])

prop("C06", "Completion callbacks and their cleanups run exactly once",
 "A completion callback runs exactly once, from within a run of the machine, after its coroutine completed and with that coroutine's final result, and never if the coroutine does not complete; a later registration on the same coroutine replaces an earlier one, which is then only cleaned up. The cleanup belonging to a callback, when given, runs exactly once: right after the callback, when the machine is freed before completion, or when registering the callback fails.",
 ["schedules", "histories"], "for every number of registrations per coroutine, every completion order, panics, failed registrations and shutdown at any point",
 "The tests register one callback on one coroutine.",
 ["src/vm/context.cpp", "src/vm/objects/coroutine.cpp", "src/api/objects.cpp"],
 [("callback of a coroutine", "src/vm/context.cpp set_callback/execute_callbacks"), ("shutdown", "Context::~Context")],
 ["callback and cleanup invocations with their userdata"])

prop("C07", "Native functions see their arguments and follow the documented call protocol",
 "A native function of any flavour sees exactly the arguments, closure and argument count of its call, and its call evaluates to the value it returned (null by default) or panics with its message; calls with a wrong number of arguments or on non-callable values panic. A resumable function is invoked in its start state first, then again after each state change or completed inner call with exactly the state it asked for, its locals keep their values, an inner call gets exactly the given arguments and hands back its return value, a panic of an inner call passes through it, and it is not invoked in an ordinary state after it returned or panicked.",
 ["programs", "histories"], "for every protocol behaviour of the native function, argument count, nesting of inner calls, and interleaving with other coroutines",
 "The tests contain one fixed state machine per feature.",
 ["src/api/functions.cpp", "src/vm/interpreter.cpp", "src/vm/objects/function_frames.cpp", "src/vm/objects/coroutine_stack.cpp", "src/vm/objects/function.cpp", "src/vm/objects/native.cpp"],
 [("frames per function flavour", "src/vm/interpreter.cpp run_frame"), ("frame API", "src/api/functions.cpp")],
 ["log written by the native functions", "values and panics seen by callers"])

prop("C08", "Deferred expressions run exactly once, in reverse order, on every exit",
 "Every deferred expression that was reached runs exactly once when control leaves its scope, in reverse order of being reached and innermost scope first, whether control leaves by falling through, break, continue, return or panic; one that was not reached does not run, and the value being returned is computed before them. A panic unwinds frame by frame, running exactly those pending deferred expressions, to the innermost guarded call, which receives it as an error result; a panic raised by a deferred expression during unwinding never hides the panic in flight (it is attached to it), and the remaining deferred expressions still run.",
 ["programs"], "for every nesting of scopes, loops, functions, defer statements, guarded calls and exits",
 "The tests have about ten fixed programs with defer; exits through several scopes, inside loops with conditions, with panics inside deferred code or across frames are not combined.",
 ["src/compiler/ir_gen/compile_stmt.cpp", "src/compiler/ir_gen/func.cpp", "src/compiler/bytecode_gen", "src/compiler/ir", "src/vm/interpreter.cpp", "src/vm/objects/coroutine_stack.cpp"],
 [("scope exit code generation", "src/compiler/ir_gen/func.cpp compile_scope_exit*"), ("exception handler table", "src/compiler/bytecode_gen"), ("unwinding", "src/vm/interpreter.cpp unwind")],
 ["log of native calls made by deferred expressions", "results of std.catch_panic and of coroutines"])

prop("C09", "Operands are evaluated once, left to right, and short circuits skip the rest",
 "Operands of operators, calls, method calls, element and member accesses, literals, interpolated strings, declarations and all forms of assignment are evaluated left to right, each exactly once: in an assignment the target's sub-expressions come before the assigned value, and the assigned value is the value of the assignment. `&&`, `||`, `??` and the optional forms `?.`, `?[`, `?(` evaluate what follows only when needed and skip the whole rest of the access chain otherwise; conditionals evaluate exactly one branch.",
 ["programs"], "for every expression built from these forms, nested arbitrarily, with side effects and panics in any operand",
 "The tests evaluate results of small expressions; the order and number of side effects is checked for a few fixed shapes only.",
 ["src/compiler/ir_gen/compile_expr.cpp", "src/compiler/ir_gen/compile_assign.cpp", "src/compiler/ir_gen/compile_value.cpp", "src/compiler/ir_passes", "src/compiler/bytecode_gen"],
 [("expression lowering", "src/compiler/ir_gen/compile_expr.cpp"), ("assignment lowering", "src/compiler/ir_gen/compile_assign.cpp"), ("value numbering and dead code removal", "src/compiler/ir_gen, src/compiler/ir_passes")],
 ["log of native calls placed in the operands"])

prop("C10", "A compiled program computes exactly what its source says",
 "For every accepted program, executing the compiled code yields the values, panics and effects that the language's block structure, variables, functions and control flow prescribe: variables keep what was last assigned, closures share the variables they capture by reference while each evaluation of a declaration makes a fresh variable, loops and conditionals follow their conditions, functions get their own locals at every call and recursion depth. No optimisation, constant folding, caching of module members or register assignment changes a result.",
 ["programs"], "for every accepted program and every input value",
 "The 94 evaluation tests are small fixed programs; interactions of loops, captured variables, simultaneous assignments, many live values, dead and constant code are unbounded.",
 ["src/compiler", "src/vm/interpreter.cpp", "src/bytecode"],
 [("IR generation", "src/compiler/ir_gen"), ("optimisation passes", "src/compiler/ir_passes"), ("register allocation and parallel copies", "src/compiler/bytecode_gen"), ("interpreter", "src/vm/interpreter.cpp")],
 ["log of native calls made by the program", "results of exported functions"])

prop("C11", "Maps and sets are insertion-ordered dictionaries",
 "After any sequence of operations, a map or set contains exactly the keys inserted and not since removed, each with its most recently stored value, and reports their exact number; a lookup finds precisely those. Iterating a map, its key view, its value view or a set (not modified meanwhile) visits each entry exactly once in order of first insertion, where overwriting keeps the position and reinsertion after removal moves to the end.",
 ["histories", "inputs"], "for every history of insert, overwrite, remove, clear, lookup and iterate, over keys of every hashable kind and with arbitrary hash collisions, at every size",
 "The unit tests insert and remove fixed key ranges; collision chains combined with removals and reinsertion at particular positions and growth boundaries are not covered.",
 ["src/vm/objects/hash_table.cpp", "src/vm/objects/hash_table.hpp", "src/vm/objects/set.cpp", "src/vm/hash.cpp", "src/vm/interpreter.cpp"],
 [("robin hood index with backward shift", "src/vm/objects/hash_table.cpp"), ("entry array with tombstones and compaction", "src/vm/objects/hash_table.cpp")],
 ["script operations on maps and sets and their results"])

prop("C12", "Arrays, tuples, records, results and buffers behave as their documentation says",
 "Every container holds exactly what was last stored at each position or property and reports its exact size; arrays append, pop, clear and grow to any size in order, and iterate in order. An access that is out of bounds, on a missing property, on the wrong kind of value or in the wrong state reports the documented error (a panic inside scripts) and changes nothing.",
 ["histories", "inputs"], "for every history of operations with valid and invalid arguments, from the host and from scripts",
 "The tests call every operation once or twice with fixed arguments on small containers.",
 ["src/vm/objects/array.cpp", "src/vm/objects/array_storage_base.hpp", "src/vm/objects/tuple.cpp", "src/vm/objects/record.cpp", "src/vm/objects/result.cpp", "src/vm/objects/buffer.cpp", "src/api/objects.cpp", "src/vm/interpreter.cpp"],
 [("bounds and type checks", "src/api/objects.cpp, src/vm/context.cpp/type_system.cpp load_index/store_index"), ("growth", "src/vm/objects/array.cpp")],
 ["tiro_* container functions and their error codes", "results and panics of script operations"])

prop("C13", "Strings, slices and builders hold exactly the characters put into them",
 "Literals with their escapes, interpolated strings, string builders, slices and their methods yield exactly the character sequences defined by their parts: building by any sequence of appends equals concatenation, a slice equals the addressed part of its source, sizes are exact, and comparing a string with any other string is true exactly when the contents are equal. Values render inside interpolated strings as the text the language defines for them.",
 ["inputs", "histories"], "for every content, split, nesting of slices and sequence of builder operations",
 "The tests use fixed strings of a few characters.",
 ["src/vm/objects/string.cpp", "src/compiler/ast_gen", "src/compiler/syntax", "src/vm/object_support/to_string.cpp", "src/vm/interpreter.cpp"],
 [("string builder and slices", "src/vm/objects/string.cpp"), ("string literals", "src/compiler/ast_gen"), ("rendering", "src/vm/object_support")],
 ["tiro_string_value of results", "script comparisons"])

prop("C14", "Modules initialise once, after their dependencies, or fail cleanly",
 "A loaded module's initialiser runs to success at most once, at the module's first use and after the initialisers of everything it imports have succeeded, and its exports are exactly its exported members with their initialised values; unused modules are not initialised. Duplicate module names are refused, and missing modules, missing exports, import cycles and failing initialisers are reported as errors every time, never by running code whose imports are not initialised, and without affecting other modules. An initialiser that does not finish within the run started for it counts as failed.",
 ["histories", "programs"], "for every import graph, including cyclic and incomplete ones, every load order and every order of requesting exports",
 "The tests use one or two modules and one fixed cycle, and never ask again after a failure.",
 ["src/vm/modules/load.cpp", "src/vm/modules/registry.cpp", "src/vm/modules/verify.cpp", "src/vm/objects/module.cpp", "src/api/vm.cpp"],
 [("depth first resolution", "src/vm/modules/registry.cpp resolve_module"), ("loading and linking", "src/vm/modules/load.cpp")],
 ["log of native calls in initialisers", "tiro_vm_load_bytecode, tiro_vm_get_export, tiro_module_get_export"])

prop("C15", "The compiler accepts exactly the well-formed programs",
 "A program is accepted exactly if it obeys the static rules of the language: names are declared in scope and not declared twice in it, constants are initialised and never assigned, assignment targets are assignable and tuple targets are not used with compound operators, break and continue are inside a loop of the same function, return is inside a function, values are not taken from expressions that have none, exports and imports are at module level and unique, and the concrete syntax fits the grammar. Every rejected program produces at least one error message and no module; every accepted one yields a module and no error message.",
 ["programs"], "for every program, valid or with any single or combined rule violation at any place",
 "The tests contain a few rejected snippets per rule at one fixed place.",
 ["src/compiler/semantics", "src/compiler/ast_gen", "src/compiler/syntax", "src/compiler/ir_gen", "src/compiler/compiler.cpp", "src/api/compiler.cpp"],
 [("name resolution", "src/compiler/semantics/symbol_resolution.cpp"), ("structure checks", "src/compiler/semantics/structure_check.cpp"), ("value checks", "src/compiler/semantics/type_check.cpp"), ("parser", "src/compiler/syntax")],
 ["tiro_compiler_run, tiro_compiler_has_module, diagnostics"])

prop("C16", "Integer arithmetic is exact or panics",
 "Integers behave as 64 bit two's complement values without wrap-around: every arithmetic operation yields the mathematically exact result (division and remainder truncate toward zero, powers are exact) or panics if that result is not representable or not defined. This holds identically for operands known at compile time and at run time, through every internal representation, for comparison and ordering, literals in every base and integers passed to and from the host.",
 ["inputs"], "for every pair of 64 bit operands and every operator, as constants, variables and host values",
 "The tests use a few dozen fixed operand pairs, mostly small.",
 ["src/vm/math.cpp", "src/compiler/ir_gen/const_eval.cpp", "src/common/math.hpp", "src/common/safe_int.hpp", "src/vm/value.hpp", "src/vm/objects/primitives.cpp", "src/compiler/syntax"],
 [("checked operators", "src/vm/math.cpp"), ("constant folding", "src/compiler/ir_gen/const_eval.cpp"), ("small and boxed integers", "src/vm/value.hpp")],
 ["results and panics of script operators", "tiro_integer_value"])

prop("C17", "Equality is an equivalence, and equal keys are the same key",
 "Script equality is reflexive, symmetric and transitive on all values except not-a-number, `!=` is its negation, and it compares null, booleans, numbers, strings and symbols by content and all other objects by identity. Keys that are equal address the same map and set entry, and keys that are not equal address different entries, whatever their kinds and internal representations; ordering comparisons of numbers are consistent with equality.",
 ["inputs"], "for every pair and triple of values of all kinds",
 "The tests compare a few pairs of the same kind.",
 ["src/vm/value.cpp", "src/vm/hash.cpp", "src/vm/objects/hash_table.cpp", "src/vm/math.cpp", "src/vm/objects/string.cpp", "src/compiler/ir_gen/const_eval.cpp"],
 [("equal and hash", "src/vm/value.cpp")],
 ["script ==, !=, <, <=, >, >=, map and set lookups"])

prop("C18", "Operator precedence and grouping follow the language grammar",
 "Every expression is grouped by the language's fixed precedence and associativity table: it computes the same as its fully parenthesised form, prefix and postfix operators included. Parentheses, whitespace, line breaks where allowed and comments never change the meaning of a program otherwise.",
 ["programs"], "for every combination and nesting of operators",
 "The tests parse a few fixed mixes of operators.",
 ["src/compiler/syntax/grammar", "src/compiler/syntax", "src/compiler/ast_gen"],
 [("precedence climbing", "src/compiler/syntax/grammar/expr.cpp"), ("operator table", "src/compiler/syntax/grammar/operators.cpp")],
 ["values computed by operator expressions"])

prop("C19", "Invalid bytecode is rejected and compiled bytecode is always accepted",
 "Before any of its code runs, a module is checked: a module with a malformed instruction, a register, argument, constant, jump or handler reference out of range, a jump into the middle of an instruction, or code that can run past its end is rejected with an error and not registered. Every module produced by the compiler is accepted, and on every path through its code, registers are read only after they were written and calls and container constructions take exactly values that were pushed for them. A refused module leaves no trace: another module can be loaded under its name.",
 ["inputs"], "for every module obtained from a compiled one by changing operands, opcodes, tables or lengths",
 "The tests check one hand-written module per rule.",
 ["src/vm/modules/verify.cpp", "src/bytecode/reader.cpp", "src/bytecode/writer.cpp", "src/vm/modules/load.cpp"],
 [("module verifier", "src/vm/modules/verify.cpp")],
 ["result of loading a module"])

prop("C20", "Virtual machines in one process are independent of each other",
 "Several virtual machines can be used side by side in any interleaving, and each behaves exactly as it would alone; freeing one does not disturb the others. This includes operations on one machine from within a native function or callback of another one, and machines used at the same time by different threads (one thread per machine). Native functions, callbacks, output and finalizers of a machine are invoked with that machine and its user data.",
 ["schedules", "histories"], "for every interleaving of the operations of two or more machines",
 "All tests use one machine at a time.",
 ["src/api/vm.cpp", "src/api/internal.hpp", "src/vm/context.cpp", "src/vm/heap"],
 [("no shared mutable state", "src/vm/context.cpp"), ("machine of a frame, userdata", "src/api/internal.hpp")],
 ["the complete observation log of each machine"])

prop("C21", "Host calls report errors as documented and fail without side effects",
 "Every host interface function given a missing argument, a value of the wrong kind, an out of range size or a wrong state reports the documented error code through its error argument, leaves its output and all values unchanged, and never crashes; an error already present in the error argument is kept. Successful calls leave the error argument untouched.",
 ["inputs", "histories"], "for every function of the interface, every argument position and every kind of value",
 "The tests try one or two invalid arguments for some functions.",
 ["src/api", "include/tiro"],
 [("argument checks", "src/api/*.cpp"), ("error reporting", "src/api/error.cpp")],
 ["error codes, outputs and values after each call"])

prop("C22", "Source text is divided into the language's tokens, at their true places",
 "The compiler divides every source text into the tokens of the language: the longest match at each position, nested comments, all number, symbol and identifier forms, strings with escapes, $names and nested ${...} blocks. No token is lost, merged, split or invented, text that no token can begin with is reported, and every token, node and diagnostic is reported at its true line and column (counted in code points). Text that is not valid UTF-8 is rejected with a diagnostic at the first invalid byte.",
 ["inputs"], "for every source text, including damaged ones and arbitrary bytes",
 "The lexer tests list single tokens and a few combinations; they do not cover how neighbouring tokens, nested strings and comments and multi byte characters combine.",
 ["src/compiler/syntax/lexer.cpp", "src/compiler/source_map.cpp", "src/common/text", "src/compiler/compiler.cpp"],
 [("token rules and the stack of string states", "src/compiler/syntax/lexer.cpp Lexer"), ("offsets to lines and columns", "src/compiler/source_map.cpp SourceMap::cursor_pos"), ("decoding", "src/common/text/unicode.cpp")],
 ["dumped concrete syntax tree (TIRO_ATTACHMENT_CST)", "diagnostics of tiro_compiler_run"])

prop("C23", "A file is accepted exactly if it is in the grammar, with the grammar's tree",
 "The compiler accepts the syntax of a file exactly if the token sequence is a sentence of the language's grammar, and then gives it the tree that the grammar defines (nesting, precedence, associativity, optional parts). Every other text is rejected with at least one error whose place lies inside the text. No text whatsoever makes the compiler fail with an internal error, crash or not terminate.",
 ["inputs"], "for every source text: sentences of the grammar, almost-sentences and arbitrary token sequences",
 "The parser tests check one typical use per construct and very few of the malformed variants, one at a time.",
 ["src/compiler/syntax/grammar", "src/compiler/syntax/parser.cpp", "src/compiler/syntax/build_syntax_tree.cpp", "src/compiler/ast_gen", "src/compiler/compiler.cpp"],
 [("recursive descent grammar", "src/compiler/syntax/grammar/*.cpp"), ("events to trees", "src/compiler/syntax/build_syntax_tree.cpp"), ("trees with and without errors to the syntax objects used later", "src/compiler/ast_gen")],
 ["result of tiro_compiler_run", "diagnostics", "attachments (CST, AST, IR, bytecode)"])

prop("C24", "Descriptions of values and stack traces say what is really there",
 "std.debug_repr describes every value, on one line or pretty printed, in one defined text form: literals in source notation with every character escaped unambiguously, containers with all their elements in order, cycles cut exactly where a value contains itself, type names for opaque values; std.type_of and the types exported by std agree with it. Number literals denote the nearest value. When stack traces are enabled, an exception carries exactly the functions active where it was raised, innermost first, whatever jumps, panics, cleanups and resumptions happened before; without them it carries none.",
 ["inputs", "programs", "histories"], "for every value (shared, cyclic, of arbitrary bytes), every program and every history of coroutines",
 "The tests describe one value of each kind and one cycle, and compare one stack trace of a chain of plain calls.",
 ["src/vm/builtins/dump.cpp", "src/vm/builtins/std.cpp", "src/vm/objects/exception.cpp", "src/vm/interpreter.cpp", "src/vm/objects/coroutine_stack.cpp", "src/compiler/syntax/grammar/literals.cpp"],
 [("recursive dump with the set of values being visited", "src/vm/builtins/dump.cpp DumpHelper"), ("walk over the frames of the running coroutine", "src/vm/objects/exception.cpp Exception::make_impl")],
 ["std.debug_repr, std.type_of, std.schema_of, Coroutine.name, Result.type", "tiro_exception_trace"])

prop("C25", "Floating point operations, literals and texts are exact up to one rounding",
 "Arithmetic, remainder, negation, integral powers, std.abs, floor, ceil, round and sqrt on floating point numbers give the IEEE 754 double precision result (the exact result rounded once to nearest, ties to even, with signed zeros, subnormals, infinities and nan), and integers taking part are converted to the nearest float. Comparisons of floats with each other and with integers are exact; nan is unordered and equal to nothing. A decimal literal denotes the float nearest to it and the text of a float denotes that float. It makes no difference whether the compiler or the machine evaluates an operation.",
 ["inputs"], "for every pair of operands of every magnitude, as constants and at run time",
 "A handful of small values is tested, nearly all of them exactly representable, and constant folding and execution are tested apart from each other.",
 ["src/vm/math.cpp", "src/vm/builtins/std.cpp", "src/compiler/ir_gen/const_eval.cpp", "src/compiler/ir_gen/compile_value.cpp", "src/compiler/syntax/grammar/literals.cpp", "src/common/math.hpp", "src/vm/objects/primitives.cpp"],
 [("operators at run time", "src/vm/math.cpp binary_op, compare"), ("constant folding", "src/compiler/ir_gen/const_eval.cpp"), ("literals", "src/compiler/syntax/grammar/literals.cpp parse_float_value")],
 ["results of operators and functions (tiro_float_value)", "std.debug_repr and interpolation of floats"])

prop("C26", "The C++ interface owns handles, objects and callbacks exactly, and maps errors",
 "A handle of the C++ interface (tiropp) owns exactly one reference: copies, moves, assignments and conversions (also those that fail) neither lose nor share it, a moved-from handle is invalid and every use of an invalid handle is reported. Every operation does what the function of the C interface does that it stands for, and reports its error as the matching exception (api_error with the code, bad_handle_cast, bad_handle_check, generic_error) without any other effect. Native objects, native functions' state and coroutine callbacks are destroyed exactly once: when destroyed explicitly, at the latest with the machine, also when registering or creating them is refused, and never while reachable; a callback is invoked at most once, with its coroutine. Exceptions thrown by native functions become panics with their message, and of several actions of a frame the last one counts.",
 ["inputs", "histories"], "for every sequence of operations on handles of several machines",
 "The tests call each function of the interface once or twice with proper arguments; ownership across failures, moves, refused memory and the end of a machine depends on histories.",
 ["include/tiropp/objects.hpp", "include/tiropp/functions.hpp", "include/tiropp/native_type.hpp", "include/tiropp/compiler.hpp", "include/tiropp/vm.hpp", "include/tiropp/error.hpp", "include/tiropp/detail/handle_check.hpp", "src/api/objects.cpp"],
 [("handles", "include/tiropp/objects.hpp handle"), ("native functions and frames", "include/tiropp/functions.hpp"), ("native objects", "include/tiropp/native_type.hpp"), ("errors", "include/tiropp/error.hpp, src/api/error.cpp")],
 ["results and exceptions of the C++ interface", "constructor and destructor calls of native objects, callbacks and function objects"])

prop("C30", "Transcendental functions are numerically accurate",
 "The results of std.sin, cos, tan, asin, acos, atan, log and of powers with other than integral exponents are accurate to the last digits.",
 ["inputs"], "for every argument",
 "A handful of values is tested.",
 ["src/vm/builtins/std.cpp"], [("delegation to the C library", "src/vm/builtins/std.cpp")], ["results of std.* math functions"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
