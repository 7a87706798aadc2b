#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or ["values, exceptions and output of evaluated scripts"], "hook_needed": None}})
NJS = "The 59 stable tests only drive the native-module generator (njsgen); none of them exercises this part beyond what loading njsgen's own scripts happens to need. "
L = "src/lib/"

p("L01", "Statements, control flow and exceptions follow the language semantics",
  "Every synchronous program evaluates its statements and expressions in the order the ECMAScript specification prescribes: loops, labelled break and continue, switch, try/catch/finally with every kind of completion, closures capturing per-iteration bindings, templates, optional chains and compound assignments produce exactly the specified sequence of effects, result values and thrown errors.",
  ["programs"], "All terminating synchronous programs.",
  NJS + "Semantics must hold for every combination of nested constructs, of which there are infinitely many.",
  [L+"rjs_parser.c", L+"rjs_bc_gen.c", L+"rjs_bc_call.c", L+"rjs_code_gen_inc.c", L+"rjs_context.c", "gen/bc/bc.json"],
  [("bytecode generation", L+"rjs_bc_gen.c"), ("bytecode interpreter", L+"rjs_bc_call.c"), ("try/finally completion records", L+"rjs_bc_gen.c, rjs_bc_call.c")])
p("L02", "Bindings: scopes, hoisting, temporal dead zones, eval, with and globals",
  "Name resolution follows the specification for every nesting of blocks, functions, parameters, catch clauses, with statements, direct and indirect eval and global code: the reference resolves to the right binding, uninitialised lexical bindings throw ReferenceError, constants reject assignment, var and function declarations are hoisted and global declarations create or reject bindings as specified, in sloppy and strict code.",
  ["programs"], "All programs made of declarations, assignments, deletions, typeof and eval over nested scopes.",
  NJS + "Binding resolution is cached and depends on the whole nesting, so a few samples say nothing about other nestings.",
  [L+"rjs_environment.c", L+"rjs_decl_env.c", L+"rjs_global_env.c", L+"rjs_object_env.c", L+"rjs_function_env.c", L+"rjs_eval_opt.c", L+"rjs_bc_gen.c", L+"rjs_script.c"],
  [("declaration instantiation", L+"rjs_script.c, rjs_bc_gen.c"), ("binding cache", L+"rjs_environment.c")])
p("L03", "Function calls, parameters and arguments objects",
  "Calling and constructing functions binds parameters (defaults, rest, patterns), this, new.target and the arguments object exactly as specified: mapped arguments objects stay linked to their parameters until the link is broken, unmapped ones never are, and call, apply, bind, Reflect.apply/construct and function name, length and prototype properties behave as specified for any arguments.",
  ["programs", "histories"], "All function shapes, call forms and sequences of reads, writes, deletions and redefinitions of arguments elements and parameters.",
  NJS + "The parameter/arguments aliasing is state that depends on the history of operations.",
  [L+"rjs_arguments_object.c", L+"rjs_script_func_object.c", L+"rjs_function.c", L+"rjs_bound_func_object_opt.c", L+"rjs_function_object_inc.c", L+"rjs_bc_call.c"],
  [("arguments mapping", L+"rjs_arguments_object.c"), ("ordinary call/construct", L+"rjs_script_func_object.c")])
p("L04", "Classes: fields, private names, accessors, inheritance and super",
  "Class definitions and instances behave as specified: computed keys and static blocks are evaluated in order, fields are initialised once in order on construction, private members are accessible only through objects that carry them and throw TypeError otherwise, derived constructors must initialise this exactly once, and super property access and calls resolve through the home object.",
  ["programs"], "All class hierarchies with any mix of members, access sequences and misuse.",
  NJS + "The order and brand checks must hold for every mix of members.",
  [L+"rjs_bc_gen.c", L+"rjs_bc_call.c", L+"rjs_private_name_opt.c", L+"rjs_function_env.c", L+"rjs_script_func_object.c"],
  [("private names and elements", L+"rjs_private_name_opt.c"), ("class definition evaluation", L+"rjs_bc_call.c")])
p("L05", "Destructuring, spread and iteration close their iterators correctly",
  "Destructuring binding and assignment, spread, for-of, for-in and every builtin that consumes an iterable call next, read done and value, evaluate targets and defaults, and call return in exactly the specified order and number, on normal, abrupt and throwing paths, and for-in visits exactly the specified keys.",
  ["programs", "fault_sequences"], "All patterns and consumers over iterators that may be exhausted, throw or misbehave at any step.",
  NJS + "Iterator-close behaviour differs for every step at which an abrupt completion can occur.",
  [L+"rjs_iterator.c", L+"rjs_for_in_iterator.c", L+"rjs_bc_gen.c", L+"rjs_bc_call.c"],
  [("iterator state stack", L+"rjs_bc_call.c"), ("IteratorClose", L+"rjs_iterator.c")])
p("L06", "Generators suspend and resume exactly as specified",
  "Every history of next, throw and return calls on a generator yields the specified results: execution resumes where it stopped with all local state intact, abrupt resumptions run finally blocks, yield* delegates every operation, re-entrance throws TypeError, and a finished generator stays finished.",
  ["programs", "histories"], "All generator bodies and all finite histories of operations on them.",
  NJS + "A generator's behaviour depends on its whole resumption history.",
  [L+"rjs_generator_opt.c", L+"rjs_generator_object_inc.c", L+"rjs_context.c", L+"rjs_bc_call.c"],
  [("generator context save/restore", L+"rjs_context.c"), ("generator states", L+"rjs_generator_opt.c")])
p("L07", "Promise reactions and async functions run in the specified order",
  "For every program using promises, thenables, async functions and the Promise combinators, the jobs run in exactly the specified order, each reaction at most once, promises settle once with the specified value or reason, and nothing runs before the current script has finished.",
  ["programs", "schedules"], "All programs building graphs of promises, thenables and async functions that settle in any order, including misbehaving thenables and subclasses.",
  NJS + "Ordering is a property of the whole interleaving of jobs.",
  [L+"rjs_promise.c", L+"rjs_promise_object_inc.c", L+"rjs_job.c", L+"rjs_async_function_opt.c"],
  [("promise reactions", L+"rjs_promise.c"), ("job queue", L+"rjs_job.c")])
p("L08", "Async generators serve their request queues as specified",
  "For every body and every history of next, throw and return requests on an async generator, and for every for-await loop, the requests are answered in order with the specified results, awaits and yields are interleaved with other jobs in the specified order, and abrupt completions close the source iterators.",
  ["programs", "histories", "schedules"], "All async generator bodies, request histories and for-await consumers over sync and async iterables.",
  NJS + "The queue semantics depend on the interleaving of requests with jobs.",
  [L+"rjs_generator_opt.c", L+"rjs_async_generator_object_inc.c", L+"rjs_async_function_opt.c", L+"rjs_iterator.c"],
  [("request queue", L+"rjs_generator_opt.c"), ("async-from-sync iterator", L+"rjs_iterator.c")])
p("L09", "The parser accepts exactly the programs of the ECMAScript grammar",
  "A script that is valid ECMAScript is accepted whatever its layout, and a script that violates the grammar or an early-error rule (duplicate declarations, invalid assignment targets, misplaced yield, await, return, break, super, private names, strict-mode restrictions, malformed literals, templates and regular expressions) is rejected with a SyntaxError before any of it runs; automatic semicolon insertion applies exactly where specified.",
  ["inputs"], "All source texts, generated from the grammar or mutated at the token level.",
  NJS + "The language is infinite; tests contain a handful of well-formed scripts and no ill-formed ones.",
  [L+"rjs_lex.c", L+"rjs_parser.c", L+"rjs_regexp.c", "gen/lextab/lextab.c", L+"rjs_code_gen_inc.c"],
  [("lexer", L+"rjs_lex.c"), ("cover grammars and early errors", L+"rjs_parser.c")])
p("L10", "Operators and type conversions",
  "Every unary, binary, logical, relational, equality, shift, update and assignment operator, and every implicit conversion to primitive, number, string, boolean, BigInt or property key, produces the specified value or error for operands of every type and calls user conversion methods in the specified order with the specified hint.",
  ["inputs"], "All operators applied to all pairs of operand values.",
  NJS + "The value space is infinite and full of edge cases (signed zeros, NaN, 2^32 boundaries, BigInt mixing).",
  [L+"rjs_number.c", L+"rjs_bc_call.c", L+"rjs_operation.c", "include/ratjs/rjs_operation.h", L+"rjs_value.c"],
  [("operator bytecodes", L+"rjs_bc_call.c"), ("number operations", L+"rjs_number.c")])
p("L11", "Modules link, evaluate and share live bindings as specified",
  "For every graph of modules, including cycles, re-exports, star exports, namespaces, dynamic imports, top-level await and failing modules, each module is evaluated at most once in the specified order, imports see live bindings, unresolvable or ambiguous names make linking fail without evaluating anything, errors are propagated to every importer and cached.",
  ["programs", "configurations"], "All finite graphs of modules with any import and export forms.",
  NJS + "Order, liveness and resolution are properties of the whole graph.",
  [L+"rjs_module_opt.c", L+"rjs_module_env_opt.c", L+"rjs_module_ns_object_opt.c"],
  [("link/evaluate DFS", L+"rjs_module_opt.c"), ("namespace objects", L+"rjs_module_ns_object_opt.c")])

p("B01", "Numbers and strings convert into each other exactly",
  "Converting a number to a string gives the shortest decimal text that reads back as the same number (and the specified text for toFixed, toPrecision, toExponential and toString with a radix), and converting text to a number (literals, Number, parseFloat, parseInt) gives the correctly rounded value for exactly the texts of the respective grammar, NaN or the specified prefix behaviour otherwise.",
  ["inputs"], "All doubles, all formatting arguments and all texts.",
  NJS + "There are 2^64 doubles and infinitely many texts; rounding errors show on few of them.",
  [L+"rjs_number.c", L+"rjs_number_object_inc.c", L+"rjs_dtoa.c", L+"rjs_strtoi.c", L+"rjs_global_object.c", L+"rjs_string.c", L+"rjs_lex.c"],
  [("dtoa/strtod", L+"rjs_dtoa.c"), ("number formatting", L+"rjs_number_object_inc.c")])
p("B02", "BigInt arithmetic is exact",
  "Arithmetic, bitwise, shift, comparison and equality operations on BigInts, mixed comparison with numbers and strings, conversion from and to strings in every radix and numbers, and asIntN and asUintN give the exact mathematical result for operands of any size and sign, with RangeError and TypeError where specified.",
  ["inputs"], "All integers of any size, all radices and bit widths.",
  NJS + "Carry, borrow and normalisation errors show only on particular digit patterns.",
  [L+"rjs_big_int_internal_opt.c", L+"rjs_big_int_object_inc.c"],
  [("multi-digit arithmetic", L+"rjs_big_int_internal_opt.c")])
p("B03", "Math functions",
  "The Math functions return the specified results: exactly for the functions the specification defines exactly (abs, ceil, floor, round, trunc, sign, sqrt, fround, imul, clz32, min, max, hypot and pow edge cases), within a few units in the last place for the transcendental ones, with the specified handling of NaN, infinities and signed zeros and of argument conversion order.",
  ["inputs"], "All argument lists of doubles and convertible values.",
  NJS + "The domain is all doubles.",
  [L+"rjs_math_object_inc.c", L+"rjs_number.c"], [("Math functions", L+"rjs_math_object_inc.c")])
p("B04", "String values and methods work on UTF-16 code units as specified",
  "Every String method and constructor function, string indexing, comparison, concatenation, iteration, case conversion, normalisation, trimming, padding and searching returns the specified result for arbitrary sequences of UTF-16 code units, including unpaired surrogates, and arbitrary arguments, converting them in the specified order.",
  ["inputs"], "All strings and argument lists.",
  NJS + "Unicode and index edge cases are unbounded.",
  [L+"rjs_string.c", L+"rjs_string_object_inc.c", L+"rjs_uchar_icu_opt.c", L+"rjs_uchar_buffer.c"],
  [("string methods", L+"rjs_string_object_inc.c"), ("string representation", L+"rjs_string.c")])
p("B05", "Regular expressions match exactly what the pattern semantics say",
  "For every pattern valid in the grammar of the main specification text (without the Annex B extensions of patterns lacking the flag u), every flags and every subject, exec finds the leftmost match the backtracking semantics prescribe, with the right captures, named groups, indices and lastIndex; invalid patterns throw SyntaxError.",
  ["inputs"], "All patterns, flags and subjects (Unicode and not).",
  NJS + "Matching is a search over an unbounded space of pattern/subject pairs.",
  [L+"rjs_regexp.c", L+"rjs_regexp_object_inc.c", L+"rjs_unicode_property_inc.c"],
  [("pattern parser and matcher", L+"rjs_regexp.c")])
p("B06", "RegExp-driven string methods follow their protocols",
  "match, matchAll, replace, replaceAll, search, split, test and the Symbol.* methods of RegExp compute the specified result, substitutions ($1, $<name>, $&, $`, $', functions), lastIndex updates and calls to overridable exec, flags, species and constructor for all regular expressions, flags, strings and replacement values.",
  ["inputs", "histories"], "All combinations of regexps, subjects, replacements and overridden protocol members, and call sequences on one regexp object.",
  NJS + "Results depend on lastIndex state and on user-overridable hooks.",
  [L+"rjs_regexp_object_inc.c", L+"rjs_string_object_inc.c", L+"rjs_string.c"],
  [("Symbol.replace/split/match", L+"rjs_regexp_object_inc.c"), ("GetSubstitution", L+"rjs_string.c")])
p("B07", "Array methods",
  "Every Array constructor and prototype method returns the specified result and leaves the receiver in the specified state, for dense and sparse arrays, arrays with accessors or frozen elements, array-likes and proxies, any arguments, and callbacks that change the array while it is being processed, reading and writing properties in the specified order.",
  ["inputs", "histories"], "All receivers, arguments and callback behaviours, and sequences of methods on one array.",
  NJS + "Holes, lengths near limits, species and mutation during iteration cannot be sampled by hand.",
  [L+"rjs_array.c", L+"rjs_array_object_inc.c", L+"rjs_object.c"],
  [("array exotic length", L+"rjs_array.c"), ("array methods", L+"rjs_array_object_inc.c")])
p("B08", "Sorting is stable, ordered and a permutation",
  "Array, array-like and typed-array sorting yields a stable permutation of the input ordered by the comparator (or the default order), with undefined and holes last, and with an inconsistent or throwing comparator it still neither loses nor duplicates elements it was specified to keep, nor crashes.",
  ["inputs"], "All arrays, lengths and comparators.",
  NJS + "Stability and permutation are universally quantified over inputs and comparator outcomes.",
  [L+"rjs_sort.c", L+"rjs_array_object_inc.c", L+"rjs_typed_array_object_inc.c"],
  [("merge sort", L+"rjs_sort.c")])
p("B09", "Typed arrays",
  "Typed array construction, element access, conversion of stored values, canonical numeric keys and every %TypedArray% method behave as specified for all element types, offsets and lengths, overlapping views of one buffer, buffers detached at any moment, and arguments of any type.",
  ["inputs", "histories"], "All views over shared buffers, element types, arguments and sequences of operations, including detachment.",
  NJS + "Aliasing and detachment make behaviour history dependent.",
  [L+"rjs_typed_array_opt.c", L+"rjs_typed_array_object_inc.c", L+"rjs_int_indexed_object_opt.c", L+"rjs_array_buffer_opt.c"],
  [("integer-indexed exotic objects", L+"rjs_int_indexed_object_opt.c"), ("element conversion", L+"rjs_array_buffer_opt.c")])
p("B10", "ArrayBuffer and DataView access bytes exactly",
  "ArrayBuffer and DataView operations read and write exactly the addressed bytes with the specified element encoding and endianness, reject every out-of-range or detached access, and convert arguments in the specified order.",
  ["inputs", "histories"], "All sequences of slice, get and set operations with any offsets, values and endianness.",
  NJS + "Encodings and bounds must hold for every value and offset.",
  [L+"rjs_array_buffer_opt.c", L+"rjs_array_buffer_object_inc.c", L+"rjs_data_view_object_inc.c", L+"rjs_data_block_opt.c"],
  [("raw bytes conversion", L+"rjs_array_buffer_opt.c"), ("DataView", L+"rjs_data_view_object_inc.c")])
p("B11", "Atomics operations and agents",
  "Atomics operations return the previous value and store the specified one for every integer element type, and when several agents operate on a SharedArrayBuffer concurrently, read-modify-write operations are atomic, wait and notify pair up as specified, and broadcast messages reach every agent.",
  ["inputs", "schedules"], "All operations and operands single-threaded; all interleavings of small concurrent agent programs.",
  NJS + "Atomicity is a property of schedules, and no test runs two agents.",
  [L+"rjs_atomics_object_inc.c", L+"rjs_data_block_opt.c", L+"rjs_shared_array_buffer_object_inc.c"],
  [("atomic read-modify-write", L+"rjs_atomics_object_inc.c"), ("waiter lists", L+"rjs_data_block_opt.c")])
p("B12", "Map and Set behave as insertion-ordered hash tables",
  "Every history of operations on Maps and Sets, with keys of every type compared by SameValueZero, agrees with an insertion-ordered association list, including iterators and forEach callbacks that stay correct while entries are added, deleted and cleared during iteration.",
  ["histories"], "All histories of set, add, delete, clear, get, has, size, iteration steps and mutation during iteration.",
  NJS + "Live iterators make the behaviour depend on the whole history.",
  [L+"rjs_hash.c", L+"rjs_hash_object_inc.c", L+"rjs_map_object_inc.c", L+"rjs_set_object_inc.c"],
  [("ordered hash table", L+"rjs_hash_object_inc.c"), ("hash", L+"rjs_hash.c")])
p("B13", "Weak collections and finalization keep live keys and never revive dead ones",
  "WeakMap, WeakSet, WeakRef and FinalizationRegistry agree with a model in which an entry is found exactly as long as its key is reachable: garbage collection at any moment never drops an entry or target that the program can still reach, a target collected once never comes back, and cleanup callbacks run at most once per registration, only after the target died, and never after unregistration.",
  ["histories", "schedules"], "All histories of operations, reference drops and collections at any point.",
  NJS + "Depends on when the collector runs, which no test controls.",
  [L+"rjs_weak_map_object_inc.c", L+"rjs_weak_set_object_inc.c", L+"rjs_weak_ref_opt.c", L+"rjs_weak_ref_object_inc.c", L+"rjs_finalization_registry_opt.c", L+"rjs_gc.c"],
  [("weak reference processing", L+"rjs_weak_ref_opt.c"), ("collector", L+"rjs_gc.c")])
p("B14", "The object model: properties, descriptors, prototypes and integrity levels",
  "Every history of property definitions, assignments, deletions, prototype changes, freezes, seals and preventExtensions on ordinary, array, function, arguments, string and typed-array objects leaves the descriptors, key order and extensibility the specification prescribes, through the operators and through every Object and Reflect function.",
  ["histories", "inputs"], "All histories of object operations with any descriptors and keys.",
  NJS + "The validation table for property changes has many cells and depends on the state reached.",
  [L+"rjs_object.c", L+"rjs_object_object_inc.c", L+"rjs_array.c", L+"rjs_operation.c", L+"rjs_reflect_object_inc.c", L+"rjs_primitive_object.c"],
  [("ValidateAndApplyPropertyDescriptor", L+"rjs_object.c"), ("own key order", L+"rjs_object.c")])
p("B15", "Proxies forward traps and enforce their invariants",
  "Each operation on a proxy calls the specified trap with the specified arguments in the specified order, falls back to the target without a trap, throws TypeError exactly when the trap's answer violates an invariant of the target or the proxy is revoked, for all handlers, targets and nestings.",
  ["inputs", "fault_sequences"], "All handlers (returning any answer or throwing), targets and operations.",
  NJS + "The invariants relate arbitrary trap answers to arbitrary target states.",
  [L+"rjs_proxy_object_opt.c", L+"rjs_proxy_object_inc.c", L+"rjs_reflect_object_inc.c"],
  [("proxy internal methods", L+"rjs_proxy_object_opt.c")])
p("B16", "Dates compute, parse and format correctly",
  "Date construction, getters and setters, UTC and local components, parsing of ISO and of the engine's own formats, and formatting compute the specified time values over the whole range of representable dates, with NaN for invalid ones, and parse(format(d)) gives back d to the precision of the format.",
  ["inputs", "histories"], "All time values, component lists, texts and sequences of setters, with TZ=UTC and another fixed-offset zone.",
  NJS + "Calendar arithmetic must hold for 17 million years of milliseconds.",
  [L+"rjs_date_object_inc.c"], [("date arithmetic and parsing", L+"rjs_date_object_inc.c")])
p("B17", "JSON parses and serialises as specified",
  "JSON.parse accepts every JSON text, gives the specified value (including duplicate keys, key order and revivers) and throws SyntaxError on every text that belongs neither to the JSON grammar nor to the engine's documented-in-code superset (comments, trailing commas, unquoted, single-quoted and template keys and strings, script number forms), JSON.stringify gives the specified text for every value, replacer and indent, calling toJSON and replacers in the specified order, and parse(stringify(v)) reproduces every JSON value v.",
  ["inputs"], "All texts and all values, replacers, revivers and indents.",
  NJS + "njsgen parses a few JSON files; the text and value spaces are infinite.",
  [L+"rjs_json_opt.c", L+"rjs_json_object_inc.c"], [("JSON parser", L+"rjs_json_opt.c"), ("SerializeJSONProperty", L+"rjs_json_object_inc.c")])
p("B18", "URI encoding functions",
  "encodeURI, encodeURIComponent, decodeURI and decodeURIComponent transform every string as specified, throw URIError exactly on unpaired surrogates and malformed or overlong escape sequences, and decoding inverts encoding.",
  ["inputs"], "All strings.",
  NJS + "Malformed UTF-8 sequences are unbounded.",
  [L+"rjs_uri_functions_inc.c"], [("Encode/Decode", L+"rjs_uri_functions_inc.c")])
p("B19", "The global object's builtins have the specified shape",
  "Every builtin function, constructor, prototype and symbol of the implemented edition exists with the specified name, length, attributes, prototype chain and constructor-ness, is callable on wrong receivers only by throwing the specified error type, and stays configurable and replaceable as specified by programs.",
  ["inputs", "programs"], "All builtins reachable from the global object, with arbitrary receivers and arguments.",
  NJS + "There are over a thousand properties, and receivers and arguments are arbitrary.",
  [L+"rjs_realm.c", "gen/objtab/objtab.c", L+"rjs_builtin_func_object.c", L+"rjs_symbol_object_inc.c", L+"rjs_error.c"],
  [("builtin tables", L+"*_object_inc.c"), ("builtin function objects", L+"rjs_builtin_func_object.c")])

p("R01", "No source text or input can crash the engine",
  "Whatever bytes are given as a script, module, regular expression, JSON text or encoded file, the engine ends by succeeding or by reporting an error: it never reads or writes outside its memory, never executes undefined behaviour that changes results, never aborts on an assertion and never hangs while compiling.",
  ["inputs"], "All byte strings up to 300 kB with bounded nesting depth.",
  NJS + "Robustness is a statement about all byte strings.",
  [L+"rjs_lex.c", L+"rjs_parser.c", L+"rjs_input.c", L+"rjs_regexp.c", L+"rjs_json_opt.c", L+"rjs_conv_icu_opt.c", L+"rjs_bc_gen.c"],
  [("input and lexer", L+"rjs_input.c, rjs_lex.c"), ("parser error recovery", L+"rjs_parser.c")])
p("R02", "No script can corrupt the engine's memory",
  "Executing any script, calling any builtin with any receiver and arguments in any order, including callbacks that resize, detach, delete or re-enter while a builtin is running, ends in a value or an exception and never in a memory error, failed assertion or process exit.",
  ["programs", "inputs"], "All programs with bounded recursion and memory.",
  NJS + "Re-entrance makes the state space unbounded.",
  [L+"rjs_bc_call.c", L+"rjs_object.c", L+"rjs_value.c", L+"rjs_native_stack.c", L+"rjs_array_object_inc.c", L+"rjs_typed_array_object_inc.c"],
  [("value stack discipline", L+"rjs_value.c, rjs_native_stack.c")])
p("R03", "Garbage collection is unobservable and complete",
  "Running the collector at any allocation or never gives the same program results, no reachable value is ever freed or changed by it, unreachable cycles are reclaimed, and destroying a runtime returns all of its memory.",
  ["schedules", "programs"], "All programs and all points at which a collection may start.",
  NJS + "A missing root only shows if a collection happens in a window of a few instructions.",
  [L+"rjs_gc.c", L+"rjs_mem.c", L+"rjs_value.c", L+"rjs_native_stack.c", L+"rjs_runtime.c"],
  [("mark and sweep", L+"rjs_gc.c"), ("root scanning", L+"rjs_runtime.c"), ("memory accounting", L+"rjs_mem.c")])
p("R04", "Realms are isolated and interoperate as specified",
  "Each realm of a runtime has its own global object and intrinsics: changes to the globals or intrinsics of one are invisible in another, functions run in the realm that created them, errors, species and prototypes come from the specified realm, and symbols registered by key are shared.",
  ["programs"], "All programs over two realms of one runtime.",
  NJS + "Which realm is current depends on the call path.",
  [L+"rjs_realm.c", L+"rjs_context.c", L+"rjs_runtime.c", L+"rjs_global_object.c"],
  [("realm creation and current realm", L+"rjs_realm.c, rjs_context.c")])
p("R05", "Build options do not change the meaning of programs",
  "The same program gives the same output in every supported build of the library (binding cache on or off, internal, ICU or iconv character conversion, optimised for size or speed, with or without assertions, gcc or clang).",
  ["configurations", "programs"], "All programs within the features that the configurations share.",
  NJS + "The tests build a single configuration.",
  ["Makefile", L+"rjs_environment.c", L+"rjs_conv_internal_opt.c", L+"rjs_conv_iconv_opt.c", L+"rjs_conv_icu_opt.c", L+"rjs_mem.c"],
  [("binding cache", L+"rjs_environment.c"), ("character conversion back ends", L+"rjs_conv_*_opt.c")])

p("H01", "The embedding API converts and manipulates values faithfully",
  "Through the C API, values created, stored in objects, arrays, realms and properties, passed to native functions and converted to C numbers and strings are the same values scripts see, for all numbers, strings in every supported encoding, and sequences of API calls, and errors are reported as exceptions that can be caught on either side.",
  ["histories", "inputs"], "All sequences of API calls over generated values.",
  NJS + "The API is used by one host program with a handful of values.",
  ["include/ratjs/*.h", L+"rjs_value.c", L+"rjs_object.c", L+"rjs_string.c", L+"rjs_native_object.c", L+"rjs_value_list.c"],
  [("API functions", "include/ratjs")])
p("H02", "The File and Dir extensions match the file system",
  "Every history of File and Dir operations (open modes, read, write, seek, tell, character and string access, whole-file loads and stores, rename, unlink, mkdir, rmdir, listing, state queries) has the same effects on the file system and returns the same data as a model of the POSIX calls they document, and failures throw instead of corrupting state.",
  ["histories", "fault_sequences"], "All histories of operations on a scratch directory, including failing ones.",
  "The njsgen tests read and write a few files in one way; modes, positions and errors are not covered.",
  [L+"rjs_extension_opt.c", "doc/extension.md"], [("File/Dir/FileState natives", L+"rjs_extension_opt.c")],
  ["files of a scratch directory", "return values and exceptions"])
p("H03", "Text encoding and decoding round-trip",
  "encodeText and decodeText and the C string conversions convert between UTF-16 strings and UTF-8, UTF-16 and UTF-32 byte sequences exactly, for every well-formed string and byte sequence, and handle malformed ones without reading out of bounds or hanging.",
  ["inputs"], "All strings, byte sequences and supported encodings.",
  NJS + "Multi-byte boundary cases are unbounded.",
  [L+"rjs_conv_icu_opt.c", L+"rjs_conv_internal_opt.c", L+"rjs_conv_iconv_opt.c", L+"rjs_conv.c", L+"rjs_extension_opt.c", L+"rjs_char_buffer.c", L+"rjs_input.c"],
  [("converters", L+"rjs_conv*.c")])
p("H04", "C types of native modules convert values faithfully",
  "Values passed between scripts and C through the ctype interface and generated native modules (integers of every width and sign, floats, strings, structures, unions, arrays, pointers, enums and functions) are converted with C semantics: reading back gives the stored value converted to the C type, array bounds are checked, and aliased views of one C object agree.",
  ["inputs", "histories"], "All values and sequences of accesses over generated C type descriptions.",
  "The 59 stable tests call each kind of generated native construct with a few fixed values.",
  [L+"rjs_ctype_opt.c", "module/njsgen", "njs"], [("ctype conversion", L+"rjs_ctype_opt.c"), ("njsgen code generator", "module/njsgen")])
p("H05", "The command line program reports outcomes faithfully",
  "The ratjs program runs the given script or module with its arguments, prints what it was asked to, reports uncaught errors on stderr and through its exit status, treats options as documented, and drains all pending jobs before it exits.",
  ["inputs", "configurations"], "All combinations of options, script kinds, arguments and script outcomes.",
  "The tests run it in one way, and never look at failures.",
  ["src/exe/rjs_main.c", L+"rjs_module_opt.c", L+"rjs_script.c"], [("option parsing and evaluation", "src/exe/rjs_main.c")],
  ["stdout, stderr and exit status of the ratjs program"])
p("H06", "The bundled script modules keep their contracts",
  "The bundled json-pointer, json-schema and option modules behave as the standards and documentation they implement: a pointer resolves to exactly the addressed value, a schema accepts exactly the values it describes, and option parsing assigns every argument to the documented option or operand or reports an error.",
  ["inputs"], "All documents, pointers, schemas of the supported keywords, values and argument lists.",
  NJS + "njsgen uses one schema and one option table.",
  ["module/json-pointer.js", "module/json-schema.js", "module/option.js"], [("module code", "module/*.js")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    tech = json.load(open(os.path.join(HERE, "tools/claims.json")))
    checks = [{"property": x["id"], "quick_cmd": f"node run.mjs {x['id']}", "thorough_cmd": f"VERIF_TIER=thorough node run.mjs {x['id']}",
               "technique": tech[x["id"]][0], "level": "exploration", "level_note": tech[x["id"]][1]} for x in P if x["id"] in tech]
    na = [{"property": x["id"], "reason": "the check for it is not built yet"} for x in P if x["id"] not in tech]
    m = {"version": 1, "setup_cmd": "python3 lib/build.py asan fast nocache intenc iconv ndebug osize", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the checks build the library from a content mirror of /repo's working tree with their own host programs."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "claimed", len(na), "not yet")
