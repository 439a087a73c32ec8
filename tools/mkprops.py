#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays well-formed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

TS = "src/lib/gen/ts.rs"; CH = "src/lib/check.rs"; PA = "src/lib/parser.rs"; LIB = "src/lib/lib.rs"; MAIN = "src/main.rs"; GEN = "src/lib/gen/mod.rs"; CTX = "src/lib/gen/gen_ctx.rs"

prop("C01", "Round trip: decoding an encoded packet gives back the same value",
 "For every accepted schema and every value of the exported type, encoding the value with the generated TypeScript code and decoding the resulting bytes with the generated code yields a structurally equal value (floats at 32-bit precision, null read back as absent for optional fields). This holds for every nesting of structs, arrays, optionals, enums and builtins, for empty and large collections, and when encoder and decoder come from separate compilations of the same schema. The only exclusions are names that clash with TypeScript/JavaScript built-in names (listed as known findings).",
 ["inputs", "programs"], "all accepted schemas x all conforming values x pairs of independent compilations",
 "The tests compare generated text for five fixed schemas; no test ever executes generated code, and none compiles the same schema twice.",
 [TS, CH, GEN, CTX], [("read generator", TS+": gen_read_impl_*"), ("write generator", TS+": gen_write_impl_*"), ("field resolution order", CH+": resolve_one_second_pass")],
 [("name stack", "path of the field being generated, from which local variable names derive", CTX+": GenCtx.stack")],
 ["bytes returned by write()", "value returned by read()"])

prop("C02", "Wire layout: packets contain exactly the schema's data in declared order",
 "For every accepted schema and value, the encoder emits the fields in the order they are declared, nested structs inline, each builtin at its declared width and signedness, strings and arrays as a 32-bit length followed by their contents, optional fields as one presence byte (0 or 1) followed by the value if present, and enum values as 1 << index in the smallest of 8/16/32 bits that has a bit for every variant - and not one byte more. The decoder consumes precisely the same sequence of primitive reads. Two separate compilations of one schema therefore always interoperate.",
 ["inputs", "programs"], "all accepted schemas, all values, all compilations (hash seeds) of a schema",
 "Tests pin the text for a few schemas handed straight to the generator, bypassing parser and checker; field order through type resolution, 16/32-bit enums and deep nesting are never observed.",
 [TS, CH], [("declaration-order preservation", CH+": resolve_one_second_pass"), ("enum width selection", CH+": resolve_enum"), ("primitive emission", TS+": gen_write_impl_builtin/enum/optional/array/struct, gen_read_impl_*")],
 [("repr", "wire width of an enum", CH+": EnumRepr")],
 ["calls made on the packet Writer/Reader runtime", "bytes produced"])

prop("C03", "Hostile packets: any byte string decodes to a valid value or null",
 "For every accepted schema and every byte string (truncated, mutated, random), the generated decoder terminates without throwing and returns either null or a value that conforms to the schema: every field present with the right kind of value and every enum a declared variant. A packet that ends before the last field is fully read, or that carries an undeclared enum value anywhere, is always rejected with null; a well-formed packet never is.",
 ["inputs", "programs"], "all accepted schemas x all byte strings (array lengths claimed by the packet bounded by what the workload allows; huge claimed lengths are a known finding)",
 "No test runs a generated decoder at all, let alone on malformed bytes.",
 [TS], [("failure flag", TS+": 'if (reader.failed) return null'"), ("enum validation", TS+": gen_read_impl_enum"), ("optional flag", TS+": gen_read_impl_optional")],
 None, ["value returned or exception thrown by read()", "reads performed after the end of the packet"])

prop("C04", "Accepted schemas generate valid TypeScript",
 "For every schema the compiler accepts, the generated module type-checks without errors under the strict TypeScript compiler against the packet runtime's interface, whatever combination of field, type and variant names the schema uses and however deeply types nest. No generated local variable ever clashes with, or shadows, another one that is needed. Names reserved by TypeScript itself are the only exception (known findings, listed by name).",
 ["inputs", "programs"], "all accepted schemas, in particular adversarial choices of identifiers",
 "Tests compare text with a golden copy for a handful of friendly names; nothing runs the TypeScript compiler.",
 [TS, CTX, GEN], [("local variable naming", TS+": varname/bindname"), ("class and namespace emission", TS+": gen_impl, gen_decls")],
 [("name stack", "source of generated local names", CTX+": GenCtx.stack")], ["diagnostics of tsc --strict on the generated module"])

prop("C05", "Generated declarations mirror the schema",
 "For every accepted schema the generated module exports one class named after the exported struct whose public fields (and constructor parameters, in declared order) have exactly the schema's names, types, array-ness and optionality, and a namespace of the same name that declares every struct and enum reachable from the export exactly once with exactly its fields or variants. Types not reachable from the export are not declared. Each enum constant, as seen by a consumer of the module, has the value 1 << (position in the declaration).",
 ["programs", "inputs"], "all accepted schemas",
 "Golden-text tests cover single hand-built types that never went through the checker; reachability pruning is tested on one two-type schema.",
 [TS, CH], [("reachability pruning", CH+": collect_used_types/remove_unused"), ("declaration emission", TS+": gen_struct_decl, gen_enum_decl, field_ctor_type")],
 [("types", "resolved type map handed to the generator", CH+": Resolved.types")], ["types and symbols seen by a TypeScript consumer of the module"])

prop("C06", "Ill-formed schemas are always rejected",
 "A schema that has no export or more than one, exports something that is not a declared struct, declares a type name twice, repeats a field name within a struct or a variant within an enum, has an enum with zero or more than 32 variants, refers to an undeclared type, contains a direct or indirect recursive type, or marks an array field optional is never compiled: the compiler reports a type error and produces no code. This holds wherever in the schema the problem is, including in types the export does not use and among otherwise valid declarations, and regardless of declaration order or compilation run.",
 ["inputs", "programs"], "all schemas with at least one such problem, at every position and in every combination with valid content",
 "Each rule has one test with a minimal schema where the problem is alone and resolves in the first pass; interactions between passes and positions are not sampled.",
 [CH], [("export rules", CH+": get_export, resolve_export"), ("duplicate checks", CH+": collect_types, resolve_one_first_pass, resolve_enum"), ("cycle and unknown type checks", CH+": resolve_one_second_pass"), ("optional array check", CH+": resolve_struct_field")],
 [("visited", "types on or past the resolution path", CH+": resolve_second_pass"), ("unresolved", "declarations awaiting resolution", CH+": type_check")], ["outcome of compile()"])

prop("C07", "Well-formed schemas are always accepted, in any declaration order",
 "Every schema that is written in the documented syntax and has none of the problems the checker diagnoses is compiled successfully. In particular acceptance does not depend on the order of declarations, on how often or through how many paths a type is used, on nesting depth or size, on unused types, or on the run.",
 ["inputs", "programs"], "all well-formed schemas and all permutations of their declarations",
 "Tests accept five hand-written schemas; resolution order follows a randomly seeded hash map, so any single run sees one order.",
 [CH, PA], [("two-pass resolution", CH+": resolve_first_pass/resolve_second_pass")],
 [("unresolved", "randomly ordered work list", CH+": resolve_second_pass")], ["outcome of compile()"])

prop("C08", "Diagnostics are truthful and point at the right place",
 "Whenever a schema is rejected by the type checker, the reported message names a problem that really exists in it (the right kind, and the offending type, field, variant and count). Whenever a schema is rejected by the parser, the reported line, column, source line, caret and offending character are mutually consistent, for any Unicode text, and lie at the first place where the text stops being a possible beginning of a schema.",
 ["inputs"], "all rejected inputs",
 "Tests check messages for one minimal input per rule and error positions for six ASCII inputs; the rendered message (character, source line, caret) is never tested, nor is any non-ASCII text.",
 [LIB, CH, PA], [("error rendering", LIB+": pretty_error"), ("checker messages", CH+": Err(format!(..)) sites"), ("parser failure position", PA+": peg grammar")],
 None, ["error returned by compile()"])

prop("C09", "Schema text is read exactly as written",
 "For every text, the parser accepts it exactly when it follows the documented grammar (declarations of structs and enums, export, '#' comments to end of line, optional commas, '?' optionals, '[]' arrays, free layout), and the compiled types have precisely the names, order, field types, array and optional markers and enum variants written in the text. An identifier is any [A-Za-z_][A-Za-z0-9_]* that is not itself one of the reserved words (builtin type names, enum, struct); merely starting with a reserved word does not make it one.",
 ["inputs"], "all texts: valid schemas in every layout and near-miss mutations of them",
 "16 parser tests on fixed, normalised strings (leading whitespace is stripped before parsing).",
 [PA], [("grammar", PA+": pkt grammar")], None, ["outcome of compile() and the types visible in its output"])

prop("C10", "The compiler is total: every input yields code or an error",
 "For every input text (any Unicode, any size, any nesting the size allows up to 1000 levels) compilation terminates and returns either generated code or an error value; it never panics, aborts, overflows the stack or loops. The command-line tool likewise never panics on any file content or directory tree.",
 ["inputs"], "all input strings; type nesting up to 1000 levels (beyond about 10000 levels the recursive resolver exhausts the stack: known finding; so is a schema whose inlined code is exponentially large)",
 "Tests feed about 40 small well-behaved inputs.",
 [LIB, PA, CH, TS, MAIN], [("error rendering on arbitrary text", LIB+": pretty_error"), ("unwrap/panic sites", CH+": resolve_one_second_pass, "+TS+": gen_read_impl_enum"), ("path handling", MAIN+": visit_files, format_path")],
 None, ["process/thread outcome of compile() with overflow checks and debug assertions on"])

prop("C11", "Compilation is a deterministic function of the schema text",
 "Compiling the same schema text always gives the same result - the same generated code apart from the timestamp in the header, or the same error - in every process, environment and at any time, for any history of earlier compilations (including failed ones) in the same process, and from any number of threads at once.",
 ["histories", "schedules", "inputs"], "all schemas, all histories of previous compile calls, all thread interleavings, all hash seeds",
 "Every test compiles once per process on one thread; the checker and generator iterate over randomly seeded hash maps.",
 [CH, TS, GEN, LIB], [("ordered emission of declarations", TS+": gen_decls"), ("ordered resolution", CH+": resolve_second_pass"), ("fresh generator per compilation", GEN+": generate")],
 [("buffer", "output under construction", GEN+": Generator.buffer")], ["result of compile()"])

prop("C12", "Enums: every variant works and nothing else is accepted",
 "For every enum with 1 to 32 variants, in every position an enum can appear (plain, optional, array, nested), each declared variant encodes, decodes back to a value equal to the constant exported for that variant, and distinct variants stay distinct; every other wire value, including zero, values above the last variant and combinations of several variants, makes the decoder reject the packet. Variants occupy one byte for up to 8, two for up to 16 and four for up to 32.",
 ["inputs", "programs"], "all enum sizes x positions x all wire values of the enum's width (exhaustive for 8 and 16 bits, boundary-directed for 32)",
 "Tests only look at the text for a two-variant enum.",
 [CH, TS], [("width and value assignment", CH+": resolve_enum"), ("range validation", TS+": gen_read_impl_enum"), ("constants", TS+": gen_enum_decl")],
 [("value", "bit index of a variant", CH+": EnumVariant.value")], ["decoded values compared with the constants seen by a consumer"])

prop("C13", "CLI: each schema file yields exactly its own output file",
 "Given the language ts (in any case) and a directory, the tool compiles every file whose extension is .pkt at any depth (symbolic links are followed), and only those, and writes each result to the same relative path under the output directory with the extension replaced by .ts; given a single file it writes <output directory>/<file name with its extension replaced by .ts>. Distinct inputs never overwrite each other's output, missing directories are created, the written content is exactly what compiling that file's text gives, and nothing else on disk is created or changed.",
 ["inputs", "configurations"], "all directory trees, file names, relative/absolute/trailing-slash path spellings and pre-existing output states",
 "src/main.rs has no tests.",
 [MAIN], [("tree walk", MAIN+": visit_files"), ("path mapping", MAIN+": format_path"), ("writing", MAIN+": save_one")], None, ["file system before and after a run"])

prop("C14", "CLI: a bad schema anywhere means no output is written at all",
 "If any schema file selected by an invocation cannot be read or does not compile, the tool exits with a non-zero status, reports the error on standard error (the compiler's own message for a schema that does not compile), and leaves the output location exactly as it was: no file created, changed or truncated, including outputs from an earlier successful run and outputs of the other, valid schemas.",
 ["inputs", "histories"], "all directory trees with at least one bad schema at any position, all prior output states",
 "src/main.rs has no tests.",
 [MAIN], [("compile everything before saving anything", MAIN+": main, run_all")], None, ["exit status, stderr and file system before and after a run"])

prop("C15", "CLI: success is reported only if all output is completely on disk",
 "If the tool exits with status 0, the input existed and every output file it owes is completely written. Whatever system call fails (reading, listing, creating directories, opening or writing output, at any point) or is interrupted or cut short, the tool either completes the full output or exits non-zero with a message on standard error; invalid command lines, unknown languages and missing inputs exit non-zero too.",
 ["fault_sequences", "inputs"], "every single fault position (first N calls of each kind) x error codes x short/interrupted writes, and invalid invocations",
 "src/main.rs has no tests and no fault is ever injected.",
 [MAIN], [("error propagation", MAIN+": main, save_one, run_one")], None, ["exit status, stderr and output files under injected system-call faults"])

prop("C16", "What should not matter does not: layout, comments, order, unused types, names",
 "Changing white space, blank lines, comments, optional commas or line endings of a schema, reordering its top-level declarations, or adding or removing valid types the export does not use, leaves the generated module's behaviour unchanged: same declarations, same wire format. Consistently renaming types, fields or variants (avoiding reserved words) changes those names in the generated module and nothing else about the wire format.",
 ["inputs", "programs"], "all accepted schemas x all such edits",
 "No test compares two compilations.",
 [PA, CH, TS], [("layout rules", PA+": _ / __ / ___ rules"), ("pruning", CH+": remove_unused"), ("name-independent emission", TS+": fname/varname/bindname")], None, ["bytes and declarations of the two generated modules"])

prop("C17", "Generated codecs are pure and reusable",
 "Encoding never modifies the value being encoded, and encoding the same value again, in any interleaving with other encodes and decodes of the same or other modules and also after a decode was rejected, gives the same bytes; a caller-supplied buffer is used when given and gives the same bytes. Decoding never modifies the packet's bytes, leaves no trace that affects later decodes, and returns fresh objects that share nothing mutable with other results.",
 ["histories", "inputs", "programs"], "all sequences of encode/decode calls over several modules and values",
 "No test runs generated code.",
 [TS], [("per-call reader/writer", TS+": gen_impl (new Reader/new Writer per call)"), ("fresh objects per struct and array", TS+": gen_read_impl_struct, gen_read_impl_array")], None, ["values, packets and results before/after each call in a recorded history"])

prop("C18", "Generated modules are self-contained and their header is true",
 "For every accepted schema the generated module starts with one comment line that names the compiler's version and the time of the compilation in UTC (RFC 2822), whatever the time zone; it imports nothing but Reader and Writer from 'packet' and exports nothing but the class and namespace named after the export; loading it any number of times has no effect: nothing of the runtime is called, no global object is changed. Nothing of the schema but its identifiers gets into the module: whatever the comments contain never appears in the code, which is plain printable ASCII.",
 ["programs", "inputs", "configurations"], "all accepted schemas with any comments, compiled at any time in any time zone",
 "Tests of the header do not exist (the time changes), and no test loads a generated module.",
 [GEN, TS, PA], [("header", GEN+": push_meta"), ("import", TS+": gen_common"), ("comments dropped", PA+": rules comment, line, struct_field")], None, ["generated text of real compilations under a set clock; module loaded in a fresh context with watched runtime"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
