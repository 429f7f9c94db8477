#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are stated)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "src/decode/"
API = ["decode_module(input) -> Result<Module, DecodeModuleError>"]

prop("C01", "Accepts exactly the WebAssembly 3.0 binary grammar",
 "For every byte sequence, decoding succeeds if and only if the sequence is a syntactically well-formed binary module of the WebAssembly 3.0 specification (chapter 5); modules that are merely invalid (ill-typed, out-of-range indices, ...) are accepted, malformed ones are rejected. Whenever decoding succeeds, the returned module is the one the specification assigns to those bytes.",
 ["inputs"], "all finite byte sequences, in every section, list, type, expression and integer position",
 "The tests decode about 150 fixed files; the conformance suite itself is an empty submodule. Acceptance is a statement about every reachable parser state and every next byte in it.",
 ["src/decode/module.rs", "src/decode/instructions.rs", "src/decode/helpers.rs", "src/decode/sections/", "src/decode/types/"],
 [("section loop", "src/decode/module.rs:decode_module"), ("instruction dispatch", "src/decode/instructions.rs:Instruction::parse"), ("list/expression combinators", "src/decode/helpers.rs")], API)

prop("C02", "Section order, uniqueness and exact section sizes are enforced",
 "A module is accepted only if its non-custom sections appear at most once and in the specification's order, every section id is known, and the content of every section occupies exactly its declared size; custom sections may appear anywhere, any number of times, without relaxing or tightening this. On success the module reports precisely the sections that were present, in order, with their kinds and declared sizes.",
 ["inputs"], "all sequences of sections (including custom, repeated, unknown), all declared sizes smaller or larger than the content, with anything following",
 "Tests contain one out-of-order pair, one duplicate and two size mismatches; the rule is over all orderings, interleavings with custom sections and size offsets.",
 ["src/decode/module.rs", "src/core/module.rs"],
 [("order check against last non-custom section", "src/decode/module.rs:validate_section_kind_expected"), ("per-section limited reader and leftover check", "src/decode/module.rs:decode_module"), ("order is the declaration order of the section kinds", "src/core/module.rs:SectionKind")], API,
 [("parsed_section_kinds", "non-custom sections seen so far", "src/core/module.rs"), ("section_headers", "every section seen", "src/core/module.rs")])

prop("C03", "Cross-section consistency: function/code and data-count rules",
 "A module is accepted only if the number of function declarations equals the number of code entries (an absent section counting as empty), a declared data count equals the number of data segments (likewise), and a data count is declared whenever any function body contains an instruction with a data index, at any nesting depth and in any function. Each accepted function pairs the i-th declared type with the i-th code entry, and nothing else (in particular data indices outside function bodies) triggers these rejections.",
 ["inputs"], "all presence/absence combinations and counts of the function, code, data-count and data sections; every data-index instruction at every structural position",
 "Each rule has one or two fixtures; the data-index rule must hold for every instruction carrying a data index in every nesting context and every function of the list.",
 ["src/decode/module.rs", "src/decode/helpers.rs", "src/decode/sections/code.rs"],
 [("count comparisons", "src/decode/module.rs:decode_module"), ("data-index detection through nested bodies", "src/decode/helpers.rs:instruction_contains_data_index")], API,
 [("encountered_data_idx_in_code_section", "a data index occurred in some body", "src/decode/module.rs")])

prop("C04", "LEB128 integers: exact value, exact range, padding-insensitive",
 "Wherever the binary format has a variable-length integer, decoding yields exactly the encoded value for every encoding the specification allows (including non-minimal, padded ones, which decode the same as the minimal encoding), and rejects every encoding that is too long, out of range, wrongly sign-extended or truncated.",
 ["inputs"], "all encodings of u32, u64, i32, i64 and s33 at every integer position of the format",
 "Unit tests cover a dozen values per decoder and one over-long encoding per index type; there are 2^35 five-byte and 2^70 ten-byte encodings, at some 200 positions.",
 ["src/decode/integer.rs", "src/decode/indices.rs", "src/decode/types/heaptype.rs", "src/decode/instructions.rs"],
 [("five decoders with last-byte checks", "src/decode/integer.rs"), ("index wrappers", "src/decode/indices.rs")], API)

prop("C05", "Types are decoded faithfully",
 "Every value, reference, heap, function, struct, array, storage, sub- and recursive type, and every table, memory, global and tag type that the specification's encoding allows is decoded to the type it denotes (nullability, finality, mutability, supertypes, parameter/result/field order, address width and 64-bit limits included), in every place a type can occur; every other marker byte is rejected.",
 ["inputs"], "all type encodings, in the type, import, table, memory, tag and global sections and in instruction immediates",
 "Tests sample a few types; the statement ranges over all marker bytes in every type position and all nestings of type constructors.",
 ["src/decode/types/", "src/decode/sections/type.rs", "src/decode/sections/table.rs", "src/decode/sections/memory.rs", "src/decode/sections/tag.rs"],
 [("marker tables", "src/decode/types/heaptype.rs, comptype.rs, globaltype.rs"), ("byte push-back through chained readers", "src/decode/types/*.rs"), ("limits flags", "src/decode/types/limits.rs")], API)

prop("C06", "Every opcode decodes to its instruction with its own immediates",
 "Every opcode and prefixed sub-opcode defined by WebAssembly 3.0 decodes to the instruction it denotes with each immediate delivered to the right operand, in every expression position (function bodies and constant expressions) and regardless of neighbouring instructions; every undefined opcode, sub-opcode or immediate marker is rejected.",
 ["inputs"], "all single-byte opcodes, all prefixed sub-opcodes in all encodings, all immediate boundary values, all pairs of adjacent instructions, all expression contexts",
 "Tests list instructions by category with mostly zero or equal immediates, so swapped operands, neighbouring-opcode mix-ups and memory-index/alignment splits are not settled for all values.",
 ["src/decode/instructions.rs", "src/core/instruction.rs"],
 [("opcode dispatch", "src/decode/instructions.rs:Instruction::parse"), ("memory argument split", "src/decode/instructions.rs:Memarg::decode"), ("catch clauses and cast flags", "src/decode/instructions.rs")], API)

prop("C07", "Structured control flow is recovered as the exact nesting tree",
 "Blocks, loops, conditionals and try-tables are decoded to exactly the tree that their opening, else and end markers describe: every instruction lands in the innermost open body in order, an absent else differs from an empty one, and each block keeps its own block type and catch clauses. An else outside a conditional's then-branch, a missing end or a surplus end is rejected, at every depth.",
 ["inputs"], "all well- and ill-bracketed marker sequences up to a bound, in every expression position; deep nestings",
 "Tests contain four shallow else errors and a few nested bodies; the tree property is over all bracket sequences.",
 ["src/decode/instructions.rs", "src/decode/helpers.rs"],
 [("recursive body parsing with else/end results", "src/decode/instructions.rs:Instruction::parse"), ("top-level expression loop", "src/decode/helpers.rs:decode_expr")], API)

prop("C08", "Imports, exports, start and tags are decoded faithfully",
 "Every import keeps its module name, item name and external type, every export its name, kind and index, the start section its function index and every tag its type index, each in declaration order and independently of the other entries; unknown descriptor kinds are rejected.",
 ["inputs"], "all descriptor bytes, all kinds, all combinations of up to a few entries, boundary names and indices",
 "Tests decode one mixed import list and a few exports.",
 ["src/decode/sections/import.rs", "src/decode/sections/export.rs", "src/decode/sections/start.rs", "src/decode/sections/tag.rs", "src/decode/types/externtype.rs", "src/decode/types/tagtype.rs"],
 [("extern type dispatch", "src/decode/types/externtype.rs"), ("export descriptor dispatch", "src/decode/sections/export.rs:ExternIdx::from")], API)

prop("C09", "Element, data, global and table definitions keep mode, defaults and content",
 "Every encoding variant of element segments (0-7), data segments (0-2), table definitions (with and without initializer) and globals is decoded to the mode, index, reference type, offset and payload the specification assigns to it, including the values that are implicit in abbreviated variants; all other variant numbers and kind markers are rejected.",
 ["inputs"], "all variant flags in all encodings, all payload shapes up to a bound, boundary indices",
 "One fixture covers each variant once with small payloads; defaults and error cases are not crossed with payloads, indices or following segments.",
 ["src/decode/sections/element.rs", "src/decode/sections/data.rs", "src/decode/sections/global.rs", "src/decode/sections/table.rs"],
 [("variant dispatch", "src/decode/sections/element.rs:parse_elem, src/decode/sections/data.rs:parse_data, src/decode/sections/table.rs:decode_table")], API)

prop("C10", "Function bodies: exact entry size, ordered locals, 32-bit locals limit",
 "Every code entry must be consumed to exactly its declared size; its run-length encoded locals expand, in order, to exactly the declared numbers of each type, and the body follows. A body is rejected if and only if its locals total exceeds 2^32-1 (whatever the split into runs) or its encoding is malformed.",
 ["inputs"], "all splits of locals into runs, all totals around 2^32, all entry sizes around the true one, several functions per module",
 "One fixture each for an overflowing count and a size mismatch; sums over runs, boundary totals, empty runs, multi-function modules and entry/section size interplay are not covered.",
 ["src/decode/sections/code.rs", "src/decode/module.rs"],
 [("limited reader per entry and leftover check", "src/decode/sections/code.rs:parse_code"), ("running locals total", "src/decode/sections/code.rs:parse_code_local"), ("expansion", "src/decode/module.rs:decode_module")], API,
 [("expanded_locals", "locals total of the entry so far", "src/decode/sections/code.rs")])

prop("C11", "Truncated input is never mistaken for a different complete module",
 "If a module is cut short at any byte, decoding fails, unless the cut falls exactly between two sections and the remaining sections form a well-formed module by themselves, in which case decoding yields exactly that shorter module.",
 ["inputs", "fault_sequences"], "every strict prefix of every module",
 "Tests contain about 25 truncated files; the statement is about every cut point of every module.",
 ["src/decode/module.rs", "src/decode/helpers.rs", "src/decode/sections/custom.rs"],
 [("end of input only accepted at a section boundary", "src/decode/module.rs:decode_section_header"), ("leftover check for short sections", "src/decode/module.rs:decode_module")], API)

prop("C12", "Errors of the byte source always surface",
 "If the byte source reports an error (other than an interruption, which is retried) at any point while decoding, decoding fails and what the source reported appears in the returned error's cause chain; a module is never returned and the failure is never blamed on the bytes instead.",
 ["fault_sequences"], "every read position of every module, every error kind (including end-of-file kinds raised by the source itself), transient or persistent",
 "All tests read from files or slices, whose readers never fail.",
 ["src/decode/module.rs", "src/decode/helpers.rs", "src/decode/integer.rs", "src/decode/instructions.rs"],
 [("error variants wrap io::Error", "src/decode/"), ("end-of-input detection at section boundary", "src/decode/module.rs:decode_section_header"), ("try-then-fallback block type parsing", "src/decode/instructions.rs:BlockType::decode")], API + ["std::error::Error::source chain"])

prop("C13", "The result does not depend on how the source delivers its bytes",
 "For a given byte sequence, decoding yields the same module or the same error however the source splits it into reads: one byte at a time, arbitrary short reads, reads straddling any boundary, or interrupted reads that are retried.",
 ["schedules", "inputs"], "all delivery schedules (short reads, interruptions) of a byte sequence",
 "Tests use files and slices that always fill the buffer.",
 ["src/decode/helpers.rs", "src/decode/module.rs", "src/decode/sections/custom.rs", "src/decode/instructions.rs"],
 [("read_exact/read_to_end everywhere", "src/decode/"), ("limited and chained readers", "src/decode/module.rs, src/decode/types/")], API)

prop("C14", "Decoding and error reporting are total: no panic, abort or hang",
 "For every byte sequence, decoding terminates normally with a module or an error, and displaying or debug-printing the error and its whole cause chain terminates normally too: no panic, arithmetic overflow, stack exhaustion, allocation abort or endless loop.",
 ["inputs"], "all byte sequences, including hostile counts, sizes and nesting",
 "Tests contain only benign or slightly broken files; crash freedom is a universally quantified safety property.",
 ["src/decode/", "src/decode_errors.rs"],
 [("conversions after range checks", "src/decode/types/heaptype.rs, src/decode/instructions.rs"), ("unreachable arms", "src/decode/instructions.rs"), ("allocation by declared length", "src/decode/helpers.rs")], API + ["Display/Debug of DecodeModuleError", "process exit status"])

prop("C15", "Memory use is bounded by the bytes supplied, not by counts declared",
 "The memory that decoding allocates is bounded by a fixed linear function of the number of input bytes actually supplied, whatever lengths, counts and sizes the input declares, and apart from the returned result none of it stays allocated afterwards.",
 ["inputs"], "every length, count or size field of the format with every huge value, with little or no content behind it",
 "No test observes allocation; a 15-byte file suffices to request 100 GB.",
 ["src/decode/helpers.rs", "src/decode/module.rs", "src/decode/sections/code.rs"],
 [("list and byte-vector preallocation", "src/decode/helpers.rs:decode_list, decode_byte_vector"), ("locals expansion", "src/decode/module.rs:decode_module")], ["allocator calls made during decode_module"])

prop("C16", "Decodes are isolated from each other",
 "The result of decoding a byte sequence is a function of those bytes alone: it does not depend on what was decoded before (successfully or not, any number of times), on decodes running concurrently in other threads, or on decodes nested inside the byte source of another decode.",
 ["schedules", "histories"], "all histories of earlier decodes, all interleavings of concurrent decodes at read granularity, all nesting points",
 "Each test decodes one file once; nothing compares a decode in context with a decode in isolation.",
 ["src/decode/", "src/lib.rs"],
 [("no global or thread-local mutable state", "src/decode/"), ("statics are immutable maps", "src/decode/types/, src/decode/module.rs")], API)

prop("C17", "Errors name the right section, element position and offending value",
 "When a section's content is rejected, the returned error identifies the section concerned, its cause chain gives the zero-based position of every list element being decoded at that point, outermost first, and ends in the actual reason with the actual offending value (byte, number, or declared versus actual count or size); any alternatives it lists as expected would be acceptable there.",
 ["inputs"], "every malformed module: each parser state with each byte it rejects, in every list position",
 "Tests check the error type for one malformed file each, almost always at position 0 with one offending value.",
 ["src/decode/helpers.rs", "src/decode/", "src/decode_errors.rs"],
 [("list errors carry the position", "src/decode/helpers.rs:decode_list"), ("error wrappers per construct", "src/decode/"), ("expected-marker formatting", "src/decode/mod.rs:FromMarkerByte")], ["DecodeModuleError variants, Display and source chain"])

prop("C18", "The command-line tool reports what the library decides",
 "For every input, whether given as a file, as '-' or on standard input, the command-line tool exits with status 0 and no error output exactly when the library accepts those bytes; otherwise it exits with status 1 and prints the error and its full cause chain to standard error. Verbose mode adds a debug dump (of the module on success, of the error on failure) and changes nothing else; unreadable inputs are reported as errors too.",
 ["inputs", "configurations"], "all inputs times input modes times verbosity",
 "wadec-cli has no tests at all.",
 ["wadec-cli/src/main.rs"],
 [("argument handling, exit codes and cause chain", "wadec-cli/src/main.rs")], ["process exit status, stdout, stderr of the wadec binary"])

prop("C19", "Sections are decoded independently; custom sections are transparent",
 "Inserting, removing or changing custom sections at any place of a module changes nothing in the decoded module except the custom sections themselves and the section listing; custom sections are returned in order with exact names and byte-for-byte contents. Likewise each non-custom section decodes to the same definitions whatever other (consistent) sections accompany it.",
 ["inputs", "configurations"], "all subsets of sections, all insertion points and contents of custom sections",
 "Tests use a handful of fixed section combinations.",
 ["src/decode/module.rs", "src/decode/sections/custom.rs"],
 [("per-section limited reader", "src/decode/module.rs:decode_module"), ("custom content read to section end", "src/decode/sections/custom.rs")], API)

prop("C20", "Constants are preserved bit for bit",
 "Every numeric and vector constant survives decoding bit for bit: all 32- and 64-bit floating-point patterns (signed zeros, subnormals, infinities, every NaN payload), all 32- and 64-bit integers, all 128-bit vectors and shuffle lane lists, at any position in any expression.",
 ["inputs"], "all constant bit patterns (exhaustive for 32-bit constants in the thorough tier)",
 "Tests compare a few round floats; equality on floats cannot even see NaN payloads.",
 ["src/decode/helpers.rs", "src/decode/instructions.rs", "src/decode/integer.rs"],
 [("little-endian reassembly", "src/decode/helpers.rs:decode_f32, decode_f64"), ("vector immediates", "src/decode/instructions.rs")], API)

prop("C21", "Names are accepted iff valid UTF-8 and preserved exactly",
 "Every name (import module and item, export, custom section) is accepted if and only if its bytes are well-formed UTF-8, its length counts bytes, and the decoded text consists of exactly those bytes; no normalisation, trimming or replacement takes place.",
 ["inputs"], "all byte strings as names, at each of the four name positions",
 "Tests have one invalid name; UTF-8 well-formedness has dozens of boundary cases (overlong forms, surrogates, code points beyond U+10FFFF, split sequences).",
 ["src/decode/helpers.rs", "src/decode/sections/import.rs", "src/decode/sections/export.rs", "src/decode/sections/custom.rs"],
 [("byte vector then UTF-8 conversion", "src/decode/helpers.rs:decode_name")], API)

prop("C22", "Lists and byte vectors of every length keep all elements in order",
 "Every list and byte vector of the format, whatever its length (within available memory) and however its length is encoded, is decoded to exactly that many elements, in order, with none dropped, duplicated, reordered or altered, and decoding continues exactly after the last one.",
 ["inputs"], "all lists of the format, all lengths across every representation boundary (1-, 2-, 3-, 4-byte counts; 8-, 16-bit wrap-arounds; buffer sizes)",
 "The longest list in the tests has a handful of elements, so counters, buffers or position arithmetic that fail beyond 127, 255 or 65535 elements go unseen.",
 ["src/decode/helpers.rs", "src/decode/module.rs", "src/decode/sections/"],
 [("list combinator", "src/decode/helpers.rs:decode_list"), ("byte vectors", "src/decode/helpers.rs:decode_byte_vector")], API)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
