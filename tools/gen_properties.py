#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
H = "include/papilio/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("C01", "Hostile format strings: a result or a catchable exception, never UB",
  "Formatting any run-time format string, however malformed, with any arguments and in any of the five character types, either returns or throws an exception derived from std::exception that the caller can catch. It never reads or writes out of bounds, never executes undefined behaviour, never terminates the process and always finishes.",
  ["inputs"], "every sequence of code units used as format string, every argument list (numbers, strings, containers, custom types), five character types",
  "The tests format a few dozen hand-written strings, nearly all well formed; the space of truncated, nested and mis-encoded strings is unbounded, and an out-of-bounds read by one unit is invisible without instrumentation.",
  [H + "core.hpp", "src/core.cpp", H + "format.hpp", H + "xchar.hpp", H + "utf/string.hpp"],
  [("interpreter: field, script and spec parsing with end checks", "core.hpp basic_interpreter / basic_interpreter_base"), ("spec parsers", "core.hpp std_formatter_parser, simple_formatter_parser"), ("argument lookup with range checks", "core.hpp format_args_base")],
  observe=["return value or exception of vformat", "sanitizer reports"])

p("C02", "All formatting entry points produce the same text",
  "For the same format string and arguments, formatting to a string, to an output iterator, to a bounded iterator, to a size counter, to a lazily evaluated range, with static or dynamic argument packs, and by printing, all describe the same sequence of code units, and all fail when one of them fails. Bounded formatting writes exactly the first min(n, total) units and nothing after them, and reports how many were produced.",
  ["inputs", "configurations"], "every format string and argument list, every sink kind and every bound n",
  "Tests check each entry point on one or two strings; agreement is a relation between entry points over all inputs and bounds, and each goes through its own adaptor.",
  [H + "format.hpp", "src/format.cpp", H + "xchar.hpp", H + "print.hpp", H + "core.hpp"],
  [("bounded output adaptor", "format.hpp format_to_n_wrapper"), ("counting adaptor", "format.hpp formatted_size_counter"), ("incremental range", "format.hpp formatted_range")],
  observe=["output units", "result.out/size", "exception or not"])

p("C03", "Integers, booleans and pointers are formatted exactly as specified",
  "For every value of every integral type, for bool and for pointers, and every valid combination of fill, alignment, sign, alternate form, zero padding, width, locale flag and type letter (fixed or dynamic width), the output is the documented text: exact digits in the requested base, documented prefix and sign, padded to the requested width. The 'c' type prints the code point with that value, and values that are not code points are refused with a format error, as are type letters and precisions the type does not support.",
  ["inputs"], "all integer values (including the extremes of each type) times all valid specifications in five character types",
  "Tests sample about thirty value/specification pairs; the product space of nine spec components times value ranges is far beyond enumeration by hand.",
  [H + "core.hpp"], [("digit generation and padding", "core.hpp int_formatter::format, std_formatter_base::fill_size"), ("spec parser", "core.hpp std_formatter_parser::parse")],
  observe=["formatted text"])

p("C04", "Floating-point output has the documented digits at every magnitude",
  "For every float, double and long double value and every valid specification, the text is what the standard conversion function gives for that presentation type and precision (six digits by default for f, e and g, an explicit precision of zero respected), with upper case letters for upper case types, the requested sign (also for zero, infinity and NaN) and padding to the requested width, zero padding included. No finite value or precision is refused because of its magnitude.",
  ["inputs"], "all finite and non-finite floating values, presentation types, precisions, widths, in five character types",
  "Tests print a handful of small values; overflow of the conversion buffer, rounding and sign corner cases appear only for particular magnitudes and precisions.",
  [H + "core.hpp"], [("floating conversion", "core.hpp float_formatter::conv, format"), ("spec parser", "core.hpp std_formatter_parser::parse")],
  observe=["formatted text"])

p("C05", "Text is padded and cut by display width, never inside a character",
  "A string, character or code point formatted with a width is padded with the fill character to that display width on the documented side, and a string precision keeps the longest prefix of whole characters whose display width does not exceed it; display width counts two for the documented East-Asian and emoji ranges and one otherwise. Apart from padding and cutting, the text is passed through unit for unit.",
  ["inputs"], "all well-formed strings and characters over all of Unicode, all fills, alignments, widths and precisions (fixed and dynamic), five character types",
  "Tests use a few CJK strings; boundaries of the width ranges, multi-unit fills, zero precision and every encoding length need generated text.",
  [H + "core.hpp", H + "utf/codepoint.hpp", "src/utf/codepoint.cpp"], [("width estimation", "utf/codepoint estimate_width"), ("string truncation and padding", "core.hpp string_formatter, codepoint_formatter")],
  observe=["formatted text"])

p("C06", "Debug (escaped) output is faithful and decodable for any units",
  "Escaped output of a string or character uses the documented escape sequences, shows every unit that is not part of a valid character as hexadecimal digits of that unit, and passes all other characters through unchanged. Decoding the escaped text gives back exactly the original code units, for well-formed and malformed text alike.",
  ["inputs"], "all unit sequences, valid or not, in five character types, as strings, characters and elements of ranges and tuples",
  "Tests escape four short strings; invalid sequences can start, stop and overlap valid ones in any position.",
  [H + "core.hpp"], [("escaping", "core.hpp format_context_traits::append_escaped, append_hex_digits")],
  observe=["formatted text", "decode(escaped) == input"])

p("C07", "Literal text and argument selection follow the documented rules",
  "In a well-formed text, ordinary characters are copied unchanged and doubled braces become single ones; each replacement field prints exactly the argument selected by its index, its name or its position among automatic fields, and dynamic width and precision take part in the same numbering. Malformed strings, mixing automatic fields after explicit ones, indices out of range (however large) and unknown names are refused with an exception rather than formatted as something else.",
  ["inputs"], "all format strings built from literals, escapes and fields, and all their single-edit corruptions, for all argument lists with indexed and named arguments",
  "Tests use fixed strings; numbering, names and rejection must hold for every arrangement and every argument count.",
  [H + "core.hpp", "src/core.cpp", H + "container.hpp"], [("automatic numbering", "core.hpp basic_format_parse_context"), ("field names", "core.hpp basic_interpreter::parse_field_name"), ("named argument lookup", "core.hpp static_format_args, basic_dynamic_format_args; container.hpp fixed_flat_map")],
  observe=["formatted text", "exception type"])

p("C08", "Script fields evaluate conditions and print exactly the right branch",
  "A script field prints the first branch whose condition holds, else the final branch, else nothing; conditions compare numbers and strings by value (integers as integers, floating-point numbers in single precision), treat non-zero numbers and non-empty strings as true, and negate with an exclamation mark. String literals support the documented escapes, and branches that are not taken produce no output and do not change how later fields are numbered or parsed.",
  ["inputs", "programs"], "all script programs (conditions, literals, chains of branches, nested replacement fields with specs and accessors) over all argument values",
  "Tests run about twenty fixed scripts; a script is a small program, and its meaning must be right for every program and argument value.",
  [H + "core.hpp", "src/core.cpp", H + "core.inl"], [("condition parsing and evaluation", "core.hpp basic_interpreter::parse_condition, execute_op"), ("branch execution and skipping", "core.hpp exec_script, exec_branch_if, skip_branch"), ("run-time values", "core.hpp basic_variable")],
  observe=["formatted text", "exception"])

p("C09", "Accessors return the addressed part of the argument, or null",
  "Indexing, slicing and attributes in a replacement field yield exactly the addressed element, substring, sub-range or property of the argument, counted in characters for strings and from the end for negative numbers, through any chain of accesses. Addressing something that does not exist yields the documented null value (a null character for strings) or an exception, never unrelated data.",
  ["inputs"], "strings, pairs, tuples, vectors, arrays, spans, maps, variants, optionals, calendar times of all sizes; all indices, ranges, keys and attribute names and chains of them",
  "Tests check a few indices per container; negative, huge and chained accesses on empty and short containers are unbounded.",
  [H + "access.hpp", H + "accessor/ranges.hpp", H + "accessor/tuple.hpp", H + "accessor/vocabulary.hpp", H + "accessor/chrono.hpp", H + "accessor/misc.hpp", H + "core.hpp"],
  [("accessor traits", "access.hpp accessor_traits"), ("container accessors", "accessor/*.hpp"), ("chained access", "core.hpp parse_chained_access")],
  observe=["formatted text", "exception", "sanitizer reports"])

p("C10", "Unicode strings behave as sequences of code points in every encoding",
  "For well-formed text in UTF-8, UTF-16 and UTF-32, length, indexing, slicing, iteration in both directions, searching, comparing, appending, conversion between encodings and reading back code points agree with the same operations on the plain sequence of code points. Conversion to another encoding and back is the identity, and encoded lengths and offsets are exact.",
  ["inputs", "histories"], "all sequences of Unicode scalar values (all encoding lengths and boundaries), all indices, ranges and edit sequences",
  "Tests use a few short strings; every combination of character lengths, offsets and directions matters.",
  [H + "utf/codepoint.hpp", H + "utf/codepoint.inl", H + "utf/string.hpp", H + "utf/stralgo.hpp", "src/utf/codepoint.cpp", "src/utf/string.cpp"],
  [("codec", "utf/codepoint.hpp, decoder in codepoint.inl"), ("views and containers", "utf/string.hpp"), ("offset and length search", "utf/stralgo.hpp")],
  observe=["results of each operation"])

p("C11", "Malformed Unicode is handled without undefined behaviour",
  "Every operation of the Unicode string layer, and formatting of such text with any specification, applied to arbitrary code units (truncated, overlong, lone trailing units, unpaired surrogates, out-of-range values) returns or throws a catchable exception. It never reads outside the given units, never executes undefined behaviour, never terminates the process and always finishes.",
  ["inputs"], "all unit sequences in five character types, every operation, index and range",
  "Tests hold only a handful of malformed strings; one-unit over-reads at the end of a buffer do not change results and pass unseen.",
  [H + "utf/codepoint.hpp", H + "utf/string.hpp", H + "utf/stralgo.hpp", "src/utf/codepoint.cpp", H + "core.hpp"],
  [("lead/trail classification", "utf/codepoint.hpp byte_count, is_leading_byte"), ("bounded decoding in views", "utf/string.hpp iterators")],
  observe=["sanitizer reports on heap-exact buffers", "exception"])

p("C12", "String containers keep their value through any history of edits",
  "A string container that may borrow or own its characters always shows the text that the history of assignments, appends, copies, moves, swaps, conversions and clears defines, and two containers never influence each other. An owning container is independent of the lifetime of what it was built from, borrowing never writes to the source, and the null-terminated text (c_str) of a container is its text followed by a terminator.",
  ["histories"], "all sequences of operations over several containers and source buffers that are destroyed or changed in between, five character types",
  "Tests check single operations; ownership mistakes show only after a particular sequence and when the source buffer dies.",
  [H + "utf/string.hpp"], [("borrow/own state", "utf/string.hpp basic_string_container")],
  observe=["contents after each step", "sanitizer reports"])

p("C13", "The small vector is a vector for every history, allocator and fault",
  "Under any sequence of operations, including those referring to its own elements, the small vector holds the same elements in the same order as a standard vector, across the switch between inline and heap storage, with iterators, size and capacity consistent. Every element is constructed and destroyed exactly once and every allocation is returned exactly once, also when element operations or allocations throw.",
  ["histories", "fault_sequences"], "all operation sequences on vectors of different inline capacities, element types and allocators, with a fault at any construction or allocation",
  "Tests run a few fixed sequences with well-behaved elements; aliasing, growth boundaries and exceptions at each step need generated histories and lifetime monitors.",
  [H + "container.hpp"], [("inline/heap storage", "container.hpp small_vector")],
  observe=["contents vs model", "live element registry", "allocation ledger"])

p("C14", "Fixed-capacity containers match their models and never overflow",
  "Under any sequence of operations a fixed-capacity vector or flat map holds what a standard vector or map restricted to that capacity would hold, lookups find exactly the stored keys, and elements are constructed and destroyed exactly once. An operation that would exceed the capacity throws and leaves the container unchanged, and no operation touches memory outside it.",
  ["histories", "fault_sequences"], "all operation sequences at all sizes from empty to full, including capacity zero and throwing elements",
  "Tests fill small containers once; emptiness, fullness and mixtures of inserts and erases are not covered.",
  [H + "container.hpp", "src/container.cpp"], [("capacity checks", "container.hpp fixed_vector"), ("sorted insertion", "container.hpp fixed_flat_map")],
  observe=["contents vs model", "live element registry", "sanitizer reports"])

p("C15", "Stored format arguments stay valid and are destroyed exactly once",
  "A format argument, argument pack or optionally-owning pointer that is copied, moved, assigned, swapped or cleared any number of times still denotes the value it was given, and custom objects it owns are destroyed exactly once while borrowed ones are never destroyed (a copy of an owning argument borrows from the original). Arguments obtained through accessors remain usable as long as the arguments they came from.",
  ["histories"], "all histories of construction, copy, move, assignment, swap, reset and formatting over arguments of all kinds and owning or borrowing pointers",
  "Tests exercise a few single moves; ownership errors depend on the order of operations and show up only as leaks or double frees.",
  [H + "core.hpp", H + "memory.hpp"], [("type-erased handle storage", "core.hpp basic_format_arg::handle"), ("ownership bit", "memory.hpp optional_unique_ptr, compressed_pair"), ("dynamic argument store", "core.hpp basic_dynamic_format_args")],
  observe=["live object registry", "formatted text", "sanitizer reports"])

p("C16", "Printing delivers exactly the formatted bytes or reports failure",
  "Printing to a C stream or C++ stream appends exactly the formatted bytes (plus one newline for the line variants) in order, nothing when formatting throws, and never reports success when a write failed. Consecutive prints neither lose, duplicate nor reorder bytes, whatever the size and buffering mode.",
  ["inputs", "fault_sequences"], "all texts and argument lists, stream buffering modes, and every write fault position (failing or short writes)",
  "Tests print small texts to healthy streams; failing devices, partial writes and large outputs are never exercised.",
  [H + "print.hpp", "src/print.cpp", "src/os/posix.cpp", "src/os/general.cpp", H + "os/os.hpp"], [("write to FILE", "src/os/general.cpp, posix.cpp"), ("print functions", "print.hpp, print.cpp")],
  observe=["bytes that reached the sink", "exception or stream state"])

p("C17", "User-defined types are printed by the documented mechanism, once",
  "A user-defined type is formatted by its formatter specialization if there is one, otherwise by its format function found by argument-dependent lookup, otherwise by its stream insertion operator, and types whose formatter is disabled are refused at compile time or run time; the chosen mechanism receives exactly the text of the specification and its format function is invoked exactly once per printed field and never for a branch not taken. What it writes appears unchanged at the position of the field.",
  ["inputs", "programs"], "all types providing any subset of the mechanisms, by value, reference, const and through accessors or containers; all positions in format strings and scripts",
  "Tests have one type per mechanism and one position; precedence, exactly-once invocation and specification text must hold in every context.",
  [H + "core.hpp"], [("formatter selection", "core.hpp detail::select_formatter_impl, formatter_traits"), ("handles", "core.hpp basic_format_arg::handle")],
  observe=["invocation log of instrumented types", "formatted text"])

p("C18", "The same format gives the same characters in every character type",
  "Formatting the same format string with the same values gives the same sequence of Unicode characters whether it is done with char, wchar_t, char8_t, char16_t or char32_t, and succeeds or fails alike.",
  ["inputs", "configurations"], "all format strings including non-ASCII literals, fills and string arguments, fields with specs, scripts and accessors, in five character types",
  "Tests repeat a few ASCII cases with char and wchar_t; the other types and non-ASCII text travel different code paths.",
  [H + "core.hpp", H + "xchar.hpp", "src/xchar.cpp", H + "utf/string.hpp", H + "utf/codepoint.hpp"], [("per-character-type instantiations", "xchar.hpp, src/xchar.cpp"), ("transcoding append", "core.hpp format_context_traits::append")],
  observe=["decoded output in five types"])

p("C19", "Concurrent formatting is race-free and independent",
  "Threads that format at the same time, sharing format strings, argument packs, containers and formatted objects that nobody modifies, never race and each gets the same text as when formatting alone; concurrent prints to one stream each appear whole in the result.",
  ["schedules"], "all interleavings of formatting, accessor use, printing and copying of shared constant arguments by several threads",
  "Tests are single-threaded.",
  [H + "core.hpp", H + "format.hpp", H + "utf/string.hpp", H + "utility.hpp", "src/locale.cpp", "src/os/posix.cpp"], [("no mutable shared state", "whole library"), ("const-correct handles", "core.hpp basic_format_arg")],
  observe=["thread sanitizer reports", "text per thread vs single-threaded reference"])

p("C20", "Exceptions leave no leak and no damage",
  "When a formatter, accessor, output iterator or memory allocation throws at any point during formatting or container use, the same exception reaches the caller, nothing is leaked or freed twice, the arguments keep their values, and the containers and streams involved remain usable. Formatting again afterwards gives the normal result.",
  ["fault_sequences"], "every allocation point, every output unit and every user callback as the failing point, for generated format calls",
  "Tests never make an allocation or an output iterator fail.",
  [H + "core.hpp", H + "format.hpp", H + "container.hpp", H + "utf/string.hpp", H + "memory.hpp"], [("RAII storage", "core.hpp handles; container.hpp small_vector; utf/string.hpp")],
  observe=["live heap blocks before and after", "exception identity", "result of retry"])

p("C21", "Styled output keeps the payload and always resets the terminal",
  "Formatting or printing with a style emits the style's control sequence, then exactly the text of the plain call, then a reset sequence; an empty style adds nothing. The codes emitted are those of the requested colours and text styles, for every combination.",
  ["inputs"], "all foreground and background colours, style flag combinations and formatted payloads, to strings, iterators and streams",
  "Tests check two or three styles.",
  [H + "color.hpp", "src/color.cpp"], [("escape sequence output", "color.hpp")],
  observe=["output bytes parsed as control sequences plus payload"])

p("C22", "Only the locale flag lets the locale influence output",
  "Without the locale flag in a field, output does not depend on the global C or C++ locale nor on a locale passed in; with the flag, booleans, calendar times and streamed values use the locale that was passed (a print to a C++ stream passes the locale of the stream), or the classic locale if none was. The locale passed to a call (the classic one if none) is what the formatter of a user-defined type sees at any depth of ranges, tuples, joins and scripts. Formatting never changes the locale in effect.",
  ["configurations", "inputs"], "all locales (with arbitrary punctuation facets), all argument types and specifications, per-call and global locales, in char and wchar_t",
  "Tests try one facet for bool; independence must hold for every type, specification and entry point.",
  [H + "locale.hpp", "src/locale.cpp", H + "core.hpp", H + "format.hpp"], [("locale reference", "locale.hpp locale_ref"), ("bool formatter", "core.hpp formatter<bool>")],
  observe=["formatted text under several locales"])

p("C23", "Compound values are the composition of their parts",
  "Ranges, maps, sets, pairs, tuples, optionals, variants, joined ranges, expected values, enumerations, paths, calendar times and thread identifiers print as their elements' own text, put together with the documented brackets, separators and options, for any contents, nesting and element specification (calendar times of the years 1000 to 9999). A specification for the elements has the same effect as on a single element.",
  ["inputs"], "all contents (including empty and nested) and all specifications of each compound kind, in char and wchar_t",
  "Tests print one or two instances of each kind.",
  [H + "core.hpp", H + "formatter/tuple.hpp", H + "formatter/vocabulary.hpp", H + "formatter/chrono.hpp", H + "formatter/filesystem.hpp", H + "formatter/misc.hpp", H + "format.hpp", H + "utility.hpp"],
  [("range formatter", "core.hpp range_formatter"), ("tuple formatter", "formatter/tuple.hpp"), ("vocabulary formatters", "formatter/vocabulary.hpp"), ("enumeration names", "utility.hpp enum_name")],
  observe=["formatted text"])

p("C24", "Adapters hand over every element once, in order",
  "A stream over an output iterator (basic_oiterstream, basic_iterbuf) writes each character exactly once in order and base() tells where it stopped; a stream over an input iterator takes each element once, only when it is needed; streaming a joined range writes each element once with the separator between them; tuple_for_each visits each element once, in order, with the tuple's value category, and stops at an exception. The small value types passed between the parts keep and compare their value: index ranges, index values, attribute names (also inside copied exceptions), named arguments, locale references, script error names.",
  ["inputs", "fault_sequences"], "all contents, all series of stream operations, iterators that are single-pass or throw, tuples of any kind; all index ranges and names, in every character type",
  "Tests write one string through the adapter and read one number.",
  [H + "utility.hpp", H + "access.hpp", H + "locale.hpp", H + "core.hpp", "src/core.cpp"],
  [("stream adapters", "utility.hpp basic_iterbuf/basic_oiterstream"), ("joiner", "utility.hpp joiner"), ("tuple visits", "utility.hpp tuple_for_each"), ("index values", "access.hpp basic_indexing_value/basic_attribute_name")],
  observe=["characters read and written", "iterator positions and reads", "visits", "values after copies"])

p("C25", "The parts offered for own formatters mean what they say",
  "Formatters of the user's own can be made from the library's parts: std_formatter_parser and simple_formatter_parser report exactly the fill, alignment, sign, flags, width, precision (also those taken from other arguments) and type that the specification contains, stop at the closing brace, and refuse every ill-formed specification with an exception; the operations of the format context (append of units, characters, code points and ranges, append_escaped, nested format_to/vformat_to, advance_to) write what they are given, count times, encoded for the context, in the order of the calls; a formatter that inherits, contains or calls one of the library's gives the same text or refusal as the plain value; the parse context reports and advances the argument numbering, refuses automatic ids after explicit ones, and skip_spec() ends at the brace that closes the field.",
  ["inputs"], "all specifications of the grammar and definite mistakes in them, all series of context operations, every character type and output iterator, every arrangement of fields",
  "Tests try some parsers with a handful of specifications and char or wchar_t only.",
  [H + "core.hpp", H + "format.hpp", H + "xchar.hpp"],
  [("parsers", "core.hpp std_formatter_parser/simple_formatter_parser/fmt_parser_utils"), ("format context operations", "core.hpp format_context_traits"), ("base formatters", "core.hpp int_formatter/float_formatter/codepoint_formatter/string_formatter, formatter_traits"), ("parse context", "core.hpp basic_format_parse_context")],
  observe=["what the parsers report", "text written by operations", "text of delegating formatters", "answers of the parse context"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
