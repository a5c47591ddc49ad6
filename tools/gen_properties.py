#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
B = "protospec-build/src/"
def m(name, where): return {"name": name, "where": B + where}
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [B + f for f in files], "mechanism": mech,
                          "observe_at": observe, "hook_needed": None}})
GEN = ["generated encode_sync / decode_sync of the types of a compiled specification"]
TESTWHY = "The compiler tests compile about forty fixed specifications and check one or two hand-written values each; "

add("C01", "Encode then decode returns the same value and eats exactly its bytes",
 "For every type of every accepted specification and every value of the generated type that is consistent with the specification, encoding succeeds and decoding the encoded bytes returns an equal value. When other bytes follow the message on the same stream, decoding consumes exactly the message's bytes and leaves the rest (formats that read to the end of the stream excepted). Encoding the decoded value again gives the same bytes.",
 ["programs", "inputs"], "all specifications of the enumerated families (every type constructor, combined), all values over boundary domains per field",
 TESTWHY + "the pairing of the independently generated encoder and decoder has to agree for every combination of constructors and every value.",
 ["coder/encode/mod.rs", "coder/decode/mod.rs", "compiler/encoder.rs", "compiler/decoder.rs"],
 [m("encoder instruction list", "coder/encode/container.rs"), m("decoder instruction list", "coder/decode/container.rs"), m("emission of both", "compiler/encoder.rs")], GEN)

add("C02", "Encoders emit exactly the bytes the specification denotes",
 "Encoding a consistent value writes exactly the byte string its specification denotes: fields in declaration order, scalars in their declared width and endianness (big-endian unless `le`), booleans as one byte 0/1, arrays element by element, conditional fields only when their condition holds, pads as zero bytes, and nothing else. Decoding those denoted bytes yields the value.",
 ["programs", "inputs"], "all specifications of the enumerated families, all values over boundary domains, against an independent reference interpreter of the language",
 TESTWHY + "a symmetric mistake in both directions (for example a wrong endianness or order on both sides) passes every round-trip test.",
 ["coder/encode/mod.rs", "coder/encode/field.rs", "coder/encode/array.rs", "compiler/encoder.rs"],
 [m("instruction emission", "compiler/encoder.rs"), m("field and container encoding", "coder/encode/field.rs")], GEN)

add("C03", "Decoders accept exactly the format's byte strings and never misbehave",
 "For every byte string, a generated decoder returns either the value the specification assigns to that byte string or an error, according to whether a prefix of it is a well-formed message. It never panics, never loops forever, and never reserves memory out of proportion to the bytes actually available, whatever lengths and counts the input claims.",
 ["programs", "inputs"], "all byte strings over per-specification alphabets up to a length bound plus hostile length values, for every specification of the families",
 "Tests decode a few well-formed messages; hostile or malformed bytes are never decoded, and the claim is about all byte strings.",
 ["coder/decode/mod.rs", "compiler/decoder.rs", "prelude/var.rs", "prelude/utf8.rs", "prelude/utf16.rs"],
 [m("decoder emission", "compiler/decoder.rs"), m("foreign decoders", "prelude/var.rs")], GEN)

add("C04", "Truncated input and read failures are reported, never turned into values",
 "If the input ends before the message is complete, or the reader fails at any point before the last needed byte, decoding returns an error; it never returns a value made of missing, zero or stale bytes. (`[..]` arrays, terminated arrays and NUL-terminated strings may also end at the end of the stream; they end successfully only on an element boundary.) A reader failure after the last needed byte is irrelevant.",
 ["inputs", "fault_sequences"], "every strict prefix of every enumerated encoding, and an injected error of each kind at every read call",
 "No test feeds truncated data or a failing reader; there is one failure point per byte of every message.",
 ["compiler/decoder.rs", "prelude/utf8.rs", "prelude/var.rs", "prelude/utf16.rs"],
 [m("read_exact/read_to_end/read_until and ? propagation", "compiler/decoder.rs")], GEN)

add("C05", "Decoding is independent of how the reader delivers the bytes",
 "Decoding a message gives the same result and consumes the same number of bytes however the reader splits the bytes over calls: any buffer boundaries, short reads, and interrupted calls. Several messages written back to back on one stream decode one after another to the original values.",
 ["inputs", "schedules"], "all ways to split each message into buffer fills (all compositions up to a length, at most k cuts and interruptions beyond it)",
 "All tests decode from one in-memory slice, i.e. a single delivery schedule out of 2^(n-1).",
 ["compiler/decoder.rs", "coder/decode/array.rs", "prelude/utf8.rs"],
 [m("terminated-array scan over fill_buf", "compiler/decoder.rs"), m("stream wrapping", "coder/decode/field.rs")], GEN)

add("C06", "Encoding is independent of short writes and reports every write failure",
 "Encoding to a writer that accepts only part of each buffer or is interrupted produces the same bytes as encoding to a vector. If the writer fails or accepts nothing, encoding returns an error, and what was written before the failure is a prefix of the full encoding.",
 ["inputs", "fault_sequences"], "every write call of every enumerated encoding answered short, interrupted, zero or with an error (at most k deviations)",
 "All tests write into a Vec, which never writes short and never fails.",
 ["compiler/encoder.rs", "coder/encode/container.rs", "prelude/var.rs", "prelude/utf8.rs", "prelude/utf16.rs"],
 [m("write_all and ? propagation, EmitBuf, EndStream", "compiler/encoder.rs")], GEN)

add("C07", "Async functions behave exactly like their sync counterparts",
 "With async generation enabled, encode_async and decode_async of every type produce the same bytes, values, consumption and success or failure as encode_sync and decode_sync, for every schedule of ready and pending polls and every split of the data across polls. They never complete early, lose data across a pending poll, or hang when the stream makes progress.",
 ["programs", "inputs", "schedules"], "every specification of the families compiled with include_async; all poll schedules with at most k pending polls or splits",
 "No test enables include_async at all; the generated async code is never compiled by the suite.",
 ["compiler/mod.rs", "compiler/encoder.rs", "compiler/decoder.rs", "prelude/var.rs", "prelude/utf8.rs", "prelude/utf16.rs"],
 [m("map_async suffixes and async function emission", "compiler/mod.rs")], ["generated encode_async / decode_async"])

add("C08", "Conditional fields are present exactly when their condition holds",
 "A field with a condition occupies bytes, and decodes to Some, exactly when its condition evaluates to true on the fields before it; otherwise it occupies no bytes and decodes to None, including every field inside a conditional nested container. Encoding a value whose field is None although its condition holds fails with an error instead of producing bytes. A conditional field is used in later expressions only through `?:` (or blen).",
 ["programs", "inputs"], "containers with up to four conditional members and nested conditional containers, all condition outcomes and all None/Some combinations",
 TESTWHY + "the interplay of nested conditions with absent values has exponentially many combinations, and the failing encodes are not tested.",
 ["coder/encode/field.rs", "coder/encode/container.rs", "coder/decode/field.rs", "coder/decode/container.rs"],
 [m("Conditional / NullCheck instructions", "coder/encode/field.rs"), m("Conditional", "coder/decode/field.rs")], GEN)

add("C09", "Calculated fields always carry the value of their expression",
 "A field declared with `= expression` is written with the value the expression has for the message being encoded, whatever the caller put in the struct; `blen(x)`, x a length-delimited container of the same container, is the exact number of bytes that x occupies in this encoding before x's own transforms, 0 if x is absent. Calculated fields may depend on one another in any order; a cyclic dependency is rejected. Computing it later than its position in the message changes neither the order of the emitted fields nor any other byte.",
 ["programs", "inputs"], "all placements of up to three calculated fields (len, blen, constants, arithmetic) among up to four other fields, nested or not, and all small values",
 TESTWHY + "only one calculated field at a time is compiled, so back-patching of several pending fields is unexplored.",
 ["coder/encode/container.rs", "prelude/blen.rs", "prelude/len.rs"],
 [m("pending/resolved autos and buffer splicing", "coder/encode/container.rs")], GEN)

add("C10", "Enums and bitfields map one to one between names and declared values",
 "For every representation value, decoding an enum succeeds exactly when a variant (or a default variant) covers it and encoding the result restores the same value; decoding a bitfield succeeds exactly when only declared bits are set. Every variant, flag constant, getter, setter and ALL/ZERO constant corresponds to the value the specification gives that name: explicit values as written, an omitted enum value is previous + 1, an omitted bitfield value is the previous one shifted left by one.",
 ["programs", "inputs"], "all enum and bitfield declarations of the families over 8- and 16-bit representations with every representation value, and boundary values of the wider ones",
 TESTWHY + "at most three representation values out of 2^8..2^128 are decoded.",
 ["compiler/mod.rs", "semantics/convert/type_/enum_.rs", "semantics/convert/type_/bitfield.rs", "coder/encode/array.rs"],
 [m("generate_enum / generate_bitfield", "compiler/mod.rs"), m("implicit values", "semantics/convert/type_/enum_.rs")], GEN)

add("C11", "Run-time expressions evaluate as the language defines them",
 "Every accepted expression used as a condition, length, pad size, argument or calculated value evaluates, in encoder and decoder alike, to the value the language gives it: operator precedence and associativity of the grammar, integer arithmetic of the operand type, casts, comparisons, short-circuit logic, ternaries, elvis, indexing, enum constants and bitfield members, and the prelude functions len, blen, pad, bits and sum. Overflow (of sum too), division by zero, a shift by the width or more, and an index out of range are errors, never silently replaced by a different number.",
 ["programs", "inputs"], "all expression trees up to a depth over every operator, operand type and boundary operand value",
 TESTWHY + "the expression tests check that code compiles, not what it computes, for a few expressions.",
 ["compiler/expr.rs", "semantics/convert/expression/mod.rs", "parser/expression/mod.rs", "prelude/pad.rs", "prelude/sum.rs", "prelude/len.rs"],
 [m("emit_expression", "compiler/expr.rs"), m("typing and coercion", "semantics/convert/expression/mod.rs")], GEN)

add("C12", "Compile-time constants have the value their expression denotes",
 "Integer literals (decimal and hexadecimal, suffixed or not), constants, enum discriminants and bitfield masks have in the generated code exactly the value their source expression denotes in their declared type. A literal or constant expression that does not fit its type, divides by zero or shifts out of range is rejected at compile time with an error or failing build of the generated code, never wrapped or truncated silently.",
 ["programs", "inputs"], "all constant expressions up to a depth over all operators, scalar types and boundary literals",
 "Tests evaluate a handful of constants within range; the constant evaluator is per type and per operator.",
 ["asg/expression/const_int.rs", "compiler/expr.rs", "semantics/convert/expression/int.rs"],
 [m("ConstInt arithmetic", "asg/expression/const_int.rs"), m("eval_const_expression", "compiler/expr.rs")], GEN)

add("C13", "Transforms apply to exactly their field, in order, and invert on decode",
 "The bytes of a field with transforms are the plain encoding of that field passed through each active transform from left to right, and decoding undoes them from right to left; a conditional transform is active exactly when its condition holds, and its arguments have the values their expressions denote. Bytes of other fields are never affected, and everything a transform still buffers at the end of its field is flushed before the next field. (Transforms that cannot tell their own end, such as base64, are used only where the field ends with its container or the stream.)",
 ["programs", "inputs"], "all lists of up to three transforms (non-commuting, stateful, buffering, with and without condition and arguments) on every kind of field",
 TESTWHY + "the test transform commutes with itself, so order, nesting and flushing are never observed.",
 ["coder/encode/field.rs", "coder/decode/field.rs", "compiler/encoder.rs", "compiler/decoder.rs", "prelude/base64.rs", "prelude/gzip.rs"],
 [m("WrapStream / ConditionalWrapStream / EndStream", "coder/encode/field.rs")], GEN)

add("C14", "Array and container lengths delimit exactly what they say",
 "An array with a length expression has exactly that many elements on the wire and in the value, a terminated array extends to the first terminator at an element boundary and consumes it, and an open array extends to the end of the enclosing container or stream; an element that is cut short there is an error. A container with a length occupies exactly that many bytes: its fields never read past it, and the field after it starts right behind it or decoding fails.",
 ["programs", "inputs"], "all combinations of array kind, element type, nesting and enclosing container length over all small contents and all inconsistent lengths",
 TESTWHY + "lengths that disagree with the content, terminators cut by element boundaries and leftover bytes are not tested.",
 ["coder/decode/array.rs", "coder/encode/array.rs", "coder/decode/container.rs", "coder/encode/container.rs", "compiler/decoder.rs"],
 [m("Constrict / Loop", "compiler/decoder.rs"), m("array coding", "coder/decode/array.rs")], GEN)

add("C15", "Prelude types (varints, utf8, utf16) follow their formats exactly",
 "The variable-length integers v8 to v128 encode every value in the minimal number of 7-bit groups, least significant first, and decode returns the value for every encoding that fits the type and an error otherwise. utf8 and utf16 strings encode their text with the documented length or terminator and decode to the same text, rejecting invalid text with an error; sync, async, standalone, array and field uses agree.",
 ["inputs"], "all 1- and 2-byte varints, all group patterns at the width limits for longer ones, all short strings over an alphabet of boundary code points, all short byte strings",
 TESTWHY + "one or two values per foreign type are tested.",
 ["prelude/var.rs", "prelude/utf8.rs", "prelude/utf16.rs"],
 [m("foreign type generators", "prelude/var.rs")], GEN)

add("C16", "Type references pass their arguments and defaults faithfully",
 "A reference to a declared type behaves exactly as the declared type with each parameter bound to the value of the given argument expression, or to the declared default when omitted, at any depth of references, inside arrays and containers, and for recursive types. Calling a generated function with None for an optional parameter equals calling it with the default.",
 ["programs", "inputs"], "all type declarations with up to three parameters (required, optional), all argument lists, references nested up to depth three and recursive references",
 TESTWHY + "no test passes an optional parameter or checks the value a parameter receives.",
 ["semantics/convert/type_/type_ref.rs", "coder/encode/var_ref.rs", "coder/decode/mod.rs", "compiler/mod.rs"],
 [m("argument binding", "semantics/convert/type_/type_ref.rs"), m("default handling", "compiler/mod.rs")], GEN)

add("C17", "Tagged enums select the first variant whose condition holds",
 "Decoding a `+tagged_enum` container yields the first variant, in declaration order, whose condition holds, and an error if none does. Encoding writes exactly the fields of the selected variant, and fails if the value's variant is not the one the conditions select or if no variant is selected.",
 ["programs", "inputs"], "all tagged enums with up to four variants (tuple and struct), overlapping, exhaustive and partial conditions, every argument value with every variant",
 TESTWHY + "only matching variant/condition pairs are encoded.",
 ["coder/encode/container.rs", "coder/decode/container.rs", "compiler/encoder.rs"],
 [m("BreakBlock / UnwrapEnum", "coder/encode/container.rs"), m("ConditionalPredicate", "coder/decode/container.rs")], GEN)

add("C18", "The tokenizer reads every source text as the lexical grammar defines",
 "For every input text the tokenizer returns either the longest-match token sequence of the lexical grammar, with string escapes and comments decoded, or an error; it never panics. Each token's line and column range (columns count bytes) locates its text in the source, and error positions point at the offending character.",
 ["inputs"], "all texts up to a length over an alphabet covering every character class and operator character, plus all short texts around strings, comments and newlines",
 "Two unit tests tokenize two fixed texts; positions and escapes are not checked.",
 ["tokenizer.rs"], [m("Token::gobble and tokenize", "tokenizer.rs")], ["protospec_build::tokenize", "spans in parse errors"])

add("C19", "The parser accepts exactly the grammar and builds the grammar's tree",
 "A token sequence is accepted exactly when the published grammar (SPEC.md with the extensions documented in README.md and the tests) derives it, and the resulting syntax tree is the one the grammar assigns, with its operator precedence, associativity and grouping. A rejection is reported at the first token that cannot continue a derivation. Comments and white space between tokens never change the result.",
 ["inputs", "programs"], "all token sequences up to a length per grammar category, all binary/unary/cast/ternary operator combinations up to a depth, against an independent table-driven reference parser",
 "Parser tests cover about a hundred fixed texts, and precedence for none of the operator pairs.",
 ["parser/mod.rs", "parser/expression/mod.rs", "parser/types/mod.rs", "parser/field.rs", "parser/declaration/mod.rs"],
 [m("recursive descent", "parser/expression/mod.rs")], ["protospec_build::parse and the public ast types"])

add("C20", "No source text makes the compiler panic or hang",
 "Compiling any source text ends in a result: generated code, or an error value that says why not. Neither parsing, semantic analysis, import resolution nor code generation panics, overflows the stack or loops forever, for sources of up to a few thousand declarations, fields or levels of nesting.",
 ["inputs", "programs"], "all short texts, all token-level deletions, duplications, swaps and substitutions of seed specifications, and all small programs of the semantic families",
 "Tests run a few dozen programs that are expected to work or to give one specific error.",
 ["lib.rs", "semantics/convert/mod.rs", "compiler/mod.rs", "coder/encode/container.rs", "asg/program.rs"],
 [m("Result propagation through all phases", "lib.rs")], ["protospec_build::parse, Program::from_ast, compile_program"])

add("C21", "Static checks accept exactly the well-formed programs",
 "A program is accepted exactly when every name it uses is declared and visible at that point, no name is declared twice in a scope, every expression has a type fitting its position, argument counts match, and the structural rules (enums, bitfields and tagged enums only at top level, no repeated inline containers, and so on) hold: conditions on top-level types only on aliases, values that may be absent only through `?:`, defaults of parameters only over earlier parameters, constants and enums only over earlier ones, no type that always contains itself. Otherwise an error is reported.",
 ["programs"], "all small programs built from a catalogue of declarations, references and expressions in every position, each well-formed or with one violated rule, against an independent checker",
 "About sixty programs are checked; rules interact with every position an expression or type can take.",
 ["semantics/convert/program/mod.rs", "semantics/convert/type_/container.rs", "semantics/convert/expression/mod.rs", "semantics/partial_type.rs", "asg/types/mod.rs"],
 [m("convert_* functions", "semantics/convert/program/mod.rs"), m("PartialType compatibility", "semantics/partial_type.rs")], ["Program::from_ast result and AsgError variant"])

add("C22", "Imports bring in exactly the named items, once, under the right name",
 "An imported name denotes the item of that name in the imported file, under its alias if one is given, and only imported names become visible (items that the file itself imported can be imported from it, functions cannot); files imported along several paths are loaded once and their items are identical. Missing files, missing items, files with errors and import cycles and one name for two items are reported as errors, and resolution always terminates. The generated module contains the types of all imported files, the imported ones under the name they have in the importing file, and different types never share a name.",
 ["programs", "configurations"], "all import graphs over up to three files (diamonds, cycles, self-imports, duplicates) with all small item lists and aliases",
 "Tests import from one or two files in acyclic graphs.",
 ["semantics/convert/program/import.rs", "semantics/convert/program/resolve.rs", "import.rs"],
 [m("import cache and import conversion", "semantics/convert/program/resolve.rs")], ["Program::from_ast with a counting ImportResolver"])

add("C23", "Every accepted specification generates code that compiles",
 "If the front end accepts a specification, the generated Rust module compiles without errors under every combination of options: async or not, anyhow or not, debug mode or not, and any derive lists that the field types support. The generated items have the documented names and signatures.",
 ["programs", "configurations"], "all specifications of the families, and the cross product of options over a covering subset",
 TESTWHY + "async, anyhow and debug output are never compiled, and few combinations of constructors are.",
 ["compiler/mod.rs", "compiler/encoder.rs", "compiler/decoder.rs", "compiler/expr.rs"],
 [m("compile_program", "compiler/mod.rs")], ["rustc on the generated module"])

add("C24", "Generated code depends only on the specification's meaning",
 "Compiling the same specification with the same options always yields the same text, in any process and after any other compilations. Renaming nothing but reordering top-level declarations, adding comments or white space, or adding unrelated declarations (constants and enums staying before the constants and enums that use them) does not change the wire format, the public types or the acceptance of any type. The derive, anyhow and debug options do not change the wire format.",
 ["programs", "configurations", "histories"], "every specification of the families compiled repeatedly in separate processes, and under all permutations of its declarations",
 "Each test compiles once in one process; hash-seed dependence is invisible in a single run.",
 ["compiler/mod.rs", "coder/decode/mod.rs", "coder/encode/container.rs", "semantics/convert/program/mod.rs", "asg/program.rs"],
 [m("ordered maps and phase order", "semantics/convert/program/mod.rs")], ["compile_program output and the generated codecs"])

add("C25", "compile_spec writes a complete module or reports an error",
 "compile_spec returns Ok exactly when the named file in the output directory holds the complete generated module of the specification under the given options; compiling again overwrites it with exactly the new module. If any step fails (syntax, semantics, imports, directory or file access), it returns an error; a formatter that is missing or fails leaves the module unformatted but complete, or is an error. A rejected specification leaves the file as it was, other files are never touched, and no earlier failure leaves a later success incomplete.",
 ["configurations", "fault_sequences", "histories"], "all sequences of up to three compile_spec calls over good and bad specifications and names, with each file-system and formatter fault at each step",
 "No test calls compile_spec at all.",
 ["lib.rs"], [m("compile_spec and rustfmt piping", "lib.rs")], ["return value of compile_spec and the file in OUT_DIR"])

add("C26", "Encoding an inconsistent value fails cleanly",
 "If a value contradicts its specification - an array, string or length-delimited container whose size differs from its declared length, a missing conditional field, a wrong tagged-enum variant - encoding returns an error. It never panics and never returns Ok with bytes that do not decode back to the given value (an absent-by-condition field's content excepted).",
 ["programs", "inputs"], "every specification of the families with every small value, consistent or not",
 "Tests encode only consistent values.",
 ["coder/encode/array.rs", "coder/encode/field.rs", "coder/encode/container.rs", "compiler/encoder.rs", "prelude/utf8.rs"],
 [m("length and null checks", "compiler/encoder.rs")], GEN)

add("C27", "Every name stands for the innermost visible declaration",
 "A name in an expression stands for a field declared earlier in the same container or in one around it, in a calculated field for any field of its own container; if there is none, for the parameter of that name of the declared type, and if there is none, for the constant. A field is not visible outside the container or tagged-enum variant that declares it, before its declaration, or in other types; the arguments of a reference are names where the reference stands, the names in a declared type and in defaults are those of its declaration. Values, types, functions, transforms and enum items have names of their own, which do not hide each other. Encoder and decoder agree on this.",
 ["programs", "inputs"], "every placement of a field, a parameter and a constant of one name around every kind of use, in nested containers, variants and referenced types, with all small values",
 TESTWHY + "One test declares the same name twice, and it looks at acceptance only.",
 ["semantics/resolve.rs", "semantics/scope.rs", "semantics/convert/expression/var_ref.rs", "semantics/convert/type_/container.rs", "coder/encode/container.rs", "coder/decode/container.rs"],
 [m("resolve_field and resolve_input", "semantics/resolve.rs")], GEN)

add("C28", "Errors point at the fault",
 "A specification with a single fault is rejected with a message that gives a position in its text (line and column, from 1) which is not empty and lies within what is at fault: the name that denotes nothing, the operand or argument of the wrong type, the item or declaration that clashes with an earlier one (a second position lies within the earlier one), the reference with the wrong number of arguments, the token that continues nothing. Which tokens the position covers depends only on the fault: not on line breaks, tabs, comments and non-ASCII text before, in or after it, not on other declarations, and not on the correct expression, item or type around it; nor does a correct part of the text get the blame.",
 ["programs"], "one fault of each kind in every surrounding expression and place, with line breaks, tabs and comments in every gap between tokens",
 "The suite asserts that bad specifications are rejected, hardly ever where.",
 ["tokenizer.rs", "semantics/error.rs", "semantics/convert/expression/mod.rs", "semantics/convert/expression/binary.rs", "semantics/convert/type_/container.rs", "parser/error.rs"],
 [m("Span and its addition", "tokenizer.rs"), m("errors of the analysis", "semantics/error.rs")], ["result of parse and asg::Program::from_ast", "text of ParseError and AsgError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
