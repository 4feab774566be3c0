#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

T = "crates/toon/src/"
p("C01", "Lossless round trip of every JSON value",
  "For every JSON value (nested at most 127 levels deep, the most serde_json reads), decoding the text the encoder produced gives back that value: same structure, same strings, numerically equal numbers, same array order, and same object key order (rows of a table take the column order of the table's header, which is the first row's). A double counts as equal to the number its shortest decimal denotes. It holds for every delimiter, every indent width of at least one, both decode modes, whatever delimiter the decoder's own options name, and for both the streaming and the value-based encoder.",
  ["inputs", "configurations"], "all JSON values x {comma,tab,pipe} x indent 1..8 x {strict,lenient} x {streaming,value-based}",
  "Unit tests round-trip about ten hand-written documents with default options; nesting shapes such as an empty object before a sibling, arrays in list items, or other indents never occur.",
  [T+"encode/encoders.rs", T+"encode/primitives.rs", T+"ser/stream.rs", T+"decode/parser.rs", T+"decode/scanner.rs", T+"de/mod.rs"],
  [("indent-driven recursive parser mirrors the encoder's layout", T+"decode/parser.rs parse_array/parse_object"), ("layout of list items, tables, inline arrays", T+"encode/encoders.rs")],
  ["encode_to_string", "ser::to_string", "decode_from_str"])
p("C02", "Key folding followed by path expansion is lossless",
  "For every JSON value (nested at most 127 levels deep) in which no object key contains a dot, encoding with safe key folding (at any flatten depth) and decoding with safe path expansion gives back the same value. Folding alone never loses data either: decoding folded text without expansion yields exactly the value with its folded chains written as dotted keys.",
  ["inputs", "configurations"], "all JSON values without dotted keys x flatten depth {unlimited,0..n} x delimiters x both encoders, root objects given as maps or as structs",
  "Tests fold three or four fixed documents; chains interrupted by keys that need quotes, depth limits inside arrays and folding of structs are not covered.",
  [T+"encode/encoders.rs", T+"decode/path_expand.rs", T+"ser/stream.rs"],
  [("try_fold_keys / sibling collision", T+"encode/encoders.rs"), ("expand_paths/deep_merge", T+"decode/path_expand.rs")],
  ["encode_to_string with KeyFolding::Safe", "decode_from_str with ExpandPaths::Safe"])
p("C03", "The encoder emits exactly the canonical TOON layout",
  "For every JSON value and option set the output is the one canonical TOON document: `key: value` lines indented by depth times the indent width, arrays of scalars inline as `[N]: a,b`, non-empty arrays of objects that all have the same non-empty key set and only scalar values as `[N]{fields}:` tables with columns in the first object's key order, all other arrays as `- ` lists with declared length, and a list-item object's first field on the hyphen line with that field's children two levels deeper and the remaining fields one level deeper. Lengths always equal the real element count, non-comma delimiters appear in every header, there is no trailing newline or trailing space beyond what quoting protects.",
  ["inputs", "configurations"], "all JSON values x delimiter x indent width",
  "Tests compare a few dozen literal outputs; layout rules interact (tables inside list items inside lists, delimiter x nesting) in combinatorially many ways.",
  [T+"encode/encoders.rs", T+"encode/writer.rs", T+"ser/stream.rs"],
  [("is_tabular_array, encode_list_item_object", T+"encode/encoders.rs"), ("encode_keyed_array_json / encode_list_item_json", T+"ser/stream.rs")],
  ["encode_to_string", "ser::to_string"])
p("C04", "Strings and keys are quoted exactly when needed and escape-safe",
  "Wherever a string can appear (document root, field value, inline array, table cell, list item, first field of a list item), it is written bare only if it is non-empty, has no leading or trailing space, contains no control character, quote, backslash, colon, bracket, brace or the active delimiter, does not start with a hyphen, and would not be read as a number, true, false or null; otherwise it is quoted with quote, backslash and every control character escaped. Keys are bare only if they match [A-Za-z_][A-Za-z0-9_.]*. Either way, decoding that document returns the identical string.",
  ["inputs", "configurations"], "all Unicode strings x positions x delimiters",
  "Tests sample about thirty strings, mostly in one position and with the comma delimiter.",
  [T+"encode/primitives.rs", T+"decode/parser.rs", T+"number.rs"],
  [("needs_quotes / escape_and_quote / format_key", T+"encode/primitives.rs"), ("try_unescape_json_string", T+"decode/parser.rs")],
  ["encode_to_string", "decode_from_str"])
p("C05", "Numbers are written canonically and keep their value",
  "Every finite number is written in plain decimal: no exponent, no leading zeros, no trailing fractional zeros, negative zero as 0, and non-finite floats as null; reading the digits back gives the same number. This holds in every position (root, field, inline array, table cell, list item) and through both encoders.",
  ["inputs", "configurations"], "all i64, u64, f32 and f64 values x positions x encoders",
  "Tests check a handful of floats at the root; the f64 space and the other positions are unsampled.",
  [T+"number.rs", T+"encode/primitives.rs", T+"encode/encoders.rs", T+"ser/stream.rs", T+"value.rs"],
  [("format_canonical_f64, expand_exponent, trim_fraction", T+"number.rs")],
  ["encode_to_string", "ser::to_string"])
p("C06", "Scalar tokens decode to the type TOON gives them",
  "A quoted token always decodes to a string, with the JSON escapes undone; bare true, false and null decode to literals; a bare token of JSON number shape decodes to that number (exactly when it is an integer that fits 64 bits, otherwise to the nearest double); every other bare token, including ones with forbidden leading zeros, a plus sign or a dangling point, decodes to itself as a string. The result is the same in every position a token can occur.",
  ["inputs", "configurations"], "all tokens x positions x decode modes",
  "Tests sample a few tokens per class; near-number tokens and 64-bit boundary values are not exercised in each position.",
  [T+"decode/parser.rs", T+"number.rs"],
  [("parse_scalar_token, classify_numeric_hint", T+"decode/parser.rs"), ("has_forbidden_leading_zeros", T+"number.rs")],
  ["decode_from_str"])
p("C07", "Declared array lengths and table widths are enforced",
  "A document is rejected if any array in it, at any nesting depth and in any of its forms (inline, list, table; keyed, root or directly inside a list item), has a number of elements different from the length its header declares, or if any table row has a number of cells different from the header's field count. Documents whose counts all match are not rejected for this reason.",
  ["inputs", "configurations"], "all documents with one or more counts perturbed x delimiter x mode x position",
  "Tests perturb the count of a top-level array only.",
  [T+"decode/parser.rs"],
  [("parse_array_with_length_check / parse_tabular_rows / inline length checks", T+"decode/parser.rs")],
  ["decode_from_str"])
p("C08", "Strict decoding rejects malformed documents instead of guessing",
  "In strict mode the decoder returns an error when a line's indentation is not a multiple of the indent width or contains a tab, when a blank line separates two items or rows of one array, when a quoted string is unterminated or has an invalid escape, when a bare value stands where a key is required, or when any non-blank line cannot be placed in the document (so no line's content is ever silently dropped). Well-formed documents are not rejected.",
  ["inputs", "configurations"], "all documents obtained by structural damage to well-formed ones x indent width",
  "Tests check one instance of each category at one depth.",
  [T+"decode/validation.rs", T+"decode/parser.rs"],
  [("validate_indentation_with_size", T+"decode/validation.rs"), ("blank line and root-level checks", T+"decode/parser.rs")],
  ["decode_from_str with strict = true"])
p("C09", "Decoding any text terminates without panicking",
  "For every input text and every option set, decoding returns a value or an error: it never panics, never loops or hangs, never overflows an ordinary thread's stack however deeply the document nests, and a syntax error names a line that exists in the input (counting from 1). Nesting up to 128 lines deep, and up to 128 more levels added by dotted keys under path expansion, is never what makes it fail.",
  ["inputs", "configurations"], "all UTF-8 texts x option sets x feature builds",
  "Tests feed well-formed ASCII documents; slicing at byte offsets can only fail on inputs tests do not contain, and nothing deeper than a few levels is ever decoded.",
  [T+"decode/parser.rs", T+"decode/scanner.rs", T+"de/direct.rs"],
  [("byte-offset scanning of headers, delimiters and quotes", T+"decode/parser.rs"), ("validate_nesting limits recursion", T+"decode/validation.rs"), ("expand_paths limits the levels dotted keys add", T+"decode/path_expand.rs")],
  ["decode_from_str"])
p("C10", "Strict mode only removes documents, it never changes a value",
  "For every text and otherwise equal options, if strict decoding returns a value then lenient decoding returns the same value.",
  ["inputs", "configurations"], "all UTF-8 texts x option sets",
  "No test compares the two modes on one input.",
  [T+"decode/parser.rs", T+"de/mod.rs", T+"decode/path_expand.rs"],
  [("strict flag consulted inside the one parser", T+"decode/parser.rs")],
  ["decode_from_str"])
p("C11", "Path expansion follows its merge rules",
  "With safe path expansion, an unquoted key whose dot-separated segments are all identifiers becomes nested objects, and objects reached by several keys are merged deeply in order of appearance; quoted keys and keys with any non-identifier segment are kept literally. When two keys give the same path incompatible values, strict mode reports an error and lenient mode keeps the later one. With expansion off every key is returned exactly as written.",
  ["inputs", "configurations", "histories"], "all sequences of fields (the order of keys is a history of merges) x nesting x mode",
  "Tests cover five fixed documents; merge order, depth, arrays of objects and quoted/unquoted mixes are unsampled.",
  [T+"decode/path_expand.rs", T+"decode/parser.rs", T+"de/mod.rs"],
  [("should_expand_key, deep_merge", T+"decode/path_expand.rs"), ("quoted-key marker", T+"decode/parser.rs parse_key_token")],
  ["decode_from_str with ExpandPaths"])
p("C12", "Key folding collapses exactly the eligible chains",
  "With safe key folding, a field whose value is a chain of single-key objects is written as one dotted key covering the longest run of identifier keys allowed by the flatten depth, and nothing else is folded: not with folding off, not with a depth below two, not across a key that is not a plain identifier, not inside an already folded value, not the first field on a list item's hyphen line, and not when the dotted key would equal a sibling key (in which case that subtree is left unfolded).",
  ["inputs", "configurations"], "all JSON objects x flatten depth x position",
  "Tests sample a few chains; collisions below the root and depth limits are mostly untested.",
  [T+"encode/encoders.rs", T+"ser/stream.rs"],
  [("try_fold_keys, sibling collision detection", T+"encode/encoders.rs"), ("buffered map entries", T+"ser/stream.rs MapSer")],
  ["encode_to_string", "ser::to_string"])
p("C13", "Every Serialize value encodes like its JSON equivalent",
  "For every value of any serde-serializable type (maps whose keys are scalars with distinct texts, integers of up to 64 bits, structs, tuples, sequences of unknown length, options, newtypes, bytes, chars, all enum variant kinds, in any nesting), the streaming encoder's text equals the canonical encoding of the JSON value serde's data model maps it to, and the value-based encoder produces the same text.",
  ["programs", "inputs", "configurations"], "all sequences of serde data-model calls x delimiter x folding",
  "Tests compare streaming with value-based output on a few structs; the serializer is driven by an unbounded protocol of calls.",
  [T+"ser/stream.rs", T+"ser/value_builder.rs"],
  [("StreamingSerializer, SeqSer, MapSer, ScalarSerializer, KeySerializer", T+"ser/stream.rs"), ("ValueSerializer", T+"ser/value_builder.rs")],
  ["encode_to_string", "ser::to_string"])
p("C14", "Typed decoding agrees with decoding to JSON",
  "Decoding text directly into a typed value (structs, options, newtypes, tuples, vectors, maps, enums, all numeric widths) gives the same result as decoding to a JSON value and converting that, whenever the conversion succeeds; and it fails when a required field is missing, a number does not fit, or a type does not match. In particular encoding a typed value and decoding it back to its type is the identity.",
  ["programs", "inputs"], "all target types built from serde's data model x documents",
  "Tests decode three small structs.",
  [T+"de/mod.rs"],
  [("Deserializer over the parsed value", T+"de/mod.rs")],
  ["decode_from_str::<T>"])
p("C15", "Feature flags never change results",
  "Builds with the performance features, with all features, and with only alloc and serde give byte-identical encodings and identical decode results (value or rejection) to the default build, for every input and option set the build supports (key folding needs the json feature). On the documents the experimental direct deserializer handles (well-formed documents of scalar fields, nested objects, inline arrays and hyphen lists of scalars or flat objects, indent 2, decoded into structs, maps, vectors and scalars) it gives the same typed result as the default path.",
  ["inputs", "configurations"], "all inputs x feature sets {default, perf_*, alloc-only, de_direct, all}",
  "Each feature set runs the same small test files separately; nothing compares results across builds, and thresholds such as small-vector spills or SIMD chunk sizes are never crossed.",
  [T+"decode/scanner.rs", T+"decode/parser.rs", T+"ser/stream.rs", T+"ser/value_builder_alloc.rs", T+"de/direct.rs"],
  [("cfg-selected duplicate implementations of scanning, splitting, serializing and typed decoding", T+"decode/scanner.rs, decode/parser.rs, ser/stream.rs, de/direct.rs")],
  ["encode_to_string", "decode_from_str"])
p("C16", "Reader and writer entry points are faithful under I/O faults",
  "Writing to a writer delivers exactly the bytes of the string encoding, in order and once each, however the writer splits or interrupts the calls; if the writer fails, the error is returned and only a prefix of those bytes was delivered. Reading from a reader gives exactly the result of decoding the whole text however it is chunked or interrupted; a read error or invalid UTF-8 is returned as an error, never as a value from partial input.",
  ["inputs", "fault_sequences", "schedules"], "all chunkings and fault positions of reader and writer x documents",
  "Tests use in-memory buffers that never split, interrupt or fail.",
  [T+"lib.rs", T+"ser/mod.rs"],
  [("encode_to_writer, decode_from_reader", T+"lib.rs"), ("to_writer, to_writer_streaming", T+"ser/mod.rs")],
  ["encode_to_writer", "decode_from_reader", "ser::to_writer"])
p("C17", "The command line tool is the library plus a newline",
  "For every input (file or stdin) and flag combination, the command line tool either prints exactly the library's encoding (or the compact or pretty JSON of the decoded value) followed by one newline and exits 0, or prints nothing on standard output, a message on standard error, and exits non-zero; it fails exactly when the input is unreadable, is not valid JSON (encoding) or is rejected by strict decoding.",
  ["inputs", "configurations"], "all inputs x {encode, decode} x delimiter x pretty x file/stdin",
  "The smoke test runs two documents.",
  ["crates/toon-cli/src/main.rs"], [("main", "crates/toon-cli/src/main.rs")], ["toon-cli process: stdout, stderr, exit status"])
p("C18", "The WebAssembly functions agree with the library",
  "json_to_toon and toon_to_json return exactly what the library returns for the corresponding options (comma or pipe delimiter, indent 2, no folding or expansion, requested strictness), an error string for invalid input, and an error for any input larger than 10 MiB while accepting inputs of exactly that size.",
  ["inputs", "configurations"], "all inputs x flag combinations, sizes around the limit",
  "Tests call each function on a few short documents.",
  ["crates/toon-wasm/src/lib.rs"], [("json_to_toon, toon_to_json", "crates/toon-wasm/src/lib.rs")], ["json_to_toon", "toon_to_json"])
p("C19", "Each array's own header decides its delimiter",
  "Decoding never depends on the delimiter named in the decoder's options: every array is split by the delimiter its own header declares (none means comma), that delimiter applies only to that array's values and field names and not to nested arrays or other fields, and the other delimiter characters and any delimiter inside quotes are ordinary text.",
  ["inputs", "configurations"], "all documents mixing delimiters x decoder option delimiter x nesting",
  "Tests use one delimiter per document.",
  [T+"decode/parser.rs"], [("parse_bracket_content, split_delim_aware", T+"decode/parser.rs")], ["decode_from_str"])
p("C20", "Decoding and re-encoding reaches a fixed point",
  "For every text the decoder accepts (its value nested at most 127 levels deep), encoding the result and decoding that gives the same value again, and encoding once more gives byte-identical text; so canonicalising a document is idempotent and never alters its meaning.",
  ["inputs", "configurations", "histories"], "all accepted texts (canonical or not) x options; repeated encode/decode cycles",
  "Tests never re-encode decoded documents.",
  [T+"encode/encoders.rs", T+"decode/parser.rs"], [("canonical encoder over decoded values", T+"encode/encoders.rs")], ["decode_from_str", "encode_to_string"])
p("C21", "Well-formed hand-written documents decode to what they denote",
  "Every well-formed TOON document (nested at most 128 lines deep), canonical or not, decodes to the value its lines denote: fields, nesting by indentation, inline, list and table arrays in every position, bare hyphens as empty objects, keys with no children as empty objects, blank lines between fields ignored, extra spaces around values and delimiters ignored, duplicate keys resolved to the last value, the empty document as an empty object.",
  ["inputs", "configurations"], "all sequences of well-formed lines x indent width x mode",
  "Tests decode a few dozen literal documents; the parser's behaviour depends on the history of indentation and open containers.",
  [T+"decode/scanner.rs", T+"decode/parser.rs"], [("scan, parse_object, parse_array, parse_node", T+"decode/parser.rs")], ["decode_from_str"],
  [("open containers and their indentation", "which object, list or table the next line belongs to", T+"decode/parser.rs recursion")])
p("C22", "Calls are independent of each other",
  "What a call returns depends on its own arguments only: not on the calls made before it (successful, failed, or ended by an error or a panic in the caller's own Serialize, Deserialize, Write or Read code), not on a call in progress on the same thread inside which it is made (from such code), and not on calls running at the same time on other threads. The same call made again returns the same text, value or error.",
  ["histories", "schedules", "fault_sequences"], "all sequences, nestings and interleavings of calls of all entry points, with errors and panics in the caller's code at any point",
  "Tests make each call once, in a fresh state, and never nest, abandon or overlap calls.",
  [T+"lib.rs", T+"ser/stream.rs", T+"ser/mod.rs", T+"encode/encoders.rs", T+"encode/primitives.rs", T+"decode/scanner.rs", T+"decode/parser.rs", T+"de/mod.rs"],
  [("entry points, working on locals only", T+"lib.rs"), ("LineWriter and buffers per call", T+"encode/writer.rs, ser/stream.rs")],
  ["encode_to_string", "encode_to_writer", "ser::to_string", "decode_from_str", "decode_from_reader"],
  [("calls in progress", "which calls have begun on which thread and what their callers' code has done", "the caller; the library itself keeps no state between calls")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
