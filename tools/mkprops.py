#!/usr/bin/env python3
"""Single source of properties.jsonl: run `python3 tools/mkprops.py` after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "source/cpp/protogen.hh"; JS = "source/cpp/json.hh"; AR = "source/cpp/json-array.hh"
NU = "source/cpp/json-number.hh"; ST = "source/cpp/json-string.hh"; B64 = "source/cpp/json-base64.hh"
GEN = "source/cpp/cppgen.cc"; CODE = "source/cpp/code.txt"; PA = "source/proto3.cc"; MAIN = "source/main.cc"
TPL = "source/template.cc"; PR = "source/printer.cc"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Serialize then deserialize preserves every message",
 "For every schema and every message of it whose numbers are finite, whose repeated string elements are not null and (when ASCII escaping is requested) whose strings are valid UTF-8, serializing succeeds, deserializing the text into a fresh message succeeds, and the result equals the original: every field value, the presence of every field, and the order and number of repeated elements, transient fields aside. This holds for every combination of serialization parameters, and, when no transient field holds a value, serializing the result again gives byte-identical text.",
 ["inputs", "configurations"], "all schemas of the supported subset, all field values and presence states, all parameter combinations",
 "Tests round-trip a handful of hand-written messages with short strings and small numbers; tests 5 and 7 ignore their own verdict. No test covers doubles with a fraction that needs more than six digits, control characters, absent strings, bytes, or large lists.",
 [RT, JS, AR, NU, ST, B64, CODE, GEN],
 [("typed readers and writers", NU), ("string escaping and unescaping", ST + " and tokenizer in " + RT), ("generated write/read_field", CODE)],
 ["serialize() output", "deserialize() result and the fields of the target message"])

prop("C02", "Serialized text is valid JSON that says exactly what the message holds",
 "Whenever serialization of a message or of a top-level array reports success, the text is one valid RFC 8259 JSON value in which each non-empty non-transient field appears exactly once under its JSON name with exactly its value, and nothing else appears; empty fields are left out or, when nulls are requested, appear as null (empty repeated fields as [], empty bytes as \"\", message fields as objects). With ASCII escaping every byte of the text is ASCII, and the same data is denoted as without it. A message that has no such text (a non-finite number anywhere, or ill-formed UTF-8 when ASCII escaping is requested) makes serialization report failure with an error code.",
 ["inputs", "configurations"], "all messages, nested at any depth, all parameter combinations",
 "Tests only compare the library with itself (text equals text), so a writer and reader that share a mistake pass; no independent JSON reader ever sees the output.",
 [ST, NU, AR, B64, CODE, JS],
 [("generated write function", CODE), ("string escaping", ST), ("number formatting", NU)],
 ["serialize() result, text and error"])

prop("C03", "Every JSON spelling of the same data reads as the same message",
 "Every valid JSON text that denotes a message's data (with each member once) deserializes successfully to that fresh message, however it is spelled: any whitespace (including line breaks and none), any member order, any of the escape forms of each character including \\u escapes of any character and surrogate pairs, any number spelling with the same value, explicit null for absent fields, and whatever follows the complete object. A null member leaves the field empty and a null array element is skipped.",
 ["inputs"], "all valid JSON spellings of all messages of all schemas",
 "Tests only deserialize what the serializer wrote, so spellings it never emits (line breaks inside the text, \\u0041, 1e3, reordered members) are never read.",
 [RT, JS, AR, NU, ST],
 [("JSON tokenizer", RT), ("object reader", JS), ("array reader", AR), ("number conversion", NU)],
 ["deserialize() result and the fields of the target message"])

prop("C04", "Unknown members are skipped without any effect",
 "Inserting members with unknown names and arbitrary valid JSON values (strings with any escapes, numbers, literals, objects and arrays nested up to a few hundred levels) anywhere in an object of a valid document changes neither the success of deserialization nor any field of the resulting message. A skipped value that is not valid JSON makes deserialization fail.",
 ["inputs"], "all documents, all unknown members, all positions including nested messages and array elements",
 "Test 4 skips three one-line unknown members and only looks at failures; what happens to the known fields around a skipped value is never checked.",
 [RT, JS, CODE],
 [("value skipper", RT), ("name lookup and skip decision", JS + " / " + CODE)],
 ["deserialize() result and the fields of the target message"])

prop("C05", "Malformed or ill-typed documents never deserialize successfully",
 "Deserialization reports success only if the text begins with a complete, valid JSON object (an array for the array functions) in which every known member has the JSON type of its field and is convertible to it. Truncated documents, missing or doubled separators, trailing commas, unterminated strings, bad escapes and lone surrogate escapes, malformed numbers, misspelled literals and values of the wrong type at any depth are all reported as failure. (Whether raw control characters other than NUL inside strings are accepted is left open.)",
 ["inputs"], "all byte strings",
 "Test 4 tries eight malformed texts; rejection must hold for every truncation and corruption of every document.",
 [RT, JS, AR, NU, ST, B64],
 [("JSON tokenizer", RT), ("object/array readers", JS + ", " + AR), ("typed readers", NU + ", " + ST + ", " + B64)],
 ["deserialize() result"])

prop("C06", "Every failure names its kind and the exact place, success names none",
 "Whenever deserialization fails and parameters were supplied, the error has a non-OK code of the kind of the mistake, a non-empty message, and the 1-based line and byte column where the first offending token (or the end of the input) starts. Whenever an operation succeeds the error is cleared, whatever the same parameters reported before. The error record converts to true exactly when there is no error, compares equal to its own code and to its copies and to no other code, and clear() empties it.",
 ["inputs", "histories"], "all failing documents with any layout of lines; all sequences of operations that reuse one parameters object",
 "Test 4 checks positions of eight failures, none of which is caused by a misplaced string token, a mistyped value nested in other messages, or a text with a line break inside the offending part.",
 [RT, JS, AR, NU, ST, B64],
 [("position tracking of the input stream", RT), ("error recording", RT), ("clearing and handing over of the error", JS + ", " + AR)],
 ["Parameters.error after deserialize()/serialize()"])

prop("C07", "Arbitrary input never corrupts memory, crashes or hangs deserialization",
 "For every byte string given to any deserialization function as text, stream, vector or pointer with length, the call returns after bounded work, without undefined behaviour: it never reads outside the given bytes, overflows, leaks, exhausts the stack on deeply nested input, or throws.",
 ["inputs"], "all byte strings, all entry points, any nesting depth",
 "Tests feed a dozen short friendly texts without sanitizers.",
 [RT, JS, AR, NU, ST, B64],
 [("bounds of the memory iterators", RT), ("recursion of the value skipper", RT), ("base64 decoder", B64)],
 ["sanitizer reports, exit status, step and memory counters"])

prop("C08", "All input and output channels behave alike, and buffers are respected",
 "The same message serializes to the same bytes through every output channel (string, byte vector, output stream, user-defined output), and the same bytes deserialize to the same result, fields and error through every input channel (string, byte vector, pointer with length, input stream, user-defined input), for messages and top-level arrays alike. String and vector outputs are appended to what they already hold, a fixed-size buffer receives exactly the leading part of the text that fits and nothing outside it is written, and an input stream keeps its formatting flags.",
 ["inputs", "configurations"], "all messages and texts, all channels, all buffer sizes",
 "Test 5 calls some channels but ORs its comparisons and returns true regardless; the fixed-size buffer and the array functions over a pointer are never called.",
 [RT, JS, AR],
 [("output iterators", RT), ("input iterators", RT), ("array entry points", AR)],
 ["results, bytes and errors per channel; guard bytes around buffers"])

prop("C09", "Messages and fields behave as values",
 "Copying, assigning (self-assignment included), moving into, swapping, clearing, comparing and testing for emptiness act on every field, transient ones included: after x = y or a copy, x equals y and later changes to one do not affect the other; swap exchanges contents; clear makes a message empty and equal to a fresh one; a message is empty exactly when each of its fields is; two messages, or two fields, compare equal exactly when they agree in presence and value (of every field), and != is the opposite. This holds after any history of such operations and of assignments to fields.",
 ["histories"], "all sequences of operations over any number of message objects of any schema",
 "Tests use == twice and clear three times on fresh objects; state left behind by earlier operations (a field emptied by assignment, text changed in place) is never compared.",
 [NU, ST, RT, JS, CODE, GEN],
 [("field and string_field state", NU + ", " + ST), ("generated equal/clear/swap/empty", CODE)],
 ["field presence and values, ==, !=, empty() after each step"],
 [("presence flag and value of a field", "whether the field is set, and to what", NU)])

prop("C10", "A numeric field receives exactly the number written, or the read fails",
 "For every numeric field type, deserializing a JSON number stores exactly that number (for double the nearest representable value, for float the nearest or the one obtained by rounding to double first) if the type can hold it; otherwise deserialization fails and never stores a different number (out of range, fractional for integers, negative for unsigned, beyond the range of finite floating point). Every representable value of every numeric type, extremes included, is written so that reading it restores exactly that value.",
 ["inputs"], "all number spellings, all numeric field types, singular and repeated",
 "Test 7 writes the maximum of each type and 10, and ignores its own verdict.",
 [NU, RT],
 [("text to number", NU), ("number to text", NU), ("number token", RT)],
 ["deserialize() result and field value; serialized text"])

prop("C11", "Strings keep every character, escaped or not",
 "Every string of Unicode characters (U+0000 and all other control characters included) stored in a string field is written as a JSON string that an independent reader decodes to the same characters, both with and without ASCII escaping, and every \\u escape or surrogate pair that is read produces the UTF-8 encoding of its character. With ASCII escaping, ill-formed UTF-8 (stray or missing continuation bytes, overlong forms, encoded surrogates, values above U+10FFFF, truncated sequences) makes serialization fail; without it, bytes from 0x80 up are carried through unchanged.",
 ["inputs"], "all byte strings as contents, singular and repeated, with and without escaping",
 "Test 8 uses five short valid strings, and its reader is the library itself.",
 [ST, RT],
 [("escape writer", ST), ("escape reader", RT)],
 ["serialized text, decoded string, error"])

prop("C12", "bytes fields are standard base64 in both directions",
 "Every bytes field, singular or repeated, is written as the padded standard base64 (RFC 4648 section 4) of its contents, and reading any valid padded base64 string restores exactly those bytes. Text that is not valid padded base64 (wrong length, foreign characters, misplaced padding) makes deserialization fail.",
 ["inputs"], "all byte sequences of all lengths; all strings as encoded text",
 "No test writes or reads base64: the only bytes field in tests is written by another code path.",
 [B64, GEN],
 [("encoder and decoder", B64), ("choice of the base64 serializer", GEN)],
 ["serialized text, deserialize() result and bytes"])

prop("C13", "JSON member names follow the schema options",
 "A field is written, and recognised on reading, under exactly one JSON name: its field number when number_names is set, otherwise its name option when given, otherwise its field name; text under any other name, differing in case or only by prefix included, is treated as unknown. The name option may hold any characters other than quotes, which arrive as that JSON name (escaped as JSON requires, and as ASCII when ASCII escaping is requested).",
 ["inputs", "configurations"], "all schemas and option combinations, all field names and name options",
 "Tests use one custom name and never read under a name that should not match; number_names without obfuscation is never built.",
 [GEN, CODE, ST, PA],
 [("choice of the JSON name", GEN), ("name table", CODE)],
 ["member names in serialized text; fields set by deserialize()"])

prop("C14", "String obfuscation changes nothing but the readability of the program",
 "For every schema, enabling obfuscate_strings leaves all observable behaviour unchanged: the same message gives the same text, and the same text gives the same message and result, as the schema without the option. The generated header then contains no JSON field name of at least two different characters as a readable string literal.",
 ["programs", "inputs"], "all schemas, all field names and name options, all messages",
 "Test 3 obfuscates only one-digit names; the encoding depends on the length and bytes of each name.",
 [GEN, RT, CODE],
 [("obfuscate at generation", GEN), ("reveal at run time", RT)],
 ["text and messages of the two builds of the same schema; literals of the generated header"])

prop("C15", "Transient fields never enter or leave through JSON",
 "A field marked transient is never written, whatever its value and the parameters, and a member of that name in the input is skipped like an unknown one and leaves the field as it was; all other fields of the message keep working, wherever the transient ones stand. Transient fields still take part in comparison, clearing, swapping, copying and emptiness.",
 ["inputs", "programs"], "all schemas with any pattern of transient fields (none, some, all), all messages and texts",
 "Test 3 has a single transient string and checks only one direction of it on a fresh message.",
 [GEN, CODE],
 [("transient filter in each generated function", GEN)],
 ["serialized text; fields after deserialize()"])

prop("C16", "Results do not depend on the locale, and the locale is left alone",
 "Serialization and deserialization give the same text and values under every C locale and C++ global locale, including locales whose decimal separator is a comma or whose digits are grouped. They leave the process-wide locale and the calling thread's locale as they were.",
 ["configurations", "inputs"], "all locales, set per process or per thread, all numeric values",
 "All tests run in the C locale only.",
 [NU],
 [("numeric conversion under a private C locale", NU)],
 ["text and values per locale; locale handle and decimal separator before and after each call"])

prop("C17", "Distinct messages can be used from concurrent threads",
 "Any number of threads may serialize and deserialize at the same time, each on its own messages (of the same or different types, including the very first use of a type) or all serializing the same unchanging message, and every call gives the result it gives when run alone, without data races.",
 ["schedules", "inputs"], "all interleavings of operations on distinct messages and of serialization of shared constant messages",
 "All tests are single-threaded.",
 [NU, CODE, RT],
 [("function-local statics: locale handle, name table", NU + ", " + CODE)],
 ["race reports; each thread's results against the sequential results"])

prop("C18", "The work of serializing and deserializing grows linearly",
 "The steps executed and the memory allocated by serialization and deserialization are at most proportional to the size of the message or text, whatever its shape: long strings, long lists, many members, deep or long unknown values, many escapes, long whitespace. Input is read once, front to back.",
 ["inputs"], "all families of growing inputs",
 "Test 6 times one small message and checks nothing.",
 [RT, JS, AR, ST, B64],
 [("single-pass tokenizer", RT), ("appending writers", ST + ", " + B64)],
 ["executed basic blocks, allocated bytes and stream calls as input size doubles"])

prop("C19", "Failures of memory and of the user's streams pass through without damage",
 "When an allocation fails or a stream supplied by the user fails or throws, at whatever point of serializing, deserializing, copying or assigning a message, the exception reaches the caller or the call reports failure (a std stream may report it by its own state), and nothing is damaged: no memory is lost or corrupted, the message being written is unchanged, the text written so far is a leading part of the text, the locale of the program and the formatting flags of the stream are what they were, and every object involved can be destroyed, cleared and used again with normal results.",
 ["fault_sequences", "inputs"], "all allocations and all stream operations of all operations, failing one at a time or from one point on",
 "No test makes an allocation or a stream fail.",
 [RT, JS, AR, NU, ST, B64, CODE],
 [("locale guard around the entry points", RT), ("stream iterators and their state", RT), ("ownership of temporaries", ST + ", " + B64 + ", " + CODE)],
 ["exceptions and results of the calls, live allocations, fields, locale and stream flags before and after"])

prop("C20", "Every accepted schema gives a self-contained header with the documented API",
 "Whenever the compiler accepts a schema whose names are not reserved names, macros or names of the standard library, documented operations of messages, or the name of the field's own message, the generated header compiles on its own as C++11 (and later standards) without further includes, and declares for every message a type in the namespace of its package with one member per field of the documented C++ type, plus the documented operations. Messages may refer to messages declared before or after them.",
 ["programs", "configurations"], "all schemas of the supported subset: any types, options, packages, message order and reference pattern",
 "Three schemas are compiled by the tests, always after other standard headers.",
 [GEN, CODE, RT, JS, AR, NU, ST, B64, PR],
 [("type mapping", GEN), ("dependency ordering of messages", GEN), ("choice of runtime parts", GEN), ("version namespace substitution", TPL)],
 ["compiler exit status, static assertions on the generated types"])

prop("C21", "Generated headers can be combined freely",
 "Headers generated from different schema files can be included together in one source file in any order and repeatedly, and in several source files of one program, whatever features each of them uses; it compiles, links, and every message behaves as it does alone.",
 ["programs", "configurations"], "all sets of schema files and inclusion orders, including files whose paths differ only in punctuation",
 "Tests include three headers in one fixed order in a single source file.",
 [GEN, RT, JS, AR, NU, ST, B64],
 [("include guards", GEN), ("guards of the embedded runtime parts", RT)],
 ["compile and link status; results of a program using all messages"])

prop("C22", "Layout, comments and declaration order do not matter",
 "Two schema files that differ only in whitespace, line breaks, comments (line comments ended by the end of the file included), the order of field declarations inside messages, or options without meaning to the compiler, give the same generated code apart from the recorded source path, and files that differ in the order of messages give the same types and JSON behaviour.",
 ["inputs", "programs"], "all schemas and all such rewritings",
 "Every test schema has a single fixed layout with comments in two places only.",
 [PA, MAIN, GEN],
 [("tokenizer", PA), ("field sorting", MAIN), ("message sorting", GEN)],
 ["generated text"])

prop("C23", "Invalid schemas are rejected with a located diagnostic",
 "A file that is not in the supported subset (syntax errors, truncation inside a declaration, string or comment, unknown types, circular references, repeated or out-of-range or reserved field numbers, repeated names, another syntax version, ill-typed known options, more than 64 fields, C++ keywords as names) makes the compiler exit with a non-zero status and an error on stderr that names the file. For syntax errors the reported line is that of the first token that cannot continue a valid file.",
 ["inputs"], "all texts outside the subset: every truncation, token deletion, insertion and replacement of valid schemas",
 "No test ever gives the compiler an invalid file.",
 [PA, GEN, MAIN],
 [("parser checks", PA), ("generator checks", GEN), ("error report", MAIN)],
 ["exit status and stderr of the compiler; exception of the library"])

prop("C24", "Any file given to the compiler is processed safely and in bounded time",
 "For every byte sequence as schema file the compiler ends with exit status 0 or 1 after work and memory bounded in proportion to the size of the file, without undefined behaviour, crash, uncaught exception or hang.",
 ["inputs"], "all byte sequences",
 "Tests compile three well-formed files without sanitizers.",
 [PA, GEN, PR, MAIN],
 [("tokenizer end-of-file handling", PA), ("parser", PA), ("generator", GEN)],
 ["sanitizer reports, exit status, allocation and step counters"])

prop("C25", "Exit status 0 means the complete header was written, failure destroys nothing",
 "The compiler exits with status 0 only if the whole input was read and the complete generated header has been written to the output file or stdout; any failure to open, read or write, at any point, gives a non-zero status and a message (unless stderr itself cannot be written). Running out of memory is such a failure, and ends with a status and a message, not with a signal. When a schema is rejected or cannot be read, an existing output file keeps its contents and none is created.",
 ["fault_sequences", "inputs"], "all I/O faults at every read, write, open and close, all allocations failing, and all rejected inputs",
 "Tests never inject a fault and never look at the exit status of a failing run.",
 [MAIN],
 [("output handling and exit status", MAIN)],
 ["exit status, stderr, contents of the output file"])

prop("C26", "Generation is deterministic",
 "The generated text is a function of the schema text and its path only: repeated runs, writing to a file or to stdout, the previous contents of the output file, the working directory, the environment and the locale make no difference.",
 ["inputs", "configurations"], "all schemas, all environments",
 "Tests run the compiler once per schema in one environment and never compare its output.",
 [MAIN, GEN, PR],
 [("ordered traversal of messages and fields", GEN), ("sorting", MAIN)],
 ["generated bytes"])

prop("C27", "The parsed model is exactly what the schema says",
 "Every schema text of the supported subset is accepted, and the library's parser produces exactly the declared messages in order, each with its package, name, and fields in order with their type (message types resolved to the declared message), repeated or optional label, number, and all options with their kinds and values; the input stream's formatting flags are unchanged afterwards, whether parsing succeeds, fails or is interrupted (by a stream that throws or the lack of memory), and an interrupted parse never reports success.",
 ["inputs"], "all schema texts of the supported subset",
 "Tests see the model only through what three schemas generate.",
 [PA, "include/protogen/proto3.hh"],
 [("recursive-descent parser", PA)],
 ["the Proto3 model after parse()"])

prop("C28", "The embedded runtime is a faithful copy of its sources",
 "The runtime and code templates built into the compiler reproduce their source files line by line, whatever characters other than NUL the lines contain, except that lines marked for removal are dropped and version placeholders become the current version. Runtime text reaches the generated header unchanged, apart from tabs becoming spaces. The embedding program ends with status 0 only if it has read the whole source and written the whole output.",
 ["inputs", "programs"], "all source texts of the embedding step (any lines, last line with or without line end)",
 "A loss in the embedding step is only noticed if it stops one of three test headers from compiling.",
 [TPL, PR, "source/cmake.hh.in"],
 [("embedding tool", TPL), ("printing of runtime text", PR)],
 ["the string each embedded macro expands to; the head of generated headers"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        n = p["statement"]
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
