#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
H = "include/json_struct/json_struct.h"
D = "include/json_struct/json_struct_diff.h"
P = []
def p(id, title, statement, over, text, why, mech, files=(H,), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Parsing arbitrary bytes is memory-safe, free of UB, and terminates",
  "Whatever bytes are supplied, in however many pieces and with whatever tokenizer options, tokenizing them or parsing them into any supported target type never reads or writes outside the supplied buffers and the target, never executes undefined behaviour, never leaks, and always finishes with either success or an error code. This includes inputs that are cut off at any byte, contain NUL or non-UTF-8 bytes, or are mutations of valid documents, and what was parsed successfully can be serialized again equally safely. (Parsing into recursive target types uses stack in proportion to the nesting of the text, which is not bounded here.)",
  ["inputs", "configurations"], "all byte strings x all splits into buffers x all option sets x all supported target types",
  "The tests feed a few dozen hand-written documents, NUL-terminated literals, mostly in one buffer; none puts the input in an exactly sized heap buffer under a sanitizer.",
  [("Tokenizer::nextToken / populateNextTokenFromDataRef", H + ":1690"), ("findStringEnd/findAsciiEnd/findNumberEnd vector loops", H + ":1920"),
   ("TypeHandler<T>::to family", H + ":8560"), ("ParseContext::parseTo", H + ":4605")],
  observe=["return value of parseTo / nextToken", "sanitizer reports"])

p("C02", "Splitting the input into buffers never changes the result",
  "Feeding a document to the parser in any sequence of consecutive buffers yields the same tokens, the same parsed values and the same success or failure as feeding it in one buffer. The split may fall at any byte: inside names, strings, escapes, numbers, literals, comments or whitespace, between tokens, and may include empty buffers, and it may be delivered up front, from the need-more-data callback, or, when tokenizing, by adding data after the tokenizer reported that it needs more. (Texts containing NUL bytes, which the tokenizer takes as padding at the end of a buffer, are not claimed.)",
  ["inputs", "schedules"], "all documents x all partitions of their bytes x all delivery modes",
  "The tests split a handful of fixed documents at a few fixed positions; the carry-over state machine has a separate path for every token kind and every position.",
  [("intermediate token carry-over", H + ":2620"), ("release / request data callbacks", H + ":2475"), ("escape state across buffers", H + ":1920")],
  observe=["token stream from nextToken", "parseTo targets and error"])

p("C03", "Vectorised and scalar scanning builds behave identically",
  "A program built with any of the supported scanning back ends (scalar, SSE2, SSE4.2, AVX2, NEON) produces identical tokens, values, errors and error texts for the same input. Delimiters, escapes and number ends are found at the same position wherever they fall relative to a vector-width boundary.",
  ["inputs", "configurations"], "all byte strings x {scalar, SSE2, SSE4.2, AVX2, NEON} builds",
  "The test suite is built once for one instruction set, so it never compares two back ends.",
  [("simd::findStringSpecial*/skipWhitespace*/findNumberEnd*", H + ":430-1300"), ("dispatch in findStringEnd/findAsciiEnd/findNumberEnd", H + ":1920-2120")],
  observe=["token stream", "parse results", "makeErrorString"])

p("C04", "Strict tokenizing is faithful: valid JSON in, exact tokens out",
  "For every well-formed JSON object or array the tokenizer, with default options, delivers exactly the tokens of the document in order: each with the right kind, the exact source text of its name and of its value, and nothing lost, duplicated or invented. Documents whose structure is malformed (mismatched or missing brackets, missing or doubled separators, missing names or values, unquoted words, dangling commas, comments) are rejected with an error by the default options instead of being read as something else. (Not claimed, because lenient by design: the lexical form of numbers and escapes, which are checked when converted; one trailing comma before ']'; text behind the root value.)",
  ["inputs"], "all well-formed documents with an object or array root, any whitespace, nesting and size; all structural mutations of them",
  "Tests check selected token sequences of short documents; they cannot cover nesting, whitespace and token-adjacency combinations.",
  [("token state machine", H + ":2620-2790"), ("scope stack", H + ":2700"), ("literal recognition getType", H + ":2560")],
  observe=["tokens returned by nextToken", "error codes"])

p("C05", "Relaxed syntax options change only what they name",
  "With a relaxation enabled (unquoted names and values made of letters, digits and _ - . /, newline as separator, a trailing comma, // comments) every document using it parses to the same tokens as its strict equivalent, into typed targets to the same values, and every strict document still parses to the same tokens as before, in one buffer or in pieces. With the relaxation disabled the same document is rejected with an error, and documents malformed even under the enabled relaxations are rejected. (A comment behind an unquoted word is separated from it by white space; with newlines as separators a line break ends the element it follows.)",
  ["inputs", "configurations"], "all documents decorated with any mix of relaxations x all 2^5 option sets x any split into buffers",
  "Tests exercise each option on one or two documents, never in combination, and mostly in one buffer.",
  [("allow* options", H + ":1400"), ("findDelimiter / findTokenEnd / skipComment", H + ":2270-2475"), ("type checks of unquoted tokens", H + ":2650")],
  observe=["tokens", "error codes"])

p("C06", "Every supported value survives serialize then parse unchanged",
  "Serializing any value of a supported type (numbers, strings, booleans, enums, time points between 2001 and 2261, optionals, pointers, nullable wrappers, vectors, fixed arrays, tuples, maps, sets, and structs nesting any of these with any inheritance) in any formatting style and parsing the text back into a fresh object of the same type succeeds and yields an equal value. Serializing the reparsed value yields the same text. (Finite floating point numbers; the root is an object or array.)",
  ["inputs", "configurations"], "all values of the supported types x {pretty, compact} x indentation and ascii/convert options",
  "Tests round-trip a few constants per type; contents that need escaping, extreme numbers and nested combinations are not covered.",
  [("TypeHandler<T>::from / to pairs", H + ":8560-9780"), ("string escaping in and out", H + ":5820-6060"), ("struct member serialization", H + ":4620-4680")],
  observe=["object equality", "serialized text equality"])

p("C07", "Serialized output is well-formed JSON that denotes the value",
  "The text produced for any supported value whose strings are UTF-8 is well-formed JSON under an independent strict parser, and denotes exactly that value: every non-silenced member appears exactly once under its own name, in declaration order (base classes where JS_SUPER puts them), with the right content, empty optional members are left out or null as their type documents, and array elements keep their order. Formatting options change only insignificant whitespace.",
  ["inputs", "configurations"], "all values of the supported types, including empty containers, empty, quoted or control-character strings and map keys, x formatting options",
  "Tests compare a few outputs with literals, and round-trip tests accept any output that the same library can read back.",
  [("Serializer::write(Token)", H + ":3200-3410"), ("escape writer", H + ":5960-6060"), ("first-member / delimiter bookkeeping", H + ":3200")],
  observe=["bytes written by the serializer"])

p("C08", "Output does not depend on how output buffers are supplied",
  "Serializing into any sequence of output buffers, of any sizes of at least one byte, gives byte for byte the same text as serializing into one large buffer, and never writes outside the supplied buffers. When the buffers are exhausted and none is supplied the write reports failure and what was written is a prefix of the full text.",
  ["inputs", "schedules"], "all token sequences and values x all sequences of output buffer sizes, including single bytes, up-front or through the request callback",
  "Tests use a couple of fixed buffer sizes on one document.",
  [("Serializer::write(data) and request callback", H + ":3410-3450"), ("SerializerContext growth", H + ":4620")],
  observe=["bytes in each buffer", "write return value", "guard zones"])

p("C09", "Decimal text parses to the correctly rounded float or double",
  "Parsing any JSON number text into a float or double gives the representable value nearest to the exact decimal value, ties to even, including subnormals, zeros with sign, very long digit strings, and values next to a rounding boundary; values beyond the range become infinity and values below it become zero. The result does not depend on how the same decimal value is spelled.",
  ["inputs"], "all JSON number texts, up to thousands of digits and exponents up to several thousand",
  "Tests check a few hundred constants; the hard cases (midpoints, subnormals, long tails, leading zeros) are sparse among 2^64 values and unbounded spellings.",
  [("ft::parseNumber", H + ":7902"), ("ft::convertToNumber", H + ":8045"), ("correctly_round_float", H + ":8421")],
  observe=["parsed bit pattern against the C library"])

p("C10", "Floats and doubles print as short text that reads back exactly",
  "Every finite float or double is serialized to a valid JSON number that any correct reader converts back to the identical bit pattern, and no shorter digit string within the format would. Zero keeps reading back as zero and the text is never locale dependent, truncated or padded with stray bytes.",
  ["inputs"], "all finite float and double bit patterns",
  "Tests print a few hundred constants out of 2^64 patterns.",
  [("ft::decode shortest digits", H + ":7602"), ("convert_parsed_to_buffer", H + ":7700")],
  observe=["serialized number text against strtod/strtof and an independent shortest-digits oracle"])

p("C11", "Integers parse and print exactly, and never wrap around",
  "For every integer type, every value of the type prints as its decimal digits and that text parses back to the value. A number whose value does not fit the type gives the nearest limit of the type, a number with a fraction or exponent gives its value truncated toward zero, and text that is not a number is reported as an error; the stored value never wraps around or depends on how the same number is spelled.",
  ["inputs"], "all values of 8 to 64 (and 128) bit signed and unsigned types; all decimal texts around and beyond their limits, including long digit strings, signs and exponents",
  "Tests check limits of a few types.",
  [("integer::to_buffer", H + ":8147"), ("integer::convert_to_integer", H + ":8218"), ("integer TypeHandlers", H + ":8600")],
  observe=["parsed value and error code", "printed text"])

p("C12", "String escapes are decoded and encoded exactly",
  "Every JSON string literal is decoded to the UTF-8 text it denotes: all two-character escapes, \\u escapes in either case, and surrogate pairs; text without escapes is kept byte for byte. Every UTF-8 string is encoded so that decoding gives it back, whatever its length and wherever its special characters fall, for values, names in maps, and views.",
  ["inputs"], "all string literals and all byte strings, of any length and any position of the special characters, in any split into buffers",
  "Tests check one or two strings per escape.",
  [("handle_json_escapes_in", H + ":5820"), ("handle_json_escapes_out", H + ":5960"), ("findStringEnd", H + ":1920")],
  observe=["decoded std::string", "encoded text"])

p("C13", "Members bind by name alone, and every miss is reported",
  "Parsing an object into a struct assigns each member from the value that carries its name or one of its aliases, whatever the order of the names in the text, at every nesting level and through every superclass, and leaves every other member as it was. Names without a member and required members without a name are reported exactly, with their full path, in the missing and unassigned lists; with the corresponding strictness on they make the parse fail, with it off they do not; optional members are never reported. A name that occurs twice takes the later value. (Names are compared by their spelling in the text.)",
  ["inputs", "configurations"], "all member orders, subsets, extra names, duplicate names, similar names and prefixes, nested and inherited structs, x both strictness switches",
  "Tests use fixed orders and one missing name at a time.",
  [("unpackMember / verifyMember / Super handling", H + ":4200-4565"), ("generic struct TypeHandler::to", H + ":5705"), ("skipArrayOrObject", H + ":4565")],
  observe=["member values", "missing_members / unassigned_required_members", "error code"])

p("C14", "A dynamic map behaves like the document it holds",
  "A dynamic map parsed from an object finds exactly the top-level members of that object, converts each to typed values equal to what parsing that member directly gives, and iterates over them once each in document order. After any sequence of sets (new names, replacements, scalars, objects, arrays) every lookup returns the last value set for its name and all other members are unchanged, and serializing the map gives a valid object with exactly those members. Names are found by the text they denote. A map parsed into again holds just the new document, or nothing when that parse failed. (Member names of one map are unique; a map is moved, not copied.)",
  ["inputs", "histories"], "all documents and all sequences of set / find / cast / iterate / serialize operations",
  "Tests run a few fixed sequences of two or three operations.",
  [("JS::Map find/castToType/setValue", H + ":9784-10097"), ("JsonMeta bookkeeping", H + ":3745")],
  observe=["find / castTo results, iteration, serialized map"])

p("C15", "Document diff reports exactly the differences",
  "Comparing a document with a base reports no difference if and only if the two have the same members and equal values, and otherwise attributes each changed value, changed type, new member or element and missing member or element to the right place with the right kind, where the order of object members never matters. Names and strings are compared by spelling, numbers by value. The base can be reused for any number of comparisons, and changed or invalidated, without one comparison affecting the next.",
  ["inputs", "histories"], "all pairs of well-formed documents with unique member names, in particular documents obtained by known edits, x exact or fuzzy float comparison; all sequences of comparisons on one base",
  "Tests compare a few fixed pairs.",
  [("diffObjects / diffArrays", D), ("DiffContext", D)], files=(D, H),
  observe=["diff tokens, kinds and missing member lists"])

p("C16", "Remote calls run each named function once, in order, with its arguments",
  "Given a call document, each name that matches a function or alias of the object (or of its superclasses) makes exactly that function run exactly once per occurrence, in document order, with the arguments given, and results are written as well-formed JSON in the same order. Unknown names, bad arguments and errors raised by a function are reported for that entry; whether later entries still run follows the stop-on-error switch, and no function runs that was not named.",
  ["inputs", "histories", "configurations"], "all call documents (objects naming functions), orders, repeats, unknown names, malformed arguments, erroring functions, x executor switches",
  "Tests use a few fixed documents.",
  [("CallFunction* executors", H + ":4680-5480"), ("callFunctions", H + ":5430")],
  observe=["log of executed functions with arguments", "returned JSON", "execution list"])

p("C17", "A failed parse always yields a sane, accurate error report",
  "Whenever parsing fails the error text can be obtained, is bounded in size, names the error, and shows lines copied from the input (for input in pieces: from the current piece) around the failure; the reported line and column lie inside the input, at or next to the offending text or inside or right behind the value of the wrong type. Obtaining it never changes the outcome and never touches memory outside the input, whatever the input, splits and line lengths.",
  ["inputs", "configurations"], "all failing inputs, error kinds, failure positions, line lengths and line-context settings",
  "Tests compare the text for two or three documents.",
  [("updateErrorContext", H + ":2800"), ("makeErrorString", H + ":1890"), ("errorContextConfig", H + ":1460")],
  observe=["makeErrorString / errorContext()"])

p("C18", "Structure metadata describes the token list exactly",
  "For the token list of any well-formed document the computed metadata has one entry per object and array, in order of appearance, and for each gives the position of its opening token, the number of tokens and of contained members or elements it spans, and its nested containers consistent with bracket matching. The same holds for parts cut out of the list, and a dynamic map keeps its metadata exact under edits.",
  ["inputs"], "all well-formed documents",
  "Tests check one document.",
  [("JsonMeta / metaForTokens", H + ":3745-3820")],
  observe=["metaForTokens output"])

p("C19", "Raw captures reproduce the source text of the value exactly",
  "Capturing a member as raw text (token, object, array, object-or-array, or token list, owning or referencing) yields exactly the text of that value, no more and no less, wherever it stands in the document, and parsing continues correctly after it. Token and referencing captures are claimed for input in one buffer that stays alive; owning captures hold for any split of the input into buffers, and serializing a capture reproduces an equivalent value.",
  ["inputs", "schedules"], "all values in all positions (first, last, nested, followed by whitespace) x all splits into buffers",
  "Tests capture a few values in one buffer.",
  [("copyFromValue / copyIncludingValue", H + ":1790"), ("JsonObject/JsonArray/JsonTokens handlers", H + ":9180-9480")],
  observe=["captured text", "members parsed after the capture"])

p("C20", "Reformatting changes whitespace only",
  "Reformatting any well-formed document with an object or array root, pretty or compact, yields well-formed JSON with exactly the same tokens, and reformatting it again with the same options changes nothing. Reformatting a malformed or truncated document returns an error (apart from the tokenizer's leniencies: see C04).",
  ["inputs", "configurations"], "all well-formed documents of any depth and size x formatting options; all truncations of them",
  "Tests reformat one document.",
  [("reformat", H + ":2890"), ("Serializer::write(Token)", H + ":3200")],
  observe=["reformatted text against an independent parser"])

p("C21", "Independent contexts can be used from different threads",
  "Parsing, serializing, mapping, diffing and calling functions from several threads at once, each with its own context and target object, is free of data races and gives every thread the result it would get alone. Types, member tables and options shared between the threads by the library itself are only read, including on first use. Const values, options, texts and recorded token lists of the user's that several threads only read (serialize, look up in, parse or replay) are safe too.",
  ["schedules", "inputs"], "all interleavings of independent operations on the same types, including first use of each type",
  "The tests are single threaded.",
  [("static member tables (js_static_meta_data_info, enum string tables)", H + ":3960-4160,5480-5700"), ("float tables", H + ":6070")],
  observe=["ThreadSanitizer reports", "per-thread results against the single-threaded ones"])

p("C22", "Input buffers are released once each, in order, after last use",
  "Every input buffer the parser has been given is handed back through the release callback at most once, in the order given, and only when its bytes are no longer read by the parser; the buffers not handed back are the ones it still holds. When buffers are supplied one at a time, more data is requested only once everything supplied is consumed and handed back.",
  ["inputs", "schedules"], "all documents x all splits into buffers, with released buffers overwritten and freed at once",
  "Tests count callbacks for one or two fixed splits and never invalidate the released memory.",
  [("releaseFirstDataRef / callbacks", H + ":2475"), ("intermediate copy of carried-over tokens", H + ":2620")],
  observe=["callback event log", "AddressSanitizer on freed buffers"])

p("C23", "Containers and wrappers hold exactly what the text holds",
  "Parsing an array into a sequence gives all elements in order and nothing else, also when the target already holds values; fixed-size targets reject or report a wrong number of elements as documented; sets and maps hold each distinct key; nullable, optional and pointer wrappers distinguish null, absent and present values exactly. An object or array where the target is a scalar, or the reverse, is reported as an error and not coerced into another value. Maps parsed into again merge. What an element of a vector, map, set or optional does not name has the value of a newly made element.",
  ["inputs", "histories"], "all lengths (including 0 and the capacity), element kinds, prior contents of the target, and null positions",
  "Tests parse a few lengths into fresh targets.",
  [("vector / array / set / map / tuple handlers", H + ":9000-10300"), ("Nullable / Optional families", H + ":3450-3710")],
  observe=["container contents", "error code"])

p("C24", "An incomplete document is never reported as complete",
  "Parsing any proper prefix of an object or array document (whose final closing bracket is therefore missing) into any target reports an error, namely that more data is needed, and never success, and never hangs. Supplying the rest through the need-more-data callback completes the parse with the same result as parsing the whole.",
  ["inputs", "crash_points"], "every proper prefix of every well-formed document x all target types",
  "Tests cut one or two documents at one or two places.",
  [("NeedMoreData propagation", H + ":1690"), ("TypeHandler error propagation", H + ":5705,9000-9780")],
  observe=["parseTo error"])

p("C25", "A context given new data behaves like a fresh one",
  "After a parse context or tokenizer is given new data with resetData, everything it then shows (tokens, parsed values, success or failure, error report and position, buffers held) is what a newly made context with the same options and the same data shows, whatever the context did before: parsed successfully, failed with any error, ran out of data in the middle of a token, stopped half way, read recorded tokens, or left scopes open. Nothing of the earlier data is read again.",
  ["histories", "inputs"], "all sequences of uses of one context, each with any document (well-formed, malformed, truncated), any target, in one buffer or in pieces",
  "Tests use a new context for each document.",
  [("Tokenizer::resetData / resetForNewData", H + ":1681-1710,1953"), ("ParseContext", H + ":3900"), ("JS::Map casts reuse a context", H + ":10190")],
  observe=["tokens, values, error code, makeErrorString, registeredBuffers of reused and fresh context"])

p("C26", "Recorded tokens parse like the text they came from",
  "Parsing any target from a recorded list of tokens (collected from a tokenizer or by a JsonTokens target, added or reset to, from any place in the list) gives the same success or error, the same value and the same lists of missing and unassigned members as parsing the text directly; raw captures then hold the same value without the source's white space.",
  ["inputs", "configurations"], "all well-formed documents (relaxed ones included) x all supported targets, matching or not, x strictness switches",
  "Tests replay tokens for one or two structs.",
  [("Tokenizer::nextToken on parsed_data_vector", H + ":1735"), ("JsonTokens / vector<Token> handlers", H + ":9439"), ("captureTokens", H + ":9490")],
  observe=["error code, value and member lists from tokens against from text"])

p("C27", "A scalar takes its value from the whole text or reports an error",
  "Parsing into a number, boolean, enum or time point succeeds only if the whole text of the value is one of that type's texts, and then gives that value, as member, element or inside a wrapper: numbers take number texts (quoted or not), booleans only true and false, enums declared by name exactly their enumerators' names or an integer, enums declared by value integers, time points a whole count since the epoch whose unit (seconds, milli-, micro- or nanoseconds) follows from its size and that fits the type. Anything else, such as a number with trailing or doubled signs, points or exponents, infinities, empty text, or a name that is merely the beginning or an extension of an enumerator, is an error. (Names are compared by spelling; leading white space inside quotes, leading zeros, and digits missing on one side of the point are tolerated.)",
  ["inputs"], "all texts x all scalar target types x member, element, optional",
  "Tests parse a handful of well-formed scalars and two or three malformed ones.",
  [("EnumHandler, populateEnumNames", H + ":5739,5963"), ("TypeHandler of double, float, integers", H + ":8831-9015"), ("TypeHandler of bool and time_point", H + ":9187-9282")],
  observe=["parseTo error, value and the members around it"])

p("C28", "Results do not depend on language standard, compiler or optimisation",
  "The same program, built as C++11, 14, 17 or 20, by GCC or Clang, optimised or not, with plain char signed or unsigned, with or without assertions, and with or without native 128 bit integers for the number conversion, delivers the same tokens, parsed values, errors, error texts, member lists, serialized and reformatted texts, dynamic map contents, function call results and differences for the same input. (Members of type char, whose range is the compiler's, are excepted.)",
  ["inputs", "configurations"], "all texts x all supported target types x builds",
  "The tests are built with one compiler and one optimisation level; they never compare two builds, and the portable paths are not compiled.",
  [("feature selection", H + ":130-260"), ("portable 128 bit multiplication", H + ":7671-7690"), ("std::optional and chrono support", H + ":9100-9282")],
  observe=["token stream", "parse results", "serialized text", "makeErrorString", "call results", "diff marks"])

p("C29", "User-written type handlers see and write exactly their value",
  "A type with a TypeHandler of the user's own can stand wherever a built-in type can: as a member (also of a base class), as element of vectors, arrays, tuples and maps, in optionals, pointers and nullable wrappers, as argument and result of called functions. Its `to` runs exactly once for each occurrence of its value in the text, in document order; the tokens it reads through the context, up to the end of its value, are exactly those of the value, however the text is split over buffers or recorded; parsing goes on right behind the value, also when the handler skipped parts of it with pushScope, goToEndOfScope and popScope, nested scopes included, and nothing behind a scope is readable before it is popped; user_data reaches it. An error it returns, user-defined ones included, ends the parse and is its result, and a message it sets is in the error report. The tokens its `from` writes stand in the value's place, with correct separators, in every formatting style.",
  ["inputs", "histories"], "all documents x all places a handled type can stand",
  "The tests have a few handlers, each with one or two documents, and do not look at how often or with which tokens they are called.",
  [("TypeHandler", H + ":4384-4400"), ("ParseContext", H + ":4031-4300"), ("goToEndOfScope, pushScope, popScope", H + ":1862-1910"), ("Serializer::write", H + ":3377-3460"), ("containers' and wrappers' handlers", H + ":8300-9400")],
  observe=["handler calls and their tokens", "parsed objects", "parse errors and reports", "serialized text"])

p("C30", "Exceptions pass through without leaks, damage or termination",
  "When memory runs out at any allocation, or a callback, type handler or called function of the user throws, the exception leaves the running operation (parsing, serializing, reformatting, map, diff and metadata operations, function calls) unchanged: it is neither swallowed nor replaced, and the program is not terminated. Nothing is leaked or freed twice, the objects involved can be destroyed, the object being serialized is unchanged, and a parse context given new data afterwards behaves as if nothing had happened.",
  ["inputs", "fault points"], "all operations x every allocation and every call of user code in them",
  "No test lets an allocation fail or throws an exception.",
  [("Tokenizer callbacks", H + ":1650-1722"), ("SerializerContext", H + ":4790-4830"), ("callFunctions, ArrayEndWriter", H + ":5562-5665"), ("JS::Map::setValue", H + ":10273-10355"), ("type handlers", H + ":8300-9400")],
  observe=["exception seen by the caller", "balance of allocations", "result of the next use of the context"])

p("C31", "Work and memory grow in proportion to the input",
  "The work done and the memory used by tokenizing, parsing into any supported type, serializing, reformatting, computing metadata, iterating over a dynamic map, replaying recorded tokens, reporting errors and running call documents grow at most in proportion to the length of the text (times the logarithm for ordered containers), whatever the text contains: long, wide or deeply nested values, malformed or cut off texts, long runs of escapes, blanks, comments or commas, unknown and repeated members, and however it is cut into pieces that are supplied on request. (The diff, which compares members pairwise, many buffers queued at once, and the indentation of ever deeper values are excepted.)",
  ["inputs"], "all texts x all operations, in the limit of long texts",
  "Tests use short texts and do not look at cost; a hostile text that takes minutes is not among them.",
  [("Tokenizer", H + ":1724-1860"), ("metaForTokens", H + ":3936-3985"), ("JsonTokens and raw captures", H + ":9480-9700"), ("updateErrorContext", H + ":2981-3060"), ("SerializerContext", H + ":4790-4830"), ("callFunctions", H + ":5607-5665")],
  observe=["executed basic blocks", "allocated bytes and their peak", "bytes moved"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
