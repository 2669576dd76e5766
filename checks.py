"""What each check builds and runs. Counts are case-index bounds, so runs are bounded by work, not time."""
CHECKS = {}
import os

AVX2 = ["-mavx2", "-mbmi", "-mbmi2"]
SCALAR = ["-DJS_DISABLE_SIMD"]

CHECKS["C02"] = dict(
    runs=[dict(name="c02a", tus=["c02a.cpp"], quick=60000, thorough=1500000),
          dict(name="c02b", tus=["c02b.cpp"], quick=60000, thorough=1500000),
          dict(name="c02avx2", tus=["c02a.cpp"], flags=AVX2, quick=10000, thorough=500000),
          dict(name="c02scalar", tus=["c02a.cpp"], flags=SCALAR, quick=10000, thorough=500000)],
    require={"evaluations": 300000, "whole_parsed": 10000, "whole_refused": 5000, "requests_seen": 1000000},
    technique="differential runtime monitor (split vs. whole: token streams, typed values, captures, member lists and errors) under ASan+UBSan",
    note="random documents and malformed mutations without NUL bytes; random and exhaustive splits; every delivery mode",
    rule="tokens, or the value and error of a typed parse, of a document fed in pieces against those of the same document in one buffer; non-trivial: at least one cut; distinct by text, cuts and delivery",
)
CHECKS["C04"] = dict(
    runs=[dict(name="c04", tus=["c04.cpp"], quick=300000, thorough=1500000),
          dict(name="c04avx2", tus=["c04.cpp"], flags=AVX2, quick=60000, thorough=500000)],
    require={"malformed_docs": 10000, "tokens_observed": 100000},
    technique="online token-stream monitor against an independent strict JSON parser, under ASan+UBSan",
    note="object or array roots; number and escape lexemes are not validated by the tokenizer; one trailing comma before ']' is accepted by design",
    rule="random well-formed documents (whitespace, nesting to 600, all lexical forms) and lexeme-level structural mutations of them; "
         "non-trivial: the document has at least one value inside the root, or the mutation is rejected by the reference grammar",
)
CHECKS["C06"] = dict(
    runs=[dict(name="c06", tus=["c06.cpp"], quick=120000, thorough=1500000)],
    require={"texts_compared": 20000, "deep_values": 50},
    technique="round-trip runtime monitor over a generated type catalogue, under ASan+UBSan",
    note="29 root types covering all supported kinds; time points limited to 2001-2261, finite floats",
    rule="random value of a catalogue type serialized with random options and parsed back into a fresh object; non-trivial: text longer than 12 bytes; distinct by text",
)
CHECKS["C07"] = dict(
    runs=[dict(name="c07", tus=["c07.cpp"], quick=50000, thorough=1500000)],
    require={"evaluations": 20000},
    technique="output monitor: independent strict JSON parser and independently built expected document, under ASan+UBSan",
    note="same catalogue as C06; strings are UTF-8",
    rule="random value serialized and compared with the document its type traits denote; distinct by text",
)
CHECKS["C09"] = dict(
    runs=[dict(name="c09", tus=["c09.cpp"], quick=600000, thorough=6000000),
          dict(name="c09n", tus=["c09.cpp"], flags=["-DFT_NO_INT128"], flavour="plain", quick=200000, thorough=4000000)],
    require={"evaluations": 100000, "hard_double_texts": 50000, "hard_float_texts": 10000},
    technique="runtime monitor comparing parsed bit patterns with the C library's correctly rounded conversion, under ASan+UBSan",
    note="oracle: glibc strtod/strtof in the C locale; texts to about 5000 digits; per decimal exponent the 17 and 19 digit texts closest to a midpoint (tools/mkhard.py)",
    rule="random, boundary (midpoints and neighbours) and respelled decimal texts parsed as float and double; distinct by text",
)
CHECKS["C10"] = dict(
    runs=[dict(name="c10", tus=["c10.cpp"], quick=150000, thorough=3000000),
          dict(name="c10p", tus=["c10.cpp"], flavour="plain", quick=800000, thorough=40000000),
          dict(name="c10n", tus=["c10.cpp"], flags=["-DFT_NO_INT128"], flavour="plain", quick=200000, thorough=4000000),
          dict(name="c10all", tus=["c10all.cpp"], flavour="plain", quick=4000, thorough=524288)],
    require={"evaluations": 500000, "hard_numbers": 100000, "float_blocks": 3000},
    technique="runtime monitor: printed text against strtod/strtof and std::to_chars shortest digits, under ASan+UBSan and plain",
    note="bit patterns sampled by class (all exponents, powers of two and ten and neighbours, subnormals, and per binary exponent those whose rounding interval ends closest to a short decimal, tools/mkhard.py); thorough prints and reads every positive float",
    rule="random and boundary float/double bit patterns; distinct by bit pattern",
)

CHECKS["C08"] = dict(
    runs=[dict(name="c08", tus=["c08.cpp"], quick=80000, thorough=1500000)],
    require={"evaluations": 10000},
    technique="differential runtime monitor (chunked vs. whole output) with guard zones, under ASan+UBSan",
    note="buffer sizes of at least one byte; an empty buffer from the callback counts as none",
    rule="random token sequences and values written into random buffer sequences; distinct by text and buffer sizes",
)
CHECKS["C11"] = dict(
    runs=[dict(name="c11", tus=["c11.cpp"], quick=200000, thorough=3000000),
          dict(name="c11i", tus=["c11.cpp"], flags=["-std=gnu++17", "-DVERIF_INT128"], quick=60000, thorough=1000000)],
    require={"evaluations": 50000},
    technique="runtime monitor against an independent big-decimal oracle, under ASan+UBSan",
    note="128-bit types only in GNU mode, where the library supports them",
    rule="all values of the 8 and 16 bit types, random and boundary values of the wider ones, and decimal texts around and beyond their limits",
)
CHECKS["C12"] = dict(
    runs=[dict(name="c12", tus=["c12.cpp"], quick=400000, thorough=2000000),
          dict(name="c12avx2", tus=["c12.cpp"], flags=AVX2, quick=60000, thorough=500000)],
    require={"evaluations": 20000},
    technique="runtime monitor against an independent escape codec, under ASan+UBSan",
    note="strings are UTF-8; escapes are well formed",
    rule="systematic sweep of special characters over positions, and random strings and literals; distinct by text",
)
CHECKS["C19"] = dict(
    runs=[dict(name="c19", tus=["c19.cpp"], quick=50000, thorough=500000)],
    require={"captures_compared": 50000, "split_parses": 10000},
    technique="runtime monitor comparing captures with the source spans of the document generator, under ASan+UBSan",
    note="referencing captures are checked for one-buffer input only",
    rule="random capture documents in one buffer, split into several, and parsed again into the same target; distinct by text",
)
CHECKS["C23"] = dict(
    runs=[dict(name="c23", tus=["c23.cpp"], quick=300000, thorough=1500000)],
    require={"evaluations": 20000, "partly_named_elements": 20000},
    technique="runtime monitor against container models, under ASan+UBSan",
    note="maps merge into prior content by design",
    rule="random arrays, objects and scalars parsed into containers and wrappers with random prior content; distinct by type and text",
)
CHECKS["C24"] = dict(
    runs=[dict(name="c24", tus=["c24.cpp"], quick=12000, thorough=300000)],
    require={"evaluations": 9000, "resumed": 20000},
    technique="runtime monitor of the error code of every prefix and of the result once the rest is supplied, under ASan+UBSan with a watchdog",
    note="object and array roots",
    rule="documents of catalogue types cut at every or many positions; distinct by text and cut",
)
CHECKS["C13"] = dict(
    runs=[dict(name="c13", tus=["c13.cpp"], quick=200000, thorough=2500000)],
    require={"members_compared": 100000, "strict_failures": 5000, "members_unassigned": 20000},
    technique="runtime monitor against a member-binding model (names, aliases, bases, presence), under ASan+UBSan",
    note="member names are compared by their spelling in the text",
    rule="random subsets, orders, duplicates, aliases and near-miss names for a family of structs, strict and lenient; distinct by text",
)
CHECKS["C14"] = dict(
    runs=[dict(name="c14", tus=["c14.cpp"], quick=120000, thorough=1500000)],
    require={"casts": 100000, "sets": 40000, "whole_casts": 10000, "spoiled_contexts": 500, "failed_parses": 1000},
    technique="model-based runtime monitor over operation histories of a dynamic map, under ASan+UBSan",
    note="maps are moved, not copied; member names of a map are unique",
    rule="random histories of parse, set, replace, look up, cast, iterate and serialize; distinct by history",
)
CHECKS["C16"] = dict(
    runs=[dict(name="c16", tus=["c16.cpp"], quick=200000, thorough=2500000)],
    require={"calls_observed": 100000, "entries_unknown": 10000, "entries_raised": 5000, "deep_arguments": 20},
    technique="runtime monitor of the trace of calls made by a function container against a dispatch model, under ASan+UBSan",
    note="call documents are objects",
    rule="random call documents over functions of every signature shape, whole, truncated and mutated; distinct by text",
)
CHECKS["C15"] = dict(
    runs=[dict(name="c15", tus=["c15.cpp"], quick=150000, thorough=1200000)],
    require={"marks_compared": 1000000, "base_changes": 5000, "kind_NewArrayItem": 10000, "kind_TypeDiff": 10000, "missing_tokens": 10000},
    technique="model-based runtime monitor of every diff mark and missing list over histories of comparisons, under ASan+UBSan",
    note="member names unique within an object; names and strings compared by spelling, numbers as doubles",
    rule="random histories of comparing, changing the base, invalidating and resetting with documents related by edits; distinct by document",
)
CHECKS["C18"] = dict(
    runs=[dict(name="c18", tus=["c18.cpp"], quick=120000, thorough=1000000)],
    require={"entries_compared": 300000, "parts": 30000, "map_edits": 8000, "wide_documents": 800},
    technique="runtime monitor comparing metadata with the document's structure, under ASan+UBSan",
    note="object and array roots",
    rule="random documents, skeletons of mostly empty containers, deep documents, their parts, and maps under edits; distinct by text",
)
CHECKS["C20"] = dict(
    runs=[dict(name="c20", tus=["c20.cpp"], quick=120000, thorough=1000000)],
    require={"compact": 10000, "pretty": 10000, "malformed_documents": 5000, "truncated_documents": 5000},
    technique="runtime monitor comparing reformatted text with the source under an independent parser, under ASan+UBSan",
    note="object and array roots; the tokenizer's leniencies (trailing comma in arrays, text after the root) are not claimed",
    rule="random, large and deep documents reformatted in every style and again, mutated and truncated documents; distinct by text",
)
CHECKS["C17"] = dict(
    runs=[dict(name="c17", tus=["c17.cpp"], quick=250000, thorough=3000000)],
    require={"positions_checked": 5000, "typed_positions_checked": 5000, "multi_line_reports": 5000, "token_reports": 500, "chunked_reports": 2000},
    technique="runtime monitor of the error code, line, column and excerpt of every failed parse against where the defect was planted, under ASan+UBSan",
    note="a position may be next to the offending text; in chunked input the excerpt is of the current buffer",
    rule="documents with one planted syntax or type defect at a known offset, whole and chunked, with short and long lines; distinct by text",
)
CHECKS["C22"] = dict(
    runs=[dict(name="c22", tus=["c22.cpp"], quick=90000, thorough=2000000)],
    require={"releases_seen": 1000000, "requests_seen": 1000000, "release_bounds_checked": 50000, "resets": 2000, "typed_parses": 20000, "capture_parses": 5000},
    technique="online checker of the event log of supplied, requested and released buffers, under ASan+UBSan with released memory overwritten and freed or refilled at once",
    note="six ways of supplying the pieces; the release callback is set before parsing",
    rule="random documents, typed values and captures cut into pieces (empty and single-byte pieces included); distinct by text, cuts and way of supplying",
)
CHECKS["C05"] = dict(
    runs=[dict(name="c05", tus=["c05.cpp"], quick=150000, thorough=3000000)],
    require={"relaxed_documents": 30000, "using_words": 3000, "using_newlines": 3000, "using_trailing_commas": 2000, "using_comments": 3000, "option_off_rejections": 10000, "malformed_relaxed": 20000, "typed_documents": 10000},
    technique="runtime monitor of token streams against an independent reference parser of the relaxed grammar, under ASan+UBSan",
    note="a comment is separated from an unquoted word by white space; with newlines as separators a line break ends the element it follows",
    rule="random documents decorated with any mix of relaxations under every option set, whole and in pieces, with needed options off, and edited; distinct by text and options",
)
CHECKS["C03"] = dict(
    runs=[dict(name="c03", tus=["c03.cpp", ("c03v.cpp", ["-DJS=JSscalar", "-DVARIANT=scalar", "-DJS_DISABLE_SIMD"]), ("c03v.cpp", ["-DJS=JSsse2", "-DVARIANT=sse2"]),
                                ("c03v.cpp", ["-DJS=JSsse42", "-DVARIANT=sse42", "-msse4.2"]), ("c03v.cpp", ["-DJS=JSavx2", "-DVARIANT=avx2", "-mavx2", "-mbmi", "-mbmi2"])],
               quick=200000, thorough=6000000),
          dict(name="c03neon", optional=True, flags=["-DVERIF_NEON"], tus=["c03.cpp", ("c03v.cpp", ["-UVERIF_NEON", "-DJS=JSscalar", "-DVARIANT=scalar", "-DJS_DISABLE_SIMD"]),
                                ("c03v.cpp", ["-DJS=JSneon", "-DVARIANT=neon", "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "neon")])],
               quick=60000, thorough=1500000)],
    require={"compared_with_sse2": 70000, "compared_with_sse4.2": 70000, "compared_with_avx2": 70000},
    technique="differential runtime monitor: transcripts of five builds of the library, four of them in one process, under ASan+UBSan",
    note="scalar, SSE2, SSE4.2 and AVX2; the NEON code runs on a lane by lane stand-in for arm_neon.h (left out, and noted in the evidence, if it uses an intrinsic the stand-in lacks)",
    rule="documents with runs of strings, numbers, words, comments and white space ending around vector widths, typed documents, mutated and cut ones, NUL bytes, all option sets, whole and in pieces; distinct by text and options",
)
CHECKS["C21"] = dict(
    runs=[dict(name="c21", tus=["c21.cpp"], flavour="tsan", shards=48, quick=1900, thorough=60000)],
    require={"tasks_run": 100000, "thread_switches_seen": 15000, "first_uses_under_contention": 40, "shared_values_read": 4000},
    technique="ThreadSanitizer plus a monitor comparing every thread's results with those obtained alone",
    note="each thread has its own contexts and targets; first use of every type is concurrent in each of the processes",
    rule="2 to 8 threads running random tasks of 24 kinds (parse any target from relaxed or broken text fed on request, replay, serialize whole and through small buffers, capture, map, metadata, diff, call, reformat, errors, user handlers, hard numbers, shared const values) in lock step, rotated and reversed; distinct by interleaving of the tasks",
)
C01TU = ["c01.cpp", "c01b.cpp"]
CHECKS["C01"] = dict(
    runs=[dict(name="c01", tus=C01TU, quick=50000, thorough=4000000),
          dict(name="c01avx2", tus=C01TU, flags=AVX2, quick=16000, thorough=1500000),
          dict(name="c01scalar", tus=C01TU, flags=SCALAR, quick=10000, thorough=800000),
          dict(name="c01memcheck", tus=C01TU, flavour="memcheck", quick=1600, thorough=60000)],
    require={"parsed": 20000, "refused": 60000, "inputs_soup": 5000, "inputs_bytes": 5000, "inputs_deep": 5000, "inputs_typed": 30000, "inputs_very_deep": 100},
    technique="AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and Valgrind memcheck over hostile inputs, with a per-case CPU watchdog",
    note="63 target kinds; nesting beyond 65535 levels only where the library does not recurse; NEON cannot run here",
    rule="typed documents with wrong kinds, missing, doubled and foreign members, lexeme soup, random bytes, deep and very deep nesting, edited at byte level and cut into pieces under every option set; distinct by text and options",
)
CHECKS["C25"] = dict(
    runs=[dict(name="c25", tus=["c25.cpp"], quick=60000, thorough=2000000)],
    require={"rounds_reused": 80000, "succeeded_on_reuse": 40000, "failed_on_reuse": 10000, "texts_gone": 10000, "kind_recorded_tokens": 5000, "kind_some_tokens": 5000},
    technique="differential runtime monitor of histories: a context given new data against a fresh one, under ASan+UBSan with earlier texts freed",
    note="the member lists of a context accumulate by design and are emptied between uses",
    rule="2 to 6 uses of one context (typed parses, captures, all or some tokens, scopes left open, recorded tokens, failed, truncated, chunked), each compared in value, error, report and held buffers; distinct by history",
)
CHECKS["C26"] = dict(
    runs=[dict(name="c26", tus=["c26.cpp"], quick=150000, thorough=3000000)],
    require={"parsed": 20000, "refused": 10000, "tokens_replayed": 1000000, "how_0": 5000, "how_1": 5000, "how_2": 5000, "how_3": 5000, "text_behind_a_list": 1000, "list_behind_a_list": 1000},
    technique="differential runtime monitor: targets parsed from recorded tokens against those parsed from the text, under ASan+UBSan",
    note="captures made from tokens drop the white space of the source",
    rule="documents for 35 target kinds, with unknown, missing and wrong-typed members, replayed from four kinds of token list; distinct by text and target",
)
CHECKS["C27"] = dict(
    runs=[dict(name="c27", tus=["c27.cpp"], quick=800000, thorough=20000000)],
    require={"refusals_expected": 200000, "values_expected": 200000},
    technique="runtime monitor: scalar targets given texts of their type and near misses, judged by an independent grammar of each type, under ASan+UBSan",
    note="texts of numbers that only the lenient grammar allows (leading zeros, .5, 5.) are not judged",
    rule="number texts with characters inserted or replaced, enumerator names cut, extended, joined and changed in case, counts around the borders of the time units, as member, element and inside optionals, whole and in two buffers; distinct by text and type",
)
def c28v(name, flags, **opt):
    return ("c28v.cpp", ["-DJS=JS" + name, "-DVARIANT=" + name] + flags, opt)


CHECKS["C28"] = dict(
    runs=[dict(name="c28", tus=["c28.cpp", c28v("c17", []), c28v("c11", ["-std=c++11", "-O2", "-DFT_NO_INT128"]), c28v("g20", ["-std=c++20", "-O3"], cxx="g++", bare=True),
                                c28v("g11", ["-std=c++11", "-O0"], cxx="g++", bare=True), c28v("c20", ["-std=c++20", "-O3", "-funsigned-char"], bare=True),
                                c28v("c14", ["-std=c++14", "-O2", "-DNDEBUG"], bare=True)],
               quick=60000, thorough=2500000)],
    require={"compared_with_g20": 50000, "compared_with_c11": 50000, "compared_with_c20": 50000, "texts_wrap": 5000, "texts_calls": 5000, "texts_diff": 5000, "texts_numbers": 5000},
    technique="differential runtime monitor: transcripts of six builds of the library (C++11 to C++20, clang and GCC, -O0 to -O3, unsigned char, without 128 bit integers, without asserts) in one process, two of them under ASan+UBSan",
    note="x86-64 only; members of type char are left out because their range is the compiler's",
    rule="typed documents over wrappers, containers, numbers, enums and superclasses, call documents, pairs for the diff, runs, mutated and damaged texts, all option sets, whole and in pieces; distinct by text, options and targets",
)
CHECKS["C29"] = dict(
    runs=[dict(name="c29", tus=["c29.cpp"], quick=120000, thorough=2000000)],
    require={"handler_calls": 500000, "documents_parsed": 20000, "documents_written": 20000, "refused_by_handlers": 5000, "call_documents": 10000, "scopes_nested": 20000, "scopes_nested_in_calls": 5000, "messages_expected": 2000, "scopes_over_60_deep": 1500},
    technique="runtime monitor: user-written type handlers that log every token they are given, compared call by call with the document's reference value, under ASan+UBSan",
    note="handlers that read beyond their value, or write more than one value, are outside the contract",
    rule="documents placing five hand-written handlers as members, base members, elements, map values, tuple and array entries and in every wrapper, any order of names, values of any kind and depth, handlers that refuse, whole, in pieces and from recorded tokens; distinct by text and way in",
)
CHECKS["C30"] = dict(
    runs=[dict(name="c30", tus=["c30.cpp"], quick=150000, thorough=4000000)],
    require={"allocation_failures": 300000, "user_exceptions": 50000, "parse_operations": 20000, "serialize_operations": 5000, "function_operations": 4000, "map_operations": 4000,
             "diff_operations": 4000, "handler_operations": 4000, "output_operations": 4000},
    technique="fault injection under ASan+UBSan: the k-th allocation (or it and all later ones) fails, or the user's callback, handler or function throws; monitors compare the exception, the balance of allocations and a later use of the same context",
    note="function calls write the end of their results while an exception passes, so all later allocations failing is not claimed for them; what a JS::Map holds after a failed setValue is not judged",
    rule="parses of all catalogue types whole, in pieces and from recorded tokens, serialization, reformatting, maps, diffs, metadata, calls, output callbacks x position of the fault; distinct by operation and text",
)
CHECKS["C31"] = dict(
    runs=[dict(name="c31", tus=["c31.cpp"], flavour="counting", quick=24000, thorough=800000)],
    require={"compared": 20000, "large_enough": 8000, "large_inputs": 1000},
    technique="runtime monitor of cost: executed basic blocks, allocated bytes, peak memory and bytes moved are counted by instrumentation, and inputs of one shape are compared at two sizes",
    note="the diff, and many buffers queued at once instead of supplied on request, are not claimed; indentation of ever deeper values is not counted against the serializer",
    rule="27 shapes of text (long, wide, deep, malformed, cut off, escapes, comments, unknown and repeated members) x 30 operations, all option sets, whole and in pieces of 1 to 24 bytes; distinct by shape and operation",
)
