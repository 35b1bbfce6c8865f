#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they can be edited comfortably)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

I = "include/"
PI, PP = I + "parser/parser_impl.hpp", I + "parser/parser.hpp"
VI, V = I + "common/value_impl.hpp", I + "common/value.hpp"
AI, OI = I + "common/array_impl.hpp", I + "common/object_impl.hpp"
U, J, E = I + "common/utils.hpp", I + "reflection/jsonization.hpp", I + "common/enum_reflection.hpp"
PB, PX, PA, BO = I + "parser/packed_bytes.hpp", I + "parser/packed_bytes_x86.hpp", I + "parser/packed_bytes_arm.hpp", I + "parser/bitops.hpp"

prop("P01", "Strict parsing accepts exactly the JSON grammar",
     "Parsing a text in strict mode succeeds if and only if the text is one RFC 8259 JSON document whose root is an array or an object and whose objects repeat no member name (string bytes from 0x20 up are not checked for UTF-8 validity, and a NUL byte where whitespace may stand ends the text). "
     "Every other text - truncated, with leading or trailing content, comments, trailing or missing commas, malformed numbers, literals or escapes, unpaired surrogates, raw control characters - yields an empty result, never a value and never an exception.",
     ["inputs"], "all texts over all bytes: documents of any shape, every near miss of one, token soups, raw bytes; all short texts over the JSON alphabet",
     "the parser tests try a few dozen literal texts; acceptance is a statement about every text, and the interesting ones sit next to a vector-width edge, at the end of the buffer or behind an odd escape",
     [PI, PP], [("recursive descent over the grammar", PI + " parse/parse_value/parse_array/parse_object"), ("number scanner", PI + " parse_number, skip_digit"), ("string scanner", PI + " parse_stdstring, skip_unicode_escape"), ("end-of-text rule", PI + " skip_whitespace")],
     ["parse()", "literals"])
prop("P02", "A parsed value says exactly what the text says",
     "The value obtained by parsing holds the same tree as the text: the same nesting, array elements in the same order, each member under its unescaped name, null/true/false as written, numbers with their text kept verbatim, and strings equal to the text's bytes with every escape replaced by what it denotes, \\uXXXX and surrogate pairs by the UTF-8 of their code point. "
     "This holds at every length, for every code point and wherever in the string the escape stands.",
     ["inputs"], "all valid documents: any tree, whitespace, escape spelling and string length; every \\uXXXX unit and every surrogate pair boundary",
     "tests compare a handful of documents and escapes; 1.1 million code points and every escape position relative to the 4/8/16/32 byte steps are out of reach of examples",
     [PI, PB, PX], [("escape decoding and UTF-8 encoding", PI + " skip_unicode_escape"), ("copying of unescaped runs", PI + " parse_stdstring"), ("packed scan for quote, backslash and control bytes", PI + " skip_string_literal_with_accel"), ("number text", PI + " parse_number")],
     ["parse()", "as_string()", "to_string()"])
prop("P03", "JSONC adds only comments and one trailing comma, and ignores them",
     "Parsing with comments enabled accepts exactly the texts that are JSON once // comments (up to a line feed or the end of the text), /* */ comments (terminated) and one comma after the last element of a non-empty array or object are allowed where whitespace may stand. "
     "The result is the value of the text with those removed; every strictly valid text is accepted with the same value, and comment marks inside strings are text.",
     ["inputs"], "all texts with comments of any content in any place, trailing commas, unterminated and nested-looking comments, comment marks inside strings",
     "tests parse one or two commented files; where a comment may stand and how it may end are universal claims",
     [PI], [("comment skipping", PI + " skip_comment, skip_whitespace"), ("trailing comma", PI + " parse_array/parse_object (accept_jsonc)")], ["parsec()", "parse(istream, .., true)", "open(.., true)"])
prop("P04", "Parsing any bytes is memory-safe, terminates and never throws",
     "Parsing an arbitrary byte sequence, strict or with comments, through every entry point reads only the bytes it was given, has no undefined behaviour, terminates in time bounded by the length, leaks nothing and reports failure only by an empty result. "
     "The value of an accepted text can be serialised, copied, compared and destroyed equally safely.",
     ["inputs"], "all byte sequences in exactly sized buffers, with every truncation, offset and container",
     "tests have no sanitizer, hold their texts in NUL-terminated literals that hide overreads, and try no hostile bytes",
     [PI, PB, PX, V], [("end checks of the scanners", PI), ("packed loads only while a full step is left", PI + " skip_string_literal_with_accel"), ("contiguity test", U + " has_data"), ("destruction", V)], ["parse()", "parsec()"])
prop("P05", "The result does not depend on the container, its position or the vector width",
     "The same bytes give the same outcome - the same rejection or an equal value - whether they come as a string, a view at any offset, a char pointer, a vector, an array, a deque or other iterable container, a literal, a stream or a file, wherever in memory they stand, and whichever packed scanning width (none, 4, 8, 16 or 32 bytes) is in use.",
     ["inputs", "configurations"], "all texts x all containers x alignments x scanning widths",
     "tests parse std::string with the one width of their build; disagreement shows only for certain bytes at certain offsets",
     [PI, PB, PX, PA, BO], [("packed traits", PB + ", " + PX + ", " + PA), ("scan and fallback to bytes", PI + " skip_string_literal_with_accel"), ("first hit of a mask", PB + " first_nonzero_byte")], ["parse()", "parsec()"])
prop("P06", "Serialising and parsing back gives an equal value; output is canonical JSON",
     "For every value whose strings are arbitrary bytes and whose numbers are finite, its compact text is valid JSON with members in byte order of their names, no insignificant whitespace and exactly the necessary escapes, and the indented text differs from it only in whitespace laid out by the given indent; parsing either text (of an array or object) gives back an equal value. "
     "All ways to print (to_string, dumps, format, stream insertion, of value, array and object) agree.",
     ["inputs"], "all value trees, all strings including control bytes, NUL and invalid UTF-8, all indents",
     "tests print small fixed trees; escaping and layout must hold for every byte and shape",
     [VI, AI, OI, U], [("escaping", U + " append_escaped_string"), ("printing", VI + " dump_to/format_to; " + AI + "; " + OI)], ["to_string()", "dumps()", "format()", "operator<<"])
prop("P07", "Typed data converts to JSON and back unchanged",
     "Converting a C++ value of a supported type - arithmetic types, strings, enums, optionals and smart pointers, sequences, sets, arrays, tuples, pairs, string-keyed maps, variants, and nestings of these - to JSON gives the documented shape, and converting that JSON (or the parse of its text) back to the type gives an equal value; a value built from an lvalue leaves it unchanged, and lvalue and rvalue construction agree. "
     "Floating-point values come back exactly when full precision is configured and within the printed precision otherwise.",
     ["inputs"], "all values of a family of nested C++ types",
     "tests convert one or two values per type",
     [V, VI, I + "common/array.hpp", AI, I + "common/object.hpp", OI, U], [("constructors", V), ("conversion operators and as<T>()", V + ", " + AI + " as, " + OI + " as"), ("number printing", U + " to_basic_string")], ["json::value(T)", "as<T>()"])
prop("P08", "A type test tells exactly whether the conversion works",
     "For every value and every supported target type, is<T>() is true exactly when the value has the shape and range T needs, and as<T>() then succeeds with the denoted data; otherwise as<T>() throws the library's exception and nothing else. "
     "all<T>(), find<T>() and get() with a default agree with is<T>(): they answer with the converted value when it is true and with false, nothing or the default when it is not.",
     ["inputs"], "all values x a family of scalar and composite target types",
     "tests check a few matching and mismatching pairs; the claim relates two code paths over all values",
     [VI, V, AI, OI, U], [("type test", VI + " is, is_tuple_helper, is_variant_helper"), ("conversion", V + " conversion operators; " + VI + " as"), ("lookups with conversion", U + " json_value_or_default; " + VI + " find")], ["is<T>()", "as<T>()", "all<T>()", "find<T>()", "get()"])
prop("P09", "Number conversion is exact, or refused",
     "Converting a number to an integer type gives exactly the number when its text is an integer in the type's range and is refused otherwise (fractions and exponents included); converting to a floating type gives the nearest representable number and is refused only beyond the largest finite one. "
     "Numbers built from C++ integers print exactly and those built from floating values print a text that reads back as the same number (full-precision configuration) or as the fixed-point rounding (default).",
     ["inputs"], "all number texts of the JSON grammar x all arithmetic types; all integers and finite floating values",
     "tests look at a few boundary values of a few types",
     [VI, U], [("integer parsing", VI + " try_parse_integer"), ("floating parsing", VI + " scan_floating, try_parse_floating"), ("printing", U + " to_basic_string")], ["as_integer() ... as_long_double()", "is<T>()", "value(number)"])
prop("P10", "Struct mapping writes, checks and reads exactly the declared members",
     "For a struct with declared members - any number from 1 to the supported maximum, optional ones, renamed keys, nested structs, containers and external specialisations - to_json writes exactly one entry per member under its key, from_json of that (also of its parsed text) restores an equal struct, unknown entries are ignored and absent optional members keep their value. "
     "check_json and from_json agree: both fail exactly when a required member is absent or a present one has the wrong type, and report the first such key in declaration order.",
     ["inputs", "programs"], "all member values and all JSON inputs near a valid one, for structs of every arity and mix of declarations",
     "tests declare a few structs and feed one or two inputs; macro arity, order and optionality combine freely",
     [J, V, VI], [("macros", J + " MEO_JSONIZATION, MEO_TOJSON, MEO_FROMJSON, MEO_CHECKJSON, MEO_OPT, MEO_KEY"), ("dumper/checker/loader", J), ("detection of members and specialisations", U)], ["to_json()", "check_json()", "from_json()"])
prop("P11", "Enum values and their names convert both ways without mistakes",
     "Every named enumerator in the configured range converts to its own name and back to itself, whatever the underlying type, sign, gaps or aliases; unnamed values are refused, a text that is no enumerator's name is refused, except that a name is also found when only its case differs and the exact spelling always wins. "
     "Numbers in the range of the underlying type convert to the enum, and is<T>() agrees with the conversion.",
     ["inputs", "programs"], "all values of the underlying types, all texts near names, enums of any shape and range",
     "tests use one or two small enums",
     [E, V, VI], [("names from the compiler's function signature", E), ("lookup", E + " string_to_enum, enum_to_string"), ("conversion", V + " operator enum_t, value(enum_t)")], ["json::value(enum)", "as<enum>()", "is<enum>()"])
prop("P12", "Any sequence of edits leaves the tree a simple model predicts",
     "After any sequence of construction, element access, insertion, merging, concatenation, erasure, clearing, iteration and assignment through value, array and object, the tree equals the one an ordinary ordered-map/vector model reaches by the same operations: the same sizes, order, contents and return values, objects ordered by name, a later insertion replacing an earlier one and a merge taking the right-hand side. "
     "Operations that do not apply are refused with an exception and leave the tree as it was; empty values turn into the container an edit asks for.",
     ["histories"], "all sequences of public operations on a forest of values",
     "tests run short fixed scripts; the claim is about every history",
     [VI, AI, OI], [("mutators", VI + " operator[], emplace, erase, operator|=, operator+=; " + AI + "; " + OI)], ["every public mutator and observer"],
     [("tree", "nested value/array/object storage", V + " _type, _raw_data")])
prop("P13", "Copies are independent, moves and aliased operands lose nothing",
     "A copy is equal to its source and independent of it: changing either leaves the other as it was, and no operation changes an operand it takes by const reference or an lvalue it copies from. "
     "Moving transfers the whole content and leaves the source destructible, assignable and printable; assigning, merging or appending a value from itself, its own part or its parent has the effect of doing so from a copy made before.",
     ["histories", "inputs"], "all trees, all operand pairs including overlapping ones, all construction paths",
     "tests never overlap operands and rarely look at the source afterwards",
     [VI, AI, OI, V], [("deep copy", VI + " deep_copy, copy constructor"), ("assignment", VI + " operator=; " + AI + "; " + OI), ("merging and appending", OI + " merge_object; " + AI + " append_array")], ["copy and move constructors and assignments", "operator| |= + +="])
prop("P14", "All ways to look something up agree and change nothing",
     "For every value, key or position, contains, exists, find, find_value, at, operator[], get with a default and iteration agree on whether an element is there and which one it is, for value, array and object alike, and through paths of several keys; absent or mistyped targets give the default, nothing, or the documented exception. "
     "Lookups never change the value.",
     ["inputs"], "all trees x present, absent and mistyped keys, positions and paths x default types",
     "tests query a few present keys",
     [VI, AI, OI, U], [("get helpers", VI + " get_helper; " + AI + "; " + OI), ("find", VI + " find, find_value"), ("default handling", U + " default_or_string, json_value_or_default")], ["get()", "find()", "at()", "contains()"])
prop("P15", "Equality is structural and consistent",
     "Two values are equal exactly when they have the same type and the same content: null; the same boolean; the same number text; the same bytes; elements equal in order; the same names with equal values whatever the insertion order. "
     "Equality is reflexive, symmetric and transitive, != is its negation, it agrees between value, array and object, and equal values print the same text while unequal ones do not.",
     ["inputs"], "all pairs and triples of trees, in particular pairs differing in one place",
     "tests compare a few hand-written pairs",
     [VI, AI, OI], [("comparison", VI + " operator==; " + AI + "; " + OI)], ["operator==", "operator!="])
prop("P16", "Failed allocations and refused operations lose and leak nothing",
     "When an allocation fails inside any operation - parsing, printing, copying, converting, editing - or an operation is refused, an exception reaches the caller, nothing leaks or is destroyed twice, every value involved stays valid, operands that the operation only reads are unchanged, and copy assignment leaves its target as it was. "
     "The same operation repeated with memory available gives the normal result.",
     ["fault_sequences", "histories"], "every allocation of every operation as the failing one, over generated inputs and trees",
     "tests never inject a failure",
     [VI, AI, OI, PI], [("copy then swap", VI + " operator="), ("ownership by unique_ptr, vector, map", V), ("conversion of empty values", VI + " as_array, as_object, operator[]")], ["exceptions", "state after an exception"])
prop("P17", "Streams and files give exactly the result of their bytes",
     "Parsing a stream or a file gives the outcome of parsing its whole content from the beginning, in strict mode or with comments as asked, wherever the read position was; one UTF-8 byte order mark at the start is skipped exactly when asked for and otherwise makes the text invalid. "
     "A file that cannot be opened or read, or a stream that cannot be sought or read, gives an empty result without an exception or crash.",
     ["inputs", "fault_sequences"], "all contents x flags x stream positions x stream and file faults",
     "tests open one file",
     [PI, PP], [("stream reading and BOM", PI + " parse(std::istream&)"), ("files", PI + " open")], ["parse(istream)", "open()"])
prop("P18", "Reading shared values from many threads is safe",
     "Any number of threads may at the same time read the same value through const operations, and parse, build, convert, print and destroy distinct values, without data races, and each obtains the result it would obtain alone.",
     ["schedules", "inputs"], "all const operations on shared trees by several threads, all operations on distinct values, under varied interleavings",
     "tests are single-threaded",
     [VI, AI, OI, U, E, PI], [("no caches, no mutable or static state", "include/**")], ["const member functions", "parse()", "value(T)"])
prop("P19", "Behaviour is the same in every supported build configuration",
     "The same operations on the same inputs give the same results with gcc and clang, C++17 and C++20, optimised or not, with SSE2, SSE4.1, AVX2, NEON or no packed scanning, from one or several translation units; the configuration macros change only what they document: the precision of printed floating values, enums as numbers, path support and packed scanning.",
     ["configurations", "inputs"], "all supported configurations x generated inputs",
     "the test suite runs in one configuration",
     [PB, PX, PA, BO, U, V], [("feature selection", PB), ("bit operations for C++17 and C++20", BO), ("macros", U + " to_basic_string; " + V + " value(enum_t)")], ["all of the API"])
prop("P20", "Results do not depend on the locale",
     "Whatever C locale and C++ global locale the program has set, parsing, number conversion in both directions and printing give the same results as in the classic locale: numbers keep '.' as decimal point and no grouping.",
     ["configurations", "inputs"], "all numbers and documents under locales with other decimal points, grouping and character classes",
     "tests run in the classic locale",
     [VI, U, PI], [("floating parsing", VI + " try_parse_floating"), ("printing", U + " to_basic_string"), ("character classes", PI + " skip_digit, skip_unicode_escape")], ["as_double()", "value(double)", "parse()"])
prop("P21", "Cost is proportional to the data, and moves do not copy",
     "Parsing, printing, copying, comparing and converting allocate memory and call the allocator in proportion to the size of the text or tree, whatever its nesting, string lengths or escapes; moving a value, array or object, or building one from an rvalue string or container of values, copies no element of it.",
     ["inputs"], "all trees and texts, in particular deep, wide and long ones",
     "tests measure no cost; a lost move or a copy per level changes no result",
     [PI, VI, AI, OI], [("moves in the parser", PI + " parse_array, parse_object"), ("printing into one buffer", VI + " dump_to, format_to"), ("move constructors and assignments", VI + "; " + AI + "; " + OI)], ["allocation counts and bytes"])

prop("P22", "Values say what they are, and errors say what went wrong",
     "However a value came about - built from C++ data, parsed, copied, moved, swapped, taken out of a container, merged, cleared, or left behind by a refused operation - its questions agree with each other and with its content: type(), type_name() and valid() say which of the seven types it has, exactly one is_*() is true (none for an invalid value), empty() is true exactly for null, the empty string and empty containers, and every accessor, conversion and lookup succeeds exactly if the value has the type and range it needs. "
     "A conversion that does not apply throws json::exception (a std::exception that can be copied and outlives the value), whose text names the type found, the text of the number that cannot be represented, or the size that does not match, and leaves the value as it was; mutable access turns empty values, and no others, into the container asked for.",
     ["inputs", "histories"], "all values, ways by which they come about, and accesses to them",
     "tests call the accessors that apply on freshly built values, and never read the text of an error",
     [VI, V, I + "common/exception.hpp"], [("type tests", VI + " type, valid, empty, is_*, type_name"), ("accessors", VI + " as_*"), ("texts of errors", VI + " value_info, parse_integer, parse_floating; " + AI)], ["type()", "is_*()", "as_*()", "exception::what()"])
prop("P23", "User-defined conversions are used wherever their type appears",
     "A class or enum with conversions of its own - to_json, check_json and from_json as members, or a specialisation of ext::jsonization, also one with move_to_json and move_from_json - is converted by them and not by a built-in conversion it would also qualify for, in every position: by itself, as element of sequences, tuples, pairs and fixed arrays, as value of maps, in optionals, smart pointers and variants, as member of a described struct, as result of as(), casts, get(), find() and all(). "
     "A conversion calls exactly one of them per element, a moving one only for rvalues and always for an rvalue of the type itself; type tests ask check_json only; a from_json that returns false is a json::exception; exceptions thrown by them reach the caller and leave the operands, and a container to which an element was to be added, unchanged.",
     ["inputs", "fault_sequences"], "types with conversions of each form x positions x values, near-miss JSON, and failing calls",
     "tests have one or two such types in a few positions; which conversion wins is decided by overload resolution, differently in each position",
     [V, VI, AI, OI, U], [("constructors", V + " value(const jsonization_t&)"), ("conversions", VI + " as; " + V + " operator jsonization_t"), ("detection", U + " has_to_json_in_member ..."), ("containers", AI + "; " + OI)], ["value(T)", "as<T>()", "is<T>()", "get()", "find()", "ext::jsonization"])
prop("P24", "Time is proportional to the data",
     "Parsing any text - well-formed or not, deep, long, full of blanks, comments, escapes, quotes or brackets - takes work in proportion to its length; printing, copying, comparing, merging and converting take work in proportion to the size of the tree and the text; building, reading and taking apart arrays and objects step by step takes work in proportion to the number of steps; "
     "and moving a value, asking for its type or size, reaching an element or adding or removing one at the end takes the same however large it is. Only two things may add to that: reaching a member takes the logarithm of their number, and a type nested in types may look at what is below it once per level, never twice as often for each level.",
     ["inputs", "histories"], "all texts and trees at all sizes, and all histories of single steps",
     "tests are small, and work that grows with the square of the size gives the same results",
     [PI, PB, VI, AI, OI, U], [("scanning", PI + " skip_whitespace, skip_comment, parse_string"), ("appending", AI + " append_array"), ("conversions that look ahead", VI + " is, as; variants"), ("lookups", OI + "; " + AI + " find, get")], ["parse()", "to_string()", "operator+=", "operator|=", "push_back()", "find()", "as<T>()"])
prop("P25", "Values, arrays and objects work with the standard library like any vector or map",
     "Standard algorithms on an array or an object - sorting, partitioning, rotating, removing, filling, copying and moving within and between, searching, comparing, merging, heaps, permutations, insert iterators, numeric folds, through iterators of every kind and range-for with bindings - do what they do on a std::vector or std::map of the same data, element for element and result for result, whether the container stands alone or inside a value. "
     "Values, arrays and objects are regular types: standard containers and wrappers (vector, deque, lists, maps, sets with a comparator, optional, any, variant, pair, tuple, array, pointers) hold, compare, swap, move and destroy them like any other element, and containers that grow or are rearranged move them without copying.",
     ["histories", "inputs"], "all programs of standard algorithms and container operations on all data",
     "tests iterate once, forwards, over a small container",
     [AI, OI, VI, I + "common/array.hpp", I + "common/object.hpp", V], [("iterators", AI + " begin ... crend; " + OI + " begin ... cend"), ("special members", VI + "; " + AI + "; " + OI + " copy, move, assignment, noexcept"), ("types", I + "common/array.hpp; " + I + "common/object.hpp value_type, iterator ...")], ["begin()", "end()", "rbegin()", "std algorithms over array and object", "std containers of value"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
