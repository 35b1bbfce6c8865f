"""The checks: what is built and run for each property."""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys

from driver import BUILD, CompileError, Runner, build, build_unit, parse_case

BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DMEOJSON_FS_PATH_EXTENSION", "-DMEOJSON_KEEP_FLOATING_PRECISION"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CHECKS = {}
VERIF = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(VERIF, "corpus", "json")


def harness(src, extra=(), cxx="g++", san=ASAN):
    return [(src, cxx, BASE + san + list(extra))], san + ["-g1"], cxx


def standard(src, quick, thorough, extra=(), cxx="g++", san=ASAN, fuzz=None):
    """One harness, optionally with a coverage-guided campaign over the same oracle."""
    def run(c, replay):
        units, link, lcxx = harness(src, extra, cxx, san)
        with cf.ThreadPoolExecutor(4) as ex:
            fb = ex.submit(build, units, link, lcxx)
            ff = None
            if fuzz and not replay:
                fflags = BASE + ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_FUZZ"] + list(extra)
                ff = ex.submit(build, [(src, "clang++", fflags)], ["-fsanitize=fuzzer,address,undefined"], "clang++")
            binary = fb.result()
            fuzzer = ff.result() if ff else None
        c.log("built")
        if replay:
            return do_replay(c, replay, binary)
        n = quick if c.tier == "quick" else thorough
        fails = c.run_workers("pbt", binary, n, wall=640 if c.tier == "quick" else 3 * 3600)
        c.handle(fails)
        if fuzzer and not c.violations:
            runs = fuzz["quick"] if c.tier == "quick" else fuzz["thorough"]
            arts = c.run_fuzzer("fuzz", fuzzer, runs, fuzz.get("max_len", 256), CORPUS if fuzz.get("corpus", True) else None, wall=150 if c.tier == "quick" else 3 * 3600)
            fs = []
            for what, data, text in arts:
                fs.append((("custom", "text", data), "hang" if what == "timeout" else "crash", text[-3000:], binary, None, 25, []))
            c.handle(fs)
            if arts and not c.violations:
                # only the fuzzer's own build shows it
                c.labels["fuzzer artifacts that do not repeat"] = len(arts)
    return run


def do_replay(c, replay, binary):
    case = parse_case(replay)
    r = Runner(binary, c.work, 25).run(case, quiet=False)
    print(r[1])
    c.evaluations = 1
    if r[0] != "ok":
        c.violation(replay)


def replay_binary(c, replay):
    for line in open(replay):
        if line.startswith("binary: "):
            return c.binaries.get(line.split(None, 1)[1].strip(), c.binaries["main"])
    return c.binaries["main"]


def check(pid, **kw):
    kw.setdefault("level", "exploration")
    CHECKS[pid] = kw


check("P01", run=standard("p01.cpp", 25000, 600000, fuzz={"quick": 250000, "thorough": 20000000}),
      technique="property-based testing and coverage-guided fuzzing against a reference parser; exhaustive short texts",
      rule="cases are valid documents rendered from generated trees, 1-2 edits of them, token soups, bytes, all truncations and single-byte replacements of small documents, plus exhaustive short texts over grammar alphabets; "
           "non-trivial: an opening bracket comes first after blanks and at least two more bytes follow (or the text belongs to an exhaustive enumeration); distinct by content",
      note="every text explored is decided by an independent reference parser; grammar alphabets are enumerated exhaustively to a bound, larger texts are sampled",
      assumptions=["the reference parser in lib/model.hpp states the grammar of the property", "a NUL byte in a blank position ends the text; bytes >= 0x80 in strings are not validated"])
check("P02", run=standard("p02.cpp", 25000, 600000, fuzz={"quick": 60000, "thorough": 8000000}),
      technique="property-based testing: generated trees rendered to text in every spelling, compared with the tree; exhaustive enumeration of \\u escapes and escape positions",
      rule="cases are generated trees rendered with random member order, whitespace and escape spelling, plus every \\uXXXX unit, surrogate pair boundaries and every escape at every offset of a string; "
           "non-trivial: the parsed tree holds a string, number or key (the text belongs to a directed enumeration or has at least 3 nodes); distinct by text",
      note="what a text says is known by construction (the tree it was rendered from) and checked again by an independent reference parser; escapes are enumerated exhaustively, trees are sampled",
      assumptions=["the reference renderer and parser in lib/model.hpp agree on what a text says"])
check("P03", run=standard("p03.cpp", 40000, 1000000, fuzz={"quick": 200000, "thorough": 15000000}),
      technique="property-based testing: commented renderings of trees and near misses against a reference parser; exhaustive short texts; coverage-guided fuzzing",
      rule="cases are renderings of generated trees with comments and trailing commas, 1-2 edits of them, token soups and exhaustive short texts over a comment alphabet; "
           "non-trivial: the text holds at least one comment or trailing comma, or belongs to an exhaustive enumeration; distinct by text",
      note="every text is decided by an independent reference parser; comment alphabets are enumerated exhaustively to a bound, larger texts are sampled",
      assumptions=["line comments end only at a line feed or the end of the text"])


def p04(c, replay):
    plain = BASE + ["-DPBT_NO_NEW"]
    with cf.ThreadPoolExecutor(4) as ex:
        vg = ex.submit(build, [("p04.cpp", "g++", plain)], ["-g1"], "g++")
        rest = ex.submit(standard("p04.cpp", 2500, 60000, fuzz={"quick": 40000, "thorough": 4000000}), c, replay)
        vg = vg.result()
        rest.result()
    if replay or c.violations:
        return
    # the recorded finding, observed in a process of its own
    r = Runner(build(*harness("p04.cpp")), c.work, 25).run(("custom", "deep", b"0 200000"))
    c.labels["known finding (nesting 200000 deep) still there"] = int(r[0] == "crash")
    # uses of uninitialised memory
    wrap = os.path.join(c.work, "vg")
    with open(wrap, "w") as f:
        f.write("#!/bin/sh\nexec valgrind -q --error-exitcode=99 --exit-on-first-error=yes %s \"$@\"\n" % vg)
    os.chmod(wrap, 0o755)
    c.handle(c.run_workers("valgrind", wrap, 40 if c.tier == "quick" else 1500, args=["--no-directed"], seed=c.seed + 77, guard=300, wall=300 if c.tier == "quick" else 3600))


check("P04", run=p04,
      technique="fuzzing with sanitizers: coverage-guided and structured generators over all entry points with exactly sized buffers (ASan, UBSan, memcheck), CPU-time guard, leak accounting",
      rule="cases are generated documents, near misses, token soups and bytes, their truncations and suffixes, exhaustive short tails at the end of a buffer, megabyte-sized repetitive texts and nestings up to 2000; each is given to every entry point; "
           "non-trivial: at least 4 bytes long, or directed; distinct by text",
      note="sanitizers observe every access, allocation counting every leak, a CPU-time guard every non-termination; inputs are sampled and partly enumerated, not exhausted",
      assumptions=["nesting is bounded (2000 here): parsing and destruction recurse, see the known finding"])


def cpu_has(flag):
    return flag in open("/proc/cpuinfo").read().split("flags", 1)[-1].split("\n", 1)[0].split()


# Configurations of the packed scan: name, flags
def widths():
    w = [("sse2", []), ("sse41", ["-msse4.1"]), ("nopacked", ["-DMEOJSON_DISABLE_PACKED_BYTES"])]
    if cpu_has("avx2"):
        w.append(("avx2", ["-mavx2"]))
    return w


NEON = ["-D__ARM_NEON", "-D__aarch64__", "-DMEOJSON_ENABLE_NEON", "-U__SSE2__", "-flax-vector-conversions", "-I" + os.path.join(VERIF, "lib", "neon")]


def p05(c, replay):
    units = [("p05_cfg.cpp", "g++", BASE + ASAN + f + ["-Djson=json_" + n]) for n, f in widths()]
    # these reach into the internals of the tree: left out when they don't fit
    optional = [("p05_cfg.cpp", "g++", BASE + ASAN + ["-Djson=json_width4", "-DCFG_WIDTH_4"]), ("p05_cfg.cpp", "g++", BASE + ASAN + NEON + ["-Djson=json_neon"])]

    def attempt(u):
        try:
            return build_unit(u)
        except CompileError as e:
            return None
    with cf.ThreadPoolExecutor(8) as ex:
        opt = list(ex.map(attempt, optional))
    for u, o in zip(optional, opt):
        if o:
            units.append(u)
        else:
            c.labels["left out: " + u[2][-1]] = 1
    names = [f[7:] for u in units for f in u[2] if f.startswith("-Djson=")]
    inc = "-DP05_CONFIGS=" + "".join("CONFIG(%s)" % n[5:] for n in names)
    units.append(("p05.cpp", "g++", BASE + ASAN + [inc]))
    binary = build(units, ASAN + ["-g1"])
    c.log("built: " + " ".join(names))
    if replay:
        return do_replay(c, replay, binary)
    c.handle(c.run_workers("pbt", binary, 6000 if c.tier == "quick" else 100000, wall=640 if c.tier == "quick" else 3 * 3600))


check("P05", run=p05,
      technique="differential and model-based property testing: the same text through every container, offset and scanning width in one process; exhaustive placement of special bytes",
      rule="cases are generated documents and near misses, long strings with few special bytes, every special byte at every place of strings of every length around the scanning widths, all pairs of neighbouring bytes; "
           "each goes through 13 kinds of containers in each of up to 6 scanning configurations; non-trivial: the text holds a quotation mark; distinct by text and surroundings",
      note="containers, offsets and widths are compared with each other through a reference parser; special bytes are placed exhaustively around the widths, other texts are sampled",
      assumptions=["the NEON path runs on stand-ins for the intrinsics; the 4 byte path, which no 64 bit build selects, is instantiated directly"])
check("P06", run=standard("p06.cpp", 8000, 250000, fuzz={"quick": 25000, "thorough": 3000000}),
      technique="property-based testing: round trips of generated trees and an independent reference printer; exhaustive bytes and byte pairs",
      rule="cases are generated trees with arbitrary bytes in strings and keys, printed compactly and with indents 0..70 through every printing function and parsed back, plus all bytes, byte pairs and places of bytes in strings; "
           "non-trivial: something is escaped or the tree has more than 3 nodes; distinct by compact text",
      note="output is compared byte for byte with an independent printer and parsed back by both parsers; bytes and pairs of bytes are exhaustive, trees are sampled",
      assumptions=["numbers are finite; the layout of the indented text is that of the reference printer in lib/model.hpp"])


def types_units(main, flags, extra):
    # mostly templates: compiling takes longer than running
    flags = [f for f in flags if f != "-O1"] + ["-O0"]
    return [("types.cpp", "clang++", flags + ["-DPART=%d" % i]) for i in range(8)] + [(main, "clang++", flags + extra)]


DEFAULT_FP = [f for f in BASE if f != "-DMEOJSON_KEEP_FLOATING_PRECISION"]


def two_precisions(units_of, quick, thorough):
    """The same harness in the full-precision and in the default configuration."""
    def run(c, replay):
        with cf.ThreadPoolExecutor(2) as ex:
            cxx = units_of([])[0][1]
            keep = ex.submit(build, units_of(BASE + ASAN), ASAN + ["-g1"], cxx)
            dflt = ex.submit(build, units_of(DEFAULT_FP + ASAN), ASAN + ["-g1"], cxx)
            c.binaries = {"main": keep.result(), "default-precision": dflt.result()}
        c.log("built")
        if replay:
            return do_replay(c, replay, replay_binary(c, replay))
        n = quick if c.tier == "quick" else thorough
        wall = 400 if c.tier == "quick" else 3 * 3600
        c.handle(c.run_workers("pbt", c.binaries["main"], n, wall=wall))
        if not c.violations:
            c.handle(c.run_workers("default", c.binaries["default-precision"], n // 2, seed=c.seed + 7000, wall=wall))
    return run


def p08(c, replay):
    binary = build(types_units("p07.cpp", BASE + ASAN, ["-DP08"]), ASAN + ["-g1"], "clang++")
    if replay:
        return do_replay(c, replay, binary)
    c.handle(c.run_workers("pbt", binary, 60000 if c.tier == "quick" else 1000000, wall=640 if c.tier == "quick" else 3 * 3600))


check("P07", run=two_precisions(lambda f: types_units("p07.cpp", f, []), 20000, 500000),
      technique="property-based testing: round trips of generated values of about 100 C++ types against independently written expectations, in both precision configurations",
      rule="a case is a generated value of one of about 100 types (arithmetic, strings, paths, enums, optionals, pointers, sequences, sets, arrays, tuples, maps, variants, structs and nestings), built as value, array and object from lvalue, const lvalue and rvalue, printed, parsed and converted back; "
           "non-trivial: its JSON is longer than 4 bytes; distinct by type and JSON",
      note="the expected JSON and value of every type are computed by a separate description of the conversions (lib/typed.hpp); values are sampled",
      assumptions=["lib/typed.hpp states the documented shapes; floating values are finite"])
check("P08", run=p08,
      technique="property-based testing: JSON near a type (edited conversions of generated values) against independently written expectations of what fits",
      rule="a case is a JSON tree within 2 edits of the JSON of a generated value of one of about 100 types (10%: any tree), asked is, as, cast, all, find and get with default, as value, array element, member and through paths; every case is non-trivial; distinct by type and tree",
      note="what fits a type and what it denotes is computed by lib/typed.hpp; trees are sampled around the types' boundaries",
      assumptions=["lib/typed.hpp states what fits; casting null to std::optional is a known finding"])
check("P09", run=two_precisions(lambda f: [("p09.cpp", "g++", f)], 15000, 500000),
      technique="property-based testing of number texts and numbers against digit arithmetic and correctly rounded conversion; exhaustive neighbourhoods of powers and exponents; both precision configurations",
      rule="a case is a number text (grammar-generated, edited, or at and next to the exact middle between neighbouring floats or doubles) asked for 9 arithmetic types in 9 ways, or a C++ number converted to JSON and back; directed: integers around all powers of 2 and 10, every binary and decimal exponent; "
           "non-trivial: the text is a number by the grammar; distinct by text (numbers: by type and text)",
      note="integers are decided by digit arithmetic, floats and doubles by std::from_chars, which meojson does not use; boundaries are enumerated, the rest sampled",
      assumptions=["the oracle for long double is strtold of the C library in the C locale", "\"-0\" is an integer of signed types only"])


def p10(c, replay):
    seed = c.seed
    if replay:
        for line in open(replay):
            if line.startswith("binary: seed-"):
                seed = int(line.strip().split("-")[1])
    flags = [f for f in BASE if f != "-O1"] + ["-O0", "-fsanitize=address"]
    gen = os.path.join(VERIF, "tools", "gen_structs.py")

    def attempt(i, seed):
        text = subprocess.run([sys.executable, gen, str(seed), str(i), "8"], stdout=subprocess.PIPE, check=True).stdout
        path = os.path.join(BUILD, "structs-%s.inc" % hashlib.sha256(text).hexdigest()[:20])
        with open(path, "wb") as f:
            f.write(text)
        return ("p10_part.cpp", "clang++", flags + ['-DSTRUCTS="%s"' % path])
    seeds = [seed] if replay or c.tier == "quick" else range(seed, seed + 12)
    for sd in seeds:
        units = [attempt(i, sd) for i in range(8)] + [("p10.cpp", "clang++", flags)]
        c.binaries = {"seed-%d" % sd: build(units, ["-fsanitize=address"], "clang++")}
        binary = c.binaries["seed-%d" % sd]
        c.log("built")
        if replay:
            return do_replay(c, replay, binary)
        c.handle(c.run_workers("pbt-%d" % sd, binary, 6000 if c.tier == "quick" else 60000, seed=sd, wall=400 if c.tier == "quick" else 3600))
        if c.violations:
            return


check("P10", run=p10,
      technique="property-based testing over generated programs: structs of every arity and random declarations are generated, compiled and checked with generated values and JSON near them",
      rule="programs: plain structs with 1 to 64 members, 8 that use all 64 macro arguments, 56 random mixes of optional, renamed, nested and specialised members (drawn from VERIF_SEED); cases: a generated struct written, checked, read back and converted, or JSON within 3 edits of a valid one (members removed, mistyped, recased, added); "
           "every case is non-trivial; distinct by struct and JSON",
      note="expectations come from a separate description of each struct's members; programs and inputs are sampled, the number of members is exhausted",
      assumptions=["an all-optional struct accepts any JSON, which has no members to mistype", "what a failed from_json leaves in the members is not specified"])


def p11(c, replay):
    seed, only = c.seed, None
    if replay:
        for line in open(replay):
            if line.startswith("binary: "):
                only = line.split()[1]
                seed = int(only.rsplit("-", 1)[1])
    flags = [f for f in BASE if f != "-O1"] + ["-O0", "-fsanitize=address"]
    gen = os.path.join(VERIF, "tools", "gen_enums.py")

    def unit(cxx, i, seed, extra):
        text = subprocess.run([sys.executable, gen, str(seed), str(i), "8"] + (["--no-char"] if extra else []), stdout=subprocess.PIPE, check=True).stdout
        path = os.path.join(BUILD, "enums-%s.inc" % hashlib.sha256(text).hexdigest()[:20])
        with open(path, "wb") as f:
            f.write(text)
        return ("p11_part.cpp", cxx, flags + extra + ['-DENUMS="%s"' % path])
    for sd in ([seed] if replay or c.tier == "quick" else range(seed, seed + 25)):
        c.binaries = {}
        for name, cxx, extra in (("gcc", "g++", []), ("clang", "clang++", []), ("number", "g++", ["-DMEOJSON_ENUM_AS_NUMBER"])):
            key = "%s-%d" % (name, sd)
            if only and key != only:
                continue
            units = [unit(cxx, i, sd, extra) for i in range(8)] + [("p11.cpp", cxx, flags + extra)]
            c.binaries[key] = build(units, ["-fsanitize=address"], cxx)
        c.log("built")
        if replay:
            return do_replay(c, replay, c.binaries[only])
        for key, binary in c.binaries.items():
            c.handle(c.run_workers("pbt-" + key, binary, 25000 if c.tier == "quick" else 60000, seed=sd, wall=300 if c.tier == "quick" else 3600))
            if c.violations:
                return


check("P11", run=p11,
      technique="property-based testing over generated programs: enums of random shapes are generated, compiled with gcc and clang and checked exhaustively over their range and with generated texts, numbers and values",
      rule="programs: 96 enums drawn from VERIF_SEED (14 underlying types, default and configured ranges, gaps, aliases, names differing by case, in namespaces, classes and templates), in three builds (gcc, clang, enums as numbers); cases: every value of the range and all names in several spellings, then generated values, texts near names and numbers; "
           "non-trivial: a text or number; distinct by enum and text",
      note="each enum's enumerators are known from the generator; values of the range are exhaustive, texts and numbers sampled",
      assumptions=["of several names of one value only one has to be known; enumerators beyond the configured range may be refused but never mistaken", "the bounds given by MEOJSON_ENUM_RANGE are enumerators themselves"])


check("P12", run=standard("p12.cpp", 20000, 250000),
      technique="stateful model-based testing: random histories of edits through value, array and object against an ordered-map/vector model, compared in full after every step",
      rule="a case is a history of up to 40 operations on a set of values, arrays and objects, each checked for its return value, refusal and the state of every variable; "
           "non-trivial: at least 3 operations changed the state; distinct by the sequence of states",
      note="every step is decided by an independent model (lib/edit.hpp); histories are sampled",
      assumptions=["empty values (null, \"\", [], {}) turn into the container a mutable access asks for, before operands are read", "an initializer list that repeats a name keeps the first"])
check("P13", run=standard("p12.cpp", 20000, 250000, extra=["-DP13"]),
      technique="stateful model-based testing: histories heavy in copies, moves, swaps and aliased operands (self, own part, parent) against a model with value semantics, under ASan",
      rule="a case is a history of up to 40 operations, most of them copying, moving or taking an operand from the same tree; non-trivial: at least 3 operations and one aliased or moved operand; distinct by the sequence of states",
      note="value semantics are those of the model in lib/edit.hpp, compared over all variables after every step; histories are sampled",
      assumptions=["a moved-from value is usable but its content is not specified", "self-append and self-merge from an rvalue of the same object are excluded"])
check("P14", run=standard("p14.cpp", 8000, 100000),
      technique="property-based testing: every lookup function for every key, position and path of generated trees, compared with a model and with each other; const and non-const; state compared before and after",
      rule="a case is a generated tree (value, array and object) asked for present, absent, out-of-range and mistyped targets through all lookup functions and paths of 1 to 4 keys; every tree with a container is non-trivial; distinct by tree",
      note="the answer is computed on the model tree; trees and targets are sampled",
      assumptions=["value::operator[](position) beyond the end has no specified result", "mutable access to empty values converts them and is part of P12"])
check("P15", run=standard("p15.cpp", 15000, 250000),
      technique="property-based testing: pairs and triples of trees one edit apart, built in different ways, against structural comparison of the models; all pairs of 105 small values",
      rule="a case is a pair or triple of trees (equal but built differently, or an edit apart) compared in all ways, as values, arrays and objects; distinct by their texts",
      note="equality is decided on the model trees; all pairs of small values are exhaustive, larger trees are sampled",
      assumptions=["numbers are equal when their texts are"])
check("P16", run=standard("p16.cpp", 12000, 150000),
      technique="fault injection under generated inputs: every allocation of an operation fails in turn; live allocations, operands and results are compared with those before and with the undisturbed run (ASan, UBSan)",
      rule="a case is one operation (parse, print, copy, convert, edit, refused operation) on generated data, repeated with its 1st, 2nd, ... allocation failing until none is left; non-trivial: at least one allocation failed; distinct by operation and data",
      note="the allocations of each operation are exhausted (up to a bound for long ones), data are sampled",
      assumptions=["operator<< may set badbit instead of throwing", "the values being built or edited may keep any valid content, except the target of a copy assignment"])
check("P17", run=standard("p17.cpp", 40000, 300000),
      technique="property-based testing with injected faults: contents through file, memory and custom streams (in pieces, failing, unseekable) and files of all kinds against the reference parser",
      rule="a case is a content (document, near miss, with or without byte order mark, whole or cut) given through a kind of stream with a history of reads and seeks, or through a file; distinct by content and way",
      note="the outcome is that of the content by the reference parser; contents, histories and faults are sampled",
      assumptions=["streams with exceptions() enabled are not covered", "a stream that delivers less than it announced is judged by what it delivers"])


KEEP, PATHS = "-DMEOJSON_KEEP_FLOATING_PRECISION", "-DMEOJSON_FS_PATH_EXTENSION"
FULL = [KEEP, PATHS]
# name, compiler, flags, two translation units, may be left out
CONFIGS = [
    ("gcc17-O0", "g++", ["-std=c++17", "-O0"] + FULL, True, False),
    ("gcc17-O2-sse41", "g++", ["-std=c++17", "-O2", "-msse4.1"] + FULL, False, False),
    ("gcc20-O2", "g++", ["-std=c++20", "-O2"] + FULL, False, False),
    ("gcc17-O3-avx2", "g++", ["-std=c++17", "-O3", "-mavx2"] + FULL, False, False),
    ("clang17-O0-sse41", "clang++", ["-std=c++17", "-O0", "-msse4.1"] + FULL, True, False),
    ("clang20-O2", "clang++", ["-std=c++20", "-O2"] + FULL, False, False),
    ("clang17-O3-avx2", "clang++", ["-std=c++17", "-O3", "-mavx2"] + FULL, False, False),
    ("gcc17-O1-nopacked", "g++", ["-std=c++17", "-O1", "-DMEOJSON_DISABLE_PACKED_BYTES"] + FULL, False, False),
    ("clang20-O1-nopacked-uchar", "clang++", ["-std=c++20", "-O1", "-funsigned-char", "-DMEOJSON_DISABLE_PACKED_BYTES"] + FULL, False, False),
    ("gcc17-O1-uchar-neon", "g++", ["-std=c++17", "-O1", "-funsigned-char"] + FULL, False, True),
    ("gcc17-O2-default", "g++", ["-std=c++17", "-O2", PATHS], False, False),
    ("clang20-O1-default-no-paths", "clang++", ["-std=c++20", "-O1"], False, False),
    ("gcc20-O1-enum-number", "g++", ["-std=c++20", "-O1", "-DMEOJSON_ENUM_AS_NUMBER"] + FULL, False, False),
    ("clang17-O1-enum-number", "clang++", ["-std=c++17", "-O1", "-DMEOJSON_ENUM_AS_NUMBER"] + FULL, False, False),
    ("gcc17-O1-uchar", "g++", ["-std=c++17", "-O1", "-funsigned-char"] + FULL, False, False),
    ("gcc17-Os-default-enum-number", "g++", ["-std=gnu++17", "-Os", "-DMEOJSON_ENUM_AS_NUMBER", PATHS], False, False),
]
SECTIONS = ["everything else", "printed floating numbers", "printed enums", "paths"]


def section_class(flags, section):
    """Configurations of one class have to agree on a section; None: not compared."""
    if section == 1:
        return KEEP in flags
    if section == 2:
        return "-DMEOJSON_ENUM_AS_NUMBER" in flags
    if section == 3:
        return True if PATHS in flags else None
    return True


class PairRunner:
    """Compares the transcripts of two configurations on one record."""
    def __init__(self, work, a, b, section):
        self.work, self.a, self.b, self.section, self.n = work, a, b, section, 0

    def show(self, binary, case):
        self.n += 1
        path = os.path.join(self.work, "rec%d" % self.n)
        with open(path, "wb") as f:
            f.write(len(case[2]).to_bytes(4, "little") + case[2])
        try:
            r = subprocess.run([binary, path, "-"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        except subprocess.TimeoutExpired:
            return -999, [b""] * 4
        finally:
            os.unlink(path)
        return r.returncode, (r.stdout.split(b"=== end of section ===\n") + [b""] * 4)[:4] if r.returncode == 0 else [r.stdout[-3000:]] * 4

    def run(self, case, quiet=True):
        ra, ta = self.show(self.a, case)
        rb, tb = self.show(self.b, case)
        x, y = ta[self.section].splitlines(), tb[self.section].splitlines()
        if ra == 0 and rb == 0 and x == y:
            return "ok", "the configurations agree"
        out = ["exit codes %d and %d" % (ra, rb)]
        for i in range(max(len(x), len(y))):
            p, q = x[i] if i < len(x) else b"(nothing)", y[i] if i < len(y) else b"(nothing)"
            if p != q:
                out += ["line %d" % i, "  " + p[:600].decode("latin-1"), "  " + q[:600].decode("latin-1")]
            if len(out) > 12:
                break
        return "fail", "\n".join(out)


def p19(c, replay):
    from driver import shrink
    wanted = None
    if replay:
        for line in open(replay):
            if line.startswith("configurations: "):
                wanted = line.split()[1:4]

    def make(cfg):
        name, cxx, flags, two, optional = cfg
        if "neon" in name:
            flags = flags + NEON
        try:
            units = [("p19_cfg.cpp", cxx, flags + (["-DTWO_UNITS"] if two else []))]
            if two:
                units.append(("p19_cfg.cpp", cxx, flags + ["-DOTHER_UNIT"]))
            return build(units, [], cxx)
        except CompileError as e:
            if optional:
                c.labels["left out: " + name] = 1
                return None
            raise CompileError("configuration %s does not build\n%s" % (name, e))
    cfgs = [g for g in CONFIGS if not wanted or g[0] in wanted]
    with cf.ThreadPoolExecutor(8) as ex:
        gen = ex.submit(build, *harness("p19.cpp"))
        bins = dict(zip([g[0] for g in cfgs], ex.map(make, cfgs)))
        gen = gen.result()
    c.log("built " + " ".join(n for n in bins if bins[n]))
    if wanted:
        r = PairRunner(c.work, bins[wanted[0]], bins[wanted[1]], int(wanted[2])).run(parse_case(replay))
        print(r[1])
        c.evaluations = 1
        if r[0] != "ok":
            c.violation(replay)
        return
    if replay:
        return do_replay(c, replay, gen)
    recs = os.path.join(c.work, "records")
    c.handle(c.run_workers("gen", gen, 1500 if c.tier == "quick" else 40000, env={"P19_RECORDS": recs}))
    cfgs = [g for g in cfgs if bins[g[0]]]

    def one(job):
        g, w = job
        out = os.path.join(c.work, "out-%s-%d" % (g[0], w))
        try:
            r = subprocess.run([bins[g[0]], recs + "-%d" % w, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=500 if c.tier == "quick" else 7200)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        with open(out, "rb") as f:
            d = f.read()
        return g[0], w, rc, [d[i:i + 32] for i in range(0, len(d) - 31, 32)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = {(n, w): (rc, d) for n, w, rc, d in ex.map(one, [(g, w) for w in range(8) for g in cfgs])}
    c.extra["configurations"] = [g[0] for g in cfgs]
    c.log("ran %d configurations" % len(cfgs))
    found = []
    for w in range(8):
        records, data = [], open(recs + "-%d" % w, "rb").read()
        i = 0
        while i < len(data):
            n = int.from_bytes(data[i:i + 4], "little")
            records.append(data[i + 4:i + 4 + n])
            i += 4 + n
        c.labels["records"] = c.labels.get("records", 0) + len(records)
        c.labels["executions of the battery"] = c.labels.get("executions of the battery", 0) + sum(len(res[g[0], w][1]) for g in cfgs)
        for section in range(4):
            first = {}
            for g in cfgs:
                k = section_class(g[2], section)
                if k is None:
                    continue
                ref = first.setdefault(k, g)
                a, b = res[ref[0], w][1], res[g[0], w][1]
                for j, rec in enumerate(records):
                    if j >= len(b) or (j < len(a) and a[j][8 * section:8 * section + 8] != b[j][8 * section:8 * section + 8]):
                        found.append((len(rec), rec, ref, g, section))
                        break
    if not found:
        return
    found.sort(key=lambda f: f[0])
    for n, rec, ref, g, section in found[:5]:
        runner = PairRunner(c.work, bins[ref[0]], bins[g[0]], section)
        case = ("custom", "text", rec)
        if any(runner.run(case)[0] == "ok" for _ in range(3)):
            c.labels["unrepeatable failures"] = c.labels.get("unrepeatable failures", 0) + 1
            continue
        case = shrink(runner, case, "fail", 60)
        out = runner.run(case)[1]
        c.violation_text("# %s differ between %s and %s\nconfigurations: %s %s %d\n%s%s" % (SECTIONS[section], ref[0], g[0], ref[0], g[0], section, "custom: record %s\n" % case[2].hex(), "\n".join("# " + l for l in out.splitlines())))
        return


check("P19", run=p19,
      technique="differential property-based testing across builds: generated inputs go through one battery of operations compiled in 16 configurations, transcripts are compared",
      rule="a case is a generated text and number on which the battery (parse, read, convert, build, edit, print for values, containers, enums, structs, paths) runs in every configuration; non-trivial: the text is JSON and longer than 4 bytes; distinct by text and number",
      note="16 build configurations (compiler, standard, optimisation, packed width, signedness of char, macros, two translation units) are compared section by section; inputs are sampled",
      assumptions=["the NEON configuration runs on stand-ins for the intrinsics; 32 bit targets and MSVC are not available", "the words of exception messages are not compared"])


LOCALES = [("de_DE", "UTF-8"), ("fr_FR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("fa_IR", "UTF-8"), ("de_DE", "ISO-8859-1"), ("hi_IN", "UTF-8"), ("ja_JP", "EUC-JP"), ("az_AZ", "UTF-8")]


def p20(c, replay):
    with cf.ThreadPoolExecutor(9) as ex:
        fast = [f for f in BASE if f not in ("-O1", "-DMEOJSON_KEEP_FLOATING_PRECISION")] + ["-O2"]
        keep = ex.submit(build, [("p20.cpp", "g++", fast + [KEEP])], [])
        dflt = ex.submit(build, [("p20.cpp", "g++", fast)], [])
        path = os.path.join(c.work, "locales")
        os.makedirs(path)

        def make(l):
            name = "%s.%s" % l
            subprocess.run(["localedef", "-i", l[0], "-f", l[1], os.path.join(path, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return name if os.path.isdir(os.path.join(path, name)) else None
        names = [n for n in ex.map(make, LOCALES) if n]
        c.binaries = {"main": keep.result(), "default-precision": dflt.result()}
    c.extra["locales"] = names
    if not names:
        c.labels["localedef makes no locales here: only C++ locales are used"] = 1
    env = {"LOCPATH": path, "P20_LOCALES": " ".join(names)}
    c.log("built, locales: " + " ".join(names))
    if replay:
        r = Runner(replay_binary(c, replay), c.work, 25, env).run(parse_case(replay), quiet=False)
        print(r[1])
        c.evaluations = 1
        if r[0] != "ok":
            c.violation(replay)
        return
    n = 700 if c.tier == "quick" else 30000
    c.handle(c.run_workers("pbt", c.binaries["main"], n, env=env, wall=400 if c.tier == "quick" else 3 * 3600))
    if not c.violations:
        c.handle(c.run_workers("default", c.binaries["default-precision"], n // 2, env=env, seed=c.seed + 7000, wall=400 if c.tier == "quick" else 3 * 3600))


check("P20", run=p20,
      technique="metamorphic property-based testing: a battery of operations on generated inputs is run in the classic locale and in generated settings of C, thread and C++ locales; transcripts must be equal",
      rule="a case is an input of the battery and one of the locale settings (8 system locales as C, partial, thread and C++ global locale, C++ locales with hostile punctuation and character classes, streams imbued with them), plus every byte in the places of blanks, digits and names in all settings; "
           "non-trivial: the text is JSON; distinct by input and setting",
      note="the oracle is the same run in the classic locale; settings are enumerated, inputs sampled",
      assumptions=["locales are compiled with localedef into a scratch folder; where that does not work only C++ locales are used"])


def p18(c, replay):
    tsan = ["-fsanitize=thread"]
    binary = build([("p18.cpp", "g++", BASE + tsan + ["-DPBT_NO_NEW"])], tsan + ["-g1", "-pthread"])
    c.log("built")
    if replay:
        return do_replay(c, replay, binary)
    c.handle(c.run_workers("pbt", binary, 700 if c.tier == "quick" else 40000, wall=400 if c.tier == "quick" else 3 * 3600, guard=120))


check("P18", run=p18, flaky_ok=True,
      technique="property-based testing of concurrent plans under ThreadSanitizer: generated threads read shared values and use their own, each case in a fresh process; results are compared with the same operations run alone",
      rule="a case is 1 to 3 generated values and 2 to 5 threads with 1 to 4 operations each (of 14 kinds: const use of shared values, arrays, objects and C++ data; parsing, building, editing and converting values of their own, also ones handed over); every case is non-trivial; distinct by plan and inputs",
      note="races are decided by ThreadSanitizer's happens-before analysis of the observed schedule, results by the same operations run alone; plans and schedules are sampled",
      assumptions=["values handed to a thread are not used by another at the same time"])


check("P21", run=standard("p21.cpp", 500, 40000),
      technique="metamorphic property-based testing of allocation: generated documents at two scales, allocator calls and bytes per unit of size must not grow; identity of strings and elements across moves",
      rule="a case is a repeating pattern (10 shapes: wide, deep, mixed, long strings and keys, escapes, blanks; random keys, texts and numbers) made at n and 6n units, with 35 operations measured at both scales, and 3 values moved in about 25 ways; every case is non-trivial; distinct by pattern and n",
      note="allocations are counted exactly; the bound is relative between the scales (factor 2.2 plus slack for growing buffers) and absolute (25 bytes and 0.3 calls per byte of text and weight); moves are decided by the addresses of strings and elements",
      assumptions=["the size is the text plus 32 bytes per node and 64 per member"])


def p23_units(flags):
    flags = [f for f in flags if f != "-O1"] + ["-O0"]
    return [("p23.cpp", "clang++", flags + ["-DPART=%d" % i]) for i in range(10)]


def p23(c, replay):
    binary = build(p23_units(BASE + ASAN), ASAN + ["-g1"], "clang++")
    c.log("built")
    if replay:
        return do_replay(c, replay, binary)
    c.handle(c.run_workers("pbt", binary, 40000 if c.tier == "quick" else 1000000, wall=500 if c.tier == "quick" else 3 * 3600))


check("P23", run=p23,
      technique="property-based testing with user-defined conversions that record their calls, differ from the built-in ones and fail on demand, at generated positions of generated data",
      rule="a case is a type with conversions of its own (members or a specialisation, with or without moving hooks; 25 kinds of types) at one of up to 14 positions, a value of it, and a round trip, a conversion from near-miss JSON, or a count of the calls with failures injected into one of them; "
           "non-trivial: by content and type",
      note="what the conversions say is known by construction and every call is counted; types and positions are a fixed family, data, near misses and failing calls are sampled",
      assumptions=["check_json, from_json and to_json of a type fit together", "fundamental types cannot have conversions of their own"])


check("P22", run=standard("p22.cpp", 3000, 250000),
      technique="property-based testing of values that come about in generated ways (26 kinds of steps, nested) against the model: every question about the type, every access that fits or doesn't, and what the refusals say",
      rule="a case is a value (all types and empty ones more often, or a tree), a way by which it comes about (built, parsed, raw, copied, moved, swapped, an element, found, merged, cleared, after refused operations ...), and about 70 questions and accesses on it, its copies and what it was moved from; every case is non-trivial; distinct by value and way",
      note="the answers follow from the model; of the text of an error only the type found, the number's text or the size is required; ways and values are sampled, invalid values and long texts are enumerated",
      assumptions=["raw construction gets data that fits its type", "what a moved-from value holds is not specified, except that it must be consistent"])


check("P24", run=standard("p24.cpp", 2500, 120000, cxx="clang++", san=["-fsanitize-coverage=trace-pc-guard,no-prune"]),
      technique="metamorphic property-based testing of work: every control-flow edge and every byte handled by the C library is counted, and the count per unit of size must not grow between two scales of generated documents, repeating texts, step-by-step histories and nested types",
      rule="a case is one of: a repeating pattern (10 shapes) made at n and 8n units with 35 operations measured; 4 texts that repeat a random piece of grammar or garbage n and 8n times (with prefix, suffix and as many closing pieces), parsed in 5 ways; 30 ways to build, read and take apart containers step by step at n and 8n steps; 40 operations that take the same at any size; 8 kinds of types nested 4 and 10 deep with 6 conversions each; "
           "non-trivial: all, except repeating texts that are refused at once; distinct by content and n",
      note="work is counted exactly and does not depend on the machine; the bound is relative: at most twice the growth of the size, and 80 steps for what happens once",
      assumptions=["looking up a member may take the logarithm of their number", "a described struct may look at all that is below once per level of nesting"])
check("P25", run=standard("p25.cpp", 20000, 700000),
      technique="property-based testing of generated programs of standard algorithms, written once as templates and run on the library's types and on std::vector / std::map of the model; allocations counted while containers grow",
      rule="a case is a program of 1 to 30 steps over a json::array, an array inside a value and a std::vector of values (48 kinds of steps), or over a json::object and one inside a value (18 kinds), or of values held by other standard containers (19 kinds), with data from a small pool so that equal elements meet; "
           "non-trivial: programs of at least two steps, and all of the third kind; distinct by program and data",
      note="the model runs the same template, so every position, result and order is compared after each step; programs and data are sampled",
      assumptions=["what a moved-from element holds is not specified", "json::array and json::object offer erase of one element only"])
