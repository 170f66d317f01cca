"""What is checked per property: harness files, configurations, bounds."""

import re

UB = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS"
NOBIT = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS"
NOMEM = "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER"

CONFIGS = {
    "a20": dict(std="c++20", flags=[], native="clang-O1", text="C++20, x64, assertions on"),
    "n17": dict(std="c++17", flags=["-DNDEBUG"], native="gcc-O2", text="C++17, x64, assertions off"),
    "n20": dict(std="c++20", flags=["-DNDEBUG"], native="gcc-O2", text="C++20, x64, assertions off"),
    "a17": dict(std="c++17", flags=[], native="gcc-O2", text="C++17, x64, assertions on"),
    "u20": dict(std="c++20", flags=["-DNDEBUG", UB], native="gcc-O2", text="C++20, x64, assertions off, UB tricks disabled"),
    "u17": dict(std="c++17", flags=[UB], native="clang-O1", text="C++17, x64, assertions on, UB tricks disabled"),
    "b20": dict(std="c++20", flags=[NOBIT], native="clang-O1", text="C++20, x64, only the unused-bits trick disabled"),
    "m17": dict(std="c++17", flags=[NOMEM], native="gcc-O2", text="C++17, x64, only the member trick disabled"),
    "x17": dict(std="c++17", flags=["-m32", "-msse2", "-mfpmath=sse"], native="clang-O1", text="C++17, x86 (32 bit, SSE2 math), assertions on"),
    "x20": dict(std="c++20", flags=["-m32", "-msse2", "-mfpmath=sse", "-DNDEBUG"], native="clang-O1", text="C++20, x86 (32 bit, SSE2 math), assertions off"),
    "g20": dict(std="c++20", flags=["-DNDEBUG", "-DVP_GCC_PERSONA"], native="gcc-O2", persona=True,
                text="C++20, x64, assertions off, the library's gcc code paths"),
    "g17": dict(std="c++17", flags=["-DVP_GCC_PERSONA"], native="gcc-O0", persona=True,
                text="C++17, x64, assertions on, the library's gcc code paths"),
    "bu17": dict(std="c++17", flags=["-DNDEBUG", NOBIT, NOMEM], native="gcc-O2", text="C++17, x64, unused-bits and member tricks disabled individually"),
    "mx20": dict(std="c++20", flags=["-m32", "-msse2", "-mfpmath=sse", UB], native="clang-O1", text="C++20, x86, UB tricks disabled"),
    "d23": dict(std="c++2b", flags=[], native="gcc-O2", text="C++23, x64, assertions on"),
    "f20": dict(std="c++20", flags=["-DNDEBUG", "-ffast-math"], native="gcc-O2", text="C++20, x64, assertions off, -ffast-math"),
    # one program of four translation units, each with its own setting of the macros
    "l20": dict(std="c++20", flags=[], native="clang-O0", linked=True,
                units=[["-DVP_UNIT=0"], ["-DVP_UNIT=1", UB], ["-DVP_UNIT=2", NOBIT], ["-DVP_UNIT=3", NOMEM]],
                text="C++20, x64, four linked units: default, UB tricks disabled, unused-bits trick disabled, member trick disabled"),
    "l17": dict(std="c++17", flags=["-DNDEBUG"], native="gcc-O0", linked=True,
                units=[["-DVP_UNIT=3", NOMEM], ["-DVP_UNIT=2", NOBIT], ["-DVP_UNIT=1", UB], ["-DVP_UNIT=0"]],
                text="C++17, x64, assertions off, the same four units linked in reverse order"),
    "lx17": dict(std="c++17", flags=["-m32", "-msse2", "-mfpmath=sse"], native="clang-O0", linked=True,
                 units=[["-DVP_UNIT=1", UB], ["-DVP_UNIT=0"], ["-DVP_UNIT=3", NOMEM], ["-DVP_UNIT=2", NOBIT]],
                 text="C++17, x86, the same four units linked in another order"),
}

STD = ["a20", "n17", "u20", "x17", "g20"]
ALL = [c for c in CONFIGS if not CONFIGS[c].get("linked")]


def jobs(tus, quick=STD, thorough=None, o2=("n20", "a17"), extra=(), deep=()):
    """extra: (tu, quick configurations); deep: (tu, configurations) run only in the thorough tier."""
    thorough = thorough or [c for c in ALL if c != "f20"]

    def f(tier):
        r = [(t, quick, "O0") for t in tus] + [(t, c, "O0") for t, c in extra]
        if tier == "thorough":
            r += [(t, thorough, "O0") for t in tus] + [(t, thorough, "O0") for t, c in extra]
            r += [(t, c, "O0") for t, c in deep]
            r += [(t, list(o2), "O2") for t in tus]
        return r
    return f


PROPS = {
    "C01": dict(
        jobs=jobs(["c01"], quick=STD + ["f20"]),
        bounds="all payload bit patterns (bool: the two valid ones), 22 storing and 12 emptying operation sequences, arbitrary stale memory",
        outside="payload types other than the 14 instantiated ones",
        assumptions=["the value stored is not the one documented reserved pattern"]),
    "C02": dict(
        jobs=jobs(["c02"], extra=[("c02s", ["a20", "x17"])]),
        bounds="all payload values, 22 storing and 12 emptying operation sequences, arbitrary stale memory, 40+ payload/sentinel combinations; every integer, character and enumeration type by underlying type with each of the three ways to give a sentinel; const payloads",
        outside="payload/sentinel combinations other than the instantiated ones",
        assumptions=["the value stored is not the sentinel"]),
    "C03": dict(
        jobs=jobs(["c03"]),
        bounds="all payload values of all integer types with an automatic sentinel and of 14 payloads with an explicit one, unused-bit and registered payloads; 22 storing and 12 emptying operation sequences",
        outside="", assumptions=["the value stored is not the sentinel"]),
    "C04": dict(
        jobs=jobs(["c04"], extra=[("c04s", ["a20", "x17"])]),
        bounds="all values of all payload members, 22 storing and 12 emptying operation sequences, 45 payload/member/sentinel combinations (every integer and character kind of member, const and volatile members, members of polymorphic and non-trivial classes, a member 300 bytes into the payload)",
        outside="payload classes other than the instantiated ones", assumptions=["the flag member of a stored payload does not have the reserved value"]),
    "C05": dict(
        jobs=jobs(["c05"], extra=[("c05h", ["a20", "n17"]), ("c05p", ["a20", "n17"])]),
        bounds="tracked payloads with arbitrary values and arbitrary leftovers in dead memory; every operation from every state combination, 2-operation sequences, every single exception point, sources that alias the payload; flag objects tracked by address; 14 to 28 further payload classes with unusual traits (nothrow/throwing mixes, own swap, trivially destructible or copyable but throwing, empty, aligned, virtual, hostile operators &, new and comma)",
        outside="longer operation sequences, two exceptions in one operation", assumptions=["stored values differ from the flag's empty pattern"]),
    "C06": dict(
        jobs=jobs(["c06"], extra=[("c06h", ["n20", "x17"]), ("c06p", ["a20", "n17"])]),
        bounds="tracked payloads with arbitrary values and arbitrary leftovers in dead memory; 34 operations from every state combination, sources that alias the payload, 2-operation sequences; 14 to 28 further payload classes with unusual traits (nothrow/throwing mixes, own swap, trivially destructible or copyable but throwing, empty, aligned, virtual, hostile operators &, new and comma)",
        outside="longer operation sequences", assumptions=["stored values differ from the reserved one"]),
    "C07": dict(
        jobs=jobs(["c07"], extra=[("c07p", ["a20", "n17"])]),
        bounds="tracked payloads with arbitrary values and arbitrary leftovers in dead memory; 34 operations from every state combination, sources that alias the payload, an exception at every possible point (up to 3 per operation); 14 to 28 further payload classes with unusual traits (nothrow/throwing mixes, own swap, trivially destructible or copyable but throwing, empty, aligned, virtual, hostile operators &, new and comma); monadic and converting operations with throwing callables",
        outside="two exceptions in one operation", assumptions=["stored values differ from the reserved one"]),
    "C08": dict(
        jobs=jobs(["c08"], deep=[("c08t", ["a20", "n17", "u20"])]),
        bounds="one operation (of 22) from every state combination, 2-operation histories (thorough: 3), all values, 13 flavours; nested optionals with 2-operation histories; converting and greedy payloads",
        outside="longer histories, payload types other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C09": dict(
        jobs=jobs(["c09"], quick=["a20", "n17", "u20", "x17", "g20", "g17"]),
        bounds="all state combinations and values (all bit patterns for arithmetic payloads), payload operators with arbitrary independent answers or exceptions; 38 operand pairings of class payloads, 20 of three-way comparable ones, 38 of plain payloads, nested optionals, every operator of an optional with itself",
        outside="operand type pairs other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C10": dict(
        jobs=jobs(["c10"]),
        bounds="all values, all states, 4 value categories of the optional x 4 of the callable; 9 source flavours, results int/tracked/move-only/immovable/compressed, callables by reference, by value, member pointers, returning references",
        outside="payload and callable types other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C11": dict(
        jobs=jobs(["c11"]),
        bounds="all values, all states, every accessor in 4 value categories, writes through 6 kinds of reference, value_or in 16 category combinations and with converting arguments; 13 plain and 7 tracked flavours",
        outside="payload types other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C12": dict(
        jobs=jobs(["c12"], extra=[("c12p", ["a20", "n17"])]),
        bounds="tracked payloads with arbitrary values and arbitrary leftovers in dead memory; all state combinations, member/free/self swap, two swaps in sequence, an exception at every point; 14 to 28 further payload classes with unusual traits (nothrow/throwing mixes, own swap, trivially destructible or copyable but throwing, empty, aligned, virtual, hostile operators &, new and comma); 20 kinds of plain payloads with all bit patterns",
        outside="", assumptions=["stored values differ from the reserved one"]),
    "C13": dict(
        jobs=jobs(["c13"], extra=[("c13p", ["a20", "n17"])]),
        bounds="tracked payloads with arbitrary values and arbitrary leftovers in dead memory; all state combinations of copy/move construction and assignment and of value operations, 2-operation sequences, sources that alias the payload; 14 to 28 further payload classes with unusual traits (nothrow/throwing mixes, own swap, trivially destructible or copyable but throwing, empty, aligned, virtual, hostile operators &, new and comma); 20 kinds of plain payloads with all bit patterns",
        outside="longer operation sequences", assumptions=["stored values differ from the reserved one"]),
    "C14": dict(
        jobs=jobs(["c14"]),
        bounds="all values of both optionals, 7 histories each, arbitrary stale memory, 17 flavours; libstdc++'s byte hash is an uninterpreted function of the bytes",
        outside="payload types other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C15": dict(
        jobs=jobs(["c15"]),
        bounds="one of 12 operations from every state combination with arbitrary values in two independent arbitrary memories; array and class neighbours; 15 flavours; sizes of 50 flavours",
        outside="longer histories (see C08), payload types other than the instantiated ones", assumptions=["stored values differ from the reserved one"]),
    "C16": dict(
        jobs=jobs(["c16"], quick=["u20", "u17", "b20", "m17"], thorough=["u20", "u17", "b20", "m17", "a20", "bu17", "mx20"], o2=("u20", "m17")),
        bounds="all payload bit patterns (including those reserved in the default configuration), 22 storing and 12 emptying sequences, 14 interface operations from all state combinations, 18 flavours, with each of the three macros",
        outside="macros combined with compilers other than clang/gcc", assumptions=["a value that is reserved in the configuration at hand is not stored"]),
    "C17": dict(
        jobs=jobs(["c17"], quick=["a20", "n17", "x17", "g20"]), literals=True,
        internals=lambda hdr: [["-DVP_RANGE_FN=" + n] for n in dict.fromkeys(
            re.findall(r"(\w+)<\s*FlagTypeNoCV\s*>\s*\(\s*SentinelValue::value", hdr))] + [["-DVP_NO_RANGE_FN"]],
        bounds="all values of every ordered pair of the 15 (C++20: 16) standard integer, character and bool types, x64 and x86; 15 sentinels of another type",
        outside="extended integer types (__int128)", assumptions=[]),
    "C18": dict(
        jobs=jobs(["c18"], quick=["a20", "n17", "u17", "x17", "g17", "g20"]),
        bounds="all values including the reserved one, 12 storing operations from both states, 6 dereferences from three states, 13 flavours, with and without assertions",
        outside="writes of the reserved value through a reference (not detectable by design)", assumptions=["an assertion failure ends the program"]),
    "C19": dict(
        jobs=jobs(["c19"]),
        bounds="all source values of 34 numeric conversions through 16 construction/assignment routes; argument lists of 0..3 arguments in 5 category patterns, initializer lists, explicit and implicit constructors, conversion functions in 4 categories, parenthesised against braced construction, aggregates from braced lists; 5 storage strategies",
        outside="argument lists and payload types other than the instantiated ones; NaN sources and out-of-range floating sources of numeric conversions", assumptions=["the converted value is not the reserved one", "the conversion itself is defined in C++"]),
    "C22": dict(
        jobs=jobs(["c22"]),
        bounds="all values, all three states of each operand, 12 groups of const operations plus <=>; 15 mutable-payload and 3 const-payload flavours; operands live in memory in which every write is a failure",
        outside="payload types other than the instantiated ones; payloads whose own const operations write",
        assumptions=["readers that write no shared byte cannot race (the schedules reduce to this)", "stored values differ from the reserved one"]),
    "C23": dict(
        jobs=lambda tier: [("c23", ["l20", "l17"] + (["lx17"] if tier == "thorough" else []), "O0")],
        bounds="programs of four linked units (default, unused-bits trick disabled, member trick disabled, both disabled) in different link orders; 15 flavours and 10 operations per unit, all values",
        outside="units that differ in version of the library, compiler or language standard",
        assumptions=["the IR linker resolves inline functions as a native linker does (first definition wins); counterexamples are replayed in natively linked programs", "stored values differ from the reserved ones"]),
}

NOT_APPLICABLE = {
    "C20": "Purely type-level (traits, noexcept, overload participation): decided by the compiler's type checker for each type, there is no run-time value, schedule or history for a solver to quantify over; quantifying over all payload types is not expressible in this technique.",
    "C21": "The visualizer is an XML file evaluated by Visual Studio's closed debugger expression evaluator on MSVC object layouts; neither the evaluator nor an MSVC build can be encoded here.",
}
