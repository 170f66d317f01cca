#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
H = "include/tiny/optional.h"
F = "include/tiny/optional_flag_manipulator_fwd.h"
P = []
def where(f, s):
    """First definition-looking line that mentions the symbol (informational)."""
    try:
        for i, l in enumerate(open(os.path.join("/repo", f)), 1):
            if s in l and not l.strip().startswith(("//", "*")):
                return "%s:%d" % (f, i)
    except OSError:
        pass
    return f
def p(id, title, statement, over, qtext, why, files, syms):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=s, where=where(files[0], s)) for s in syms])))

p("C01", "Optionals of bool, float, double and pointers lose no values",
  "A tiny::optional<bool/float/double/T*/function pointer> (also cv-qualified payloads) that has the size of its payload stores every ordinary payload value and gives back exactly the same bits: true and false, every float/double including +-0, infinities, subnormals and the NaNs the hardware or the standard library produce, nullptr, every canonical/usable address and the small pseudo-handle values near the top of the address range. It reports 'empty' for none of them and 'empty' exactly when it was emptied. Only one single bit pattern per type is reserved (bool 0xfe, double 0x7ff8fedcba987654, float 0x7fedcba9, pointers 0xffff800000000000-1 on x64 and 0xffffffff-8 on x86 (there with SSE math, as x87 registers cannot carry signalling NaNs)).",
  ["inputs", "histories", "configurations"],
  "every bit pattern of the payload (2^8/2^32/2^64), every way to store it (construct, assign, emplace, in_place, copy, move, swap, make_optional), x64 and x86",
  "Tests store a few dozen hand-picked floats, doubles and pointers; a sentinel, comparison or masking error that swallows some other NaN payload, address or -0.0 is one pattern in 2^64.",
  [H], ["SentinelForExploitingUnusedBits", "MemcpyAndCmpFlagManipulator", "optional_flag_manipulator", "InplaceStoredTypeDecomposition"])

p("C02", "With a user sentinel, exactly the sentinel value means empty",
  "For tiny::optional<T, sentinel>, tiny::optional_sentinel_via_type<T, S> and payloads handled by sentinel_flag_manipulator, for integers, enums, chars, bool-like and class-type sentinels: every payload value other than the sentinel is stored and returned unchanged and reports has_value(), the empty state reports !has_value() (equivalently: the stored payload equals the sentinel), and sizeof equals sizeof(T). The sentinel given as a literal of another integral type means the same numeric value.",
  ["inputs", "histories", "configurations"],
  "every payload value of every supported sentinel type, every operation that stores or empties",
  "Tests use a handful of values; off-by-one, sign-extension or narrowing errors in the sentinel comparison only show for particular values or widths.",
  [H], ["AssignmentFlagManipulator", "sentinel_flag_manipulator", "SelectSentinelValueAndMemPtrFromConstants", "optional_sentinel_via_type", "optional"])

p("C03", "optional_aip reserves exactly the documented extreme value",
  "tiny::optional_aip<T> for unsigned integers uses the maximum and for signed integers the minimum as the empty marker; every other value of every integer width is stored and returned unchanged and reports has_value(). For payloads with unused bits it behaves as the plain optional, an explicitly given sentinel replaces the automatic one, and the object is always as small as its payload.",
  ["inputs", "histories", "configurations"],
  "every value of every integer type, every storing operation",
  "Tests check a few values per type; values adjacent to the limits of each width are not exhaustively checked.",
  [H], ["optional_aip", "IntegralSentinelType", "SelectSentinelForAip"])

p("C04", "With the flag in a member, the whole payload survives",
  "When the empty state lives in a member of the payload (tiny::optional<S, &S::m>, with or without explicit sentinel, for members of bool, floating, pointer, integer, enum and class kind at any offset), has_value() is false exactly when the optional was emptied, and every member of a stored payload, including the flag member and its neighbours, is returned unchanged for every combination of member values other than the reserved one. The size stays sizeof(S).",
  ["inputs", "histories", "configurations"],
  "every combination of member values, every member position, every storing operation",
  "Tests store a few constants in two or three structs; a flag written at a wrong offset or width only corrupts particular neighbouring values.",
  [H], ["InplaceDecompositionViaMemPtr", "InplaceStorage", "SelectDecomposition", "optional"])

p("C05", "Flag manipulators see a strict lifecycle",
  "For a custom optional_flag_manipulator, sentinel_flag_manipulator or optional_inplace flag manipulator, on every history of operations: init_empty_flag() is called only on memory holding neither payload nor flag object, invalidate_empty_flag() exactly once for each initialised empty flag before a payload is constructed over it and when an empty optional is destroyed, and is_empty() only while either an initialised flag or a live payload is present. Between operations an optional that is empty has exactly one initialised flag and no payload, an engaged one has exactly one live payload and no initialised flag, also when payload operations throw.",
  ["histories", "fault_sequences"],
  "every sequence of public operations up to the bound, from either state, with every choice of which payload operation throws",
  "Tests check the calls on some fixed sequences; they cannot enumerate all orders and throw points, and a leaked or doubly destroyed flag object has no effect with trivial manipulators.",
  [H, F], ["StorageBase", "optional_flag_manipulator", "optional_inplace", "InplaceStorage"])

p("C06", "Every payload is constructed and destroyed exactly once",
  "Over every history of operations each payload object is constructed exactly once before use and destroyed exactly once: reset, nullopt assignment, emplace, destruction and copy/move assignment of an empty one destroy the held payload, an empty optional never holds or touches a live payload, and after the optional is gone no payload is alive. No operation reads, assigns to, moves from or destroys a payload that is not alive.",
  ["histories", "inputs", "fault_sequences"],
  "every operation from every state (and bounded histories), all payload kinds incl. non-trivial destructors, all storage strategies",
  "Tests count constructions on fixed scenarios; leaks or double destructions depend on the combination of states of both operands and on throw points.",
  [H], ["StorageBase", "CopyAssignmentBase", "MoveAssignmentBase", "TinyOptionalImpl"])

p("C07", "Exceptions leave the state std::optional would leave",
  "If a constructor, assignment, conversion or user callable throws during any operation, the exception propagates to the caller unchanged (never std::terminate), and the optional ends in the same state as std::optional would: constructors leave nothing behind, emplace leaves it empty, value/copy/move assignment to an empty one leaves it empty, assignment to an engaged one leaves it engaged with its payload as left by the payload's assignment, monadic operations leave it untouched. It remains fully usable and is destroyed exactly once.",
  ["fault_sequences", "histories"],
  "every operation, every initial state of both operands, every throw point reachable inside it",
  "Tests throw at few chosen points; a flag restored too early or too late or a wrong noexcept shows only for a throw at one particular point.",
  [H], ["StorageBase", "ConstructPayload", "ConstructPayloadFromFunction", "emplace", "AssignPayload"])

p("C08", "Any operation history behaves like std::optional",
  "For every sequence of public operations (construction, value/optional/nullopt/{} assignment, emplace, reset, swap, copy, move, value_or, access) with arbitrary values that avoid the reserved one, a tiny::optional has at every step the same has_value() and value as a std::optional driven by the same sequence. This holds for all storage strategies, for payload types with converting constructors, and for nested optionals.",
  ["histories", "inputs", "configurations"],
  "every operation sequence up to the bound with all values symbolic; one arbitrary step from an arbitrary state",
  "Tests run fixed scripts; equivalence must hold for all orders of operations and all values.",
  [H], ["TinyOptionalImpl", "optional", "make_optional", "StorageBase"])

p("C09", "All comparisons agree with std::optional",
  "==, !=, <, <=, >, >= (and <=> in C++20) between two tiny optionals of possibly different payload and sentinel kind, a tiny optional and a std::optional, a value, or nullopt, in both operand orders, give exactly what std::optional gives for the same states, including for NaN and other partially ordered payloads and for payloads whose operators are not each other's negation; each evaluates the payload's own corresponding operator, at most once, with the operands in the written order (a C++20 <=> expression may be evaluated by the language with swapped operands and inverted result), and never when an operand is empty.",
  ["inputs", "configurations"],
  "every pair of states and values, every operator, every operand kind and order, C++17 and C++20, gcc and clang code paths",
  "Tests compare a few constants per operator; a wrong operator in one of the ~60 overloads can agree on all sampled values, and NaN/unordered cases are a corner.",
  [H], ["TINY_OPTIONAL_IMPL_COMPARE_BETWEEN_OPTIONALS", "operator<=>", "ComparisonHelper"])

p("C10", "Monadic operations call and forward exactly as specified",
  "and_then and transform invoke the callable exactly once with the held value in the optional's own value category (lvalue, const lvalue, rvalue, const rvalue; a const payload stays const) iff it is engaged, and otherwise return an empty result without invoking it; or_else invokes its callable exactly once iff empty and otherwise returns the held value. The result holds exactly what the callable returned, without extra copies of move-only or immovable results, and the source is not modified by the operation itself.",
  ["inputs", "histories", "configurations"],
  "every state and value, every value category, every callable kind (lambda, function pointer, member pointer), tiny and std result optionals",
  "Tests try a few values; whether the callable may be skipped or doubled or the wrong overload is selected must hold for all values and categories.",
  [H], ["and_then", "transform", "or_else", "ConstructPayloadFromFunction"])

p("C11", "Accessors return the held payload, value() throws iff empty",
  "value() throws std::bad_optional_access iff the optional is empty and otherwise, like operator* and operator->, gives a reference to the one stored payload (same address, const and value category as the optional expression), so that reads see the stored value and writes through it are seen by later reads. value_or(x) returns the held value, or x converted to the payload type when empty, copying from lvalues and moving only from rvalues.",
  ["inputs", "histories", "configurations"],
  "every state and every payload/default value, every value category",
  "Tests check a few values and overloads; address identity and values must hold for all of them.",
  [H], ["value", "value_or", "operator*", "operator->", "has_value", "GetPayload"])

p("C12", "swap exchanges the two optionals completely",
  "Member and free swap exchange has_value() and payload of the two optionals for every combination of states and values, swap with itself changes nothing, and the payload's own swap or move constructor is used exactly as std::optional does. No payload is lost, duplicated or left alive in an emptied optional, also if the payload's move constructor or swap throws.",
  ["inputs", "histories", "fault_sequences"],
  "all four state combinations, all values, all storage strategies, every throw point",
  "Tests swap few pairs; all state/value combinations and throw points must hold.",
  [H], ["swap"])

p("C13", "Copies are equal and independent; moves leave the source engaged",
  "Copy construction and assignment give an optional with the same state and value and leave the source unchanged; move construction and assignment transfer the value using exactly the payload's move operation and leave the source engaged with the moved-from payload (empty stays empty). Each of the four state combinations of an assignment uses the payload's constructor, assignment or destructor exactly as std::optional does, and self-assignment keeps the value.",
  ["inputs", "histories", "configurations"],
  "all states and values of both operands, trivially and non-trivially copyable payloads, all storage strategies",
  "Tests copy a few constants; wrong handling of one state combination or one storage strategy only shows for some values.",
  [H], ["CopyConstructionBase", "MoveConstructionBase", "CopyAssignmentBase", "MoveAssignmentBase"])

p("C14", "std::hash agrees with the payload's hash and with equality",
  "For every optional flavour std::hash of an engaged optional equals std::hash of its payload, equal optionals have equal hashes, and all empty optionals of a flavour have one fixed hash that does not depend on stale or surrounding memory. Hashing does not modify the optional.",
  ["inputs", "configurations"],
  "every state, every payload value, every flavour (also optional_inplace, optional_aip, sentinel via type), arbitrary prior memory contents",
  "Tests hash a few constants; equality of hashes must hold for all values (e.g. +0.0/-0.0, padding, stale bytes).",
  [H], ["std::hash", "hash"])

p("C15", "Only the optional's own bytes are touched, size as documented",
  "Every operation reads and writes only the bytes of the optional object(s) involved (and the payload's own resources), never neighbouring memory, and its outcome does not depend on what the memory held before construction. sizeof equals sizeof(payload) for the compressed flavours and sizeof(std::optional<payload>) otherwise, and is_compressed says which.",
  ["inputs", "histories", "configurations"],
  "arbitrary memory contents before construction and around the object, all operations, all flavours, 32 and 64 bit",
  "Tests run on whatever the stack happens to contain; a stale-byte dependency or a one-byte overrun shows for specific contents only.",
  [H], ["InplaceStorage", "SeparateFlagStorage", "StorageBase", "is_compressed"])

p("C16", "Without the UB tricks everything still behaves the same",
  "With TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS, _OF_UNUSED_BITS or _OF_MEMBER defined, the affected optionals keep the same public interface and behave like std::optional for every payload bit pattern (including the patterns reserved in the default configuration), with the size of std::optional. Flavours with explicit sentinels that the macro does not affect stay compressed and unchanged.",
  ["configurations", "inputs", "histories"],
  "all four macro combinations, all bit patterns, all operations",
  "The tests run one such configuration with few values; equality for all values and each macro separately is never exercised.",
  [H], ["TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS", "TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS", "TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER", "SelectDecomposition"])

p("C17", "The sentinel range check is exact for all integer types",
  "The compile-time range check that guards integral sentinels (a sentinel literal of another integral type than the payload) accepts a value for a target type iff that value is exactly representable in the target type, for every pair of source and target integer types (all widths and signedness, char types and bool included) and every value. It never wraps, truncates or mis-compares signed with unsigned values.",
  ["inputs"],
  "every value of every source integer type against every target integer type",
  "Tests evaluate boundary samples; exactness is a claim about up to 2^64 values for each of ~150 type pairs.",
  [H], ["IsIntegralInRange"])

p("C18", "Debug builds detect misuse exactly",
  "In builds with assertions, storing the reserved sentinel value by any storing operation and dereferencing an empty optional by * or -> trip an assertion, for every other value and state no operation trips one. In builds without assertions a sentinel-storing operation has no other effect than leaving an optional that reads as empty.",
  ["inputs", "configurations"],
  "every value (sentinel or not), every storing operation and dereference, assertions on and off",
  "A test can check a few death cases; that no legal value or history ever trips an assertion is universal.",
  [H], ["StorageBase", "ConstructPayload", "operator*", "operator->"])

p("C19", "Conversions and constructors forward the given arguments exactly",
  "Constructing, assigning, emplacing or make_optional from a value of another type, from in_place arguments, initializer lists or a braced default yields exactly the payload that direct construction from those arguments yields: narrowing and widening conversions of all numeric values as in C++, lvalues are copied and rvalues moved, each argument is forwarded once, and nothing is evaluated for an argument that means empty (nullopt, {}).",
  ["inputs", "configurations"],
  "every argument value, value category and constructor/assignment/emplace/make_optional form",
  "Tests use few arguments; conversion and forwarding must hold for all values and categories.",
  [H], ["TinyOptionalImpl", "emplace", "make_optional", "in_place"])

p("C20", "Traits, noexcept and overload participation mirror std::optional",
  "Copyability, movability, triviality where documented, noexcept specifications, explicitness and participation in overload resolution are those of std::optional for the same payload, and the documented ill-formed uses are rejected at compile time.",
  ["programs", "configurations"],
  "all payload types",
  "Type-level facts for all types; tests have static_asserts for chosen types.",
  [H], ["CopyConstructionBase", "MoveConstructionBase", "EnableConvertingConstructor"])

p("C21", "The Visual Studio visualizer agrees with the library",
  "For each supported flavour the debugger visualizer shows 'empty' iff has_value() is false and otherwise shows the stored payload.",
  ["inputs", "configurations"],
  "every bit pattern of each flavour",
  "No test evaluates the visualizer file.",
  ["include/tiny_optional.natvis"], ["IsEmpty"])

p("C22", "Reading a const optional never writes, so readers cannot race",
  "Operations that take an optional as const (has_value, *, ->, value, value_or, all comparisons, hash, const and_then/transform/or_else, copying from it), and operations that take a payload value by const reference, write no byte of that optional or value, not even temporarily or with the same value. Hence any number of threads may read one optional concurrently under every schedule, and a const optional may live in read-only memory.",
  ["schedules", "inputs"],
  "every schedule of concurrent readers (reduced to: no reader writes), every state, value and storage strategy",
  "A single-threaded test cannot see a transient or idempotent write, and a race needs a particular interleaving.",
  [H], ["GetIsEmptyFlag", "has_value", "is_empty", "GetPayload"])

p("C23", "Units built with different macro settings never share an implementation",
  "Translation units compiled with different settings of the TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_... macros may be linked into one program: in each unit every flavour keeps the size, layout and behaviour of that unit's own setting, whatever the link order. No function or type of the library instantiated in one unit is ever taken for that of a unit whose setting gives it another layout.",
  ["configurations", "inputs"],
  "every combination of the settings within one program, every link order tried, every stored value",
  "Each test binary is built with one setting for all its units, so symbols of different settings never meet.",
  [H], ["TINY_OPTIONAL_INLINE_NS_BEGIN", "TINY_OPTIONAL_CONCAT_NS"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
