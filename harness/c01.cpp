// C01: payloads with unused bit patterns lose no values.
#include "store.h"

inline constexpr unsigned long long kDoubleSentinel = 0x7ff8fedcba987654ull;
inline constexpr unsigned long long kFloatSentinel = 0x7fedcba9ull;
inline constexpr unsigned long long kPtrSentinel = k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1;

struct NotReserved
{
  bool operator()(bool) const { return true; }
  bool operator()(double const & d) const { return bits_of(d) != kDoubleSentinel || !kBits; }
  bool operator()(float const & d) const { return bits_of(d) != kFloatSentinel || !kBits; }
  template <class T>
  bool operator()(T * const & p) const
  {
    return bits_of(p) != kPtrSentinel || !kBits;
  }
};

struct Incomplete;
enum class En : short { A };
struct S
{
  int i;
};

PRESERVE(bool, tiny::optional<bool>, bool, NotReserved{})
PRESERVE(double, tiny::optional<double>, double, NotReserved{})
PRESERVE(float, tiny::optional<float>, float, NotReserved{})
PRESERVE(intptr, tiny::optional<int *>, int *, NotReserved{})
PRESERVE(cptr, tiny::optional<S const *>, S const *, NotReserved{})
PRESERVE(voidptr, tiny::optional<void *>, void *, NotReserved{})
PRESERVE(ptrptr, tiny::optional<int **>, int **, NotReserved{})
PRESERVE(incptr, tiny::optional<Incomplete *>, Incomplete *, NotReserved{})
using Fn = int (*)(double);
PRESERVE(fnptr, tiny::optional<Fn>, Fn, NotReserved{})
PRESERVE(const_bool, tiny::optional<bool const>, bool, NotReserved{})
PRESERVE(const_double, tiny::optional<double const>, double, NotReserved{})
PRESERVE(const_float, tiny::optional<float const>, float, NotReserved{})
PRESERVE(const_ptr, tiny::optional<int * const>, int *, NotReserved{})
PRESERVE(vol_double, tiny::optional<double volatile>, double, NotReserved{})

template <class O, class P>
static void sizes()
{
  CHECK(sizeof(O) == (kBits ? sizeof(P) : sizeof(std::optional<P>)), "documented size");
  CHECK(O::is_compressed == kBits, "is_compressed");
}
VP_HARNESS(sizes)
{
  sizes<tiny::optional<bool>, bool>();
  sizes<tiny::optional<double>, double>();
  sizes<tiny::optional<float>, float>();
  sizes<tiny::optional<int *>, int *>();
  sizes<tiny::optional<Fn>, Fn>();
  sizes<tiny::optional<double const>, double>();
  sizes<tiny::optional<bool const volatile>, bool>();
  vp_cover("sizes");
}

// make_optional and deduction
VP_HARNESS(make)
{
  Any<double> d("d");
  Any<float> f("f");
  Any<int *> p("p");
  Any<bool> b("b");
  NotReserved ok;
  vp_assume(ok(d.v) && ok(f.v) && ok(p.v));
  auto od = tiny::make_optional(d.v);
  auto of = tiny::make_optional(f.v);
  auto op = tiny::make_optional(p.v);
  auto ob = tiny::make_optional(b.v);
  check_holds(od, d.v);
  check_holds(of, f.v);
  check_holds(op, p.v);
  check_holds(ob, b.v);
  tiny::optional dd{d.v};
  check_holds(dd, d.v);
  vp_obs(bits_of(*od));
  vp_obs(bits_of(*of));
  vp_obs(*ob);
  vp_cover("make");
}

// The reserved pattern is the documented one: overwriting the payload's bytes with it (and with nothing else) makes the
// optional read as empty. The optional is viewed as raw memory of the payload's size, as documented.
template <class O, class V>
static void pattern(unsigned long long sentinel)
{
  if constexpr (kBits) {
    static_assert(sizeof(O) == sizeof(V));
    Arena<O> A("mem");
    O & o = A.make();
    CHECK(bits_of(o) == sentinel, "empty state is the documented bit pattern");
    unsigned char raw[sizeof(V)];
    vp_sym_bytes(raw, sizeof raw, "raw");
    V payload{};
    std::memcpy(static_cast<void *>(&payload), raw, sizeof raw);
    if constexpr (std::is_same_v<V, bool>)
      vp_assume(raw[0] <= 1 || raw[0] == sentinel);
    std::memcpy(static_cast<void *>(&o), raw, sizeof raw);
    CHECK(o.has_value() == (bits_of(payload) != sentinel), "empty iff the documented pattern");
    vp_obs(o.has_value());
    vp_cover(o.has_value() ? "engaged" : "is-empty");
    A.destroy();
  }
  else
    vp_cover("n/a");
}
VP_HARNESS(pattern_bool) { pattern<tiny::optional<bool>, bool>(0xfe); }
VP_HARNESS(pattern_double) { pattern<tiny::optional<double>, double>(kDoubleSentinel); }
VP_HARNESS(pattern_float) { pattern<tiny::optional<float>, float>(kFloatSentinel); }
VP_HARNESS(pattern_ptr) { pattern<tiny::optional<int *>, int *>(kPtrSentinel); }
VP_HARNESS(pattern_fn) { pattern<tiny::optional<Fn>, Fn>(kPtrSentinel); }
