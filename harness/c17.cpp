// C17: the range check for integral sentinels is exact for all integer types.
#include "vp.h"

namespace
{
template <class T>
constexpr unsigned kBitsOf = std::is_same_v<T, bool> ? 1u : static_cast<unsigned>(sizeof(T) * 8);

// Mathematical value of v as sign and magnitude, independent of <limits> and of the usual conversions.
struct Num
{
  bool neg;
  unsigned long long mag;
  bool operator==(Num const & o) const { return neg == o.neg && mag == o.mag; }
};
template <class T>
constexpr bool kSigned = static_cast<T>(-1) < static_cast<T>(0);
template <class T>
Num value_of(T v)
{
  unsigned long long b = bits_of(v);
  if (kSigned<T> && (b >> (kBitsOf<T> - 1)) & 1) {
    unsigned long long const m = kBitsOf<T> == 64 ? ~0ull : (1ull << (kBitsOf<T> % 64)) - 1;
    return Num{true, (~b & m) + 1};
  }
  return Num{false, b};
}
template <class T>
bool representable(Num v)
{
  if (kSigned<T>) {
    unsigned long long const lim = 1ull << (kBitsOf<T> - 1);
    return v.neg ? v.mag <= lim : v.mag < lim;
  }
  return !v.neg && (kBitsOf<T> == 64 || v.mag < (1ull << (kBitsOf<T> % 64)));
}

// The guard itself, for every value of every pair of types. Where a changed library has no such function, the runner
// compiles without this part (VP_NO_RANGE_FN), and the meaning of accepted literals and the boundary literals decide.
#ifndef VP_NO_RANGE_FN
  #ifndef VP_RANGE_FN
    #define VP_RANGE_FN IsIntegralInRange
  #endif
template <class Target, class Source>
void pair()
{
  Any<Source> v("value");
  bool const in = tiny::impl::VP_RANGE_FN<Target>(v.v);
  CHECK(in == representable<Target>(value_of<Source>(v.v)), "accepted iff exactly representable");
  vp_obs(in);
}
template <class Target, class... S>
void sources()
{
  (pair<Target, S>(), ...);
  vp_cover("decided");
}
#endif
#ifdef VP_CXX20
  #define CHAR8 , char8_t
#else
  #define CHAR8
#endif
#define ALLINT                                                                                                         \
  bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long,        \
      unsigned long long, wchar_t, char16_t, char32_t CHAR8
} // namespace
#ifndef VP_NO_RANGE_FN
#define TGT(name, T)                                                                                                   \
  VP_HARNESS(to_##name) { sources<T, ALLINT>(); }
TGT(bool, bool)
TGT(char, char)
TGT(schar, signed char)
TGT(uchar, unsigned char)
TGT(short, short)
TGT(ushort, unsigned short)
TGT(int, int)
TGT(uint, unsigned)
TGT(long, long)
TGT(ulong, unsigned long)
TGT(llong, long long)
TGT(ullong, unsigned long long)
TGT(wchar, wchar_t)
TGT(char16, char16_t)
TGT(char32, char32_t)
#ifdef VP_CXX20
TGT(char8, char8_t)
#endif
#endif

// What the accepted sentinel means: an accepted literal of another type reserves exactly its numeric value.
template <class O, class T>
static void means(Num sentinel)
{
  Any<T> v("v");
  O e;
  CHECK(!e.has_value(), "default constructed is empty");
  bool const isS = value_of<T>(v.v) == sentinel;
  vp_allow_assert(isS);
  O o(v.v);
  CHECK(o.has_value() == !isS, "exactly the literal's numeric value means empty");
  if (!isS)
    CHECK(value_of<T>(*o) == value_of<T>(v.v), "kept");
  vp_cover(isS ? "sentinel" : "other");
}
#define MEANS(name, T, lit)                                                                                            \
  VP_HARNESS(name) { means<tiny::optional<T, lit>, T>(value_of<decltype(lit)>(lit)); }
MEANS(m_uchar_255, unsigned char, 255)
MEANS(m_schar_m128, signed char, -128)
MEANS(m_schar_127, signed char, 127LL)
MEANS(m_short_max, short, 32767u)
MEANS(m_ushort_max, unsigned short, 65535)
MEANS(m_int_max, int, 2147483647ull)
MEANS(m_int_min, int, (-2147483647LL - 1))
MEANS(m_uint_max, unsigned, 4294967295LL)
MEANS(m_uint_0, unsigned, 0)
MEANS(m_ll_u, long long, 9223372036854775807ull)
MEANS(m_ull_i, unsigned long long, 5)
MEANS(m_ull_max, unsigned long long, 18446744073709551615ull)
MEANS(m_char16, char16_t, 65535)
MEANS(m_char32, char32_t, 0xffffffffu)
MEANS(m_wchar, wchar_t, -1)

// The limits of each target type within each source type, found by the solver. The check then compiles
// tiny::optional<Target, literal> with these literals: the last representable one has to be accepted, the next one rejected.
template <class T, class S>
static void edge_of(bool up)
{
  Any<S> v("last representable");
  S u = static_cast<S>(up ? static_cast<unsigned long long>(v.v) + 1 : static_cast<unsigned long long>(v.v) - 1);
  Num const n = value_of<S>(v.v), m = value_of<S>(u);
  bool const grows = up ? (n.neg ? (m.neg ? m.mag < n.mag : true) : !m.neg && m.mag > n.mag)
                        : (n.neg ? m.neg && m.mag > n.mag : m.neg || m.mag < n.mag);
  vp_assume(grows && representable<T>(n) && !representable<T>(m));
  vp_obs(bits_of(v.v));
  vp_obs(bits_of(u));
  vp_cover("edge");
}
template <class T>
static void edges()
{
  unsigned const src = vp_choose(6, "source"), up = vp_choose(2, "up");
  vp_cover("searched");
  vp_obs(src);
  vp_obs(up);
  switch (src) {
  case 0: edge_of<T, signed char>(up); break;
  case 1: edge_of<T, unsigned short>(up); break;
  case 2: edge_of<T, int>(up); break;
  case 3: edge_of<T, unsigned>(up); break;
  case 4: edge_of<T, long long>(up); break;
  default: edge_of<T, unsigned long long>(up); break;
  }
}
VP_HARNESS(edge_char) { edges<char>(); }
VP_HARNESS(edge_schar) { edges<signed char>(); }
VP_HARNESS(edge_uchar) { edges<unsigned char>(); }
VP_HARNESS(edge_short) { edges<short>(); }
VP_HARNESS(edge_ushort) { edges<unsigned short>(); }
VP_HARNESS(edge_int) { edges<int>(); }
VP_HARNESS(edge_uint) { edges<unsigned>(); }
VP_HARNESS(edge_long) { edges<long>(); }
VP_HARNESS(edge_ulong) { edges<unsigned long>(); }
VP_HARNESS(edge_llong) { edges<long long>(); }
VP_HARNESS(edge_ullong) { edges<unsigned long long>(); }
VP_HARNESS(edge_wchar) { edges<wchar_t>(); }
VP_HARNESS(edge_char16) { edges<char16_t>(); }
VP_HARNESS(edge_char32) { edges<char32_t>(); }
