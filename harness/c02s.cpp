// C02: the three ways to give a sentinel, for every kind and width of payload.
#include "store.h"

template <class T>
struct Not
{
  T s;
  bool operator()(T const & v) const { return !(v == s); }
};

// The object's memory is the payload's memory, and it reads as empty exactly if the payload there equals the sentinel.
template <class O, class V, class Storable>
static void raw_meaning(Storable storable)
{
  static_assert(sizeof(O) == sizeof(V));
  Any<V> w("w"), v("v");
  vp_assume(storable(w.v));
  Arena<O> A("mem");
  O & o = A.make();
  CHECK(!o.has_value(), "empty");
  o.emplace(w.v);
  CHECK(o.has_value() && same_bits<V>(*o, w.v), "kept");
  std::memcpy(static_cast<void *>(&o), static_cast<void const *>(std::addressof(v.v)), sizeof(V));
  CHECK(o.has_value() == storable(v.v), "empty iff the payload equals the sentinel");
  vp_obs(o.has_value());
  vp_cover(o.has_value() ? "engaged" : "is-empty");
  o.reset();
  CHECK(!o.has_value(), "reset");
  A.destroy();
}
template <auto S>
struct Via
{
  static constexpr auto value = S;
};
#define THREE(name, V, lit)                                                                                            \
  PRESERVE(fm_##name, tiny::optional_inplace<V COMMA tiny::sentinel_flag_manipulator<V COMMA lit>>, V, (Not<V>{static_cast<V>(lit)}))  \
  VP_HARNESS(raw_fm_##name)                                                                                            \
  {                                                                                                                    \
    raw_meaning<tiny::optional_inplace<V, tiny::sentinel_flag_manipulator<V, lit>>, V>((Not<V>{static_cast<V>(lit)}));                \
  }                                                                                                                    \
  VP_HARNESS(raw_via_##name) { raw_meaning<tiny::optional_sentinel_via_type<V, Via<lit>>, V>((Not<V>{static_cast<V>(lit)})); }        \
  VP_HARNESS(raw_lit_##name) { raw_meaning<tiny::optional<V, lit>, V>((Not<V>{static_cast<V>(lit)})); }
#define COMMA ,
THREE(schar, signed char, (-77))
THREE(uchar, unsigned char, (200))
THREE(char_, char, ('~'))
THREE(short, short, (-12345))
THREE(ushort, unsigned short, (40000))
THREE(int, int, (-123456789))
THREE(uint, unsigned, (4000000000u))
THREE(long, long, (-12345678L))
THREE(ulong, unsigned long, (123456789UL))
THREE(ll, long long, (-1234567890123456789LL))
THREE(ull, unsigned long long, (0x100000002ull))
THREE(char16, char16_t, (u'\x7fff'))
THREE(char32, char32_t, (U'\x00ffff'))
THREE(wchar, wchar_t, (L'q'))
THREE(bool_, bool, (false))
enum class Es_s8 : signed char { zero = 0, bad = static_cast<signed char>(-3) };
THREE(es_s8, Es_s8, Es_s8::bad)
enum class Es_u8 : unsigned char { zero = 0, bad = static_cast<unsigned char>(250) };
THREE(es_u8, Es_u8, Es_u8::bad)
enum class Es_s16 : short { zero = 0, bad = static_cast<short>(-3) };
THREE(es_s16, Es_s16, Es_s16::bad)
enum class Es_u16 : unsigned short { zero = 0, bad = static_cast<unsigned short>(65530) };
THREE(es_u16, Es_u16, Es_u16::bad)
enum class Es_s32 : int { zero = 0, bad = static_cast<int>(-3) };
THREE(es_s32, Es_s32, Es_s32::bad)
enum class Es_u32 : unsigned { zero = 0, bad = static_cast<unsigned>(0xfffffff0u) };
THREE(es_u32, Es_u32, Es_u32::bad)
enum class Es_s64 : long long { zero = 0, bad = static_cast<long long>(-0x7000000000000003LL) };
THREE(es_s64, Es_s64, Es_s64::bad)
enum class Es_u64 : unsigned long long { zero = 0, bad = static_cast<unsigned long long>(0x8000000000000005ull) };
THREE(es_u64, Es_u64, Es_u64::bad)
enum class Es_c : char { zero = 0, bad = static_cast<char>('x') };
THREE(es_c, Es_c, Es_c::bad)
enum Eu_s8 : signed char { zero_s8 = 0, bad_s8 = static_cast<signed char>(-3) };
THREE(eu_s8, Eu_s8, bad_s8)
enum Eu_u16 : unsigned short { zero_u16 = 0, bad_u16 = static_cast<unsigned short>(65530) };
THREE(eu_u16, Eu_u16, bad_u16)
enum Eu_u32 : unsigned { zero_u32 = 0, bad_u32 = static_cast<unsigned>(0xfffffff0u) };
THREE(eu_u32, Eu_u32, bad_u32)
enum Eu_s64 : long long { zero_s64 = 0, bad_s64 = static_cast<long long>(-0x7000000000000003LL) };
THREE(eu_s64, Eu_s64, bad_s64)
enum Eu_u64 : unsigned long long { zero_u64 = 0, bad_u64 = static_cast<unsigned long long>(0x8000000000000005ull) };
THREE(eu_u64, Eu_u64, bad_u64)
THREE(ptr, int *, nullptr)
THREE(cptr, char const *, nullptr)
// cv-qualified payloads
#define CVS(name, T, V, lit)                                                                                           \
  PRESERVE(lit_##name, tiny::optional<T COMMA lit>, V, (Not<V>{static_cast<V>(lit)}))                                  \
  PRESERVE(via_##name, tiny::optional_sentinel_via_type<T COMMA Via<lit>>, V, (Not<V>{static_cast<V>(lit)}))
CVS(cint, int const, int, (-5))
CVS(cuchar, unsigned char const, unsigned char, (255))
CVS(cull, unsigned long long const, unsigned long long, (0x8000000000000000ull))
CVS(ces16, Es_s16 const, Es_s16, Es_s16::bad)
CVS(cptr_, int * const, int *, nullptr)
CVS(cbool, bool const, bool, true)
