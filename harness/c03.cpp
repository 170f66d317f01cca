// C03: optional_aip reserves exactly the documented extreme value.
#include "store.h"

template <class T>
struct Not
{
  T s;
  bool operator()(T const & v) const { return !(v == s); }
};

template <class O, class V>
static void extreme(V sentinel)
{
  static_assert(sizeof(O) == sizeof(V));
  CHECK(O::is_compressed, "is_compressed");
  Arena<O> A("mem");
  O & o = A.make();
  V seen;
  std::memcpy(static_cast<void *>(&seen), static_cast<void *>(&o), sizeof(V));
  CHECK(seen == sentinel, "empty marker is the documented value");
  Any<V> v("v");
  std::memcpy(static_cast<void *>(&o), static_cast<void const *>(&v.v), sizeof(V));
  CHECK(o.has_value() == (v.v != sentinel), "empty iff the documented value");
  vp_obs(o.has_value());
  vp_cover(o.has_value() ? "engaged" : "is-empty");
  A.destroy();
}

#define AIP(name, T, V, S)                                                                                             \
  PRESERVE(name, tiny::optional_aip<T>, V, (Not<V>{S}))                                                                \
  VP_HARNESS(name##_extreme) { extreme<tiny::optional_aip<T>, V>(S); }

AIP(ushort, unsigned short, unsigned short, USHRT_MAX)
AIP(uint, unsigned, unsigned, UINT_MAX)
AIP(ulong, unsigned long, unsigned long, ULONG_MAX)
AIP(ullong, unsigned long long, unsigned long long, ULLONG_MAX)
AIP(sshort, short, short, SHRT_MIN)
AIP(sint, int, int, INT_MIN)
AIP(slong, long, long, LONG_MIN)
AIP(sllong, long long, long long, LLONG_MIN)
AIP(cuint, unsigned const, unsigned, UINT_MAX)
AIP(cllong, long long const, long long, LLONG_MIN)
AIP(u16, std::uint16_t, std::uint16_t, UINT16_MAX)
AIP(u32, std::uint32_t, std::uint32_t, UINT32_MAX)
AIP(u64, std::uint64_t, std::uint64_t, UINT64_MAX)
AIP(i16, std::int16_t, std::int16_t, INT16_MIN)
AIP(i32, std::int32_t, std::int32_t, INT32_MIN)
AIP(i64, std::int64_t, std::int64_t, INT64_MIN)
AIP(sizet, std::size_t, std::size_t, std::numeric_limits<std::size_t>::max())
AIP(ptrdiff, std::ptrdiff_t, std::ptrdiff_t, std::numeric_limits<std::ptrdiff_t>::min())

#define COMMA ,
#define AIPX(name, T, X, S)                                                                                            \
  PRESERVE(name, tiny::optional_aip<T COMMA X>, T, (Not<T>{S}))                                                        \
  VP_HARNESS(name##_extreme) { extreme<tiny::optional_aip<T COMMA X>, T>(S); }
AIPX(x_int, int, 42, 42)
AIPX(x_uint, unsigned, 0, 0u)
AIPX(x_char, char, 'a', 'a')
AIPX(x_schar, signed char, -1, -1)
AIPX(x_uchar, unsigned char, 200, 200)
AIPX(x_ullong, unsigned long long, 3, 3ull)
AIPX(x_bool, bool, false, false)
AIPX(x_short, short, -2, -2)
AIPX(x_ushort, unsigned short, 0, 0)
AIPX(x_long, long, 0x7ffffffeL, 0x7ffffffeL)
AIPX(x_llong, long long, -0x123456789abcLL, -0x123456789abcLL)
AIPX(x_wchar, wchar_t, L'w', L'w')
enum class Xe : unsigned short { A, Bad = 0xfffe };
AIPX(x_enum, Xe, Xe::Bad, Xe::Bad)
AIPX(x_ptr, int *, nullptr, nullptr)

// payloads with unused bits or a registered manipulator behave as the plain optional
enum class Reg : short { A, Invalid = -5 };
template <>
struct tiny::optional_flag_manipulator<Reg> : tiny::sentinel_flag_manipulator<Reg, Reg::Invalid>
{
};
AIP(reg, Reg, Reg, Reg::Invalid)

#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
struct NotReserved
{
  bool operator()(bool) const { return true; }
  bool operator()(double const & d) const { return bits_of(d) != 0x7ff8fedcba987654ull; }
  bool operator()(float const & d) const { return bits_of(d) != 0x7fedcba9ull; }
  template <class T>
  bool operator()(T * const & p) const
  {
    return bits_of(p) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
  }
};
PRESERVE(dbl, tiny::optional_aip<double>, double, NotReserved{})
PRESERVE(flt, tiny::optional_aip<float>, float, NotReserved{})
PRESERVE(bl, tiny::optional_aip<bool>, bool, NotReserved{})
PRESERVE(ptr, tiny::optional_aip<void *>, void *, NotReserved{})
PRESERVE(iptr, tiny::optional_aip<int const *>, int const *, NotReserved{})
PRESERVE(cdbl, tiny::optional_aip<double const>, double, NotReserved{})
PRESERVE(cptr, tiny::optional_aip<char * const>, char *, NotReserved{})
VP_HARNESS(unused_bits_sizes)
{
  CHECK(sizeof(tiny::optional_aip<double>) == sizeof(double), "size");
  CHECK(sizeof(tiny::optional_aip<float>) == sizeof(float), "size");
  CHECK(sizeof(tiny::optional_aip<bool>) == sizeof(bool), "size");
  CHECK(sizeof(tiny::optional_aip<void *>) == sizeof(void *), "size");
  CHECK(sizeof(tiny::optional_aip<void (*)()>) == sizeof(void (*)()), "size");
  CHECK(sizeof(tiny::optional_aip<double const>) == sizeof(double), "size");
  vp_cover("sizes");
}
#endif
