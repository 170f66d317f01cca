// C02: with a user sentinel exactly the sentinel value means empty.
#include "store.h"

template <class T>
struct Not
{
  T s;
  bool operator()(T const & v) const { return !(v == s); }
};
template <class T>
Not(T) -> Not<T>;

// The object's memory is the payload's memory, and it reads as empty exactly if the payload there equals the sentinel.
template <class O, class V, class Storable>
static void raw_meaning(Storable storable)
{
  static_assert(sizeof(O) == sizeof(V));
  CHECK(O::is_compressed, "is_compressed");
  Any<V> w("w"), v("v");
  vp_assume(storable(w.v));
  Arena<O> A("mem");
  O & o = A.make();
  V seen;
  std::memcpy(static_cast<void *>(std::addressof(seen)), static_cast<void *>(&o), sizeof(V));
  CHECK(!storable(seen), "the empty state is the sentinel value");
  o.emplace(w.v);
  std::memcpy(static_cast<void *>(&o), static_cast<void const *>(std::addressof(v.v)), sizeof(V));
  CHECK(o.has_value() == storable(v.v), "empty iff the payload equals the sentinel");
  vp_obs(o.has_value());
  vp_cover(o.has_value() ? "engaged" : "is-empty");
  o.reset();
  CHECK(!o.has_value(), "reset");
  A.destroy();
}

#define SENT(name, OPT, V, storable)                                                                                   \
  using VP_CAT(O_, name) = OPT;                                                                                        \
  PRESERVE(name, VP_CAT(O_, name), V, storable)                                                                        \
  VP_HARNESS(name##_raw) { raw_meaning<VP_CAT(O_, name), V>(storable); }
#define COMMA ,

// integers of all widths, sentinels at the ends and in the middle, also given as literals of another type
SENT(int_42, tiny::optional<int COMMA 42>, int, Not<int>{42})
SENT(int_m1, tiny::optional<int COMMA -1>, int, Not<int>{-1})
SENT(int_min, tiny::optional<int COMMA INT_MIN>, int, Not<int>{INT_MIN})
SENT(int_max_ll, tiny::optional<int COMMA 2147483647LL>, int, Not<int>{INT_MAX})
SENT(uint_max, tiny::optional<unsigned COMMA UINT_MAX>, unsigned, Not<unsigned>{UINT_MAX})
SENT(uint_42, tiny::optional<unsigned COMMA 42>, unsigned, Not<unsigned>{42u})
SENT(schar_m128, tiny::optional<signed char COMMA -128>, signed char, (Not<signed char>{-128}))
SENT(schar_m1, tiny::optional<signed char COMMA -1LL>, signed char, (Not<signed char>{-1}))
SENT(uchar_255, tiny::optional<unsigned char COMMA 255>, unsigned char, (Not<unsigned char>{255}))
SENT(char_a, tiny::optional<char COMMA 'a'>, char, Not<char>{'a'})
SENT(short_min, tiny::optional<short COMMA -32768>, short, Not<short>{-32768})
SENT(ushort_max, tiny::optional<unsigned short COMMA 65535>, unsigned short, (Not<unsigned short>{65535}))
SENT(long_m1, tiny::optional<long COMMA -1>, long, Not<long>{-1})
SENT(ulong_max, tiny::optional<unsigned long COMMA ULONG_MAX>, unsigned long, (Not<unsigned long>{ULONG_MAX}))
SENT(ll_min, tiny::optional<long long COMMA LLONG_MIN>, long long, (Not<long long>{LLONG_MIN}))
SENT(ll_5u, tiny::optional<long long COMMA 5u>, long long, (Not<long long>{5}))
SENT(ll_big, tiny::optional<long long COMMA 0x100000000ull>, long long, (Not<long long>{0x100000000ll}))
SENT(ull_max, tiny::optional<unsigned long long COMMA ULLONG_MAX>, unsigned long long, (Not<unsigned long long>{ULLONG_MAX}))
SENT(ull_0, tiny::optional<unsigned long long COMMA 0>, unsigned long long, (Not<unsigned long long>{0}))
SENT(char16, tiny::optional<char16_t COMMA u'z'>, char16_t, Not<char16_t>{u'z'})
SENT(char32, tiny::optional<char32_t COMMA 0xffffffffu>, char32_t, Not<char32_t>{char32_t(0xffffffffu)})
SENT(wchar, tiny::optional<wchar_t COMMA L'x'>, wchar_t, Not<wchar_t>{L'x'})
SENT(bool_true, tiny::optional<bool COMMA true>, bool, Not<bool>{true})
SENT(bool_false, tiny::optional<bool COMMA false>, bool, Not<bool>{false})
SENT(cint, tiny::optional<int const COMMA 7>, int, Not<int>{7})

enum class E8 : unsigned char { A = 0, B = 1, Bad = 255 };
enum class E64 : long long { Lo = LLONG_MIN, X = 3 };
enum Unscoped { U0, U1, UBad = 77, UMax = 1000000 };
SENT(enum8, tiny::optional<E8 COMMA E8::Bad>, E8, Not<E8>{E8::Bad})
SENT(enum64, tiny::optional<E64 COMMA E64::Lo>, E64, Not<E64>{E64::Lo})

struct UnscopedOk
{
  bool operator()(Unscoped const & u) const { return u != UBad; }
};
SENT(enum_u, tiny::optional<Unscoped COMMA UBad>, Unscoped, UnscopedOk{})

// pointers with an explicit sentinel
SENT(ptr_null, tiny::optional<int * COMMA nullptr>, int *, Not<int *>{nullptr})
static int gTarget;
using O_ptr_obj = tiny::optional<int *, &gTarget>;
PRESERVE(ptr_obj, O_ptr_obj, int *, Not<int *>{&gTarget})

// sentinel via type
struct SentD
{
  static constexpr double value = -1.0;
};
struct SentF
{
  static constexpr float value = 0.0f;
};
struct SentI
{
  static constexpr int value = 1000;
};
struct SentIll
{
  static constexpr long long value = -70000;
};
// (compared with ==: both zeros are the sentinel 0.0f)
SENT(via_double, tiny::optional_sentinel_via_type<double COMMA SentD>, double, Not<double>{-1.0})
SENT(via_float, tiny::optional_sentinel_via_type<float COMMA SentF>, float, Not<float>{0.0f})
SENT(via_int, tiny::optional_sentinel_via_type<int COMMA SentI>, int, Not<int>{1000})
SENT(via_int_ll, tiny::optional_sentinel_via_type<int COMMA SentIll>, int, Not<int>{-70000})

// class type sentinel: the payload's own == decides
struct Cls
{
  int a;
  short b, c;
  friend constexpr bool operator==(Cls const & x, Cls const & y) noexcept { return x.a == y.a && x.b == y.b; }
};
struct SentCls
{
  static constexpr Cls value{5, -3, 9};
};
SENT(via_class, tiny::optional_sentinel_via_type<Cls COMMA SentCls>, Cls, (Not<Cls>{Cls{5, -3, 0}}))
#ifdef VP_CXX20
SENT(nttp_class, tiny::optional<Cls COMMA (Cls{1, 2, 3})>, Cls, (Not<Cls>{Cls{1, 2, 3}}))
#endif

// sentinel_flag_manipulator, registered for a type and given to optional_inplace
enum class Reg : short { A, Invalid = -5 };
struct RegCls
{
  unsigned x;
  explicit constexpr RegCls(unsigned x = 0) noexcept : x(x) {}
  friend constexpr bool operator==(RegCls const & a, RegCls const & b) noexcept { return a.x == b.x; }
  friend constexpr bool operator==(RegCls const & a, unsigned b) noexcept { return a.x == b; }
};
template <>
struct tiny::optional_flag_manipulator<Reg> : tiny::sentinel_flag_manipulator<Reg, Reg::Invalid>
{
};
template <>
struct tiny::optional_flag_manipulator<RegCls> : tiny::sentinel_flag_manipulator<RegCls, 0xdeadbeefu>
{
};
SENT(reg_enum, tiny::optional<Reg>, Reg, Not<Reg>{Reg::Invalid})
SENT(reg_class, tiny::optional<RegCls>, RegCls, Not<RegCls>{RegCls(0xdeadbeefu)})
SENT(reg_aip, tiny::optional_aip<Reg>, Reg, Not<Reg>{Reg::Invalid})
SENT(reg_other, tiny::optional<Reg COMMA Reg::A>, Reg, Not<Reg>{Reg::A})
SENT(inplace_int, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA 7>>, int, Not<int>{7})
SENT(inplace_uchar, tiny::optional_inplace<unsigned char COMMA tiny::sentinel_flag_manipulator<unsigned char COMMA 'q'>>,
     unsigned char, Not<unsigned char>{'q'})

// operator& overloaded: leads to a decoy
struct Amp
{
  unsigned x;
  Amp * operator&() const noexcept;
  explicit constexpr Amp(unsigned x = 0) noexcept : x(x) {}
  friend constexpr bool operator==(Amp const & a, Amp const & b) noexcept { return a.x == b.x; }
  friend constexpr bool operator==(Amp const & a, unsigned b) noexcept { return a.x == b; }
};
static Amp decoy(77);
Amp * Amp::operator&() const noexcept
{
  return std::addressof(decoy);
}
struct SentAmp
{
  static constexpr Amp value{5};
};
template <>
struct tiny::optional_flag_manipulator<Amp> : tiny::sentinel_flag_manipulator<Amp, 0xdeadbeefu>
{
};
SENT(reg_amp, tiny::optional<Amp>, Amp, Not<Amp>{Amp(0xdeadbeefu)})
SENT(via_amp, tiny::optional_sentinel_via_type<Amp COMMA SentAmp>, Amp, Not<Amp>{Amp(5)})
SENT(inplace_amp, tiny::optional_inplace<Amp COMMA tiny::sentinel_flag_manipulator<Amp COMMA 6u>>, Amp, Not<Amp>{Amp(6)})

// make_optional with a sentinel
VP_HARNESS(make_sentinel)
{
  Any<int> v("v");
  vp_assume(v.v != 42);
  auto a = tiny::make_optional<int, 42>(v.v);
  static_assert(std::is_same_v<decltype(a), tiny::optional<int, 42>>);
  check_holds(a, v.v);
  auto b = tiny::make_optional<int, 42>(static_cast<int const &>(v.v));
  check_holds(b, v.v);
  vp_obs(static_cast<unsigned>(*a));
  vp_cover("made");
}
