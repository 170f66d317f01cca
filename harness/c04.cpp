// C04: the empty flag lives in a member of the payload; the whole payload survives.
#include "store.h"

inline constexpr unsigned long long kDoubleSentinel = 0x7ff8fedcba987654ull;
inline constexpr unsigned long long kFloatSentinel = 0x7fedcba9ull;
inline constexpr unsigned long long kPtrSentinel = k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1;

#define M1(a) vp_any_into(a, n);
#define S1(a) same_bits(a, o.a)
#define REFLECT(FILL, SAME)                                                                                            \
  void vp_fill(char const * n) { FILL }                                                                                \
  bool vp_same([[maybe_unused]] T_ const & o) const { return SAME; }

struct BoolMid
{
  using T_ = BoolMid;
  int a;
  bool flag;
  short b;
  REFLECT(M1(a) M1(flag) M1(b), S1(a) && S1(flag) && S1(b))
};
struct BoolFirst
{
  using T_ = BoolFirst;
  bool flag;
  bool other;
  long long x;
  REFLECT(M1(flag) M1(other) M1(x), S1(flag) && S1(other) && S1(x))
};
struct BoolLast
{
  using T_ = BoolLast;
  double d;
  unsigned char c;
  bool flag;
  REFLECT(M1(d) M1(c) M1(flag), S1(d) && S1(c) && S1(flag))
};
struct Dbl
{
  using T_ = Dbl;
  int i;
  double d;
  double e;
  REFLECT(M1(i) M1(d) M1(e), S1(i) && S1(d) && S1(e))
};
struct Flt
{
  using T_ = Flt;
  char c;
  float f;
  char t;
  REFLECT(M1(c) M1(f) M1(t), S1(c) && S1(f) && S1(t))
};
struct Ptr
{
  using T_ = Ptr;
  short x;
  int * p;
  void (*q)(int);
  int y;
  REFLECT(M1(x) M1(p) M1(q) M1(y), S1(x) && S1(p) && S1(q) && S1(y))
};
struct Ints
{
  using T_ = Ints;
  unsigned char c;
  int i;
  unsigned short u;
  unsigned char e;
  long long l;
  REFLECT(M1(c) M1(i) M1(u) M1(e) M1(l), S1(c) && S1(i) && S1(u) && S1(e) && S1(l))
};
enum class En : signed char { A, B, Bad = -7 };
enum class Reg : short { A, Invalid = 0x7abc };
struct Inner
{
  using T_ = Inner;
  short s;
  int v;
  REFLECT(M1(s) M1(v), S1(s) && S1(v))
};
template <>
struct tiny::optional_flag_manipulator<Reg> : tiny::sentinel_flag_manipulator<Reg, Reg::Invalid>
{
};
template <>
struct tiny::optional_flag_manipulator<Inner>
{
  static bool is_empty(Inner const & i) noexcept { return i.v == -99; }
  static void init_empty_flag(Inner & i) noexcept { ::new (static_cast<void *>(&i)) Inner{0, -99}; }
  static void invalidate_empty_flag(Inner & i) noexcept { i.~Inner(); }
};
struct Enums
{
  using T_ = Enums;
  char a;
  En e;
  char b;
  Reg r;
  Inner in;
  REFLECT(M1(a) M1(e) M1(b) M1(r) M1(in), S1(a) && S1(e) && S1(b) && S1(r) && S1(in))
};
struct SentD
{
  static constexpr double value = 2.5;
};
struct SentI
{
  static constexpr long long value = -4;
};

#define COMMA ,
// RES: expression over the member m that is true iff m has the reserved value
#define MEM(name, OPT, S, RESERVED)                                                                                    \
  using O_##name = OPT;                                                                                                \
  struct Ok_##name                                                                                                     \
  {                                                                                                                    \
    bool operator()([[maybe_unused]] S const & s) const { return !kMem || !(RESERVED); }                               \
  };                                                                                                                   \
  PRESERVE(name, O_##name, S, Ok_##name{})                                                                             \
  VP_HARNESS(name##_raw) { raw_meaning<O_##name, S>(Ok_##name{}); }                                                    \
  VP_HARNESS(name##_member) { member_write<O_##name, S>(Ok_##name{}); }

template <class O, class S, class Storable>
static void raw_meaning(Storable storable)
{
  CHECK(sizeof(O) == (kMem ? sizeof(S) : sizeof(std::optional<S>)), "documented size");
  CHECK(O::is_compressed == kMem, "is_compressed");
  if constexpr (kMem) {
    Any<S> v("v");
    Arena<O> A("mem");
    O & o = A.make();
    std::memcpy(static_cast<void *>(&o), static_cast<void const *>(&v.v), sizeof(S));
    CHECK(o.has_value() == storable(v.v), "empty iff the member has the reserved value");
    vp_obs(o.has_value());
    vp_cover(o.has_value() ? "engaged" : "is-empty");
    o.reset();
    CHECK(!o.has_value(), "reset");
    A.destroy();
  }
  else
    vp_cover("n/a");
}

// writing through references and assigning engaged optionals keeps has_value() and changes exactly what was written
template <class O, class S, class Storable>
static void member_write(Storable storable)
{
  Any<S> v("v"), w("w"), x("x");
  vp_assume(storable(v.v) && storable(w.v) && storable(x.v));
  Arena<O> A("mem");
  O & o = A.make(v.v);
  *o = w.v;
  CHECK(o.has_value() && same_bits(*o, w.v), "write through *");
  o.value() = x.v;
  CHECK(o.has_value() && same_bits(*o, x.v), "write through value()");
  O p(v.v);
  p = o;
  CHECK(p.has_value() && same_bits(*p, x.v), "copy assignment");
  O q(std::move(p));
  CHECK(q.has_value() && same_bits(*q, x.v), "move construction");
  CHECK(p.has_value(), "moved-from stays engaged");
  q = std::nullopt;
  CHECK(!q.has_value(), "nullopt");
  q = o;
  CHECK(q.has_value() && same_bits(*q, x.v), "copy assignment to empty");
  S r = q.value_or(v.v);
  CHECK(same_bits(r, x.v), "value_or");
  q.reset();
  S r2 = q.value_or(v.v);
  CHECK(same_bits(r2, v.v), "value_or of empty");
  CHECK(A.guards_intact(), "neighbours");
  A.destroy();
  vp_cover("done");
}

#if !defined(VP_C04_NO_HARNESS)
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
// members without explicit sentinel need the unused bits
#else
MEM(bool_mid, tiny::optional<BoolMid COMMA & BoolMid::flag>, BoolMid, bits_of(s.flag) == 0xfe)
MEM(bool_first, tiny::optional<BoolFirst COMMA & BoolFirst::flag>, BoolFirst, bits_of(s.flag) == 0xfe)
MEM(bool_second, tiny::optional<BoolFirst COMMA & BoolFirst::other>, BoolFirst, bits_of(s.other) == 0xfe)
MEM(bool_last, tiny::optional<BoolLast COMMA & BoolLast::flag>, BoolLast, bits_of(s.flag) == 0xfe)
MEM(dbl, tiny::optional<Dbl COMMA & Dbl::d>, Dbl, bits_of(s.d) == kDoubleSentinel)
MEM(dbl2, tiny::optional<Dbl COMMA & Dbl::e>, Dbl, bits_of(s.e) == kDoubleSentinel)
MEM(flt, tiny::optional<Flt COMMA & Flt::f>, Flt, bits_of(s.f) == kFloatSentinel)
MEM(ptr, tiny::optional<Ptr COMMA & Ptr::p>, Ptr, bits_of(s.p) == kPtrSentinel)
MEM(fnptr, tiny::optional<Ptr COMMA & Ptr::q>, Ptr, bits_of(s.q) == kPtrSentinel)
#endif
MEM(int42, tiny::optional<Ints COMMA & Ints::i COMMA 42>, Ints, s.i == 42)
MEM(int_ll, tiny::optional<Ints COMMA & Ints::i COMMA - 70000LL>, Ints, s.i == -70000)
MEM(uchar0, tiny::optional<Ints COMMA & Ints::c COMMA 0>, Ints, s.c == 0)
MEM(uchar255, tiny::optional<Ints COMMA & Ints::e COMMA 255>, Ints, s.e == 255)
MEM(ushort, tiny::optional<Ints COMMA & Ints::u COMMA 65535>, Ints, s.u == 65535)
MEM(llong, tiny::optional<Ints COMMA & Ints::l COMMA LLONG_MIN>, Ints, s.l == LLONG_MIN)
MEM(enm, tiny::optional<Enums COMMA & Enums::e COMMA En::Bad>, Enums, s.e == En::Bad)
MEM(reg, tiny::optional<Enums COMMA & Enums::r>, Enums, s.r == Reg::Invalid)
MEM(reg_sent, tiny::optional<Enums COMMA & Enums::r COMMA Reg::A>, Enums, s.r == Reg::A)
MEM(inner, tiny::optional<Enums COMMA & Enums::in>, Enums, s.in.v == -99)
MEM(bool_sent, tiny::optional<BoolMid COMMA & BoolMid::flag COMMA true>, BoolMid, s.flag == true)
MEM(ptr_null, tiny::optional<Ptr COMMA & Ptr::p COMMA nullptr>, Ptr, s.p == nullptr)
MEM(dbl_via, tiny::optional_sentinel_via_type<Dbl COMMA SentD COMMA & Dbl::d>, Dbl, s.d == 2.5)
MEM(int_via, tiny::optional_sentinel_via_type<Ints COMMA SentI COMMA & Ints::i>, Ints, s.i == -4)

VP_HARNESS(make_member)
{
  Any<Ints> v("v");
  vp_assume(v.v.i != 42);
  auto o = tiny::make_optional<Ints, &Ints::i, 42>(v.v);
  CHECK(o.has_value() && same_bits(*o, v.v), "make_optional");
  auto p = tiny::make_optional<Ints, &Ints::i, 42>(Ints(v.v));
  CHECK(p.has_value() && same_bits(*p, v.v), "make_optional rvalue");
  vp_cover("made");
}
#endif
