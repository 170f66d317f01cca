// C13: copies are equal and independent, moves leave the source engaged; payload operations exactly as std::optional.
#include "life.h"
#define CM_H(name, O, P, F)                                                                                            \
  VP_HARNESS(name##_cm) { differential<O, P, F>(0, opSwap, 0, true); }                                                 \
  VP_HARNESS(name##_val) { differential<O, P, F>(opValAsgL, opEnd, 0, true); }
CM_H(sep_ts, Sep<TS>, TS, false)
CM_H(sep_tn, Sep<TN>, TN, false)
CM_H(sep_mo, Sep<MO>, MO, false)
CM_H(memint_ts, MemInt<TS>, TS, false)
CM_H(memint_tn, MemInt<TN>, TN, false)
CM_H(inpl_ts, Inpl<TS>, TS, true)
CM_H(inpl_tn, Inpl<TN>, TN, true)
CM_H(inpl_mo, Inpl<MO>, MO, true)
CM_H(reg_rs, tiny::optional<RS>, RS, true)
CM_H(memtr, MemTr<WMS>, WMS, kMem)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
CM_H(memdbl_ts, MemDbl<TS>, TS, false)
CM_H(membool_tn, MemBool<TN>, TN, false)
#endif
VP_HARNESS(sep_two) { differential<Sep<TS>, TS, false>(0, opSwap, 0, true, 2); }
VP_HARNESS(inpl_two) { differential<Inpl<TN>, TN, true>(0, opSwap, 0, true, 2); }

// plain payloads: copies have the same bits and are independent of the source
template <class O, class V, class Ok>
static void plain(Ok ok)
{
  Any<V> x("x"), y("y"), z("z");
  vp_assume(ok(x.v) && ok(y.v) && ok(z.v));
  unsigned const sa = vp_choose(2, "src"), sb = vp_choose(3, "dst"), how = vp_choose(6, "how"), self = vp_choose(4, "self assignment first");
  Arena<O> A("memA"), B("memB");
  O & a = A.make();
  if (sa)
    a.emplace(x.v);
  O & alias = a;
  switch (self) {
  case 1: a = static_cast<O const &>(alias); break;
  case 2: a = std::move(alias); break;
  case 3:
    if (sa)
      a = static_cast<V const &>(*alias);
    break;
  default: break;
  }
  if (how < 2) {
    vp_assume(sb == 0);
    if (how == 0)
      B.make(static_cast<O const &>(a));
    else
      B.make(std::move(a));
  }
  else {
    B.make();
    if (sb)
      B.obj->emplace(y.v);
    if (sb == 2)
      B.obj->reset();
    switch (how) {
    case 2: *B.obj = static_cast<O const &>(a); break;
    case 3: *B.obj = std::move(a); break;
    case 4: *B.obj = a; break;
    default: {
      O tmp = a;
      *B.obj = std::move(tmp);
      CHECK(tmp.has_value() == (sa != 0), "the moved-from temporary keeps its state");
      break;
    }
    }
  }
  O & b = *B.obj;
  CHECK(a.has_value() == (sa != 0), "source keeps its state");
  CHECK(b.has_value() == (sa != 0), "copy has the source's state");
  if (sa) {
    CHECK(same_bits<V>(*a, x.v), "source keeps its value");
    CHECK(same_bits<V>(*b, x.v), "copy has the source's value");
    CHECK(std::addressof(*a) != std::addressof(*b), "two payloads");
  }
  // independent
  a.emplace(z.v);
  CHECK(b.has_value() == (sa != 0), "copy independent of the source");
  if (sa)
    CHECK(same_bits<V>(*b, x.v), "copy's value independent of the source");
  b.reset();
  CHECK(a.has_value() && same_bits<V>(*a, z.v), "source independent of the copy");
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours");
  vp_obs(b.has_value());
  A.destroy();
  B.destroy();
  vp_cover("copied");
}
struct AnyOk
{
  template <class T>
  bool operator()(T const & v) const
  {
    if constexpr (std::is_same_v<T, double>)
      return !kBits || bits_of(v) != 0x7ff8fedcba987654ull;
    else if constexpr (std::is_same_v<T, float>)
      return !kBits || bits_of(v) != 0x7fedcba9ull;
    else if constexpr (std::is_pointer_v<T>)
      return !kBits || bits_of(v) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
    else
      return true;
  }
};
struct NotRes
{
  bool operator()(int v) const { return v != kReserved; }
};
struct PairS
{
  int a;
  short b, c;
};
struct NotResB
{
  bool operator()(PairS const & v) const { return v.b != 3; }
};
// larger than any register, flag in the middle
struct Large
{
  unsigned char head[34];
  short flag;
  int mid;
  double d;
  unsigned char tail[24];
};
struct NotResLarge
{
  bool operator()(Large const & v) const { return v.flag != 3; }
};
VP_HARNESS(p_large) { plain<tiny::optional<Large>, Large>(AnyOk{}); }
VP_HARNESS(p_large_mem) { plain<tiny::optional<Large, &Large::flag, 3>, Large>(NotResLarge{}); }
VP_HARNESS(p_bool) { plain<tiny::optional<bool>, bool>(AnyOk{}); }
VP_HARNESS(p_double) { plain<tiny::optional<double>, double>(AnyOk{}); }
VP_HARNESS(p_float) { plain<tiny::optional<float>, float>(AnyOk{}); }
VP_HARNESS(p_ptr) { plain<tiny::optional<char *>, char *>(AnyOk{}); }
VP_HARNESS(p_int) { plain<tiny::optional<int>, int>(AnyOk{}); }
VP_HARNESS(p_pair) { plain<tiny::optional<PairS>, PairS>(AnyOk{}); }
VP_HARNESS(p_sent) { plain<tiny::optional<int, kReserved>, int>(NotRes{}); }
VP_HARNESS(p_mem) { plain<tiny::optional<PairS, &PairS::b, 3>, PairS>(NotResB{}); }
struct SentRes
{
  static constexpr int value = kReserved;
};
struct NotMin
{
  template <class T>
  bool operator()(T v) const { return v != (std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()); }
};
enum class Es : short { A, Bad = 5 };
struct NotBad
{
  bool operator()(Es v) const { return v != Es::Bad; }
};
VP_HARNESS(p_via) { plain<tiny::optional_sentinel_via_type<int, SentRes>, int>(NotRes{}); }
VP_HARNESS(p_aip_int) { plain<tiny::optional_aip<int>, int>(NotMin{}); }
VP_HARNESS(p_aip_ull) { plain<tiny::optional_aip<unsigned long long>, unsigned long long>(NotMin{}); }
VP_HARNESS(p_aip_ushort) { plain<tiny::optional_aip<unsigned short>, unsigned short>(NotMin{}); }
VP_HARNESS(p_enum) { plain<tiny::optional<Es, Es::Bad>, Es>(NotBad{}); }
VP_HARNESS(p_enum_sep) { plain<tiny::optional<Es>, Es>(AnyOk{}); }
VP_HARNESS(p_uchar) { plain<tiny::optional<unsigned char>, unsigned char>(AnyOk{}); }
VP_HARNESS(p_fn) { plain<tiny::optional<void (*)()>, void (*)()>(AnyOk{}); }
VP_HARNESS(p_inpl)
{
  plain<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, kReserved>>, int>(NotRes{});
}
