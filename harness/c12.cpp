// C12: swap exchanges the two optionals completely.
#include "life.h"
#define SWAP_H(name, O, P, F)                                                                                          \
  VP_HARNESS(name##_swap) { differential<O, P, F>(opSwap, opSelfSwap + 1, 0, true); }                                  \
  VP_HARNESS(name##_throw) { differential<O, P, F>(opSwap, opSelfSwap + 1, 3, true); }                                 \
  VP_HARNESS(name##_twice) { differential<O, P, F>(opSwap, opSelfSwap + 1, 0, true, 2); }
SWAP_H(sep_ts, Sep<TS>, TS, false)
SWAP_H(sep_tn, Sep<TN>, TN, false)
SWAP_H(sep_tt, Sep<TT>, TT, false)
SWAP_H(sep_mo, Sep<MO>, MO, false)
SWAP_H(sep_mot, Sep<MOT>, MOT, false)
SWAP_H(memint_ts, MemInt<TS>, TS, false)
SWAP_H(memint_tn, MemInt<TN>, TN, false)
SWAP_H(memint_tt, MemInt<TT>, TT, false)
SWAP_H(inpl_ts, Inpl<TS>, TS, true)
SWAP_H(inpl_tn, Inpl<TN>, TN, true)
SWAP_H(inpl_mot, Inpl<MOT>, MOT, true)
SWAP_H(reg_rn, tiny::optional<RN>, RN, true)
SWAP_H(memtr, MemTr<WMS>, WMS, kMem)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
SWAP_H(memdbl_ts, MemDbl<TS>, TS, false)
SWAP_H(membool_tt, MemBool<TT>, TT, false)
#endif

// plain payloads, all values
template <class O, class V, class Ok>
static void plain(Ok ok)
{
  Any<V> x("x"), y("y");
  vp_assume(ok(x.v) && ok(y.v));
  unsigned const sa = vp_choose(2, "a"), sb = vp_choose(2, "b"), how = vp_choose(4, "how");
  Arena<O> A("memA"), B("memB");
  O &a = A.make(), &b = B.make();
  if (sa)
    a.emplace(x.v);
  if (sb)
    b.emplace(y.v);
  switch (how) {
  case 0: a.swap(b); break;
  case 1: swap(a, b); break;
  case 2: {
    using std::swap;
    swap(b, a);
    break;
  }
  default:
    a.swap(b);
    a.swap(a);
    b.swap(b);
    break;
  }
  CHECK(a.has_value() == (sb != 0) && b.has_value() == (sa != 0), "states exchanged");
  if (sb)
    CHECK(same_bits<V>(*a, y.v), "a has b's value");
  if (sa)
    CHECK(same_bits<V>(*b, x.v), "b has a's value");
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours");
  vp_obs(a.has_value());
  A.destroy();
  B.destroy();
  vp_cover("swapped");
}
struct AnyOk
{
  template <class T>
  bool operator()(T const & v) const
  {
    if constexpr (std::is_same_v<T, double>)
      return !kBits || bits_of(v) != 0x7ff8fedcba987654ull;
    else if constexpr (std::is_same_v<T, float>)
      return !kBits || bits_of(v) != 0x7fedcba9ull;
    else if constexpr (std::is_pointer_v<T>)
      return !kBits || bits_of(v) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
    else
      return true;
  }
};
struct NotRes
{
  bool operator()(int v) const { return v != kReserved; }
};
struct PairS
{
  int a;
  short b, c;
};
struct NotResB
{
  bool operator()(PairS const & v) const { return v.b != 3; }
};
// larger than any register, flag in the middle
struct Large
{
  unsigned char head[34];
  short flag;
  int mid;
  double d;
  unsigned char tail[24];
};
struct NotResLarge
{
  bool operator()(Large const & v) const { return v.flag != 3; }
};
VP_HARNESS(p_large) { plain<tiny::optional<Large>, Large>(AnyOk{}); }
VP_HARNESS(p_large_mem) { plain<tiny::optional<Large, &Large::flag, 3>, Large>(NotResLarge{}); }
VP_HARNESS(p_bool) { plain<tiny::optional<bool>, bool>(AnyOk{}); }
VP_HARNESS(p_double) { plain<tiny::optional<double>, double>(AnyOk{}); }
VP_HARNESS(p_float) { plain<tiny::optional<float>, float>(AnyOk{}); }
VP_HARNESS(p_ptr) { plain<tiny::optional<char *>, char *>(AnyOk{}); }
VP_HARNESS(p_int) { plain<tiny::optional<int>, int>(AnyOk{}); }
VP_HARNESS(p_ll) { plain<tiny::optional<long long>, long long>(AnyOk{}); }
VP_HARNESS(p_sent) { plain<tiny::optional<int, kReserved>, int>(NotRes{}); }
VP_HARNESS(p_mem) { plain<tiny::optional<PairS, &PairS::b, 3>, PairS>(NotResB{}); }
struct SentRes
{
  static constexpr int value = kReserved;
};
struct NotMin
{
  template <class T>
  bool operator()(T v) const { return v != (std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()); }
};
enum class Es : short { A, Bad = 5 };
struct NotBad
{
  bool operator()(Es v) const { return v != Es::Bad; }
};
VP_HARNESS(p_via) { plain<tiny::optional_sentinel_via_type<int, SentRes>, int>(NotRes{}); }
VP_HARNESS(p_aip_int) { plain<tiny::optional_aip<int>, int>(NotMin{}); }
VP_HARNESS(p_aip_ull) { plain<tiny::optional_aip<unsigned long long>, unsigned long long>(NotMin{}); }
VP_HARNESS(p_aip_ushort) { plain<tiny::optional_aip<unsigned short>, unsigned short>(NotMin{}); }
VP_HARNESS(p_enum) { plain<tiny::optional<Es, Es::Bad>, Es>(NotBad{}); }
VP_HARNESS(p_enum_sep) { plain<tiny::optional<Es>, Es>(AnyOk{}); }
VP_HARNESS(p_uchar) { plain<tiny::optional<unsigned char>, unsigned char>(AnyOk{}); }
VP_HARNESS(p_fn) { plain<tiny::optional<void (*)()>, void (*)()>(AnyOk{}); }
VP_HARNESS(p_inpl)
{
  plain<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, kReserved>>, int>(NotRes{});
}
