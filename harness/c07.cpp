// C07: exceptions leave the state std::optional would leave.
#include "life.h"
#define EXC_H(name, O, P, F) VP_HARNESS(name) { differential<O, P, F>(0, opEnd, 3, true); }
EXC_H(sep_ts, Sep<TS>, TS, false)
EXC_H(sep_tn, Sep<TN>, TN, false)
EXC_H(sep_tt, Sep<TT>, TT, false)
EXC_H(sep_mot, Sep<MOT>, MOT, false)
EXC_H(memint_ts, MemInt<TS>, TS, false)
EXC_H(memint_tn, MemInt<TN>, TN, false)
EXC_H(memint_tt, MemInt<TT>, TT, false)
EXC_H(inpl_ts, Inpl<TS>, TS, true)
EXC_H(inpl_mot, Inpl<MOT>, MOT, true)
EXC_H(reg_rn, tiny::optional<RN>, RN, true)
EXC_H(memtr, MemTr<WMS>, WMS, kMem)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
EXC_H(memdbl_ts, MemDbl<TS>, TS, false)
EXC_H(membool_tt, MemBool<TT>, TT, false)
#endif

// std::make_optional / tiny::make_optional
VP_HARNESS(make)
{
  W.clear();
  int v = vp_int("v");
  unsigned const way = vp_choose(3, "way");
  bool threw = false;
  W.recording = true;
  W.throw_in = 1;
  try {
    if (way == 0)
      (void)tiny::make_optional<TS>(v);
    else if (way == 1)
      (void)tiny::make_optional<TS>({v, 2}, 3);
    else
      (void)tiny::make_optional<TS>(v, 3);
  }
  catch (Boom const & b) {
    threw = b.code == 4711;
  }
  CHECK(threw, "exception propagates");
  CHECK(W.nlive == 0, "nothing left");
  vp_cover("threw");
}

// Callables of the monadic operations and payload conversions that throw: the exception reaches the caller, the
// optional is untouched.
template <class T>
struct NoThrowResult
{
  T v;
};
template <class O, class V>
static void monadic()
{
  Any<V> v("v");
  vp_assume(!same_bits(v.v, V(kReserved)));
  if constexpr (std::is_same_v<V, double>)
    vp_assume(bits_of(v.v) != 0x7ff8fedcba987654ull);
  unsigned const way = vp_choose(10, "way");
  unsigned const st = vp_choose(2, "engaged");
  Arena<O> A("mem");
  O & o = A.make();
  if (st)
    o.emplace(v.v);
  O const & c = o;
  int calls = 0;
  bool threw = false;
  auto tr = [&](auto &&) -> int {
    ++calls;
    throw Boom{99};
  };
  auto at = [&](auto &&) -> tiny::optional<int> {
    ++calls;
    throw Boom{99};
  };
  auto td = [&](auto &&) -> double {
    ++calls;
    throw Boom{99};
  };
  [[maybe_unused]] auto oe = [&]() -> O {
    ++calls;
    throw Boom{99};
  };
  bool expect = st != 0;
  try {
    switch (way) {
    case 0: (void)o.transform(tr); break;
    case 1: (void)c.transform(tr); break;
    case 2: (void)std::move(o).transform(tr); break;
    case 3: (void)std::move(c).transform(td); break;
    case 4: (void)o.and_then(at); break;
    case 5: (void)c.and_then(at); break;
    case 6: (void)std::move(o).and_then(at); break;
    case 7: (void)std::move(c).and_then(at); break;
#ifdef VP_CXX20
    case 8:
      expect = !expect;
      (void)c.or_else(oe);
      break;
    case 9:
      expect = !expect;
      (void)std::move(o).or_else(oe);
      break;
#endif
    default: vp_assume(0);
    }
  }
  catch (Boom const & b) {
    threw = b.code == 99;
  }
  CHECK(threw == expect, "the callable's exception propagates");
  CHECK(calls == (expect ? 1 : 0), "called once iff applicable");
  CHECK(o.has_value() == (st != 0), "state untouched");
  if (st)
    CHECK(same_bits<V>(*c, v.v), "value untouched");
  CHECK(A.guards_intact(), "neighbours");
  A.destroy();
  vp_cover(threw ? "threw" : "not called");
}
VP_HARNESS(monadic_int) { monadic<tiny::optional<int>, int>(); }
VP_HARNESS(monadic_sentinel) { monadic<tiny::optional<int, kReserved>, int>(); }
VP_HARNESS(monadic_double) { monadic<tiny::optional<double>, double>(); }
VP_HARNESS(monadic_inpl)
{
  monadic<tiny::optional_inplace<short, tiny::sentinel_flag_manipulator<short, short(kReserved)>>, short>();
}

// value() of an empty optional, in all value categories
VP_HARNESS(bad_access)
{
  unsigned const way = vp_choose(4, "way");
  Arena<tiny::optional<double>> A("mem");
  auto & o = A.make();
  auto const & c = o;
  bool threw = false;
  try {
    switch (way) {
    case 0: (void)o.value(); break;
    case 1: (void)c.value(); break;
    case 2: (void)std::move(o).value(); break;
    default: (void)std::move(c).value(); break;
    }
  }
  catch (std::bad_optional_access const &) {
    threw = true;
  }
  CHECK(threw && !o.has_value(), "bad_optional_access");
  vp_cover("threw");
  A.destroy();
}

// Conversions that throw: from another type, in every place a conversion is applied
struct ThrowConv
{
  int x;
  operator int() const
  {
    if (x < 0)
      throw Boom{5};
    return x;
  }
};
template <class O>
static void conversions()
{
  ThrowConv t{vp_int("x")};
  int w = vp_int("w");
  vp_assume(w != kReserved);
  unsigned const way = vp_choose(5, "way");
  unsigned const st = vp_choose(2, "engaged");
  Arena<O> A("mem");
  O & o = A.make();
  if (st)
    o.emplace(w);
  bool threw = false;
  int got = 0;
  bool eng = false;
  try {
    switch (way) {
    case 0: o = t; break;
    case 1: o.emplace(t); break;
    case 2: {
      O c(t);
      eng = c.has_value();
      got = *c;
      break;
    }
    case 3: {
      O c(std::in_place, t);
      eng = c.has_value();
      got = *c;
      break;
    }
    default: got = o.value_or(t); break;
    }
  }
  catch (Boom const &) {
    threw = true;
  }
  CHECK(threw == (t.x < 0 && !(way == 4 && st)), "throws iff the conversion throws");
  if (way == 0) {
    CHECK(o.has_value() == (st || !threw), "assignment state");
    if (o.has_value())
      CHECK(*o == (threw ? w : t.x), "assignment value");
  }
  else if (way == 1) {
    CHECK(o.has_value() == !threw, "emplace state");
    if (!threw)
      CHECK(*o == t.x, "emplace value");
  }
  else {
    CHECK(o.has_value() == (st != 0), "untouched");
    if (st)
      CHECK(*o == w, "untouched value");
    if (!threw && way < 4)
      CHECK(eng && got == t.x, "constructed value");
    if (!threw && way == 4)
      CHECK(got == (st ? w : t.x), "value_or");
  }
  A.destroy();
  vp_cover(threw ? "threw" : "completed");
}
VP_HARNESS(conv_sep) { conversions<tiny::optional<int>>(); }
VP_HARNESS(conv_sentinel) { conversions<tiny::optional<int, kReserved>>(); }
VP_HARNESS(conv_inpl) { conversions<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, kReserved>>>(); }
