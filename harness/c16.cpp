// C16: without the UB tricks everything still behaves the same, for every bit pattern.
#include "store.h"
#define COMMA ,

namespace
{
template <class V>
bool any(V const &)
{
  return true;
}
// Patterns that are reserved in this configuration (none where the trick is off).
bool dbl(double const & d)
{
  return !kBits || bits_of(d) != 0x7ff8fedcba987654ull;
}
bool flt(float const & d)
{
  return !kBits || bits_of(d) != 0x7fedcba9u;
}
template <class P>
bool ptr(P const & p)
{
  return !kBits || bits_of(p) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
}
struct M
{
  char c;
  bool b;
  double d;
  float f;
  int i;
  int * p;
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&c, 1, n);
    b = vp_bool(n);
    vp_sym_bytes(&d, sizeof d, n);
    vp_sym_bytes(&f, sizeof f, n);
    vp_sym_bytes(&i, sizeof i, n);
    vp_sym_bytes(&p, sizeof p, n);
  }
  bool vp_same(M const & o) const
  {
    return c == o.c && b == o.b && bits_of(d) == bits_of(o.d) && bits_of(f) == bits_of(o.f) && i == o.i
           && bits_of(p) == bits_of(o.p);
  }
};
bool m_i(M const & m)
{
  return !kMem || m.i != -5;
}
bool m_d(M const & m)
{
  return !(kMem && kBits) || bits_of(m.d) != 0x7ff8fedcba987654ull;
}
bool m_f(M const & m)
{
  return !(kMem && kBits) || bits_of(m.f) != 0x7fedcba9u;
}
bool m_p(M const & m)
{
  return !(kMem && kBits) || bits_of(m.p) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
}
bool r5(int const & v)
{
  return v != -5;
}
struct Five
{
  static constexpr int value = -5;
};
} // namespace

PRESERVE(k_dbl, tiny::optional<double>, double, dbl)
PRESERVE(k_cdbl, tiny::optional<double const>, double, dbl)
PRESERVE(k_flt, tiny::optional<float>, float, flt)
PRESERVE(k_bool, tiny::optional<bool>, bool, any<bool>)
PRESERVE(k_ptr, tiny::optional<int *>, int *, ptr<int *>)
PRESERVE(k_vptr, tiny::optional<void const *>, void const *, ptr<void const *>)
PRESERVE(k_int, tiny::optional<int>, int, any<int>)
PRESERVE(k_mi, tiny::optional<M COMMA & M::i COMMA - 5>, M, m_i)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
PRESERVE(k_md, tiny::optional<M COMMA & M::d>, M, m_d)
PRESERVE(k_mf, tiny::optional<M COMMA & M::f>, M, m_f)
PRESERVE(k_mb, tiny::optional<M COMMA & M::b>, M, any<M>)
PRESERVE(k_mp, tiny::optional<M COMMA & M::p>, M, m_p)
#endif
// not affected by the macros
PRESERVE(k_sent, tiny::optional<int COMMA - 5>, int, r5)
PRESERVE(k_bsent, tiny::optional<bool COMMA true>, bool, [](bool const & b) { return !b; })
PRESERVE(k_via, tiny::optional_sentinel_via_type<int COMMA Five>, int, r5)
PRESERVE(k_aip, tiny::optional_aip<unsigned>, unsigned, [](unsigned const & u) { return u != UINT_MAX; })
PRESERVE(k_inp, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA - 5>>, int, r5)

// The documented configuration: names, sizes.
template <class O, class P>
static void affected(bool trick)
{
  CHECK(O::is_compressed == trick, "is_compressed tells whether the trick is used");
  CHECK(sizeof(O) == (trick ? sizeof(P) : sizeof(std::optional<P>)), "size of the payload or of std::optional");
}
VP_HARNESS(layout)
{
  unsigned const z = vp_choose(1, "z");
  affected<tiny::optional<double>, double>(kBits);
  affected<tiny::optional<double const>, double const>(kBits);
  affected<tiny::optional<float>, float>(kBits);
  affected<tiny::optional<bool>, bool>(kBits);
  affected<tiny::optional<int *>, int *>(kBits);
  affected<tiny::optional<void (*)(int)>, void (*)(int)>(kBits);
  affected<tiny::optional<M, &M::i, -5>, M>(kMem);
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  affected<tiny::optional<M, &M::d>, M>(kMem);
  affected<tiny::optional<M, &M::b>, M>(kMem);
  affected<tiny::optional<M, &M::p>, M>(kMem);
#endif
  affected<tiny::optional<int>, int>(false);
  affected<tiny::optional<int, -5>, int>(true);
  affected<tiny::optional<bool, true>, bool>(true);
  affected<tiny::optional_sentinel_via_type<int, Five>, int>(true);
  affected<tiny::optional_aip<long long>, long long>(true);
  affected<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, -5>>, int>(true);
  CHECK(z == 0, "one");
  vp_cover("layout");
}

// The whole public interface of the affected flavours, side by side with std::optional, for all values.
template <class O, class V, class Ok, class Eq>
static void interface(Ok ok, Eq eq)
{
  using S = std::optional<V>;
  Any<V> x("x"), y("y");
  vp_assume(ok(x.v) && ok(y.v));
  unsigned const sa = vp_choose(2, "a"), sb = vp_choose(2, "b"), op = vp_choose(14, "op");
  O a, b;
  S c, d;
  if (sa) {
    a.emplace(x.v);
    c.emplace(x.v);
  }
  if (sb) {
    b = O(y.v);
    d = S(y.v);
  }
  bool rt = false, rs = false;
  switch (op) {
  case 0:
    a = b;
    c = d;
    break;
  case 1:
    a = std::move(b);
    c = std::move(d);
    break;
  case 2:
    a.swap(b);
    c.swap(d);
    break;
  case 3:
    swap(a, b);
    swap(c, d);
    break;
  case 4:
    a = y.v;
    c = y.v;
    break;
  case 5:
    a.reset();
    c.reset();
    break;
  case 6:
    a = {};
    c = {};
    break;
  case 7:
    rt = same_bits<V>(a.value_or(y.v), x.v);
    rs = same_bits<V>(c.value_or(y.v), x.v);
    break;
  case 8:
    try {
      rt = same_bits<V>(a.value(), y.v);
    }
    catch (std::bad_optional_access const &) {
      rt = true;
    }
    try {
      rs = same_bits<V>(c.value(), y.v);
    }
    catch (std::bad_optional_access const &) {
      rs = true;
    }
    break;
  case 9: {
    int n = 0;
    auto f = [&](V const & v) {
      ++n;
      return same_bits<V>(v, x.v);
    };
    auto r = a.transform(f);
    rt = r.has_value() && *r && n == 1;
    rs = c.has_value();
    break;
  }
  case 10: {
    auto r = std::move(a).and_then([&](V const & v) { return same_bits<V>(v, x.v) ? O(y.v) : O(); });
    rt = r.has_value() && same_bits<V>(*r, y.v);
    rs = c.has_value();
    break;
  }
  case 11:
    rt = eq(a, b);
    rs = eq(c, d);
    break;
  case 12: {
    O t(a);
    O u(std::move(a));
    b = t;
    S v(c);
    S w(std::move(c));
    d = v;
    rt = u.has_value();
    rs = w.has_value();
    break;
  }
  default: {
    auto r = tiny::make_optional(y.v);
    rt = r.has_value() && same_bits<V>(*r, y.v);
    rs = true;
    break;
  }
  }
  CHECK(rt == rs, "result as std::optional");
  CHECK(a.has_value() == c.has_value() && b.has_value() == d.has_value(), "states as std::optional");
  if (a.has_value())
    CHECK(same_bits<V>(*a, *c), "value as std::optional");
  if (b.has_value())
    CHECK(same_bits<V>(*b, *d), "other value as std::optional");
  vp_obs(a.has_value());
  vp_obs(rt);
  vp_cover("interface");
}
namespace
{
struct Eq
{
  template <class A>
  bool operator()(A const & a, A const & b) const
  {
    return a == b || a != std::nullopt;
  }
};
struct NoEq
{
  template <class A>
  bool operator()(A const & a, A const & b) const
  {
    return (a == std::nullopt) != (std::nullopt == b);
  }
};
} // namespace
VP_HARNESS(i_dbl) { interface<tiny::optional<double>, double>(dbl, Eq{}); }
VP_HARNESS(i_flt) { interface<tiny::optional<float>, float>(flt, Eq{}); }
VP_HARNESS(i_bool) { interface<tiny::optional<bool>, bool>(any<bool>, Eq{}); }
VP_HARNESS(i_ptr) { interface<tiny::optional<int *>, int *>(ptr<int *>, Eq{}); }
VP_HARNESS(i_mi) { interface<tiny::optional<M, &M::i, -5>, M>(m_i, NoEq{}); }
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
VP_HARNESS(i_md) { interface<tiny::optional<M, &M::d>, M>(m_d, NoEq{}); }
VP_HARNESS(i_mb) { interface<tiny::optional<M, &M::b>, M>(any<M>, NoEq{}); }
#endif
VP_HARNESS(i_sent) { interface<tiny::optional<int, -5>, int>(r5, Eq{}); }

// Under the member macro a member without any known sentinel may be named, too: the flag is a separate bool anyway.
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)
PRESERVE(k_mc, tiny::optional<M COMMA & M::c>, M, any<M>)
VP_HARNESS(l_mc)
{
  unsigned const z = vp_choose(1, "z");
  affected<tiny::optional<M, &M::c>, M>(false);
  CHECK(z == 0, "one");
  vp_cover("layout");
}
#endif
