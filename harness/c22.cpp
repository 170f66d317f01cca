// C22: operations on a const optional write nothing to it (nor to a const operand), not even temporarily.
#include "store.h"
#define COMMA ,

namespace
{
struct Cls // class payload with all the operators
{
  int v;
  bool b;
  short s;
  Cls() = default;
  explicit Cls(int v) : v(v), b(false), s(1) {}
  Cls(Cls const & o) : v(o.v), b(o.b), s(o.s) {}
  Cls & operator=(Cls const & o)
  {
    v = o.v;
    b = o.b;
    s = o.s;
    return *this;
  }
  ~Cls() {}
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&v, sizeof v, n);
    b = vp_bool(n);
    vp_sym_bytes(&s, sizeof s, n);
  }
  bool vp_same(Cls const & o) const { return v == o.v && b == o.b && s == o.s; }
  friend bool operator==(Cls const & x, Cls const & y) { return x.v == y.v; }
  friend bool operator!=(Cls const & x, Cls const & y) { return x.v != y.v; }
  friend bool operator<(Cls const & x, Cls const & y) { return x.v < y.v; }
  friend bool operator<=(Cls const & x, Cls const & y) { return x.v <= y.v; }
  friend bool operator>(Cls const & x, Cls const & y) { return x.v > y.v; }
  friend bool operator>=(Cls const & x, Cls const & y) { return x.v >= y.v; }
};
struct Fm // a custom manipulator: the last short is the flag
{
  static bool is_empty(Cls const & c) noexcept { return c.s == -9; }
  static void init_empty_flag(Cls & c) noexcept
  {
    ::new (static_cast<void *>(&c)) Cls(0);
    c.s = -9;
  }
  static void invalidate_empty_flag(Cls & c) noexcept { c.~Cls(); }
};
} // namespace
template <>
struct std::hash<Cls>
{
  std::size_t operator()(Cls const & c) const noexcept { return static_cast<std::size_t>(c.v) * 3u; }
};
namespace
{
// state: 0 never engaged, 1 emptied, 2 engaged
template <class O, class V>
O const & fill(void * page, unsigned st, V const & v, V const & w)
{
  vp_sym_bytes(page, sizeof(O), "stale");
  O * o = ::new (page) O();
  if (st == 1) {
    o->emplace(w);
    o->reset();
  }
  else if (st == 2)
    o->emplace(v);
  return *o;
}
template <class O, class V, class Ok>
void reads(Ok ok)
{
  Any<V> v("v"), w("w"), x("x");
  vp_assume(ok(v.v) && ok(w.v) && ok(x.v));
  void *pa = vp_page(sizeof(O)), *pb = vp_page(sizeof(O)), *px = vp_page(sizeof(V));
  unsigned const op = vp_choose(12, "operation");
  unsigned const sa = vp_choose(3, "state a");
  unsigned const sb = op == 4 || op == 9 ? vp_choose(3, "state b") : 0;
  O const & a = fill<O, V>(pa, sa, v.v, w.v);
  O const & b = fill<O, V>(pb, sb, w.v, v.v);
  V const & c = *::new (px) V(x.v);
  vp_seal(pa, 1);
  vp_seal(pb, 1);
  vp_seal(px, 1);
  bool const has = sa == 2;
  switch (op) {
  case 0: CHECK(a.has_value() == has && static_cast<bool>(a) == has, "state"); break;
  case 1:
    if (has) {
      CHECK(same_bits<V>(*a, v.v), "operator*");
      CHECK(a.operator->() == std::addressof(*a), "operator->");
      auto && r = *std::move(a);
      CHECK(std::addressof(r) == std::addressof(*a), "operator* const &&");
    }
    break;
  case 2: {
    bool threw = false;
    try {
      CHECK(same_bits<V>(a.value(), v.v), "value()");
      CHECK(same_bits<V>(std::move(a).value(), v.v), "value() const &&");
    }
    catch (std::bad_optional_access const &) {
      threw = true;
    }
    CHECK(threw == !has, "value() throws iff empty");
    break;
  }
  case 3: CHECK(same_bits<V>(a.value_or(c), has ? v.v : x.v), "value_or"); break;
  case 4: {
    bool const eq = a == b, ne = a != b;
    CHECK(!(sa != 2 && sb != 2) || (eq && !ne), "two empty ones are equal");
    vp_obs(a < b);
    vp_obs(a <= b);
    vp_obs(a > b);
    vp_obs(a >= b);
    break;
  }
  case 5:
    vp_obs(a == c);
    vp_obs(c != a);
    vp_obs(a < c);
    vp_obs(c <= a);
    vp_obs(a > c);
    vp_obs(c >= a);
    CHECK(has || !(a == c), "empty differs from a value");
    break;
  case 6:
    CHECK((a == std::nullopt) == !has && (std::nullopt != a) == has, "nullopt");
#ifndef VP_CXX20
    CHECK((std::nullopt < a) == has && (a <= std::nullopt) == !has, "order with nullopt");
#endif
    break;
  case 7:
    if constexpr (std::is_default_constructible_v<std::hash<O>>)
      CHECK(std::hash<O>{}(a) == std::hash<O>{}(a), "hash");
    break;
  case 8: {
    O d(a), e;
    e = a;
    CHECK(d.has_value() == has && e.has_value() == has, "copies");
    d = a;
    d.reset();
    break;
  }
  case 9: {
    O d(a);
    d = b;
    CHECK(d.has_value() == (sb == 2), "copy assigned");
    d = c;
    CHECK(d.has_value() && same_bits<V>(*d, x.v), "value assigned");
    d.emplace(c);
    O e(c), f(std::in_place, c);
    CHECK(e.has_value() && f.has_value(), "constructed from the value");
    break;
  }
  case 10: {
    int n = 0;
    auto t = a.transform([&](V const & p) {
      ++n;
      return same_bits<V>(p, v.v);
    });
    auto u = a.and_then([&](V const & p) {
      ++n;
      return tiny::optional<bool>(same_bits<V>(p, v.v));
    });
    CHECK(t.has_value() == has && u.has_value() == has && n == (has ? 2 : 0), "monadic");
    auto t2 = std::move(a).transform([&](V const &) { return 1; });
    CHECK(t2.has_value() == has, "monadic const &&");
    break;
  }
  default: {
#ifdef VP_CXX20
    O d = a.or_else([&]() -> O { return O(c); });
    CHECK(d.has_value() && same_bits<V>(*d, has ? v.v : x.v), "or_else");
#endif
    break;
  }
  }
  CHECK(a.has_value() == has, "unchanged");
  if (has)
    CHECK(same_bits<V>(*a, v.v), "value unchanged");
  vp_cover(has ? "read engaged" : "read empty");
  vp_seal(pa, 0);
  vp_seal(pb, 0);
  vp_seal(px, 0);
  a.~O();
  b.~O();
  c.~V();
}
// const payloads: also operations that need no assignment
template <class O, class V>
void creads()
{
  Any<V> v("v");
  unsigned const st = vp_choose(2, "engaged"), op = vp_choose(4, "operation");
  void * pa = vp_page(sizeof(O));
  vp_sym_bytes(pa, sizeof(O), "stale");
  O * o = st ? ::new (pa) O(std::in_place, v.v) : ::new (pa) O();
  O const & a = *o;
  vp_seal(pa, 1);
  switch (op) {
  case 0: CHECK(a.has_value() == (st != 0), "state"); break;
  case 1: CHECK(same_bits<V>(a.value_or(v.v), v.v), "value_or"); break;
  case 2: {
    O d(a);
    CHECK(d.has_value() == (st != 0), "copy");
    break;
  }
  default: CHECK((a == v.v) == (st && v.v == v.v), "compare"); break;
  }
  vp_cover("read");
  vp_seal(pa, 0);
  o->~O();
}
#ifdef VP_CXX20
template <class O, class V, class Ok>
void spaceship(Ok ok)
{
  Any<V> v("v"), w("w");
  vp_assume(ok(v.v) && ok(w.v));
  void *pa = vp_page(sizeof(O)), *pb = vp_page(sizeof(O));
  unsigned const sa = vp_choose(3, "state a"), sb = vp_choose(3, "state b");
  O const & a = fill<O, V>(pa, sa, v.v, w.v);
  O const & b = fill<O, V>(pb, sb, w.v, v.v);
  vp_seal(pa, 1);
  vp_seal(pb, 1);
  vp_obs((a <=> b) < 0);
  vp_obs((a <=> w.v) < 0);
  vp_obs((a <=> std::nullopt) > 0);
  CHECK(a.has_value() == (sa == 2) && b.has_value() == (sb == 2), "unchanged");
  vp_cover("compared");
  vp_seal(pa, 0);
  vp_seal(pb, 0);
  a.~O();
  b.~O();
}
  #define SPACESHIP(name, V) VP_HARNESS(name##_cmp3) { spaceship<O_##name, V>(Ok{}); }
#else
  #define SPACESHIP(name, V)
#endif
struct Ok
{
  template <class T>
  bool operator()(T const & v) const
  {
    if constexpr (std::is_same_v<T, double>)
      return bits_of(v) != 0x7ff8fedcba987654ull;
    else if constexpr (std::is_same_v<T, float>)
      return bits_of(v) != 0x7fedcba9ull;
    else if constexpr (std::is_pointer_v<T>)
      return bits_of(v) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
    else if constexpr (std::is_same_v<T, Cls>)
      return v.s != -9;
    else if constexpr (std::is_same_v<T, bool>)
      return true;
    else
      return v != static_cast<T>(5) && v != std::numeric_limits<T>::max() && v != std::numeric_limits<T>::min();
  }
};
} // namespace
struct Five
{
  static constexpr int value = 5;
};
#define READS(name, O, V)                                                                                              \
  using O_##name = O;                                                                                                  \
  VP_HARNESS(name) { reads<O_##name, V>(Ok{}); }                                                                       \
  SPACESHIP(name, V)
READS(bool_, tiny::optional<bool>, bool)
READS(double_, tiny::optional<double>, double)
READS(float_, tiny::optional<float>, float)
READS(ptr, tiny::optional<char *>, char *)
READS(int_, tiny::optional<int>, int)
READS(ll, tiny::optional<long long>, long long)
READS(sent, tiny::optional<int COMMA 5>, int)
READS(via, tiny::optional_sentinel_via_type<int COMMA Five>, int)
READS(aip_u, tiny::optional_aip<unsigned short>, unsigned short)
READS(aip_s, tiny::optional_aip<long long>, long long)
READS(fm_int, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA 5>>, int)
VP_HARNESS(cls) { reads<tiny::optional<Cls>, Cls>(Ok{}); }
VP_HARNESS(cls_mem) { reads<tiny::optional<Cls, &Cls::s, -9>, Cls>(Ok{}); }
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
VP_HARNESS(cls_membool) { reads<tiny::optional<Cls, &Cls::b>, Cls>(Ok{}); }
#endif
VP_HARNESS(cls_inpl) { reads<tiny::optional_inplace<Cls, Fm>, Cls>(Ok{}); }
VP_HARNESS(c_int) { creads<tiny::optional<int const>, int>(); }
VP_HARNESS(c_bool) { creads<tiny::optional<bool const>, bool>(); }
VP_HARNESS(c_cls) { creads<tiny::optional<Cls const>, Cls>(); }
