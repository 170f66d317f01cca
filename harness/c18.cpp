// C18: debug builds detect misuse exactly.
#include "store.h"
#define COMMA ,

namespace
{
struct Agg
{
  short a;
  int v;
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&a, sizeof a, n);
    vp_sym_bytes(&v, sizeof v, n);
  }
  bool vp_same(Agg const & o) const { return a == o.a && v == o.v; }
};
struct Dm
{
  double d;
  int x;
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&d, sizeof d, n);
    vp_sym_bytes(&x, sizeof x, n);
  }
  bool vp_same(Dm const & o) const { return bits_of(d) == bits_of(o.d) && x == o.x; }
};

// number of storing operations; the last one (transform) only where the result type is O itself
enum : unsigned { kStores = 12 };

template <class O, class V>
void do_store(Arena<O> & A, unsigned way, V const & v)
{
  V tmp = v;
  switch (way) {
  case 0: A.make(v); break;
  case 1: A.make(std::move(tmp)); break;
  case 2: A.make(std::in_place, v); break;
  case 3: A.obj->emplace(v); break;
  case 4: A.obj->emplace(std::move(tmp)); break;
  case 5: *A.obj = v; break;
  case 6: *A.obj = std::move(tmp); break;
  case 7: {
    O o(v);
    *A.obj = o;
    break;
  }
  case 8: {
    O o(v);
    *A.obj = std::move(o);
    break;
  }
  case 9: {
    O o(std::in_place, v);
    A.obj->swap(o);
    break;
  }
  case 10: {
    O o;
    o = v;
    A.make(std::move(o));
    break;
  }
  default:
    if constexpr (std::is_same_v<O, tiny::optional<V>>) {
      tiny::optional<int> src(1);
      A.make(src.transform([&](int) -> V { return v; }));
    }
    else
      *A.obj = O(v);
    break;
  }
}
inline bool makes_object(unsigned way)
{
  return way <= 2 || way == 10;
}

// Storing the reserved value trips an assertion; any other value does not. Without assertions: empty.
template <class O, class V, class IsRes>
void store(IsRes is_res)
{
  Any<V> v("v"), w("w");
  vp_assume(!is_res(w.v));
  unsigned const way = vp_choose(kStores, "way"), st = vp_choose(2, "engaged before");
  bool const fresh = makes_object(way) || (way == 11 && std::is_same_v<O, tiny::optional<V>>);
  vp_assume(!fresh || st == 0);
  Arena<O> A("mem");
  if (!fresh) {
    A.make();
    if (st)
      A.obj->emplace(w.v);
  }
  bool const bad = is_res(v.v);
  vp_cover("scheduled"); // recorded before the assertion can end the run
  if (bad) {
    vp_cover("sentinel");
    vp_allow_assert(1);
  }
  do_store<O, V>(A, way, v.v);
  if (bad) {
    CHECK(!kAsserts, "storing the reserved value trips an assertion");
    CHECK(!A.obj->has_value(), "without assertions the optional is left empty");
    vp_allow_assert(0);
    A.obj->emplace(w.v);
    CHECK(A.obj->has_value() && same_bits<V>(**A.obj, w.v), "and it is still usable");
  }
  else {
    CHECK(A.obj->has_value(), "stored");
    CHECK(same_bits<V>(**A.obj, v.v), "value stored");
    vp_cover("stored");
  }
  CHECK(A.guards_intact(), "neighbours");
  vp_obs(way);
  A.destroy();
}

// Dereferencing an empty optional trips an assertion, dereferencing an engaged one never does.
template <class O, class V, class IsRes>
void deref(IsRes is_res)
{
  Any<V> v("v");
  vp_assume(!is_res(v.v));
  unsigned const st = vp_choose(3, "state"), way = vp_choose(6, "way");
  Arena<O> A("mem");
  O & o = A.make();
  if (st == 1) {
    o.emplace(v.v);
    o.reset();
  }
  else if (st == 2)
    o.emplace(v.v);
  O const & c = o;
  vp_cover(st == 2 ? "engaged" : "empty");
  if (st != 2)
    vp_allow_assert(1);
  bool ok = true;
  auto look = [&](V const & x) {
    if (st == 2)
      ok = same_bits<V>(x, v.v);
  };
  switch (way) {
  case 0: look(*o); break;
  case 1: look(*c); break;
  case 2: look(*std::move(o)); break;
  case 3: look(*std::move(c)); break;
  case 4: look(*o.operator->()); break;
  default: look(*c.operator->()); break;
  }
  CHECK(ok, "value");
  if (kAsserts)
    CHECK(st == 2, "dereferencing an empty optional trips an assertion");
  A.destroy();
}
struct Five
{
  static constexpr int value = -5;
};
struct AggFM
{
  static bool is_empty(Agg const & p) noexcept { return p.v == -5; }
  static void init_empty_flag(Agg & p) noexcept { p.v = -5; }
  static void invalidate_empty_flag(Agg &) noexcept {}
};
template <class V>
bool never(V const &)
{
  return false;
}
bool r5(int const & v)
{
  return v == -5;
}
bool agg5(Agg const & v)
{
  return v.v == -5;
}
} // namespace

#define MIS(name, O, V, r)                                                                                             \
  VP_HARNESS(name##_store) { store<O, V>(r); }                                                                         \
  VP_HARNESS(name##_deref) { deref<O, V>(r); }
MIS(sent, tiny::optional<int COMMA - 5>, int, r5)
MIS(via, tiny::optional_sentinel_via_type<int COMMA Five>, int, r5)
MIS(aip, tiny::optional_aip<unsigned short>, unsigned short, [](unsigned short const & x) { return x == 65535; })
MIS(aipl, tiny::optional_aip<long long>, long long, [](long long const & x) { return x == LLONG_MIN; })
MIS(inp, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA - 5>>, int, r5)
MIS(inpagg, tiny::optional_inplace<Agg COMMA AggFM>, Agg, agg5)
MIS(mem, tiny::optional<Agg COMMA & Agg::v COMMA - 5>, Agg, [](Agg const & a) { return kMem && a.v == -5; })
MIS(plain, tiny::optional<int>, int, never<int>)
MIS(plainagg, tiny::optional<Agg>, Agg, never<Agg>)
MIS(boolean, tiny::optional<bool>, bool, never<bool>)
MIS(dbl, tiny::optional<double>, double, [](double const & d) { return kBits && bits_of(d) == 0x7ff8fedcba987654ull; })
MIS(flt, tiny::optional<float>, float, [](float const & d) { return kBits && bits_of(d) == 0x7fedcba9u; })
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
MIS(memdbl, tiny::optional<Dm COMMA & Dm::d>, Dm, [](Dm const & a) {
  return kMem && kBits && bits_of(a.d) == 0x7ff8fedcba987654ull;
})
#endif
