// C14: std::hash agrees with the payload's hash and with equality.
#include "vp.h"
#define COMMA ,

namespace
{
struct HW
{
  unsigned long long key; // arbitrary
  int calls;
  void const * addr;
  bool thr;
} H;
} // namespace

struct HP // payload with its own hash and equality (only v counts)
{
  int v;
  int junk;
  friend bool operator==(HP const & a, HP const & b) { return a.v == b.v; }
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&v, sizeof v, n);
    vp_sym_bytes(&junk, sizeof junk, n);
  }
  bool vp_same(HP const & o) const { return v == o.v && junk == o.junk; }
};
template <>
struct std::hash<HP>
{
  std::size_t operator()(HP const & p) const
  {
    ++H.calls;
    H.addr = &p;
    if (H.thr)
      throw 5;
    return static_cast<std::size_t>((static_cast<unsigned long long>(static_cast<unsigned>(p.v)) << 7) ^ H.key);
  }
};
enum class En : short { a, b };

namespace
{
template <class V>
bool any(V const &)
{
  return true;
}
bool dbl(double const & d)
{
  return !kBits || bits_of(d) != 0x7ff8fedcba987654ull;
}
bool flt(float const & d)
{
  return !kBits || bits_of(d) != 0x7fedcba9u;
}
bool res(int const & x)
{
  return x != -5;
}
bool hp(HP const & x)
{
  return x.v != -5;
}
struct HpFlag
{
  static bool is_empty(HP const & p) noexcept { return p.v == -5; }
  static void init_empty_flag(HP & p) noexcept { p.v = -5; }
  static void invalidate_empty_flag(HP &) noexcept {}
};

template <class O, class V>
O & make(Arena<O> & A, unsigned st, V const & v, V const & w)
{
  switch (st) {
  case 0: return A.make();
  case 1: return A.make(std::nullopt);
  case 2: {
    O & o = A.make(w);
    o.reset();
    return o;
  }
  case 3: {
    O src(w);
    src = std::nullopt;
    return A.make(src);
  }
  case 4: return A.make(v);
  case 5: {
    O & o = A.make();
    o.emplace(v);
    return o;
  }
  default: {
    O & o = A.make(w);
    o.emplace(v);
    return o;
  }
  }
}

template <class O, class V, class Ok>
void hashes(Ok ok, bool equality)
{
  Any<V> v("v"), w("w"), x("x");
  vp_assume(ok(v.v) && ok(w.v) && ok(x.v));
  constexpr bool fp = std::is_floating_point_v<V>; // expensive for the solver: fewer histories of the second one
  unsigned const s1 = vp_choose(7, "state"), s2 = fp ? 2 * vp_choose(3, "other state") : vp_choose(7, "other state");
  if (fp)
    vp_assume(s1 == 0 || s1 == 2 || s1 == 4 || s1 == 6);
  H.key = vp_sym(64, "hash key");
  H.calls = 0;
  H.thr = false;
  Arena<O> A("memA"), B("memB");
  O const & a = make<O, V>(A, s1, v.v, w.v);
  O const & b = make<O, V>(B, s2, x.v, w.v);
  unsigned char before[sizeof(O)];
  std::memcpy(before, static_cast<void const *>(&a), sizeof(O));
  std::size_t const ha = std::hash<O>{}(a);
  CHECK(std::memcmp(before, static_cast<void const *>(&a), sizeof(O)) == 0, "hashing does not modify the optional");
  if constexpr (std::is_same_v<V, HP>) {
    CHECK(H.calls == (s1 >= 4 ? 1 : 0), "the payload's hash is called iff engaged");
    if (s1 >= 4)
      CHECK(H.addr == static_cast<void const *>(std::addressof(*a)), "for the held payload");
  }
  std::size_t const hb = std::hash<O>{}(b);
  CHECK(std::hash<O>{}(a) == ha, "the hash is stable");
  if (s1 >= 4) {
    CHECK(ha == std::hash<V>{}(v.v), "hash of the payload");
    CHECK(a.has_value() && same_bits<V>(*a, v.v), "value unchanged");
  }
  else
    CHECK(!a.has_value(), "still empty");
  if (s1 < 4 && s2 < 4)
    CHECK(ha == hb, "all empty optionals have one hash");
  if (s1 >= 4 && s2 >= 4 && equality && v.v == x.v)
    CHECK(ha == hb, "equal optionals have equal hashes");
  O const fresh;
  if (s1 < 4)
    CHECK(ha == std::hash<O>{}(fresh), "hash of an empty optional does not depend on history or memory");
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours");
  vp_obs(s1 < 4 ? ha : 0);
  vp_cover(s1 >= 4 ? "engaged" : "empty");
  A.destroy();
  B.destroy();
}
} // namespace
#define HASH(name, O, V, ok)                                                                                           \
  VP_HARNESS(name) { hashes<O, V>(ok, true); }
struct MinT
{
  static constexpr int value = -5;
};
HASH(h_int, tiny::optional<int>, int, any<int>)
HASH(h_sent, tiny::optional<int COMMA - 5>, int, res)
HASH(h_via, tiny::optional_sentinel_via_type<int COMMA MinT>, int, res)
HASH(h_aip, tiny::optional_aip<unsigned>, unsigned, [](unsigned const & u) { return u != UINT_MAX; })
HASH(h_inp, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA - 5>>, int, res)
HASH(h_cint, tiny::optional<int const>, int, any<int>)
HASH(h_csent, tiny::optional<int const COMMA - 5>, int, res)
HASH(h_long, tiny::optional<long long>, long long, any<long long>)
HASH(h_char, tiny::optional<signed char>, signed char, any<signed char>)
HASH(h_bool, tiny::optional<bool>, bool, any<bool>)
HASH(h_enum, tiny::optional<En>, En, any<En>)
HASH(h_dbl, tiny::optional<double>, double, dbl)
HASH(h_cflt, tiny::optional<float const>, float, flt)
HASH(h_flt, tiny::optional<float>, float, flt)
HASH(h_hp, tiny::optional<HP>, HP, any<HP>)
HASH(h_hpmem, tiny::optional<HP COMMA & HP::v COMMA - 5>, HP, hp)
HASH(h_hpinp, tiny::optional_inplace<HP COMMA HpFlag>, HP, hp)

// different flavours of the same payload: same hash as the payload, hence as each other and as std::optional
VP_HARNESS(h_cross)
{
  Any<int> v("v");
  vp_assume(v.v != -5 && v.v != INT_MIN);
  tiny::optional<int> a(v.v);
  tiny::optional<int, -5> b(v.v);
  tiny::optional_aip<int> c(v.v);
  std::optional<int> d(v.v);
  std::size_t const h = std::hash<int>{}(v.v);
  CHECK(std::hash<decltype(a)>{}(a) == h, "separate flag");
  CHECK(std::hash<decltype(b)>{}(b) == h, "sentinel");
  CHECK(std::hash<decltype(c)>{}(c) == h, "automatic sentinel");
  CHECK(std::hash<decltype(d)>{}(d) == h, "std::optional");
  vp_cover("cross");
}
// an exception of the payload's hash reaches the caller
VP_HARNESS(h_throw)
{
  int v = static_cast<int>(vp_sym(32, "v"));
  vp_assume(v != -5);
  unsigned const st = vp_choose(2, "engaged");
  tiny::optional<HP> a;
  tiny::optional<HP, &HP::v, -5> b;
  tiny::optional_inplace<HP, HpFlag> c;
  if (st) {
    a.emplace(HP{v, 1});
    b.emplace(HP{v, 1});
    c.emplace(HP{v, 1});
  }
  H.thr = true;
  int n = 0;
  for (int i = 0; i < 3; ++i) {
    try {
      if (i == 0)
        (void)std::hash<decltype(a)>{}(a);
      else if (i == 1)
        (void)std::hash<decltype(b)>{}(b);
      else
        (void)std::hash<decltype(c)>{}(c);
    }
    catch (int) {
      ++n;
    }
  }
  CHECK(n == (st ? 3 : 0), "exceptions of the payload's hash propagate");
  vp_cover("hash threw");
}
