// C23: several translation units with different settings of the configuration macros in one program. This file is
// compiled once per unit (VP_UNIT) and the results are linked; each unit has to keep its own layout and behaviour.
#include "vp.h"

// the same in every unit
namespace shared
{
struct WithBool
{
  int a;
  bool flag;
  short b;
};
struct WithDbl
{
  int i;
  double d;
};
struct WithInt
{
  int i;
  char c;
};
struct WithPtr
{
  char c;
  int * p;
};
enum class Reg : short { A, Invalid = -5 };
enum class En : int { A, Bad = 77 };
struct Via
{
  static constexpr int value = -9;
};
// a function whose only implementation is shared by all units that give it the same name
template <class T>
__attribute__((noinline)) inline unsigned long size_seen(T const *)
{
  return sizeof(T);
}
} // namespace shared
template <>
struct tiny::optional_flag_manipulator<shared::Reg> : tiny::sentinel_flag_manipulator<shared::Reg, shared::Reg::Invalid>
{
};

#if VP_UNIT == 0
  #define HAS_BITS 1
  #define HAS_MEM 1
#elif VP_UNIT == 1
  #define HAS_BITS 0
  #define HAS_MEM 0
#elif VP_UNIT == 2
  #define HAS_BITS 0
  #define HAS_MEM 1
#else
  #define HAS_BITS 1
  #define HAS_MEM 0
#endif

namespace
{
template <class V>
bool storable(V const & v)
{
  if constexpr (std::is_same_v<V, double>)
    return bits_of(v) != 0x7ff8fedcba987654ull && v == v;
  else if constexpr (std::is_same_v<V, float>)
    return bits_of(v) != 0x7fedcba9ull && v == v;
  else if constexpr (std::is_pointer_v<V>)
    return bits_of(v) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1) && v != nullptr;
  else if constexpr (std::is_same_v<V, int>)
    return v != -9 && v != 42 && v != INT_MIN;
  else if constexpr (std::is_same_v<V, shared::Reg>)
    return v != shared::Reg::Invalid;
  else if constexpr (std::is_same_v<V, shared::En>)
    return v != shared::En::Bad;
  else if constexpr (std::is_same_v<V, shared::WithInt>)
    return v.i != 3;
  else if constexpr (std::is_same_v<V, shared::WithDbl>)
    return storable(v.d);
  else if constexpr (std::is_same_v<V, shared::WithPtr>)
    return storable(v.p);
  else
    return true;
}
template <class V>
bool same(V const & a, V const & b)
{
  if constexpr (std::is_same_v<V, shared::WithBool>)
    return a.a == b.a && a.flag == b.flag && a.b == b.b;
  else if constexpr (std::is_same_v<V, shared::WithDbl>)
    return a.i == b.i && a.d == b.d;
  else if constexpr (std::is_same_v<V, shared::WithInt>)
    return a.i == b.i && a.c == b.c;
  else if constexpr (std::is_same_v<V, shared::WithPtr>)
    return a.c == b.c && a.p == b.p;
  else
    return a == b;
}
template <class V>
void fill(V & v, char const * n)
{
  if constexpr (std::is_same_v<V, shared::WithBool>) {
    v.a = static_cast<int>(vp_sym(32, n));
    v.flag = vp_bool(n);
    v.b = static_cast<short>(vp_sym(16, n));
  }
  else
    vp_any_into(v, n);
}
template <class O>
struct Box
{
  unsigned char pre[8];
  O o;
  unsigned char post[8];
  template <class... A>
  explicit Box(A &&... a) : o(std::forward<A>(a)...)
  {
    for (int i = 0; i < 8; ++i)
      pre[i] = post[i] = 0xa5;
  }
  bool intact() const
  {
    bool r = true;
    for (int i = 0; i < 8; ++i)
      r = r & (pre[i] == 0xa5) & (post[i] == 0xa5);
    return r;
  }
};

template <class O, class V>
void life(bool compressed)
{
  CHECK(sizeof(O) == (compressed ? sizeof(V) : sizeof(std::optional<V>)), "size of this unit's configuration");
  CHECK(O::is_compressed == compressed, "is_compressed of this unit's configuration");
  V v, w;
  fill(v, "v");
  fill(w, "w");
  vp_assume(storable(v) && storable(w));
  Box<O> a, b(v);
  CHECK(shared::size_seen(&a.o) == sizeof(O), "another unit's definition is used for this unit's type");
  CHECK(!a.o.has_value(), "empty");
  CHECK(b.o.has_value() && same<V>(*b.o, v), "value");
  switch (vp_choose(10, "op")) {
  case 0:
    a.o = w;
    CHECK(a.o.has_value() && same<V>(*a.o, w), "value assignment");
    break;
  case 1:
    a.o = b.o;
    CHECK(a.o.has_value() && same<V>(*a.o, v), "copy assignment");
    break;
  case 2: {
    Box<O> c(b.o), d(std::move(c.o));
    CHECK(d.o.has_value() && same<V>(*d.o, v) && c.intact() && d.intact(), "copies");
    break;
  }
  case 3:
    a.o.swap(b.o);
    CHECK(a.o.has_value() && same<V>(*a.o, v) && !b.o.has_value(), "swap");
    break;
  case 4:
    b.o.emplace(w);
    CHECK(b.o.has_value() && same<V>(*b.o, w), "emplace");
    break;
  case 5:
    b.o.reset();
    CHECK(!b.o.has_value() && same<V>(b.o.value_or(w), w), "reset, value_or");
    break;
  case 6: {
    bool threw = false;
    try {
      (void)a.o.value();
    }
    catch (std::bad_optional_access const &) {
      threw = true;
    }
    CHECK(threw && same<V>(b.o.value(), v), "value()");
    break;
  }
  case 7: {
    auto const t = b.o.transform([](V const & x) { return same<V>(x, x); });
    auto const e = a.o.transform([](V const & x) { return same<V>(x, x); });
    CHECK(t.has_value() && *t && !e.has_value(), "transform");
    CHECK(sizeof(t) == (HAS_BITS ? sizeof(bool) : sizeof(std::optional<bool>)), "transform gives this unit's optional<bool>");
    break;
  }
  case 8:
    b.o = a.o;
    CHECK(!b.o.has_value(), "assignment of empty");
    b.o = std::nullopt;
    CHECK(!b.o.has_value(), "nullopt");
    break;
  case 9: {
    auto const t = b.o.and_then([](V const &) { return O(); });
    CHECK(!t.has_value(), "and_then");
    *b.o = w;
    CHECK(b.o.has_value() && same<V>(*b.o, w), "write through *");
    break;
  }
  default: break;
  }
  CHECK(a.intact() && b.intact(), "neighbouring memory untouched");
  vp_obs(a.o.has_value());
  vp_obs(b.o.has_value());
  vp_cover("done");
}
} // namespace

#define COMMA ,
#define H(name) extern "C" __attribute__((noinline, used)) void VP_CAT(VP_CAT(vp_h_unit, VP_UNIT), _##name)()
#define LIFE(name, OPT, V, COMPRESSED)                                                                                 \
  H(name) { life<OPT, V>(COMPRESSED); }
LIFE(bool, tiny::optional<bool>, bool, HAS_BITS)
LIFE(double, tiny::optional<double>, double, HAS_BITS)
LIFE(float, tiny::optional<float>, float, HAS_BITS)
LIFE(ptr, tiny::optional<int *>, int *, HAS_BITS)
LIFE(int, tiny::optional<int>, int, false)
LIFE(sent, tiny::optional<int COMMA 42>, int, true)
LIFE(via, tiny::optional_sentinel_via_type<int COMMA shared::Via>, int, true)
LIFE(aip, tiny::optional_aip<int>, int, true)
LIFE(reg, tiny::optional<shared::Reg>, shared::Reg, true)
LIFE(enm, tiny::optional<shared::En COMMA shared::En::Bad>, shared::En, true)
LIFE(mem_int, tiny::optional<shared::WithInt COMMA & shared::WithInt::i COMMA 3>, shared::WithInt, HAS_MEM)
LIFE(inplace, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA 42>>, int, true)
#if VP_UNIT != 2 // a member without sentinel needs the unused bits
LIFE(mem_bool, tiny::optional<shared::WithBool COMMA & shared::WithBool::flag>, shared::WithBool, HAS_MEM)
LIFE(mem_double, tiny::optional<shared::WithDbl COMMA & shared::WithDbl::d>, shared::WithDbl, HAS_MEM)
LIFE(mem_ptr, tiny::optional<shared::WithPtr COMMA & shared::WithPtr::p>, shared::WithPtr, HAS_MEM)
#endif
H(hash)
{
  double d;
  fill(d, "d");
  vp_assume(storable(d));
  tiny::optional<double> a(d), b(d), e, f(d);
  f.reset();
  CHECK(std::hash<tiny::optional<double>>{}(a) == std::hash<tiny::optional<double>>{}(b), "equal, equal hashes");
  CHECK(std::hash<tiny::optional<double>>{}(e) == std::hash<tiny::optional<double>>{}(f), "empty hashes");
  CHECK(a == b && e == f && a != e, "comparisons");
  CHECK(e < a && a <= b && !(a < e), "ordering");
  vp_cover("hash");
}
