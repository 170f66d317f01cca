// C15: only the optional's own bytes are touched, results do not depend on stale memory, sizes as documented.
#include "store.h"
#define COMMA ,

namespace
{
struct Agg // padding inside and at the end
{
  unsigned char a;
  int v;
  short s;
  bool b;
  Agg() = default;
  void vp_fill(char const * n)
  {
    vp_sym_bytes(&a, 1, n);
    vp_sym_bytes(&v, sizeof v, n);
    vp_sym_bytes(&s, sizeof s, n);
    b = vp_bool(n);
  }
  bool vp_same(Agg const & o) const { return a == o.a && v == o.v && s == o.s && b == o.b; }
};
struct Big
{
  unsigned char c[37];
  void vp_fill(char const * n)
  {
    for (auto & x : c)
      x = 7;
    vp_sym_bytes(c, 2, n);
    vp_sym_bytes(c + 35, 2, n);
  }
  bool vp_same(Big const & o) const { return std::memcmp(c, o.c, sizeof c) == 0; }
};
struct alignas(16) Wide
{
  int v;
  void vp_fill(char const * n) { vp_sym_bytes(&v, sizeof v, n); }
  bool vp_same(Wide const & o) const { return v == o.v; }
};

bool operator==(Agg const & a, Agg const & b)
{
  return a.v == b.v;
}
bool operator==(Big const & a, Big const & b)
{
  return a.c[0] == b.c[0];
}
bool operator==(Wide const & a, Wide const & b)
{
  return a.v == b.v;
}

// everything a user can see of one optional
template <class V>
struct Obs
{
  bool has;
  V val;
};
template <class O, class V>
void observe(O const & o, Obs<V> & r)
{
  r.has = o.has_value();
  if (r.has)
    std::memcpy(static_cast<void *>(&r.val), const_cast<V const *>(std::addressof(*o)), sizeof(V));
}
enum : unsigned { kOps = 12 };
template <class O, class V>
void op(unsigned n, O & a, O & b, V const & x)
{
  switch (n) {
  case 0: a.reset(); break;
  case 1: a.emplace(x); break;
  case 2: a = x; break;
  case 3: a = b; break;
  case 4: a = std::move(b); break;
  case 5: a.swap(b); break;
  case 6: a = std::nullopt; break;
  case 7: {
    O t(a);
    a.reset();
    a = t;
    break;
  }
  case 8: {
    O t(std::move(a));
    b = t;
    break;
  }
  case 9:
    if (a.has_value())
      *a = x;
    break;
  case 10: (void)(a == b); break;
  default: b = O(x); break;
  }
}
template <class O, class V>
void init(Arena<O> & A, unsigned st, V const & v)
{
  if (st == 0)
    A.make();
  else if (st == 1)
    A.make(v);
  else {
    A.make(v);
    A.obj->reset();
  }
}
template <class O, class = void>
struct HasEq : std::false_type
{
};
template <class O>
struct HasEq<O, std::void_t<decltype(*std::declval<O const &>() == *std::declval<O const &>())>> : std::true_type
{
};

// The same two operations on optionals in different stale memory look the same; neighbours stay.
template <class O, class V, class Ok>
void history(Ok ok)
{
  Any<V> x("x"), y("y"), z("z");
  vp_assume(ok(x.v) && ok(y.v) && ok(z.v));
  unsigned const sa = vp_choose(3, "a"), sb = vp_choose(3, "b"), o1 = vp_choose(kOps, "op");
  Obs<V> r[2][2];
  {
    Arena<O> A("memory of a"), B("memory of b");
    init<O, V>(A, sa, x.v);
    init<O, V>(B, sb, y.v);
    op<O, V>(o1, *A.obj, *B.obj, z.v);
    observe<O, V>(*A.obj, r[0][0]);
    observe<O, V>(*B.obj, r[0][1]);
    CHECK(A.guards_intact() && B.guards_intact(), "neighbours untouched");
    A.destroy();
    B.destroy();
    CHECK(A.guards_intact() && B.guards_intact(), "neighbours untouched by the destructors");
  }
  {
    Arena<O> A("other memory of a"), B("other memory of b");
    init<O, V>(A, sa, x.v);
    init<O, V>(B, sb, y.v);
    op<O, V>(o1, *A.obj, *B.obj, z.v);
    observe<O, V>(*A.obj, r[1][0]);
    observe<O, V>(*B.obj, r[1][1]);
    A.destroy();
    B.destroy();
  }
  for (int i = 0; i < 2; ++i) {
    CHECK(r[0][i].has == r[1][i].has, "state independent of stale memory");
    if (r[0][i].has && r[1][i].has)
      CHECK(same_bits<V>(r[0][i].val, r[1][i].val), "value independent of stale memory");
  }
  vp_obs(r[0][0].has);
  vp_obs(r[0][1].has);
  vp_cover("history");
}

// Elements of an array: operations on one never change another one.
template <class O, class V, class Ok>
void array(Ok ok)
{
  Any<V> x("x"), y("y"), z("z");
  vp_assume(ok(x.v) && ok(y.v) && ok(z.v));
  unsigned const st = vp_choose(3, "state"), nst = vp_choose(2, "neighbours engaged"), o1 = vp_choose(kOps, "op");
  alignas(O) unsigned char mem[3 * sizeof(O)];
  vp_sym_bytes(mem, sizeof mem, "array memory");
  O * p[3];
  for (int i = 0; i < 3; ++i)
    p[i] = ::new (static_cast<void *>(mem + i * sizeof(O))) O();
  if (nst) {
    p[0]->emplace(y.v);
    p[2]->emplace(y.v);
  }
  if (st)
    p[1]->emplace(x.v);
  if (st == 2)
    p[1]->reset();
  unsigned char before[3 * sizeof(O)];
  std::memcpy(before, mem, sizeof mem);
  O other;
  op<O, V>(o1, *p[1], other, z.v);
  CHECK(std::memcmp(mem, before, sizeof(O)) == 0, "the previous array element is untouched");
  CHECK(std::memcmp(mem + 2 * sizeof(O), before + 2 * sizeof(O), sizeof(O)) == 0, "the next array element is untouched");
  p[1]->~O();
  CHECK(std::memcmp(mem, before, sizeof(O)) == 0, "the previous array element is untouched by the destructor");
  CHECK(
      std::memcmp(mem + 2 * sizeof(O), before + 2 * sizeof(O), sizeof(O)) == 0,
      "the next array element is untouched by the destructor");
  CHECK(p[0]->has_value() == (nst != 0) && p[2]->has_value() == (nst != 0), "neighbours keep their state");
  if (nst)
    CHECK(same_bits<V>(**p[0], y.v) && same_bits<V>(**p[2], y.v), "neighbours keep their value");
  p[0]->~O();
  p[2]->~O();
  vp_cover("array");
}

// Members of one class next to each other.
template <class O, class V, class Ok>
void members(Ok ok)
{
  Any<V> x("x"), z("z");
  vp_assume(ok(x.v) && ok(z.v));
  unsigned const st = vp_choose(2, "state"), o1 = vp_choose(kOps, "op");
  struct Box
  {
    unsigned char pre = 0;
    O o;
    unsigned char post[5] = {0, 0, 0, 0, 0};
  };
  Box box, second;
  vp_sym_bytes(&box.pre, 1, "pre");
  vp_sym_bytes(box.post, 5, "post");
  unsigned char const pre = box.pre;
  unsigned char post[5];
  std::memcpy(post, box.post, 5);
  if (st)
    box.o.emplace(x.v);
  op<O, V>(o1, box.o, second.o, z.v);
  CHECK(box.pre == pre && std::memcmp(box.post, post, 5) == 0, "members around the optional are untouched");
  vp_cover("members");
}

template <class O, class P>
void sizes(bool compressed)
{
  unsigned const one = vp_choose(1, "one");
  CHECK(one == 0 && sizeof(O) == (compressed ? sizeof(P) : sizeof(std::optional<P>)), "size as documented");
  CHECK(O::is_compressed == (sizeof(O) == sizeof(P)), "is_compressed says whether the size is that of the payload");
  CHECK(O::is_compressed == compressed, "is_compressed as documented");
  CHECK(alignof(O) == alignof(P), "alignment of the payload");
  vp_obs(sizeof(O));
}
template <class V>
bool any(V const &)
{
  return true;
}
bool dbl(double const & d)
{
  return !kBits || bits_of(d) != 0x7ff8fedcba987654ull;
}
bool flt(float const & d)
{
  return !kBits || bits_of(d) != 0x7fedcba9u;
}
bool r5(int const & v)
{
  return v != -5;
}
bool agg(Agg const & a)
{
  return !kMem || a.v != -5;
}
struct BigFM
{
  static bool is_empty(Big const & p) noexcept { return p.c[36] == 0xee; }
  static void init_empty_flag(Big & p) noexcept { p.c[36] = 0xee; }
  static void invalidate_empty_flag(Big &) noexcept {}
};
} // namespace
#define MEMY(name, O, V, ok)                                                                                           \
  VP_HARNESS(name##_hist) { history<O, V>(ok); }                                                                       \
  VP_HARNESS(name##_arr) { array<O, V>(ok); }                                                                          \
  VP_HARNESS(name##_mem) { members<O, V>(ok); }
MEMY(bool, tiny::optional<bool>, bool, any<bool>)
MEMY(dbl, tiny::optional<double>, double, dbl)
MEMY(flt, tiny::optional<float>, float, flt)
MEMY(int, tiny::optional<int>, int, any<int>)
MEMY(char, tiny::optional<unsigned char>, unsigned char, any<unsigned char>)
MEMY(sent, tiny::optional<int COMMA - 5>, int, r5)
MEMY(schar, tiny::optional<signed char COMMA - 5>, signed char, [](signed char const & c) { return c != -5; })
MEMY(aip, tiny::optional_aip<unsigned short>, unsigned short, [](unsigned short const & c) { return c != 65535; })
MEMY(inp, tiny::optional_inplace<int COMMA tiny::sentinel_flag_manipulator<int COMMA - 5>>, int, r5)
MEMY(agg, tiny::optional<Agg>, Agg, any<Agg>)
MEMY(aggmem, tiny::optional<Agg COMMA & Agg::v COMMA - 5>, Agg, agg)
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
MEMY(aggbool, tiny::optional<Agg COMMA & Agg::b>, Agg, any<Agg>)
#endif
MEMY(big, tiny::optional<Big>, Big, any<Big>)
MEMY(biginp, tiny::optional_inplace<Big COMMA BigFM>, Big, [](Big const & b) { return b.c[36] != 0xee; })
MEMY(wide, tiny::optional<Wide>, Wide, any<Wide>)

// sizes and is_compressed of all documented flavours
enum En { e0, e1 };
enum class Ec : unsigned char { a, b };
struct MinI
{
  static constexpr int value = INT_MIN;
};
struct MinE
{
  static constexpr Ec value = Ec(9);
};
struct Reg
{
  int v;
};
template <>
struct tiny::optional_flag_manipulator<Reg> : tiny::sentinel_flag_manipulator<int, -5>
{
  static bool is_empty(Reg const & p) noexcept { return p.v == -5; }
  static void init_empty_flag(Reg & p) noexcept { ::new (&p) Reg{-5}; }
  static void invalidate_empty_flag(Reg &) noexcept {}
};
struct Members
{
  char c;
  bool b;
  float f;
  int * p;
  void (*fn)();
  double d;
  int i;
  Ec e;
  Reg r;
};
VP_HARNESS(size_unused_bits)
{
  sizes<tiny::optional<bool>, bool>(kBits);
  sizes<tiny::optional<bool const>, bool const>(kBits);
  sizes<tiny::optional<double>, double>(kBits);
  sizes<tiny::optional<double const>, double const>(kBits);
  sizes<tiny::optional<float>, float>(kBits);
  sizes<tiny::optional<float const>, float const>(kBits);
  sizes<tiny::optional<int *>, int *>(kBits);
  sizes<tiny::optional<void *>, void *>(kBits);
  sizes<tiny::optional<void const *>, void const *>(kBits);
  sizes<tiny::optional<int * const>, int * const>(kBits);
  sizes<tiny::optional<Members *>, Members *>(kBits);
  sizes<tiny::optional<void (*)()>, void (*)()>(kBits);
  sizes<tiny::optional<int (*)(double)>, int (*)(double)>(kBits);
  vp_cover("sizes");
}
VP_HARNESS(size_separate)
{
  sizes<tiny::optional<int>, int>(false);
  sizes<tiny::optional<char>, char>(false);
  sizes<tiny::optional<short const>, short const>(false);
  sizes<tiny::optional<unsigned long long>, unsigned long long>(false);
  sizes<tiny::optional<En>, En>(false);
  sizes<tiny::optional<Ec>, Ec>(false);
  sizes<tiny::optional<Agg>, Agg>(false);
  sizes<tiny::optional<Big>, Big>(false);
  sizes<tiny::optional<Wide>, Wide>(false);
  sizes<tiny::optional<std::nullptr_t>, std::nullptr_t>(false);
  sizes<tiny::optional<int Agg::*>, int Agg::*>(false);
  sizes<tiny::optional<long double>, long double>(false);
  vp_cover("sizes");
}
VP_HARNESS(size_sentinel)
{
  sizes<tiny::optional<int, -5>, int>(true);
  sizes<tiny::optional<int const, -5>, int const>(true);
  sizes<tiny::optional<char, 'x'>, char>(true);
  sizes<tiny::optional<unsigned long long, 5>, unsigned long long>(true);
  sizes<tiny::optional<bool, true>, bool>(true);
  sizes<tiny::optional<En, e1>, En>(true);
  sizes<tiny::optional<Ec, Ec::b>, Ec>(true);
  sizes<tiny::optional_sentinel_via_type<int, MinI>, int>(true);
  sizes<tiny::optional_sentinel_via_type<Ec, MinE>, Ec>(true);
  sizes<tiny::optional_aip<int>, int>(true);
  sizes<tiny::optional_aip<unsigned short>, unsigned short>(true);
  sizes<tiny::optional_aip<long long>, long long>(true);
  sizes<tiny::optional_aip<unsigned char, 7>, unsigned char>(true);
  sizes<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, -5>>, int>(true);
  sizes<tiny::optional_inplace<Big, BigFM>, Big>(true);
  sizes<tiny::optional<Reg>, Reg>(true);
  vp_cover("sizes");
}
VP_HARNESS(size_member)
{
  sizes<tiny::optional<Members, &Members::i, -5>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::c, 'x'>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::e, Ec::b>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::r>, Members>(kMem);
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  sizes<tiny::optional<Members, &Members::b>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::f>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::d>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::p>, Members>(kMem);
  sizes<tiny::optional<Members, &Members::fn>, Members>(kMem);
#endif
  vp_cover("sizes");
}
