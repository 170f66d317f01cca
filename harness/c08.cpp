// C08: any operation history behaves like std::optional (states compared after every step).
#include "vp.h"

#ifndef VP_K
  #define VP_K 2
#endif

inline constexpr int kReserved = -5;

// --- generic machine: O is the tiny optional, V the payload (std side: std::optional<V>) --------------------------
template <class O, class V>
void same_state(O & o, std::optional<V> & s, V const & dflt)
{
  O const & c = o;
  CHECK(c.has_value() == s.has_value(), "has_value() as std::optional");
  CHECK(static_cast<bool>(c) == static_cast<bool>(s), "operator bool as std::optional");
  CHECK((c == std::nullopt) == !s.has_value(), "== nullopt");
  if (s.has_value() && c.has_value()) {
    CHECK(same_bits<V>(*c, *s), "value as std::optional");
    CHECK(same_bits<V>(c.value(), *s), "value() as std::optional");
  }
  else {
    bool threw = false;
    try {
      (void)o.value();
    }
    catch (std::bad_optional_access const &) {
      threw = true;
    }
    CHECK(threw, "value() throws when empty");
  }
  V t = c.value_or(dflt);
  V u = s.value_or(dflt);
  CHECK(same_bits<V>(t, u), "value_or as std::optional");
}

enum : unsigned { kNumOps = 22 };
template <class O, class V>
void step(unsigned op, Arena<O> & A, Arena<O> & B, std::optional<V> & sa, std::optional<V> & sb, V const & v)
{
  O &a = *A.obj, &b = *B.obj;
  switch (op) {
  case 0:
    a = v;
    sa = v;
    break;
  case 1:
    a = b;
    sa = sb;
    break;
  case 2:
    a = std::move(b);
    sa = std::move(sb);
    break;
  case 3:
    a = std::nullopt;
    sa = std::nullopt;
    break;
  case 4:
    a = {};
    sa = {};
    break;
  case 5:
    a.emplace(v);
    sa.emplace(v);
    break;
  case 6:
    a.reset();
    sa.reset();
    break;
  case 7:
    a.swap(b);
    sa.swap(sb);
    break;
  case 8: {
    using std::swap;
    swap(b, a);
    swap(sb, sa);
    break;
  }
  case 9:
    b = static_cast<O const &>(a);
    sb = static_cast<std::optional<V> const &>(sa);
    break;
  case 10:
    b = V(v);
    sb = V(v);
    break;
  case 11:
    a = O(v);
    sa = std::optional<V>(v);
    break;
  case 12:
    if (sa.has_value()) {
      *a = v;
      *sa = v;
    }
    break;
  case 13:
    if (sa.has_value()) {
      a.value() = v;
      sa.value() = v;
    }
    break;
  case 14: {
    O & alias = a;
    a = alias;
    break;
  }
  case 15:
    A.destroy();
    A.make(static_cast<O const &>(b));
    sa.reset();
    if (sb)
      sa.emplace(*sb);
    break;
  case 16:
    A.destroy();
    A.make(std::move(b));
    sa.reset();
    if (sb)
      sa.emplace(*sb);
    break;
  case 17:
    A.destroy();
    A.make(v);
    sa = v;
    break;
  case 18:
    A.destroy();
    A.make(std::in_place, v);
    sa = v;
    break;
  case 19:
    A.destroy();
    A.make();
    sa.reset();
    break;
  case 20:
    A.destroy();
    A.make(std::nullopt);
    sa.reset();
    break;
  default:
    a = O();
    sa = std::optional<V>();
    break;
  }
}

template <class O, class V, class Ok>
void history(Ok ok, unsigned k, bool all_states)
{
  unsigned ops[4];
  for (unsigned i = 0; i < k; ++i)
    ops[i] = vp_choose(kNumOps, "operation");
  unsigned const ia = all_states ? vp_choose(3, "state a") : 0, ib = all_states ? vp_choose(3, "state b") : 2;
  Any<V> va("va"), vb("vb"), v0("v0"), v1("v1"), v2("v2"), v3("v3"), d("default");
  V const * vs[4] = {&v0.v, &v1.v, &v2.v, &v3.v};
  vp_assume(ok(va.v) && ok(vb.v) && ok(v0.v) && ok(v1.v) && ok(v2.v) && ok(v3.v));
  Arena<O> A("memA"), B("memB");
  std::optional<V> sa, sb;
  A.make();
  B.make();
  if (ia) {
    A.obj->emplace(va.v);
    sa.emplace(va.v);
  }
  if (ia == 1) {
    A.obj->reset();
    sa.reset();
  }
  if (ib) {
    B.obj->emplace(vb.v);
    sb.emplace(vb.v);
  }
  if (ib == 1) {
    B.obj->reset();
    sb.reset();
  }
  same_state(*A.obj, sa, d.v);
  same_state(*B.obj, sb, d.v);
  for (unsigned i = 0; i < k; ++i) {
    step<O, V>(ops[i], A, B, sa, sb, *vs[i]);
    same_state(*A.obj, sa, d.v);
    same_state(*B.obj, sb, d.v);
    vp_obs(A.obj->has_value() * 2 + B.obj->has_value());
  }
  CHECK(A.guards_intact() && B.guards_intact(), "neighbouring memory untouched");
  vp_cover(A.obj->has_value() ? "engaged" : "empty");
  A.destroy();
  B.destroy();
}

struct Ok
{
  bool operator()(bool) const { return true; }
  bool operator()(double const & d) const { return !kBits || bits_of(d) != 0x7ff8fedcba987654ull; }
  bool operator()(float const & d) const { return !kBits || bits_of(d) != 0x7fedcba9ull; }
  template <class T>
  bool operator()(T * const & p) const
  {
    return !kBits || bits_of(p) != (k32 ? 0xffffffffull - 8 : 0xffff800000000000ull - 1);
  }
  template <class T>
  bool operator()(T const &) const
  {
    return true;
  }
};
template <class T>
struct Not
{
  T s;
  bool operator()(T const & v) const { return !(v == s); }
};
struct Big
{
  using T_ = Big;
  char c;
  int i;
  double d;
  bool f;
  void vp_fill(char const * n)
  {
    vp_any_into(c, n);
    vp_any_into(i, n);
    vp_any_into(d, n);
    vp_any_into(f, n);
  }
  bool vp_same(Big const & o) const { return c == o.c && i == o.i && same_bits(d, o.d) && f == o.f; }
};
struct BigI
{
  bool operator()(Big const & b) const { return !kMem || b.i != 42; }
};
struct BigD
{
  bool operator()(Big const & b) const { return !kMem || bits_of(b.d) != 0x7ff8fedcba987654ull; }
};
enum class En : short { A, Bad = 7 };
// payload with converting constructors and assignments
struct Conv
{
  int v;
  Conv() : v(0) {}
  Conv(int x) : v(x) {}
  Conv(long long x) : v(static_cast<int>(x) + 1) {}
  Conv(double x) : v(x < 0 ? -1 : 1) {}
  Conv & operator=(int x)
  {
    v = x;
    return *this;
  }
};

#define HIST(name, O, V, ok)                                                                                           \
  VP_HARNESS(name##_step) { history<O, V>(ok, 1, true); }                                                              \
  VP_HARNESS(name##_hist) { history<O, V>(ok, VP_K, false); }
#define COMMA ,

HIST(bool, tiny::optional<bool>, bool, Ok{})
HIST(dbl, tiny::optional<double>, double, Ok{})
HIST(ptr, tiny::optional<int *>, int *, Ok{})
HIST(int, tiny::optional<int>, int, Ok{})
HIST(sent, tiny::optional<int COMMA kReserved>, int, Not<int>{kReserved})
HIST(aip, tiny::optional_aip<unsigned long>, unsigned long, Not<unsigned long>{ULONG_MAX})
HIST(en, tiny::optional<En COMMA En::Bad>, En, Not<En>{En::Bad})
HIST(inpl, tiny::optional_inplace<short COMMA tiny::sentinel_flag_manipulator<short COMMA 9>>, short, Not<short>{9})
HIST(big, tiny::optional<Big>, Big, Ok{})
HIST(mem_i, tiny::optional<Big COMMA & Big::i COMMA 42>, Big, BigI{})
HIST(conv, tiny::optional<Conv>, Conv, Ok{})
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
HIST(mem_d, tiny::optional<Big COMMA & Big::d>, Big, BigD{})
#endif
VP_HARNESS(flt_step) { history<tiny::optional<float>, float>(Ok{}, 1, true); }
VP_HARNESS(uchar_step) { history<tiny::optional<unsigned char, 200>, unsigned char>(Not<unsigned char>{200}, 1, true); }
VP_HARNESS(ll_step) { history<tiny::optional<long long>, long long>(Ok{}, 1, true); }
VP_HARNESS(ldbl_size)
{
  // long double is not compressed
  CHECK(sizeof(tiny::optional<long double>) == sizeof(std::optional<long double>), "size");
  vp_cover("size");
}

// --- converting payloads: values of other types ------------------------------------------------------------------
template <class T, class U>
static void conv_history(U const & u, int start, unsigned st, unsigned op)
{
  tiny::optional<T> t;
  std::optional<T> s;
  if (st) {
    t.emplace(start);
    s.emplace(start);
  }
  switch (op) {
  case 0:
    t = u;
    s = u;
    break;
  case 1:
    t.emplace(u);
    s.emplace(u);
    break;
  case 2: {
    tiny::optional<T> x(u);
    std::optional<T> y(u);
    t = x;
    s = y;
    break;
  }
  case 3: {
    T a = t.value_or(u), b = s.value_or(u);
    CHECK(a.v == b.v, "value_or of another type");
    break;
  }
  default: {
    tiny::optional<T> x(std::in_place, u);
    std::optional<T> y(std::in_place, u);
    t = std::move(x);
    s = std::move(y);
    break;
  }
  }
  CHECK(t.has_value() == s.has_value(), "state");
  if (s)
    CHECK((*t).v == (*s).v, "value");
}
VP_HARNESS(converting)
{
  unsigned const op = vp_choose(5, "op"), st = vp_choose(2, "engaged"), kind = vp_choose(4, "kind");
  int start = static_cast<int>(vp_sym(32, "start"));
  switch (kind) {
  case 0: conv_history<Conv, int>(static_cast<int>(vp_sym(32, "i")), start, st, op); break;
  case 1: conv_history<Conv, long long>(static_cast<long long>(vp_sym(64, "l")), start, st, op); break;
  case 2: {
    Any<double> d("d");
    conv_history<Conv, double>(d.v, start, st, op);
    break;
  }
  default: conv_history<Conv, Conv>(Conv(static_cast<int>(vp_sym(32, "c"))), start, st, op); break;
  }
  vp_cover("done");
}

// A payload constructible from everything, also from optionals
struct Greedy
{
  int v;
  int how;
  Greedy() : v(0), how(0) {}
  Greedy(Greedy const & o) : v(o.v), how(o.how) {}
  Greedy & operator=(Greedy const & o)
  {
    v = o.v;
    how = o.how;
    return *this;
  }
  Greedy(int x) : v(x), how(1) {}
  template <class T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy> && !std::is_arithmetic_v<std::decay_t<T>>, int> = 0>
  Greedy(T &&) : v(-1), how(2)
  {
  }
  template <class T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, Greedy>, int> = 0>
  Greedy & operator=(T &&)
  {
    v = -2;
    how = 3;
    return *this;
  }
};
template <template <class> class Opt>
static void greedy(unsigned op, unsigned st, int x, bool & has, int & v, int & how)
{
  using O = Opt<Greedy>;
  O a;
  if (st)
    a.emplace(x);
  auto put = [&](O const & o) {
    has = o.has_value();
    v = has ? (*o).v : 0;
    how = has ? (*o).how : 0;
  };
  switch (op) {
  case 0: {
    O b(a);
    put(b);
    break;
  }
  case 1: {
    O b(static_cast<O const &>(a));
    put(b);
    break;
  }
  case 2: {
    O b(std::move(a));
    put(b);
    break;
  }
  case 3: {
    O b;
    b = a;
    put(b);
    break;
  }
  case 4: {
    O b(std::in_place, 3);
    b = std::move(a);
    put(b);
    break;
  }
  case 5: {
    O b(std::nullopt);
    put(b);
    break;
  }
  case 6: {
    O b(std::in_place, 3);
    b = std::nullopt;
    put(b);
    break;
  }
  case 7: {
    O b = a;
    b = {};
    put(b);
    break;
  }
  default: {
    O b(std::in_place);
    put(b);
    break;
  }
  }
}
template <class T>
using TinyOpt = tiny::optional<T>;
template <class T>
using StdOpt = std::optional<T>;
VP_HARNESS(greedy)
{
  unsigned const op = vp_choose(9, "op"), st = vp_choose(2, "engaged");
  int x = static_cast<int>(vp_sym(32, "x"));
  bool h1 = false, h2 = false;
  int v1 = 0, v2 = 0, w1 = 0, w2 = 0;
  greedy<TinyOpt>(op, st, x, h1, v1, w1);
  greedy<StdOpt>(op, st, x, h2, v2, w2);
  CHECK(h1 == h2, "state");
  CHECK(v1 == v2 && w1 == w2, "constructed the same way");
  vp_cover("done");
}

// --- nested optionals --------------------------------------------------------------------------------------------
// Outer<Inner<V>>; the three states: empty, engaged with an empty inner, engaged with a value.
template <class O, class I, class SO, class SI, class V>
static void same_nested(O const & o, SO const & s)
{
  CHECK(o.has_value() == s.has_value(), "outer state");
  if (s.has_value() && o.has_value()) {
    CHECK((*o).has_value() == (*s).has_value(), "inner state");
    if ((*s).has_value() && (*o).has_value())
      CHECK(same_bits<V>(**o, **s), "inner value");
  }
}
template <class O, class I, class V, class Okf>
static void nested(Okf ok)
{
  using SI = std::optional<V>;
  using SO = std::optional<SI>;
  unsigned op[2] = {vp_choose(15, "op"), vp_choose(15, "op")};
  unsigned const ia = vp_choose(3, "state a"), ib = vp_choose(3, "state b");
  Any<V> va("va"), vb("vb"), v("v");
  vp_assume(ok(va.v) && ok(vb.v) && ok(v.v));
  Arena<O> A("memA"), B("memB");
  O &a = A.make(), &b = B.make();
  SO sa, sb;
  if (ia) {
    a.emplace();
    sa.emplace();
  }
  if (ia == 2) {
    (*a) = va.v;
    (*sa) = va.v;
  }
  if (ib) {
    b.emplace();
    sb.emplace();
  }
  if (ib == 2) {
    b->emplace(vb.v);
    sb->emplace(vb.v);
  }
  same_nested<O, I, SO, SI, V>(a, sa);
  same_nested<O, I, SO, SI, V>(b, sb);
  for (unsigned i = 0; i < 2; ++i) {
    switch (op[i]) {
    case 0:
      a = I();
      sa = SI();
      break;
    case 1:
      a = I(v.v);
      sa = SI(v.v);
      break;
    case 2:
      a = b;
      sa = sb;
      break;
    case 3:
      a = std::move(b);
      sa = std::move(sb);
      break;
    case 4:
      a = std::nullopt;
      sa = std::nullopt;
      break;
    case 5:
      a.emplace();
      sa.emplace();
      break;
    case 6:
      a.emplace(v.v);
      sa.emplace(v.v);
      break;
    case 7:
      a.emplace(std::nullopt);
      sa.emplace(std::nullopt);
      break;
    case 8:
      if (sa) {
        a->reset();
        sa->reset();
      }
      break;
    case 9:
      if (sa) {
        *a = v.v;
        *sa = v.v;
      }
      break;
    case 10:
      a.swap(b);
      sa.swap(sb);
      break;
    case 11:
      a.reset();
      sa.reset();
      break;
    case 12: {
      I x(v.v);
      SI y(v.v);
      a = x;
      sa = y;
      break;
    }
    case 13: {
      I x;
      SI y;
      O c(std::in_place, x);
      SO d(std::in_place, y);
      a = c;
      sa = d;
      break;
    }
    default:
      b = a;
      sb = sa;
      break;
    }
    same_nested<O, I, SO, SI, V>(a, sa);
    same_nested<O, I, SO, SI, V>(b, sb);
  }
  CHECK(A.guards_intact() && B.guards_intact(), "neighbours");
  A.destroy();
  B.destroy();
  vp_cover("done");
}
VP_HARNESS(nested_int) { nested<tiny::optional<tiny::optional<int>>, tiny::optional<int>, int>(Ok{}); }
VP_HARNESS(nested_bool) { nested<tiny::optional<tiny::optional<bool>>, tiny::optional<bool>, bool>(Ok{}); }
VP_HARNESS(nested_sent)
{
  nested<tiny::optional<tiny::optional<int, kReserved>>, tiny::optional<int, kReserved>, int>(Not<int>{kReserved});
}
VP_HARNESS(nested_std_tiny) { nested<std::optional<tiny::optional<double>>, tiny::optional<double>, double>(Ok{}); }
VP_HARNESS(nested_tiny_std) { nested<tiny::optional<std::optional<double>>, std::optional<double>, double>(Ok{}); }

// --- payloads with heap resources -------------------------------------------------------------------------------
VP_HARNESS(unique_ptr)
{
  using O = tiny::optional<std::unique_ptr<int>>;
  unsigned const op = vp_choose(8, "op"), st = vp_choose(3, "state");
  int x = static_cast<int>(vp_sym(32, "x")), y = static_cast<int>(vp_sym(32, "y"));
  Arena<O> A("mem");
  O & a = A.make();
  if (st)
    a = std::make_unique<int>(x);
  if (st == 2)
    a.reset();
  bool const eng = st == 1;
  switch (op) {
  case 0:
    a.emplace(new int(y));
    CHECK(a.has_value() && **a == y, "emplace");
    break;
  case 1:
    a = std::make_unique<int>(y);
    CHECK(a.has_value() && **a == y, "assign");
    break;
  case 2: {
    O b(std::move(a));
    CHECK(b.has_value() == eng && a.has_value() == eng, "move");
    if (eng)
      CHECK(**b == x && !*a, "moved");
    break;
  }
  case 3: {
    O b(std::make_unique<int>(y));
    a.swap(b);
    CHECK(a.has_value() && **a == y && b.has_value() == eng, "swap");
    if (eng)
      CHECK(**b == x, "swapped");
    break;
  }
  case 4: {
    O b;
    b = std::move(a);
    CHECK(b.has_value() == eng && a.has_value() == eng, "move assign");
    break;
  }
  case 5: {
    auto p = std::move(a).value_or(std::make_unique<int>(y));
    CHECK(*p == (eng ? x : y), "value_or");
    break;
  }
  case 6: a = std::nullopt; break;
  default: break;
  }
  A.destroy();
  vp_cover("done");
}
